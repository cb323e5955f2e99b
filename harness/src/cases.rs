use crate::iso::{self, Bits, Geo, Lv, Seg, LV};
use crate::rng::Rng;
use bardecoder::decode::{Decode, QRDecoder, QRDecoderWithInfo};
use bardecoder::util::qr::{ECLevel, QRData, QRError, QRInfo};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::collections::HashMap;

mod image_cases;

pub const HANG: u64 = 60;

thread_local! {
    static DESCRIBE: Cell<bool> = Cell::new(false);
    static GEO: RefCell<HashMap<usize, Rc<Geo>>> = RefCell::new(HashMap::new());
}

pub fn describing() -> bool { DESCRIBE.with(|d| d.get()) }
static NOTES: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub fn note(s: String) { let mut n = NOTES.lock().unwrap(); n.push_str(&s); n.push('\n'); }
/// describe the concrete input just before it is given to the code under test
macro_rules! input { ($($t:tt)*) => { if crate::cases::describing() { crate::cases::note(format!($($t)*)); } } }
pub(crate) use input;

/// the input of a case, as far as it was noted within the given time: the case may not return
pub fn describe(prop: &str, seed: u64, idx: u64, wait: std::time::Duration) -> String {
    NOTES.lock().unwrap().clear();
    let p = prop.to_string();
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        DESCRIBE.with(|d| d.set(true));
        let _ = std::panic::catch_unwind(move || { let _ = run(&p, seed, idx); });
    }).unwrap();
    let t = std::time::Instant::now();
    while !h.is_finished() && t.elapsed() < wait { std::thread::sleep(std::time::Duration::from_millis(10)); }
    let mut s = NOTES.lock().unwrap().clone();
    let mut end = s.len().min(400_000);
    while !s.is_char_boundary(end) { end -= 1; }
    s.truncate(end);
    s
}

pub fn geo(v: usize) -> Rc<Geo> {
    GEO.with(|g| g.borrow_mut().entry(v).or_insert_with(|| Rc::new(Geo::new(v))).clone())
}

pub fn fixed(prop: &str) -> u64 {
    match prop {
        "C01" => 160 * 4, "C02" => 160 * 3, "C03" => 2 * 32768, "C04" => 160 + 262, "C05" => 1280 + 160, "C06" => 6 * 60, "C07" => C07_FIXED,
        "C08" => 4000, "C09" => 140, "C10" => 400, "C11" => 200, "C12" => 1500, "C13" => 200, "C14" => 200, "C18" => 300, "C19" => 200, "C15" => 320, "C16" => 80,
        _ => 0,
    }
}

/// the answer of this build for a case of C18
pub fn answer18(seed: u64, idx: u64) -> String {
    let mut r = Rng::new(seed ^ "C18".bytes().fold(0, |a, b| a * 131 + b as u64), idx);
    image_cases::answer18(&mut r, idx, idx < fixed("C18"))
}

pub fn run(prop: &str, seed: u64, idx: u64) -> Result<(), String> {
    let mut r = Rng::new(seed ^ prop.bytes().fold(0, |a, b| a * 131 + b as u64), idx);
    let fx = idx < fixed(prop);
    match prop {
        "C01" => c01(&mut r, idx, fx), "C02" => c02(&mut r, idx, fx), "C03" => c03(&mut r, idx, fx), "C04" => c04(&mut r, idx, fx),
        "C05" => c05(&mut r, idx, fx), "C06" => c06(&mut r, idx, fx), "C07" => c07(&mut r, idx, fx), "C08" => c08(&mut r, idx, fx),
        "C09" => c09(&mut r, idx, fx), "C10" => c10(&mut r, idx, fx), "C15" => c15(&mut r, idx, fx), "C16" => c16(&mut r, idx, fx),
        "C11" => image_cases::c11(&mut r, idx, fx), "C12" => image_cases::c12(&mut r, idx, fx), "C13" => image_cases::c13(&mut r, idx, fx), "C14" => image_cases::c14(&mut r, idx, fx),
        "C19" => image_cases::c19(&mut r, idx, fx),
        "C18" => image_cases::c18(&mut r, seed, idx, fx),
        _ => Err(format!("unknown property {}", prop)),
    }
}

// ------------------------------------------------------------------ helpers
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn rows(side: usize, m: &[bool]) -> String { (0..side).map(|y| (0..side).map(|x| if m[y * side + x] { '1' } else { '0' }).collect::<String>()).collect::<Vec<_>>().join("\n") }

pub fn qr(v: usize, m: &[bool]) -> QRData { QRData::new(m.iter().map(|&b| if b { 0 } else { 255 }).collect(), v as u32) }

fn plain(v: usize, m: &[bool]) -> Result<String, QRError> { QRDecoder::new().decode(Ok(qr(v, m))) }
fn info(v: usize, m: &[bool]) -> Result<(String, QRInfo), QRError> { QRDecoderWithInfo::new().decode(Ok(qr(v, m))) }

fn lv(e: &ECLevel) -> Lv { match e { ECLevel::LOW => Lv::L, ECLevel::MEDIUM => Lv::M, ECLevel::QUARTILE => Lv::Q, ECLevel::HIGH => Lv::H } }

fn inp(what: &str, v: usize, m: &[bool]) { input!("{}; version {} matrix (1 = dark), rows top to bottom:\n{}", what, v, rows((m.len() as f64).sqrt() as usize, m)); }

/// both decoders must give this text
fn expect_ok(what: &str, v: usize, m: &[bool], text: &str, l: Lv, errors: Option<u32>) -> Result<(), String> {
    inp(what, v, m);
    match plain(v, m) { Ok(t) if t == text => {}, o => return Err(format!("{}: QRDecoder gave {:.300?}, expected Ok({:.200?})", what, o, text)) }
    match info(v, m) {
        Ok((t, i)) => {
            if t != text { return Err(format!("{}: QRDecoderWithInfo gave text {:.200?}, expected {:.200?}", what, t, text)); }
            if lv(&i.ec_level) != l || i.version != v as u32 || i.total_data != 8 * iso::data_cap(v, l) as u32 { return Err(format!("{}: wrong info {:?}, expected version {} level {:?} total {}", what, i, v, l, 8 * iso::data_cap(v, l))); }
            if let Some(e) = errors { if i.errors != e { return Err(format!("{}: {} errors reported, expected {}", what, i.errors, e)); } }
        }
        o => return Err(format!("{}: QRDecoderWithInfo gave {:.300?}, expected Ok({:.200?})", what, o.map(|_| ()), text)),
    }
    Ok(())
}

fn expect_err(what: &str, v: usize, m: &[bool]) -> Result<(), String> {
    inp(what, v, m);
    if let Ok(t) = plain(v, m) { return Err(format!("{}: QRDecoder gave Ok({:.200?}), expected an error", what, t)); }
    if let Ok(t) = info(v, m) { return Err(format!("{}: QRDecoderWithInfo gave Ok({:.200?}), expected an error", what, t.0)); }
    Ok(())
}

/// byte segment that fills the symbol completely, without 0xC3; returns data codewords and text
fn full_bytes(r: &mut Rng, v: usize, l: Lv) -> (Vec<u8>, String) {
    let cap = iso::data_cap(v, l);
    let lb = iso::len_bits(4, v);
    let n = (cap * 8 - 4 - lb) / 8;
    let t: Vec<u8> = (0..n).map(|_| { let mut b = r.byte(); if b == 0xc3 { b = 0x41; } b }).collect();
    let mut b = Bits::default();
    iso::seg_bits(&mut b, &Seg::Byte(t.clone()), v);
    let mut d = b.bytes();
    d.truncate(cap);
    while d.len() < cap { d.push(0); }
    (d, iso::byte_text(&t).unwrap())
}

fn build(r: &mut Rng, v: usize, l: Lv, m: u32, blocks: &[Vec<u8>], fmt: [u32; 2]) -> Vec<bool> {
    let g = geo(v);
    iso::place(&g, l, m, blocks, fmt, &mut || r.bit())
}

fn pick_v(r: &mut Rng) -> usize { match r.below(10) { 0..=3 => r.range(1, 6), 4..=7 => r.range(1, 20), _ => r.range(1, 40) } }

/// error values for e positions (as exponents) of one block, in several deliberately nasty shapes
fn error_values(r: &mut Rng, exps: &[usize], kind: usize) -> Vec<u8> {
    let x: Vec<u8> = exps.iter().map(|&p| iso::gpow(2, p)).collect();
    let n = x.len();
    match kind % 7 {
        0 | 5 => (0..n).map(|_| r.nz()).collect(),
        1 => { let c = r.nz(); vec![c; n] }
        2 | 3 => {
            // one chosen syndrome vanishes
            let k = if kind % 7 == 2 { 0 } else { r.below(2 * n + 1) };
            for _ in 0..50 {
                let mut y: Vec<u8> = (0..n).map(|_| r.nz()).collect();
                if n < 2 { return y; }
                let s = (0..n - 1).fold(0u8, |a, i| a ^ iso::gmul(y[i], iso::gpow(x[i], k)));
                y[n - 1] = iso::gmul(s, iso::ginv(iso::gpow(x[n - 1], k)));
                if y[n - 1] != 0 { return y; }
            }
            (0..n).map(|_| r.nz()).collect()
        }
        4 => {
            // the first n-1 syndromes vanish
            let c = r.nz();
            (0..n).map(|i| { let p = (0..n).filter(|&j| j != i).fold(1u8, |a, j| iso::gmul(a, x[i] ^ x[j])); iso::gmul(c, iso::ginv(p)) }).collect()
        }
        _ => (0..n).map(|_| 1u8 << r.below(8)).collect(),
    }
}

fn positions(r: &mut Rng, n: usize, e: usize, lo: usize) -> Vec<usize> {
    match r.below(6) {
        0 => { let s = lo + r.below(n - lo - e + 1); (s..s + e).collect() }
        1 => (n - e..n).collect(),
        2 => (lo..lo + e).collect(),
        _ => r.choose(n - lo, e).into_iter().map(|p| p + lo).collect(),
    }
}

/// damage e codewords of the block (never before position lo); returns the number of flipped bits
fn damage(r: &mut Rng, b: &mut [u8], e: usize, lo: usize, kind: usize) -> u32 {
    let n = b.len();
    let e = e.min(n - lo);
    let pos = positions(r, n, e, lo);
    let ex: Vec<usize> = pos.iter().map(|&p| n - 1 - p).collect();
    let y = error_values(r, &ex, kind);
    let mut bits = 0;
    for (p, v) in pos.iter().zip(&y) { b[*p] ^= v; bits += v.count_ones(); }
    bits
}

// ------------------------------------------------------------------ properties
fn c01(r: &mut Rng, idx: u64, fx: bool) -> Result<(), String> {
    let (v, l) = if fx { ((idx % 160 / 4 + 1) as usize, LV[(idx % 4) as usize]) } else { (pick_v(r), LV[r.below(4)]) };
    let m = r.below(8) as u32;
    let (d, text) = full_bytes(r, v, l);
    let mut bl = iso::encode_blocks(&d, v, l);
    let c = iso::cap(v, l);
    let mut bits = 0;
    let style = if fx { idx / 160 } else { r.below(4) as u64 };
    for b in bl.iter_mut() {
        let e = match style { 0 => c, 1 => r.range(0, c), 2 => [1, 2, 3, c][r.below(4)].min(c), _ => if r.chance(1, 3) { 0 } else { r.range(1, c) } };
        if e > 0 { let k = r.below(7); bits += damage(r, b, e, 0, k); }
    }
    let f = iso::format_word(l, m);
    let mx = build(r, v, l, m, &bl, [f, f]);
    expect_ok(&format!("C01 version {} level {:?}, at most {} damaged codewords per block", v, l, c), v, &mx, &text, l, Some(bits))
}

fn c02(r: &mut Rng, idx: u64, fx: bool) -> Result<(), String> {
    let (v, l) = if fx { ((idx % 160 / 4 + 1) as usize, LV[(idx % 4) as usize]) } else if r.chance(1, 2) { (r.range(1, 4), LV[r.below(4)]) } else { (pick_v(r), LV[r.below(4)]) };
    let m = r.below(8) as u32;
    let (d, _) = full_bytes(r, v, l);
    let mut bl = iso::encode_blocks(&d, v, l);
    let info_ = iso::block_list(v, l);
    let c = iso::cap(v, l);
    let which = r.below(bl.len());
    let lo = if which == 0 { 3.min(info_[0].data) } else { 0 };
    let ecc = info_[0].total - info_[0].data;
    let b = &mut bl[which];
    let style = if fx { idx / 160 } else { r.below(7) as u64 };
    match style {
        0 => { damage(r, b, c + 1, lo, 0); }
        1 => { let e = r.range(c + 1, ecc + 3); damage(r, b, e, lo, 4); }
        2 => { let e = r.range(c + 1, ecc + 3); let k = r.below(7); damage(r, b, e, lo, k); }
        3 => { for x in b.iter_mut().skip(lo) { *x = r.byte(); } }
        4 => {
            // a codeword of the weaker code with only 2*cap check symbols (different where p > 0), plus a few errors
            let n = b.len();
            let w = iso::rs_encode(&b[..n - 2 * c], 2 * c);
            b.copy_from_slice(&w);
            if r.bit() { let e = r.range(1, c); damage(r, b, e, lo, 0); }
        }
        5 => { let e = r.range(1, c); let k = r.below(7); damage(r, b, e, 0, k); }
        _ => { let e = [2, 3, 4, c + 1, c + 2][r.below(5)]; damage(r, b, e, lo, 2); }
    }
    let f = iso::format_word(l, m);
    let mx = build(r, v, l, m, &bl, [f, f]);
    let what = format!("C02 version {} level {:?} (capacity {}), block {} as read {}", v, l, c, which, hex(&bl[which]));
    inp(&what, v, &mx);
    let want = iso::decode(&geo(v), &mx);
    for (who, got) in [("QRDecoder", plain(v, &mx).map(|t| (t, None))), ("QRDecoderWithInfo", info(v, &mx).map(|(t, i)| (t, Some(i.errors))))] {
        match (&got, &want) {
            (Ok((t, _)), Err(_)) => return Err(format!("{}: {} gave Ok({:.100?}) although a block is not within the capacity of any codeword", what, who, t)),
            (Ok((t, e)), Ok((tw, iw))) => if t != tw || e.map_or(false, |e| e != iw.errors) { return Err(format!("{}: {} corrected to another word: text {:.100?} errors {:?}, expected {:.100?} {}", what, who, t, e, tw, iw.errors)); },
            _ => {}
        }
    }
    Ok(())
}

thread_local! { static FMT_SYMBOLS: RefCell<Vec<(Lv, u32, Vec<bool>, String)>> = RefCell::new(vec![]); }

fn c03(r: &mut Rng, idx: u64, fx: bool) -> Result<(), String> {
    // version 1 symbols for all 32 formats, built once per thread (same for every case)
    FMT_SYMBOLS.with(|s| if s.borrow().is_empty() {
        let mut rr = Rng::new(77, 77);
        for l in LV { for m in 0..8 {
            let (d, t) = full_bytes(&mut rr, 1, l);
            let bl = iso::encode_blocks(&d, 1, l);
            let mx = build(&mut rr, 1, l, m, &bl, [0, 0]);
            s.borrow_mut().push((l, m, mx, t));
        } }
    });
    let mut v = 1;
    let bad = |r: &mut Rng| loop { let w = r.below(32768) as u32; if iso::format_decode(w).is_none() { return w; } };
    let near = |r: &mut Rng| { let mut w = iso::format_word(LV[r.below(4)], r.below(8) as u32); let e = r.below(4); for p in r.choose(15, e) { w ^= 1 << p; } w };
    let (w1, w2) = if fx {
        let w = (idx % 32768) as u32;
        if idx < 32768 { (w, if r.bit() { near(r) } else { bad(r) }) } else { (bad(r), w) }
    } else {
        v = r.range(1, 40);
        (if r.bit() { near(r) } else { r.below(32768) as u32 }, if r.bit() { near(r) } else { r.below(32768) as u32 })
    };
    let want = iso::format_decode(w1).or_else(|| iso::format_decode(w2));
    let what = format!("C03 version {} format copies {:015b} {:015b} (most significant bit first)", v, w1, w2);
    let set = |mx: &mut Vec<bool>| { let s = iso::side(v); for (c, w) in [w1, w2].iter().enumerate() { for (i, &(x, y)) in iso::format_pos(v)[c].iter().enumerate() { mx[y * s + x] = w >> (14 - i) & 1 == 1; } } };
    if v != 1 {
        // other sizes: level and mask in effect, or a guess
        let (l, m) = want.unwrap_or((LV[r.below(4)], r.below(8) as u32));
        let (d, t) = full_bytes(r, v, l);
        let bl = iso::encode_blocks(&d, v, l);
        let mut mx = build(r, v, l, m, &bl, [w1, w2]);
        set(&mut mx);
        return if want.is_some() { expect_ok(&what, v, &mx, &t, l, Some(0)) } else { expect_err(&what, v, &mx) };
    }
    FMT_SYMBOLS.with(|s| {
        for (l, m, mx, t) in s.borrow().iter() {
            let mut mx = mx.clone();
            match want {
                Some((wl, wm)) => if wl == *l && wm == *m { set(&mut mx); expect_ok(&what, 1, &mx, t, *l, Some(0))?; },
                None => { set(&mut mx); inp(&what, 1, &mx); if let Ok(t) = plain(1, &mx) { return Err(format!("{}: decoded to {:.60?} although neither copy is within three bits of a valid word", what, t)); } }
            }
        }
        Ok(())
    })
}

fn c04(r: &mut Rng, idx: u64, fx: bool) -> Result<(), String> {
    if fx && idx >= 160 {
        let k = (idx - 160) as usize;
        let v = if k == 0 { 0 } else if k <= 255 { 40 + k } else { [257, 258, 296, 297, 512 + 1, 300][k - 256] };
        for l in LV {
            let s = iso::side(v);
            let mut mx: Vec<bool> = (0..s * s).map(|_| r.bit()).collect();
            let f = iso::format_word(l, r.below(8) as u32);
            if s >= 21 { for c in iso::format_pos(v) { for (i, &(x, y)) in c.iter().enumerate() { mx[y * s + x] = f >> (14 - i) & 1 == 1; } } }
            expect_err(&format!("C04 version {} level {:?}", v, l), v, &mx)?;
            if !fx { break; }
        }
        return Ok(());
    }
    let (v, l) = if fx { ((idx / 4 + 1) as usize, LV[(idx % 4) as usize]) } else { (r.range(1, 40), LV[r.below(4)]) };
    let m = r.below(8) as u32;
    let f = iso::format_word(l, m);
    let (d, text) = full_bytes(r, v, l);
    let c = iso::cap(v, l);
    let bl = iso::encode_blocks(&d, v, l);
    let mx = build(r, v, l, m, &bl, [f, f]);
    expect_ok(&format!("C04 version {} level {:?} undamaged", v, l), v, &mx, &text, l, Some(0))?;
    let mut b2 = bl.clone();
    let mut bits = 0;
    for b in b2.iter_mut() { bits += damage(r, b, c, 0, 0); }
    let mx = build(r, v, l, m, &b2, [f, f]);
    expect_ok(&format!("C04 version {} level {:?}, {} damaged codewords in every block", v, l, c), v, &mx, &text, l, Some(bits))?;
    // one more than specified in one block (first, last, random)
    for q in [0, bl.len() - 1, r.below(bl.len())] {
        let mut b2 = bl.clone();
        damage(r, &mut b2[q], c + 1, if q == 0 { 3 } else { 0 }, 0);
        let mx = build(r, v, l, m, &b2, [f, f]);
        if iso::decode(&geo(v), &mx).is_err() { expect_err(&format!("C04 version {} level {:?}, {} damaged codewords in block {}", v, l, c + 1, q), v, &mx)?; }
    }
    Ok(())
}

fn c05(r: &mut Rng, idx: u64, fx: bool) -> Result<(), String> {
    let (v, l, m) = if fx && idx < 1280 { ((idx / 32 + 1) as usize, LV[(idx / 8 % 4) as usize], (idx % 8) as u32) }
        else if fx { (((idx - 1280) / 4 + 1) as usize, LV[(idx % 4) as usize], r.below(8) as u32) }
        else { (pick_v(r), LV[r.below(4)], r.below(8) as u32) };
    let f = iso::format_word(l, m);
    let (d, text) = full_bytes(r, v, l);
    let bl = iso::encode_blocks(&d, v, l);
    let g = geo(v);
    let s = g.side;
    // every module that carries no codeword bit is arbitrary
    let mut mx = build(r, v, l, m, &bl, [f, f]);
    let w = format!("C05 version {} level {:?} mask {}", v, l, m);
    expect_ok(&w, v, &mx, &text, l, Some(0))?;
    // a single wrong codeword bit is seen as one error; no other module matters
    let p = g.order[r.below(iso::raw_modules(v) / 8 * 8)];
    mx[p.1 * s + p.0] ^= true;
    expect_ok(&format!("{} with codeword module ({},{}) inverted", w, p.0, p.1), v, &mx, &text, l, Some(1))?;
    mx[p.1 * s + p.0] ^= true;
    let fp = iso::format_pos(v);
    let others: Vec<(usize, usize)> = (0..s * s).map(|i| (i % s, i / s)).filter(|q| g.func[q.1 * s + q.0] && !fp[0].contains(q) && !fp[1].contains(q)).collect();
    for _ in 0..others.len() / 2 { let q = others[r.below(others.len())]; mx[q.1 * s + q.0] ^= true; }
    expect_ok(&format!("{} with other function modules", w), v, &mx, &text, l, Some(0))
}

/// random segments that fit into `bits`; the payload text
fn random_segs(r: &mut Rng, v: usize, bits: usize, exact: bool) -> (Bits, String, Vec<Seg>) {
    let mut b = Bits::default();
    let mut text = String::new();
    let mut segs = vec![];
    let many = r.range(1, 6);
    for k in 0..many {
        let left = bits - b.0.len();
        let mode = [1u32, 2, 4][r.below(3)];
        let head = 4 + iso::len_bits(mode, v);
        if left < head { break; }
        let room = left - head;
        let maxn = match mode { 1 => { let mut n = room / 10 * 3; if room % 10 >= 7 { n += 2 } else if room % 10 >= 4 { n += 1 } n }, 2 => room / 11 * 2 + usize::from(room % 11 >= 6), _ => room / 8 };
        let maxn = maxn.min((1 << iso::len_bits(mode, v)) - 1);
        let n = if exact && k == many - 1 { maxn } else { match r.below(5) { 0 => r.range(0, maxn.min(4)), 1 => maxn, 2 => r.range(0, maxn), _ => r.range(0, maxn.min(40)) } };
        let s = match mode {
            1 => Seg::Num((0..n).map(|_| if r.chance(1, 3) { '0' } else { (b'0' + r.below(10) as u8) as char }).collect()),
            2 => Seg::Alnum((0..n).map(|_| iso::AN[r.below(45)] as char).collect()),
            _ => {
                if r.bit() { Seg::Byte((0..n).map(|_| { let x = if r.chance(1, 3) { r.byte() } else { 0x20 + r.below(95) as u8 }; if x == 0xc3 { 0xc2 } else { x } }).collect()) }
                else {
                    let mut t: Vec<u8> = vec![];
                    while t.len() < n {
                        let c = match r.below(8) { 0 => char::from_u32(0xc0 + r.below(64) as u32).unwrap(), 1 => char::from_u32(0x400 + r.below(200) as u32).unwrap(), 2 => char::from_u32(0x3000 + r.below(900) as u32).unwrap(), 3 => char::from_u32(0x1f600 + r.below(60) as u32).unwrap(), _ => (0x20 + r.below(95) as u8) as char };
                        let mut u = [0; 4];
                        let e = c.encode_utf8(&mut u).as_bytes();
                        if t.len() + e.len() > n { t.push(b'.'); } else { t.extend_from_slice(e); }
                    }
                    Seg::Byte(t)
                }
            }
        };
        let add = match &s { Seg::Num(t) | Seg::Alnum(t) => t.clone(), Seg::Byte(t) => match iso::byte_text(t) { Some(t) => t, None => continue } };
        iso::seg_bits(&mut b, &s, v);
        text.push_str(&add);
        segs.push(s);
    }
    (b, text, segs)
}

/// terminator if there is room, then arbitrary bits, to the number of data codewords
fn finish(r: &mut Rng, mut b: Bits, cap: usize) -> Vec<u8> {
    let bits = cap * 8;
    let left = bits - b.0.len();
    if left >= 4 { b.push(0, 4); while b.0.len() < bits { let x = r.bit(); b.0.push(x); } }
    else { let ones = r.bit(); while b.0.len() < bits { b.0.push(ones); } }
    b.bytes()
}

fn symbol(r: &mut Rng, v: usize, l: Lv, data: &[u8]) -> Vec<bool> {
    let m = r.below(8) as u32;
    let f = iso::format_word(l, m);
    let bl = iso::encode_blocks(data, v, l);
    build(r, v, l, m, &bl, [f, f])
}

fn c06(r: &mut Rng, idx: u64, fx: bool) -> Result<(), String> {
    if fx {
        // one segment of every kind with 0..=19 characters followed by a second one, around the version boundaries
        let v = [1, 9, 10, 26, 27, 40][(idx / 60) as usize];
        let n = (idx % 20) as usize;
        let l = if v == 1 { Lv::L } else { LV[r.below(4)] };
        let cap = iso::data_cap(v, l);
        let mk = |r: &mut Rng, k: u64, n: usize| match k { 0 => Seg::Num((0..n).map(|i| if i % 3 == 0 { '0' } else { (b'0' + r.below(10) as u8) as char }).collect()), 1 => Seg::Alnum((0..n).map(|_| iso::AN[r.below(45)] as char).collect()), _ => Seg::Byte((0..n).map(|_| 0x80 + r.below(0x40) as u8).collect()) };
        let s = mk(r, idx % 60 / 20, n);
        let mut b = Bits::default();
        iso::seg_bits(&mut b, &s, v);
        let mut t = match &s { Seg::Num(t) | Seg::Alnum(t) => t.clone(), Seg::Byte(t) => iso::byte_text(t).unwrap() };
        if b.0.len() > cap * 8 { return Ok(()); }
        let s2 = mk(r, idx % 3, 2);
        let mut b2 = b.clone();
        iso::seg_bits(&mut b2, &s2, v);
        if b2.0.len() <= cap * 8 { b = b2; t.push_str(&match &s2 { Seg::Num(t) | Seg::Alnum(t) => t.clone(), Seg::Byte(t) => iso::byte_text(t).unwrap() }); }
        let d = finish(r, b, cap);
        let mx = symbol(r, v, l, &d);
        return expect_ok(&format!("C06 version {} level {:?} segments {:?} {:?} payload {}", v, l, s, s2, hex(&d)), v, &mx, &t, l, Some(0));
    }
    let v = match r.below(4) { 0 => r.range(1, 9), 1 => r.range(10, 26), 2 => r.range(27, 40), _ => r.range(1, 6) };
    let l = LV[r.below(4)];
    let cap = iso::data_cap(v, l);
    let exact = r.bit();
    let (b, text, segs) = random_segs(r, v, cap * 8, exact);
    let d = finish(r, b, cap);
    let mx = symbol(r, v, l, &d);
    expect_ok(&format!("C06 version {} level {:?} segments {:.300?} payload {:.400}", v, l, segs, hex(&d)), v, &mx, &text, l, Some(0))
}

const C07_FIXED: u64 = 3 * 1024 + 3 * 128 + 3 * 16 + 3 * 2048 + 3 * 64 + 3 * 16;

fn c07(r: &mut Rng, idx: u64, fx: bool) -> Result<(), String> {
    let v = if fx { [r.range(1, 9), r.range(10, 26), r.range(27, 40)][(idx % 3) as usize] } else { match r.below(4) { 0 => r.range(1, 9), 1 => r.range(10, 26), 2 => r.range(27, 40), _ => r.range(1, 6) } };
    let l = if fx { Lv::L } else { LV[r.below(4)] };
    let v = if fx { v.min(12.max(v - v % 9)).max(v.min(9)) } else { v };
    let cap = iso::data_cap(v, l);
    let mut b = Bits::default();
    let mut kind = String::new();
    if fx {
        // every value of every kind of group, at the end of a short segment
        let mut k = (idx / 3) as u32;
        for (mode, n, w) in [(1u32, 3u32, 10usize), (1, 2, 7), (1, 1, 4), (2, 2, 11), (2, 1, 6), (99, 0, 4)] {
            if k < 1 << w {
                if mode == 99 { b.push(4, 4); b.push(1, iso::len_bits(4, v)); b.push(0x41, 8); b.push(k, 4); kind = format!("mode {}", k); }
                else {
                    let extra = if r.bit() { if mode == 1 { 3 } else { 2 } } else { 0 };
                    b.push(mode, 4); b.push(n + extra, iso::len_bits(mode, v));
                    if extra > 0 { if mode == 1 { b.push(7, 10) } else { b.push(50, 11) } }
                    b.push(k, w);
                    kind = format!("mode {} last group of {} with value {}", mode, n, k);
                }
                break;
            }
            k -= 1 << w;
        }
        b.push(0, 4);
    } else {
        match r.below(6) {
            0 => { kind = "random bits".into(); while b.0.len() < cap * 8 { let x = r.bit(); b.0.push(x); } }
            1 => {
                kind = "segments, then too long a segment".into();
                let (q, _, _) = random_segs(r, v, cap * 8, false);
                b = q;
                let mode = [1u32, 2, 4][r.below(3)];
                if b.0.len() + 4 <= cap * 8 {
                    b.push(mode, 4);
                    let left = (cap * 8 - b.0.len()).saturating_sub(iso::len_bits(mode, v));
                    let most = (1usize << iso::len_bits(mode, v)) - 1;
                    let fit = match mode { 1 => left / 10 * 3 + [0, 0, 0, 0, 1, 1, 1, 2, 2, 2][left % 10], 2 => left / 11 * 2 + usize::from(left % 11 >= 6), _ => left / 8 };
                    let n = match r.below(4) { 0 => fit + 1, 1 => fit + 2, 2 => r.range(fit, most.max(fit)), _ => most };
                    b.push(n.min(most) as u32, iso::len_bits(mode, v));
                    // small valid groups up to the end
                    while b.0.len() < cap * 8 { let x = r.chance(1, 5); b.0.push(x); }
                }
            }
            2 => {
                kind = "byte segment with 0xC3".into();
                let left = cap * 8 - 4 - iso::len_bits(4, v);
                let n = r.range(1, (left / 8).min(40));
                let mut t: Vec<u8> = (0..n).map(|_| match r.below(6) { 0 => 0xc3, 1 => 0x80 + r.below(64) as u8, 2 => r.byte(), _ => 0x41 }).collect();
                if r.bit() { t[n - 1] = 0xc3; }
                iso::seg_bits(&mut b, &Seg::Byte(t), v);
            }
            3 => { kind = "cut off".into(); let (q, _, _) = random_segs(r, v, cap * 8 * 2, true); b = q; }
            4 => { kind = "segments with flipped bits".into(); let (q, _, _) = random_segs(r, v, cap * 8, true); b = q; for _ in 0..r.range(1, 3) { if !b.0.is_empty() { let p = r.below(b.0.len()); b.0[p] ^= true; } } }
            _ => { kind = "segments and an odd mode".into(); let (q, _, _) = random_segs(r, v, cap * 8, false); b = q; let k = r.below(16) as u32; if b.0.len() + 4 <= cap * 8 { b.push(k, 4); } while b.0.len() < cap * 8 { let x = r.bit(); b.0.push(x); } }
        }
    }
    b.0.truncate(cap * 8);
    let d = if b.0.len() + 4 <= cap * 8 { finish(r, b, cap) } else { let mut d = b.bytes(); d.resize(cap, 0); d };
    let mx = symbol(r, v, l, &d);
    let what = format!("C07 version {} level {:?} ({}) payload {:.600}", v, l, kind, hex(&d));
    match iso::parse(&d, v) { Some(t) => expect_ok(&what, v, &mx, &t, l, Some(0)), None => expect_err(&what, v, &mx) }
}

fn c08(r: &mut Rng, idx: u64, fx: bool) -> Result<(), String> {
    use bardecoder::util::Chomp;
    let n = if fx { (idx % 4) as usize } else { r.below(9) };
    let bytes: Vec<u8> = (0..n).map(|_| match r.below(4) { 0 => 0, 1 => 255, _ => r.byte() }).collect();
    let steps = if fx { 12 } else { r.range(1, 40) };
    let ops: Vec<(u8, u8)> = (0..steps).map(|_| {
        let kind = if fx && idx < 2000 { 0 } else { r.below(4) as u8 };
        let w = match r.below(10) { 0 => r.byte(), 1 => [0, 8, 9, 16, 17, 24, 255][r.below(7)], 2 | 3 => r.range(0, 20) as u8, _ => r.range(1, 8) as u8 };
        (kind, w)
    }).collect();
    let bit = |k: usize| bytes[k / 8] >> (7 - k % 8) & 1;
    let val = |p: usize, w: usize| (p..p + w).fold(0u32, |a, k| a << 1 | bit(k) as u32);
    input!("C08 bytes {:?}, reads (kind 0/1: chomp, 2: chomp_or, 3: chomp_or_u16; width): {:?}", bytes, ops);
    let mut c = Chomp::new(bytes.clone());
    // possible read positions: a refused wide read may have consumed whole bytes
    let mut at: Vec<usize> = vec![0];
    for (k, &(kind, w)) in ops.iter().enumerate() {
        let wide = kind == 3;
        let got: Option<u32> = match kind {
            2 => match c.chomp_or(w, k) { Ok(b) => Some(b as u32), Err(e) => { if e != k { return Err("C08 chomp_or returned another error than the one provided".into()); } None } },
            3 => match c.chomp_or_u16(w, k) { Ok(b) => Some(b as u32), Err(e) => { if e != k { return Err("C08 chomp_or_u16 returned another error than the one provided".into()); } None } },
            _ => c.chomp(w).map(|b| b as u32),
        };
        let w = w as usize;
        let max = if wide { 16 } else { 8 };
        let mut next = vec![];
        for &p in &at {
            let left = n * 8 - p;
            if w >= 1 && w <= max && w <= left { if got == Some(val(p, w)) { next.push(p + w); } }
            else if got.is_none() { next.push(p); if wide && w > 8 && w <= 16 && left >= 8 { next.push(p + 8); } }
        }
        if next.is_empty() { return Err(format!("C08 bytes {:?}: read {} of {:?} gave {:?}, possible positions {:?} of {}", bytes, k, &ops[..=k], got, at, n * 8)); }
        next.sort(); next.dedup();
        at = next;
    }
    Ok(())
}

fn any_matrix(r: &mut Rng, v: usize) -> Vec<bool> {
    let s = iso::side(v);
    let mut m: Vec<bool> = match r.below(5) { 0 => vec![false; s * s], 1 => vec![true; s * s], 2 => (0..s * s).map(|i| (i % s + i / s) % 2 == 0).collect(), _ => (0..s * s).map(|_| r.bit()).collect() };
    if r.chance(3, 4) && s >= 17 {
        let f = iso::format_word(LV[r.below(4)], r.below(8) as u32);
        for c in iso::format_pos(v) { for (i, &(x, y)) in c.iter().enumerate() { m[y * s + x] = f >> (14 - i) & 1 == 1; } }
    }
    m
}

fn c09(r: &mut Rng, idx: u64, fx: bool) -> Result<(), String> {
    let v = if fx { (idx % 70) as usize } else { match r.below(6) { 0 => r.range(0, 60), 1 => r.range(1, 40), _ => r.range(1, 8) } };
    let m = if !fx && v >= 1 && v <= 40 && r.chance(1, 2) {
        // any payload at all
        let l = LV[r.below(4)];
        let cap = iso::data_cap(v, l);
        let mut d: Vec<u8> = (0..cap).map(|_| r.byte()).collect();
        match r.below(4) { 0 => d[0] = d[0] & 15 | 0x10, 1 => d[0] = d[0] & 15 | 0x20, 2 => d[0] = d[0] & 15 | 0x40, _ => {} }
        let mut bl = iso::encode_blocks(&d, v, l);
        let c = iso::cap(v, l);
        if r.bit() { for b in bl.iter_mut() { if r.chance(1, 3) { let e = r.range(0, c + 2); let k = r.below(7); damage(r, b, e, 0, k); } } }
        let mk = r.below(8) as u32;
        let f = iso::format_word(l, mk);
        build(r, v, l, mk, &bl, [f, f])
    } else { any_matrix(r, v) };
    inp("C09", v, &m);
    let a = plain(v, &m);
    let b = info(v, &m);
    if !(1..=40).contains(&v) && (a.is_ok() || b.is_ok()) { return Err(format!("C09 version {} decoded", v)); }
    Ok(())
}

fn c10(r: &mut Rng, idx: u64, fx: bool) -> Result<(), String> {
    let v = if fx { (idx / 10 + 1) as usize } else { pick_v(r) };
    let l = LV[r.below(4)];
    let mk = r.below(8) as u32;
    let cap = iso::data_cap(v, l);
    let m = if r.chance(1, 12) { any_matrix(r, v) } else {
        let d = match r.below(4) { 0 => (0..cap).map(|_| r.byte()).collect(), 1 => { let (b, _, _) = random_segs(r, v, cap * 8, true); let mut q = b; if !q.0.is_empty() { let p = r.below(q.0.len()); q.0[p] ^= true; } finish(r, q, cap) }, _ => full_bytes(r, v, l).0 };
        let mut bl = iso::encode_blocks(&d, v, l);
        let c = iso::cap(v, l);
        let over = r.chance(1, 6);
        if !r.chance(1, 5) { for b in bl.iter_mut() { let e = r.range(0, if over { c + 1 } else { c }); let k = r.below(7); if e > 0 { damage(r, b, e, 0, k); } } }
        let mut f = [iso::format_word(l, mk); 2];
        for w in f.iter_mut() { let e = r.below(5); for p in r.choose(15, e) { *w ^= 1 << p; } }
        build(r, v, l, mk, &bl, f)
    };
    inp("C10", v, &m);
    let a = plain(v, &m);
    let b = info(v, &m);
    match (&a, &b) {
        (Ok(t), Ok((u, i))) => {
            if t != u { return Err(format!("C10 texts differ: {:.100?} {:.100?}", t, u)); }
            if i.version != v as u32 { return Err(format!("C10 version {} reported as {}", v, i.version)); }
            match iso::read_format(v, &m) {
                Some((l, _)) => {
                    if lv(&i.ec_level) != l { return Err(format!("C10 level {:?} reported as {:?}", l, i.ec_level)); }
                    if i.total_data as usize != 8 * iso::data_cap(v, l) { return Err(format!("C10 total {} reported, expected {}", i.total_data, 8 * iso::data_cap(v, l))); }
                }
                None => {}
            }
            if let Ok((_, w)) = iso::decode(&geo(v), &m) { if w.errors != i.errors { return Err(format!("C10 {} wrong bits reported, correction changed {}", i.errors, w.errors)); } }
            Ok(())
        }
        (Err(e), Err(f)) => if e == f { Ok(()) } else { Err(format!("C10 different errors {:?} {:?}", e, f)) },
        _ => Err(format!("C10 QRDecoder gave {:.200?}, QRDecoderWithInfo {:.200?}", a, b)),
    }
}

fn c15(r: &mut Rng, idx: u64, fx: bool) -> Result<(), String> {
    let (v, l) = if fx { ((idx / 8 + 1) as usize, LV[(idx % 4) as usize]) } else { (pick_v(r), LV[r.below(4)]) };
    let mk = r.below(8) as u32;
    let cap = iso::data_cap(v, l);
    let exact = r.bit();
    let (b, text, segs) = random_segs(r, v, cap * 8, exact);
    // the standard's padding
    let mut b = b;
    let left = cap * 8 - b.0.len();
    b.push(0, left.min(4));
    while b.0.len() % 8 != 0 { b.0.push(false); }
    let mut d = b.bytes();
    let mut p = 0xec;
    while d.len() < cap { d.push(p); p ^= 0xec ^ 0x11; }
    let mut bl = iso::encode_blocks(&d, v, l);
    let c = iso::cap(v, l);
    let hurt = if fx { idx % 8 >= 4 } else { r.chance(2, 3) };
    let mut bits = 0;
    let mut f = [iso::format_word(l, mk); 2];
    if hurt {
        for q in bl.iter_mut() { let e = if r.bit() { c } else { r.range(0, c) }; let k = r.below(7); if e > 0 { bits += damage(r, q, e, 0, k); } }
        let e = r.range(0, 3);
        for p in r.choose(15, e) { f[0] ^= 1 << p; }
    }
    let g = geo(v);
    let mut m = iso::place(&g, l, mk, &bl, f, &mut || false);
    let fmt: Vec<((usize, usize), bool)> = iso::format_pos(v).iter().flatten().map(|&(x, y)| ((x, y), m[y * g.side + x])).collect();
    iso::draw_patterns(&g, &mut m);
    for ((x, y), q) in fmt { m[y * g.side + x] = q; }
    expect_ok(&format!("C15 version {} level {:?} mask {} damaged {} segments {:.300?}", v, l, mk, hurt, segs), v, &m, &text, l, Some(bits))
}

fn c16(r: &mut Rng, idx: u64, fx: bool) -> Result<(), String> {
    let v = if fx { (idx % 80) as usize } else { r.range(0, 150) };
    let s = 4 * v + 17;
    let data: Vec<u8> = (0..s * s).map(|_| match r.below(4) { 0 | 1 => 0, 2 => 255, _ => r.byte() }).collect();
    input!("C16 version {} data {}", v, hex(&data));
    let q = QRData::new(data.clone(), v as u32);
    if q.version != v as u32 || q.side != s as u32 || q.data != data { return Err(format!("C16 version {}: QRData::new gave version {} side {}", v, q.version, q.side)); }
    for y in 0..s { for x in 0..s {
        let want = u8::from(data[y * s + x] == 0);
        if q[[x as u32, y as u32]] != want { return Err(format!("C16 version {}: module ({},{}) with pixel {} gives {}", v, x, y, data[y * s + x], q[[x as u32, y as u32]])); }
    } }
    Ok(())
}
