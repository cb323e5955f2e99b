//! Independent reference implementation of the parts of ISO/IEC 18004 the properties speak about.
//! Nothing here is taken from bardecoder.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lv { L, M, Q, H }
pub const LV: [Lv; 4] = [Lv::L, Lv::M, Lv::Q, Lv::H];

impl Lv {
    pub fn idx(self) -> usize { match self { Lv::L => 0, Lv::M => 1, Lv::Q => 2, Lv::H => 3 } }
    /// the two level bits of the format information
    pub fn bits(self) -> u32 { match self { Lv::L => 1, Lv::M => 0, Lv::Q => 3, Lv::H => 2 } }
}

// check codewords per block and number of blocks, ISO 18004 table 9
#[rustfmt::skip]
const ECC: [[usize; 40]; 4] = [
    [7,10,15,20,26,18,20,24,30,18,20,24,26,30,22,24,28,30,28,28,28,28,30,30,26,28,30,30,30,30,30,30,30,30,30,30,30,30,30,30],
    [10,16,26,18,24,16,18,22,22,26,30,22,22,24,24,28,28,26,26,26,26,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28],
    [13,22,18,26,18,24,18,22,20,24,28,26,24,20,30,24,28,28,26,30,28,30,30,30,30,28,30,30,30,30,30,30,30,30,30,30,30,30,30,30],
    [17,28,22,16,22,28,26,26,24,28,24,28,22,24,24,30,28,28,26,28,30,24,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30],
];
#[rustfmt::skip]
const NBLK: [[usize; 40]; 4] = [
    [1,1,1,1,1,2,2,2,2,4,4,4,4,4,6,6,6,6,7,8,8,9,9,10,12,12,12,13,14,15,16,17,18,19,19,20,21,22,24,25],
    [1,1,1,2,2,4,4,4,5,5,5,8,9,9,10,10,11,13,14,16,17,17,18,20,21,23,25,26,28,29,31,33,35,37,38,40,43,45,47,49],
    [1,1,2,2,4,4,6,6,8,8,8,10,12,16,12,17,16,18,21,20,23,23,25,27,29,34,34,35,38,40,43,45,48,51,53,56,59,62,65,68],
    [1,1,2,4,4,4,5,6,8,8,11,11,16,16,18,16,19,21,25,25,25,34,30,32,35,37,40,42,45,48,51,54,57,60,63,66,70,74,77,81],
];

pub fn side(v: usize) -> usize { 4 * v + 17 }

pub fn alignment(v: usize) -> Vec<usize> {
    if v == 1 { return vec![]; }
    let n = v / 7 + 2;
    let step = if v == 32 { 26 } else { (v * 4 + n * 2 + 1) / (n * 2 - 2) * 2 };
    let mut r: Vec<usize> = (0..n - 1).map(|i| side(v) - 7 - i * step).collect();
    r.push(6);
    r.reverse();
    r
}

pub fn raw_modules(v: usize) -> usize {
    let s = side(v);
    let f = function_map(v);
    (0..s * s).filter(|&i| !f[i]).count()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Blk { pub total: usize, pub data: usize, pub cap: usize }

pub fn cap(v: usize, l: Lv) -> usize {
    let e = ECC[l.idx()][v - 1];
    // misdecode protection codewords p
    let p = match (v, l) { (1, Lv::L) => 3, (1, Lv::M) => 2, (1, _) => 1, (2, Lv::L) => 2, (3, Lv::L) => 1, _ => 0 };
    (e - p) / 2
}

pub fn block_list(v: usize, l: Lv) -> Vec<Blk> {
    let total = raw_modules(v) / 8;
    let n = NBLK[l.idx()][v - 1];
    let e = ECC[l.idx()][v - 1];
    let short = total / n;
    let nlong = total % n;
    (0..n).map(|i| {
        let t = short + usize::from(i >= n - nlong);
        Blk { total: t, data: t - e, cap: cap(v, l) }
    }).collect()
}

pub fn data_cap(v: usize, l: Lv) -> usize { block_list(v, l).iter().map(|b| b.data).sum() }

/// true where a module belongs to a function pattern or format/version information; index y*side+x
pub fn function_map(v: usize) -> Vec<bool> {
    let s = side(v) as i64;
    let mut m = vec![false; (s * s) as usize];
    {
        let mut set = |x: i64, y: i64| if x >= 0 && y >= 0 && x < s && y < s { m[(y * s + x) as usize] = true };
        for i in 0..s { set(6, i); set(i, 6); }
        for &(cx, cy) in &[(3, 3), (s - 4, 3), (3, s - 4)] {
            for dx in -4..=4 { for dy in -4..=4 { set(cx + dx, cy + dy); } }
        }
        let al = alignment(v);
        let n = al.len();
        for i in 0..n { for j in 0..n {
            if (i == 0 && j == 0) || (i == 0 && j == n - 1) || (i == n - 1 && j == 0) { continue; }
            for dx in -2..=2 { for dy in -2..=2 { set(al[i] as i64 + dx, al[j] as i64 + dy); } }
        } }
        for i in 0..9 { set(8, i); set(i, 8); }
        for i in 0..8 { set(s - 1 - i, 8); set(8, s - 1 - i); }
        if v >= 7 {
            for i in 0..6 { for j in 0..3 { set(s - 11 + j, i); set(i, s - 11 + j); } }
        }
    }
    m
}

/// data modules in reading order as (x, y)
pub fn data_order(v: usize) -> Vec<(usize, usize)> {
    let s = side(v);
    let f = function_map(v);
    let mut r = vec![];
    let mut right = s as i64 - 1;
    let mut up = true;
    while right >= 1 {
        if right == 6 { right = 5; }
        for k in 0..s {
            let y = if up { s - 1 - k } else { k };
            for c in 0..2 {
                let x = (right - c) as usize;
                if !f[y * s + x] { r.push((x, y)); }
            }
        }
        up = !up;
        right -= 2;
    }
    r
}

/// mask condition, j = row, i = column as in the standard
pub fn mask_bit(m: u32, x: usize, y: usize) -> bool {
    let (i, j) = (y, x); // i: row, j: column
    match m {
        0 => (i + j) % 2 == 0,
        1 => i % 2 == 0,
        2 => j % 3 == 0,
        3 => (i + j) % 3 == 0,
        4 => (i / 2 + j / 3) % 2 == 0,
        5 => (i * j) % 2 + (i * j) % 3 == 0,
        6 => ((i * j) % 2 + (i * j) % 3) % 2 == 0,
        _ => ((i + j) % 2 + (i * j) % 3) % 2 == 0,
    }
}

pub fn format_word(l: Lv, m: u32) -> u32 {
    let d = l.bits() << 3 | m;
    let mut r = d;
    for _ in 0..10 { r = (r << 1) ^ ((r >> 9) * 0x537); }
    (d << 10 | (r & 0x3ff)) ^ 0x5412
}

/// positions of bit 14 .. bit 0 (most significant first)
pub fn format_pos(v: usize) -> [[(usize, usize); 15]; 2] {
    let s = side(v);
    let mut a = [(0, 0); 15];
    for i in 0..6 { a[i] = (i, 8); }
    a[6] = (7, 8); a[7] = (8, 8); a[8] = (8, 7);
    for i in 9..15 { a[i] = (8, 14 - i); }
    let mut b = [(0, 0); 15];
    for i in 0..7 { b[i] = (8, s - 1 - i); }
    for i in 7..15 { b[i] = (s - 15 + i, 8); }
    [a, b]
}

pub fn format_decode(w: u32) -> Option<(Lv, u32)> {
    for l in LV { for m in 0..8 {
        if (format_word(l, m) ^ w).count_ones() <= 3 { return Some((l, m)); }
    } }
    None
}

// ---------------- GF(256), 0x11d
pub fn gmul(a: u8, b: u8) -> u8 {
    let (mut a, mut b, mut r) = (a as u32, b as u32, 0u32);
    while b > 0 { if b & 1 == 1 { r ^= a; } a <<= 1; if a > 255 { a ^= 0x11d; } b >>= 1; }
    r as u8
}
pub fn gpow(a: u8, mut n: usize) -> u8 { let mut r = 1; let mut b = a; while n > 0 { if n & 1 == 1 { r = gmul(r, b); } b = gmul(b, b); n >>= 1; } r }
pub fn ginv(a: u8) -> u8 { gpow(a, 254) }

pub fn rs_generator(e: usize) -> Vec<u8> {
    // coefficients, highest power first, leading 1
    let mut g = vec![1u8];
    for i in 0..e {
        let r = gpow(2, i);
        let mut n = vec![0u8; g.len() + 1];
        for (k, &c) in g.iter().enumerate() { n[k] ^= c; n[k + 1] ^= gmul(c, r); }
        g = n;
    }
    g
}

/// append e check codewords
pub fn rs_encode(data: &[u8], e: usize) -> Vec<u8> {
    let g = rs_generator(e);
    let mut rem = vec![0u8; e];
    for &d in data {
        let f = d ^ rem[0];
        rem.remove(0);
        rem.push(0);
        for k in 0..e { rem[k] ^= gmul(g[k + 1], f); }
    }
    let mut r = data.to_vec();
    r.extend(rem);
    r
}

pub fn rs_syndromes(w: &[u8], e: usize) -> Vec<u8> {
    (0..e).map(|i| { let x = gpow(2, i); w.iter().fold(0u8, |a, &c| gmul(a, x) ^ c) }).collect()
}

/// bounded distance decoding with capacity cap: the codeword within cap changes of w, if there is one
pub fn rs_decode(w: &[u8], e: usize, cap: usize) -> Option<Vec<u8>> {
    let s = rs_syndromes(w, e);
    if s.iter().all(|&x| x == 0) { return Some(w.to_vec()); }
    // Berlekamp-Massey
    let mut c = vec![1u8];
    let mut b = vec![1u8];
    let (mut l, mut m, mut bb) = (0usize, 1usize, 1u8);
    for n in 0..e {
        let mut d = s[n];
        for i in 1..=l { if i < c.len() { d ^= gmul(c[i], s[n - i]); } }
        if d == 0 { m += 1; continue; }
        let t = c.clone();
        let f = gmul(d, ginv(bb));
        if c.len() < b.len() + m { c.resize(b.len() + m, 0); }
        for i in 0..b.len() { c[i + m] ^= gmul(f, b[i]); }
        if 2 * l <= n { l = n + 1 - l; b = t; bb = d; m = 1; } else { m += 1; }
    }
    while c.last() == Some(&0) { c.pop(); }
    if c.len() != l + 1 || l > cap { return None; }
    let n = w.len();
    let mut pos = vec![];
    for i in 0..n {
        let xi = ginv(gpow(2, i));
        let v = c.iter().rev().fold(0u8, |a, &k| gmul(a, xi) ^ k);
        if v == 0 { pos.push(i); }
    }
    if pos.len() != l { return None; }
    // solve the Vandermonde system by Gauss-Jordan on l equations
    let mut a: Vec<Vec<u8>> = (0..l).map(|r| { let mut q: Vec<u8> = pos.iter().map(|&p| gpow(gpow(2, p), r)).collect(); q.push(s[r]); q }).collect();
    for k in 0..l {
        let p = (k..l).find(|&r| a[r][k] != 0)?;
        a.swap(k, p);
        let iv = ginv(a[k][k]);
        for x in a[k].iter_mut() { *x = gmul(*x, iv); }
        for r in 0..l { if r != k && a[r][k] != 0 { let f = a[r][k]; for q in 0..=l { let t = gmul(f, a[k][q]); a[r][q] ^= t; } } }
    }
    let mut out = w.to_vec();
    for (k, &p) in pos.iter().enumerate() { out[n - 1 - p] ^= a[k][l]; }
    if rs_syndromes(&out, e).iter().any(|&x| x != 0) { return None; }
    Some(out)
}

// ---------------- symbol construction
pub struct Geo { pub v: usize, pub side: usize, pub order: Vec<(usize, usize)>, pub func: Vec<bool> }
impl Geo { pub fn new(v: usize) -> Geo { Geo { v, side: side(v), order: data_order(v), func: function_map(v) } } }

/// interleaved codeword sequence -> index (block, position in block)
pub fn interleave(bl: &[Blk]) -> Vec<(usize, usize)> {
    let mut r = vec![];
    let maxd = bl.iter().map(|b| b.data).max().unwrap();
    for k in 0..maxd { for (i, b) in bl.iter().enumerate() { if k < b.data { r.push((i, k)); } } }
    let e = bl[0].total - bl[0].data;
    for k in 0..e { for (i, b) in bl.iter().enumerate() { r.push((i, b.data + k)); } }
    r
}

pub fn encode_blocks(data: &[u8], v: usize, l: Lv) -> Vec<Vec<u8>> {
    let bl = block_list(v, l);
    let mut k = 0;
    bl.iter().map(|b| { let r = rs_encode(&data[k..k + b.data], b.total - b.data); k += b.data; r }).collect()
}

/// modules (true = dark), function modules taken from `fill`
pub fn place(g: &Geo, l: Lv, m: u32, blocks: &[Vec<u8>], fmt: [u32; 2], fill: &mut dyn FnMut() -> bool) -> Vec<bool> {
    let s = g.side;
    let mut r: Vec<bool> = (0..s * s).map(|_| fill()).collect();
    let bl = block_list(g.v, l);
    let il = interleave(&bl);
    for (k, &(x, y)) in g.order.iter().enumerate() {
        let bit = if k / 8 < il.len() { let (b, p) = il[k / 8]; blocks[b][p] >> (7 - k % 8) & 1 == 1 } else { fill() };
        r[y * s + x] = bit ^ mask_bit(m, x, y);
    }
    let fp = format_pos(g.v);
    for c in 0..2 { for i in 0..15 { let (x, y) = fp[c][i]; r[y * s + x] = fmt[c] >> (14 - i) & 1 == 1; } }
    r
}

/// the real function patterns (finders, separators, timing, alignment, version information, dark module)
pub fn draw_patterns(g: &Geo, m: &mut [bool]) {
    let s = g.side as i64;
    let mut set = |x: i64, y: i64, b: bool| if x >= 0 && y >= 0 && x < s && y < s { m[(y * s + x) as usize] = b };
    for i in 0..s { if i >= 8 && i < s - 8 { set(6, i, i % 2 == 0); set(i, 6, i % 2 == 0); } }
    for &(cx, cy) in &[(3, 3), (s - 4, 3), (3, s - 4)] {
        for dx in -4i64..=4 { for dy in -4i64..=4 { let d = dx.abs().max(dy.abs()); set(cx + dx, cy + dy, d != 2 && d != 4); } }
    }
    let al = alignment(g.v);
    let n = al.len();
    for i in 0..n { for j in 0..n {
        if (i == 0 && j == 0) || (i == 0 && j == n - 1) || (i == n - 1 && j == 0) { continue; }
        for dx in -2i64..=2 { for dy in -2i64..=2 { set(al[i] as i64 + dx, al[j] as i64 + dy, dx.abs().max(dy.abs()) != 1); } }
    } }
    set(8, s - 8, true);
    if g.v >= 7 {
        let mut r = g.v as u32;
        for _ in 0..12 { r = (r << 1) ^ ((r >> 11) * 0x1f25); }
        let w = (g.v as u32) << 12 | r;
        for i in 0..18 { let b = w >> i & 1 == 1; let a = s - 11 + i % 3; let c = i / 3; set(a, c, b); set(c, a, b); }
    }
}

// ---------------- payload
#[derive(Clone, Debug)]
pub enum Seg { Num(String), Alnum(String), Byte(Vec<u8>) }
pub const AN: &[u8; 45] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";

#[derive(Default, Clone)]
pub struct Bits(pub Vec<bool>);
impl Bits {
    pub fn push(&mut self, v: u32, n: usize) { for i in (0..n).rev() { self.0.push(v >> i & 1 == 1); } }
    pub fn bytes(&self) -> Vec<u8> { self.0.chunks(8).map(|c| { let mut b = 0u8; for i in 0..8 { b = b << 1 | u8::from(*c.get(i).unwrap_or(&false)); } b }).collect() }
}

pub fn len_bits(mode: u32, v: usize) -> usize {
    let k = if v <= 9 { 0 } else if v <= 26 { 1 } else { 2 };
    match mode { 1 => [10, 12, 14][k], 2 => [9, 11, 13][k], _ => [8, 16, 16][k] }
}

pub fn seg_bits(b: &mut Bits, s: &Seg, v: usize) {
    match s {
        Seg::Num(t) => {
            b.push(1, 4); b.push(t.len() as u32, len_bits(1, v));
            for c in t.as_bytes().chunks(3) { let n: u32 = std::str::from_utf8(c).unwrap().parse().unwrap(); b.push(n, [0, 4, 7, 10][c.len()]); }
        }
        Seg::Alnum(t) => {
            b.push(2, 4); b.push(t.len() as u32, len_bits(2, v));
            let p = |c: u8| AN.iter().position(|&q| q == c).unwrap() as u32;
            for c in t.as_bytes().chunks(2) { if c.len() == 2 { b.push(p(c[0]) * 45 + p(c[1]), 11) } else { b.push(p(c[0]), 6) } }
        }
        Seg::Byte(t) => { b.push(4, 4); b.push(t.len() as u32, len_bits(4, v)); for &c in t { b.push(c as u32, 8); } }
    }
}

pub fn byte_text(t: &[u8]) -> Option<String> {
    if t.contains(&0xc3) { std::str::from_utf8(t).ok().map(String::from) } else { Some(t.iter().map(|&c| char::from_u32(c as u32).unwrap()).collect()) }
}

/// text of a payload or None if malformed
pub fn parse(data: &[u8], v: usize) -> Option<String> {
    let total = data.len() * 8;
    let mut pos = 0usize;
    let mut out = String::new();
    fn get(data: &[u8], pos: &mut usize, n: usize, total: usize) -> Option<u32> {
        if *pos + n > total { return None; }
        let mut r = 0;
        for k in *pos..*pos + n { r = r << 1 | (data[k / 8] >> (7 - k % 8) & 1) as u32; }
        *pos += n;
        Some(r)
    }
    while pos + 4 <= total {
        match get(data, &mut pos, 4, total)? {
            0 => break,
            1 => {
                let mut n = get(data, &mut pos, len_bits(1, v), total)?;
                while n > 0 {
                    let k = n.min(3) as usize;
                    let d = get(data, &mut pos, [0, 4, 7, 10][k], total)?;
                    let s = d.to_string();
                    if s.len() > k { return None; }
                    for _ in s.len()..k { out.push('0'); }
                    out.push_str(&s);
                    n -= k as u32;
                }
            }
            2 => {
                let mut n = get(data, &mut pos, len_bits(2, v), total)?;
                while n > 0 {
                    if n >= 2 {
                        let d = get(data, &mut pos, 11, total)? as usize;
                        out.push(*AN.get(d / 45)? as char);
                        out.push(AN[d % 45] as char);
                        n -= 2;
                    } else {
                        let d = get(data, &mut pos, 6, total)? as usize;
                        out.push(*AN.get(d)? as char);
                        n -= 1;
                    }
                }
            }
            4 => {
                let n = get(data, &mut pos, len_bits(4, v), total)?;
                let mut t = vec![];
                for _ in 0..n { t.push(get(data, &mut pos, 8, total)? as u8); }
                out.push_str(&byte_text(&t)?);
            }
            _ => return None,
        }
    }
    Some(out)
}

// ---------------- whole symbol
#[derive(Debug, Clone, PartialEq)]
pub struct Info { pub v: usize, pub l: Lv, pub total: u32, pub errors: u32 }
#[derive(Debug, Clone, PartialEq)]
pub enum Fail { Format, Block, Payload }

/// modules: true = dark
pub fn read_format(v: usize, m: &[bool]) -> Option<(Lv, u32)> {
    let s = side(v);
    for c in format_pos(v) {
        let w = c.iter().fold(0u32, |a, &(x, y)| a << 1 | u32::from(m[y * s + x]));
        if let Some(r) = format_decode(w) { return Some(r); }
    }
    None
}

pub fn decode(g: &Geo, m: &[bool]) -> Result<(String, Info), Fail> {
    let (l, k) = read_format(g.v, m).ok_or(Fail::Format)?;
    let bl = block_list(g.v, l);
    let mut blocks: Vec<Vec<u8>> = bl.iter().map(|b| vec![0; b.total]).collect();
    let il = interleave(&bl);
    for (q, &(x, y)) in g.order.iter().enumerate() {
        if q / 8 >= il.len() { break; }
        let (b, p) = il[q / 8];
        blocks[b][p] = blocks[b][p] << 1 | u8::from(m[y * g.side + x] ^ mask_bit(k, x, y));
    }
    let mut data = vec![];
    let mut errors = 0;
    for (w, b) in blocks.iter().zip(&bl) {
        let c = rs_decode(w, b.total - b.data, b.cap).ok_or(Fail::Block)?;
        errors += w.iter().zip(&c).map(|(a, b)| (a ^ b).count_ones()).sum::<u32>();
        data.extend_from_slice(&c[..b.data]);
    }
    let t = parse(&data, g.v).ok_or(Fail::Payload)?;
    Ok((t, Info { v: g.v, l, total: data.len() as u32 * 8, errors }))
}

pub fn self_test() {
    // spot values of ISO 18004: total codewords and data codewords
    for (v, t) in [(1, 26), (2, 44), (6, 172), (7, 196), (13, 532), (14, 581), (21, 1156), (27, 1828), (28, 1921), (32, 2465), (34, 2761), (35, 2876), (40, 3706)] {
        assert_eq!(raw_modules(v) / 8, t);
    }
    for v in 1..=40 { assert!(raw_modules(v) % 8 == [0,0,7,7,7,7,7,0,0,0,0,0,0,0,3,3,3,3,3,3,3,4,4,4,4,4,4,4,3,3,3,3,3,3,3,0,0,0,0,0,0][v]); }
    assert_eq!(data_cap(40, Lv::L), 2956);
    assert_eq!(data_cap(40, Lv::H), 1276);
    assert_eq!(data_cap(7, Lv::H), 66);
    assert_eq!(data_cap(22, Lv::M), 782);
    assert_eq!(alignment(36), vec![6, 24, 50, 76, 102, 128, 154]);
    assert_eq!(alignment(32), vec![6, 34, 60, 86, 112, 138]);
    assert_eq!(format_word(Lv::M, 5), 0b100000011001110);
}
