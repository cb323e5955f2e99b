use super::{describing, input, note};
use crate::iso;
use crate::rng::Rng;
use bardecoder::decode::{Decode, QRDecoder, QRDecoderWithInfo};
use bardecoder::detect::{Detect, LineScan, Location};
use bardecoder::extract::{Extract, QRExtractor};
use bardecoder::prepare::{BlockedMean, Prepare};
use bardecoder::util::qr::{QRData, QRError, QRLocation};
use bardecoder::util::Point;
use bardecoder::DecoderBuilder;
use image::{DynamicImage, GrayImage, Luma, Rgba, RgbaImage};
use std::sync::{Arc, Mutex};

fn show(w: u32, h: u32, raw: &[u8]) { if describing() { note(format!("image {}x{}, grey values row by row: {}", w, h, raw.iter().map(|b| format!("{:02x}", b)).collect::<String>())); } }

// ------------------------------------------------------------------ C11: components that record what they are given
struct Prep(Arc<Mutex<Vec<String>>>);
impl Prepare<u64, u64> for Prep { fn prepare(&self, s: &u64) -> u64 { self.0.lock().unwrap().push(format!("prepare {}", s)); s.wrapping_mul(31) ^ 5 } }
struct Det(Arc<Mutex<Vec<String>>>, Vec<(f64, u32)>);
impl Detect<u64> for Det {
    fn detect(&self, p: &u64) -> Vec<Location> {
        self.0.lock().unwrap().push(format!("detect {}", p));
        let z = Point { x: 0.0, y: 0.0 };
        self.1.iter().map(|l| Location::QR(QRLocation { top_left: z, top_right: z, bottom_left: z, module_size: l.0, version: l.1 })).collect()
    }
}
struct Ext(Arc<Mutex<Vec<String>>>);
fn ext(p: u64, loc: &QRLocation) -> Result<(Vec<u8>, u32), QRError> {
    let k = loc.module_size as u64;
    if k % 3 == 1 { Err(QRError { msg: format!("extract {} {}", p, k) }) } else { Ok((vec![k as u8; 4], loc.version)) }
}
impl Extract<u64, QRLocation, QRData, QRError> for Ext {
    fn extract(&self, p: &u64, loc: QRLocation) -> Result<QRData, QRError> {
        self.0.lock().unwrap().push(format!("extract {} {}", p, loc.module_size));
        ext(*p, &loc).map(|(d, v)| QRData::new(d, v))
    }
}
struct Dec(Arc<Mutex<Vec<String>>>);
fn dec(d: Result<(Vec<u8>, u32), QRError>) -> Result<String, QRError> {
    match d { Ok((d, v)) => if d[0] % 2 == 0 { Ok(format!("{:?} {}", d, v)) } else { Err(QRError { msg: format!("decode {:?}", d) }) }, Err(e) => if e.msg.len() % 2 == 0 { Ok(format!("recovered {}", e.msg)) } else { Err(e) } }
}
impl Decode<QRData, String, QRError> for Dec {
    fn decode(&self, d: Result<QRData, QRError>) -> Result<String, QRError> { self.0.lock().unwrap().push("decode".into()); dec(d.map(|d| (d.data, d.version))) }
}

pub fn c11(r: &mut Rng, idx: u64, fx: bool) -> Result<(), String> {
    let n = if fx { (idx % 12) as usize } else { r.below(40) };
    // equal locations are wanted too
    let locs: Vec<(f64, u32)> = (0..n).map(|_| (r.below(if idx % 2 == 0 { 7 } else { 200 }) as f64, r.range(1, 50) as u32)).collect();
    let src = r.u64();
    input!("C11 source {}, locations (module size, version): {:?}", src, locs);
    let log = Arc::new(Mutex::new(vec![]));
    let mut b = DecoderBuilder::new();
    b.prepare(Box::new(Prep(log.clone())));
    b.detect(Box::new(Det(log.clone(), locs.clone())));
    b.qr(Box::new(Ext(log.clone())), Box::new(Dec(log.clone())));
    let d = b.build();
    for round in 0..2 {
        let got = d.decode(&src);
        let p = src.wrapping_mul(31) ^ 5;
        let z = Point { x: 0.0, y: 0.0 };
        let want: Vec<Result<String, QRError>> = locs.iter().map(|l| dec(ext(p, &QRLocation { top_left: z, top_right: z, bottom_left: z, module_size: l.0, version: l.1 }))).collect();
        if got.len() != want.len() { return Err(format!("C11 {} entries for {} locations {:?} (call {})", got.len(), want.len(), locs, round)); }
        for (k, (g, w)) in got.iter().zip(&want).enumerate() {
            let same = match (g, w) { (Ok(a), Ok(b)) => a == b, (Err(a), Err(b)) => a.downcast_ref::<QRError>() == Some(b), _ => false };
            if !same { return Err(format!("C11 entry {} is {:?}, expected {:?} (locations {:?}, call {})", k, g, w, locs, round)); }
        }
    }
    // an error from extraction comes back unchanged
    let e = QRError { msg: format!("some error {}", r.u64()) };
    if QRDecoder::new().decode(Err(e.clone())) != Err(e.clone()) { return Err("C11 QRDecoder changed an extraction error".into()); }
    match QRDecoderWithInfo::new().decode(Err(e.clone())) { Err(f) if f == e => {} , o => return Err(format!("C11 QRDecoderWithInfo changed an extraction error to {:?}", o.err())) }
    // the default components: as many results as locations
    if idx % 40 == 0 {
        let img = random_scene(r);
        let rgba = DynamicImage::ImageLuma8(img);
        let prep: GrayImage = BlockedMean::new(5, 7).prepare(&rgba);
        let locs = LineScan::new().detect(&prep);
        let n = locs.len();
        let one = bardecoder::default_decoder().decode(&rgba);
        let two = bardecoder::default_decoder_with_info().decode(&rgba);
        show(prep.width(), prep.height(), rgba.to_luma8().as_raw());
        if one.len() != n || two.len() != n { return Err(format!("C11 default decoder gave {} and {} entries for {} locations", one.len(), two.len(), n)); }
        for (k, Location::QR(l)) in locs.into_iter().enumerate() {
            let ex = QRExtractor::new().extract(&prep, l);
            let w = QRDecoder::new().decode(ex);
            let same = match (&one[k], &w) { (Ok(a), Ok(b)) => a == b, (Err(a), Err(b)) => a.downcast_ref::<QRError>() == Some(b), _ => false };
            if !same { return Err(format!("C11 default decoder: entry {} is {:?}, expected {:?}", k, one[k], w)); }
            let same = match (&two[k], &w) { (Ok(a), Ok(b)) => a.0 == *b, (Err(a), Err(b)) => a.downcast_ref::<QRError>() == Some(b), _ => false };
            if !same { return Err(format!("C11 default decoder with info: entry {} differs from {:?}", k, w)); }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C12
pub fn c12(r: &mut Rng, idx: u64, fx: bool) -> Result<(), String> {
    let (w, h, bs, ms) = if fx && idx < 2 { let big = 4300; (big, if idx == 0 { big } else { 7 }, if idx == 0 { 4300 } else { 1 }, if idx == 0 { 1 } else { 4001 }) }
        else if fx { ((idx % 12) as u32, (idx / 12 % 12) as u32, [1, 2, 3, 5, 8][r.below(5)], [1, 2, 3, 4, 5, 7][r.below(6)]) }
        else { let m = [8, 20, 60, 150][r.below(4)]; (r.below(m) as u32, r.below(m) as u32, match r.below(4) { 0 => 5, 1 => r.range(1, 70) as u32, 2 => u32::MAX - r.below(3) as u32, _ => r.range(1, 9) as u32 }, match r.below(4) { 0 => 7, 1 => r.range(1, 60) as u32, 2 => u32::MAX / 2 + r.below(3) as u32, _ => r.range(1, 9) as u32 }) };
    let style = if fx && idx < 2 { 0 } else { r.below(7) };
    let base = r.byte();
    let img = RgbaImage::from_fn(w, h, |x, y| {
        let g = match style {
            0 => 255, 1 => 0, 2 => r.byte(), 3 => (x * 255 / w.max(1)) as u8, 4 => (y * 255 / h.max(1)) as u8,
            5 => base.saturating_add(r.below(9) as u8), _ => if (x / 3 + y / 3) % 2 == 0 { 250 } else { r.below(12) as u8 },
        };
        Rgba([g, g, g, if style == 2 { r.byte() } else { 255 }])
    });
    let src = DynamicImage::ImageRgba8(img);
    let grey = if w == 0 || h == 0 { GrayImage::new(w, h) } else { image::imageops::grayscale(&src) };
    if describing() && w as u64 * h as u64 <= 40_000 { note(format!("C12 BlockedMean::new({}, {})", bs, ms)); show(w, h, grey.as_raw()); } else { input!("C12 BlockedMean::new({}, {}) on a {}x{} image of style {}", bs, ms, w, h, style); }
    let out: GrayImage = BlockedMean::new(bs, ms).prepare(&src);
    if out.dimensions() != (w, h) { return Err(format!("C12 {}x{} became {:?}", w, h, out.dimensions())); }
    if let Some(p) = out.pixels().find(|p| p[0] != 0 && p[0] != 255) { return Err(format!("C12 a pixel came out as {}", p[0])); }
    // per block: least white grey value must exceed every black one
    let (bw, bh) = ((w as u64 / bs as u64 + 1) as usize, (h as u64 / bs as u64 + 1) as usize);
    let mut white = vec![256u32; bw * bh];
    let mut black = vec![-1i32; bw * bh];
    for (x, y, p) in out.enumerate_pixels() {
        let k = (y / bs) as usize * bw + (x / bs) as usize;
        let g = grey.get_pixel(x, y)[0];
        if p[0] == 255 { white[k] = white[k].min(g as u32) } else { black[k] = black[k].max(g as i32) }
    }
    for k in 0..bw * bh { if black[k] >= white[k] as i32 { return Err(format!("C12 BlockedMean::new({}, {}) on {}x{}: in block ({},{}) grey {} came out white but grey {} black", bs, ms, w, h, k % bw, k / bw, white[k], black[k])); } }
    Ok(())
}

// ------------------------------------------------------------------ pictures
fn finder(img: &mut GrayImage, cx: f64, cy: f64, mx: f64, my: f64, ang: f64) {
    let (w, h) = img.dimensions();
    let (s, c) = ang.sin_cos();
    let rad = 8.0 * mx.max(my);
    let (x0, x1) = ((cx - rad).max(0.0) as u32, (cx + rad).max(0.0).min(w as f64) as u32);
    let (y0, y1) = ((cy - rad).max(0.0) as u32, (cy + rad).max(0.0).min(h as f64) as u32);
    for y in y0..y1 { for x in x0..x1 {
        let (dx, dy) = (x as f64 + 0.5 - cx, y as f64 + 0.5 - cy);
        let (u, v) = ((dx * c + dy * s) / mx, (-dx * s + dy * c) / my);
        let d = u.abs().max(v.abs());
        if d < 1.5 || (d >= 2.5 && d < 3.5) { img.put_pixel(x, y, Luma([0])) } else if d < 4.5 { img.put_pixel(x, y, Luma([255])) }
    } }
}

fn draw_code(img: &mut GrayImage, r: &mut Rng, v: usize, cx: f64, cy: f64, ms: f64, ang: f64, shear: f64) -> QRLocation {
    let side = iso::side(v);
    let (w, h) = img.dimensions();
    let (s, c) = ang.sin_cos();
    let half = side as f64 / 2.0;
    let g = super::geo(v);
    let l = iso::LV[r.below(4)];
    let (d, _) = super::full_bytes(r, v, l);
    let bl = iso::encode_blocks(&d, v, l);
    let m = r.below(8) as u32;
    let f = iso::format_word(l, m);
    let mut mx = super::build(r, v, l, m, &bl, [f, f]);
    let keep: Vec<((usize, usize), bool)> = iso::format_pos(v).iter().flatten().map(|&(x, y)| ((x, y), mx[y * side + x])).collect();
    iso::draw_patterns(&g, &mut mx);
    for ((x, y), q) in keep { mx[y * side + x] = q; }
    let rad = (half + 3.0) * ms * 1.6;
    for y in (cy - rad).max(0.0) as u32..(cy + rad).max(0.0).min(h as f64) as u32 { for x in (cx - rad).max(0.0) as u32..(cx + rad).max(0.0).min(w as f64) as u32 {
        let (dx, dy) = ((x as f64 + 0.5 - cx) / ms, (y as f64 + 0.5 - cy) / ms);
        let (u, q) = (dx * c + dy * s, -dx * s + dy * c);
        let u = u + shear * q;
        let (u, q) = (u + half, q + half);
        if u > -2.0 && q > -2.0 && u < side as f64 + 2.0 && q < side as f64 + 2.0 {
            let dark = u >= 0.0 && q >= 0.0 && u < side as f64 && q < side as f64 && mx[q as usize * side + u as usize];
            img.put_pixel(x, y, Luma([if dark { 0 } else { 255 }]));
        }
    } }
    let pt = |u: f64, q: f64| { let (u, q) = (u - half, q - half); let u = u - shear * q; Point { x: cx + (u * c - q * s) * ms, y: cy + (u * s + q * c) * ms } };
    QRLocation { top_left: pt(3.5, 3.5), top_right: pt(side as f64 - 3.5, 3.5), bottom_left: pt(3.5, side as f64 - 3.5), module_size: ms, version: v as u32 }
}

/// an image with one or more codes, possibly cut off
pub fn random_scene(r: &mut Rng) -> GrayImage {
    let (w, h) = (r.range(60, 260) as u32, r.range(60, 260) as u32);
    let mut img = GrayImage::from_pixel(w, h, Luma([255]));
    for _ in 0..r.range(1, 3) {
        let v = r.range(1, 4);
        let ms = r.fr(2.0, 5.0);
        let a = [0.0, 1.5707963, 3.1415926, r.fr(0.0, 6.3)][r.below(4)];
        let (x, y) = (r.fr(0.2, 0.8) * w as f64, r.fr(0.2, 0.8) * h as f64);
        let sh = if r.bit() { 0.0 } else { r.fr(-0.1, 0.1) };
        draw_code(&mut img, r, v, x, y, ms, a, sh);
    }
    img
}

fn bw_image(r: &mut Rng) -> GrayImage {
    let m = [3, 12, 60, 200][r.below(4)];
    let (w, h) = (r.below(m) as u32 + u32::from(m > 3), r.below(m) as u32 + u32::from(m > 3));
    let p = r.range(1, 9);
    match r.below(3) { 0 => GrayImage::from_pixel(w, h, Luma([0])), 1 => GrayImage::from_pixel(w, h, Luma([255])), _ => GrayImage::from_fn(w, h, |_, _| Luma([if r.chance(p, 10) { 0 } else { 255 }])) }
}

// ------------------------------------------------------------------ C13
fn scene13(r: &mut Rng, idx: u64) -> (GrayImage, QRLocation) {
    let mut img = bw_image(r);
    let (w, h) = (img.width() as f64, img.height() as f64);
    let loc = if idx % 11 == 0 || r.chance(1, 12) {
        // nothing but the alignment pattern, of any version
        let v = if r.bit() { r.below(9) } else { [0, 1, 39, 40, 41, 42, 60][r.below(7)] };
        let (side, s) = (17 + 4 * v as i64, r.range(1, 6) as i64);
        let q = r.below(8) as i64;
        img = GrayImage::from_pixel(((side + q) * s + r.below(40) as i64) as u32, ((side + q) * s + r.below(40) as i64) as u32, Luma([255]));
        let o = q / 2;
        for dx in -2i64..=2 { for dy in -2i64..=2 { if dx.abs().max(dy.abs()) != 1 {
            for a in 0..s { for b in 0..s { img.put_pixel(((o + side - 7 + dx) * s + a) as u32, ((o + side - 7 + dy) * s + b) as u32, Luma([0])); } }
        } } }
        let (w, h) = (img.width(), img.height());
        // scratches to the borders
        if r.bit() { let y = ((o + side - 7) * s + s / 2) as u32; for x in ((o + side - 7) * s) as u32..w { img.put_pixel(x, y, Luma([0])); } }
        if r.bit() { let x = (((o + side - 7) * s - 1 + w as i64) / 2) as u32; for x in x.saturating_sub(1)..(x + 3).min(w) { for y in ((o + side - 7) * s) as u32..h { img.put_pixel(x, y, Luma([0])); } } }
        let at = |x: i64, y: i64| Point { x: (x * s) as f64 + s as f64 / 2.0 - 0.5, y: (y * s) as f64 + s as f64 / 2.0 - 0.5 };
        QRLocation { top_left: at(o + 3, o + 3), top_right: at(o + side - 4, o + 3), bottom_left: at(o + 3, o + side - 4), module_size: s as f64, version: v as u32 }
    } else if r.chance(3, 5) && idx % 5 != 0 {
        // a drawn code, mostly with its alignment pattern in reach, sometimes cut off or slightly misjudged
        let (bw, bh) = (r.range(30, 220) as u32, r.range(30, 220) as u32);
        if img.width() < 10 || r.bit() { img = GrayImage::from_pixel(bw, bh, Luma([255])); }
        let (w, h) = (img.width() as f64, img.height() as f64);
        let v = if r.chance(1, 4) { r.range(1, 12) } else { r.range(1, 4) };
        let ms = r.fr(1.0, 6.0);
        let half = iso::side(v) as f64 * ms / 2.0;
        let near = |r: &mut Rng, d: f64| match r.below(4) { 0 => half + r.fr(-6.0, 3.0) * ms, 1 => d - half + r.fr(-3.0, 6.0) * ms, 2 => r.fr(0.0, d), _ => d / 2.0 };
        let (x, y) = (near(r, w), near(r, h));
        let a = match r.below(3) { 0 => 0.0, 1 => r.fr(-0.4, 0.4), _ => r.fr(0.0, 6.3) };
        let sh = if r.bit() { 0.0 } else { r.fr(-0.3, 0.3) };
        let mut l = draw_code(&mut img, r, v, x, y, ms, a, sh);
        if r.chance(1, 4) { l.top_right.x += r.fr(-3.0, 3.0) * ms; l.bottom_left.y += r.fr(-3.0, 3.0) * ms; }
        if r.chance(1, 8) { l.version = l.version.max(2) + r.below(3) as u32 - 1; }
        l
    } else {
        let spread = [1.0, 1.5, 3.0][r.below(3)];
        let p = |r: &mut Rng| {
            let mut c = |d: f64| match r.below(40) { 0 => f64::NAN, 1 => f64::INFINITY, 2 => f64::NEG_INFINITY, 3 => 1e300, 4 => -1e300, 5 => 4294967295.0, 6 => 0.0, 7 => d, 8 => d - 1.0, 9 => -0.4, 10 => d - 0.5, _ => (r.f() - 0.5) * spread * d + d / 2.0 };
            Point { x: c(w), y: c(h) }
        };
        let (a, b, c) = (p(r), p(r), p(r));
        let (a, b, c) = if r.chance(1, 6) { (a, a, c) } else if r.chance(1, 8) { (a, b, a) } else if r.chance(1, 10) { (a, a, a) } else if r.chance(1, 3) {
            // small, nearly regular placements
            let ms = r.fr(0.05, 3.0);
            (a, Point { x: a.x + 14.0 * ms, y: a.y + r.fr(-2.0, 2.0) }, Point { x: a.x + r.fr(-2.0, 2.0), y: a.y + 14.0 * ms })
        } else { (a, b, c) };
        QRLocation { top_left: a, top_right: b, bottom_left: c, module_size: r.fr(0.5, 8.0), version: match r.below(12) { 0 => r.range(1, 60) as u32, 1 => [41, 1 << 30, u32::MAX, 16381, 1 << 28][r.below(5)], 2 => r.range(1, 40) as u32, _ => r.range(1, 3) as u32 } }
    };
    (img, loc)
}

/// a bare alignment pattern, mostly near a border, of a code that lies any way round, partly outside of the image

fn scene18(r: &mut Rng) -> (GrayImage, QRLocation) {
    let s = r.range(2, 6) as i64;
    let v = r.range(2, 4) as i64;
    let whole = r.bit();
    let mut d = || if whole { (17 + 4 * v) * s + r.below(8) as i64 } else { r.range(6 * s as usize, 80) as i64 };
    let (w, h) = (d(), d());
    let (dx, dy) = (if r.bit() { s } else { -s }, if r.bit() { s } else { -s });
    let mut c = |d: i64, o: i64| if whole { let k = r.below(6) as i64 - 1; if o > 0 { d - 7 * s + s / 2 - k } else { 6 * s + s / 2 + k } } else { match r.below(5) { 0 => 2 * s + s / 2 + r.below(3) as i64, 1 => d - 1 - 2 * s - s / 2 - r.below(3) as i64, _ => r.below(d as usize) as i64 } };
    let (cx, cy) = (c(w, dx), c(h, dy));
    let mut img = GrayImage::from_pixel(w as u32, h as u32, Luma([255]));
    if whole && r.bit() { for p in img.pixels_mut() { if r.chance(1, 3) { p[0] = 0; } } }
    let far = r.range(3, 5) as i64;
    for y in 0..h { for x in 0..w {
        let q = |a: i64, c: i64| (2 * (a - c) + 5 * s).div_euclid(2 * s) - 2;
        let k = q(x, cx).abs().max(q(y, cy).abs());
        if k < far { img.put_pixel(x as u32, y as u32, Luma([if k == 1 || k > 2 { 255 } else { 0 }])); }
    } }
    let n = (7 + 4 * v) as f64;
    let f = if r.bit() { 0.0 } else { r.fr(-0.6, 0.6) };
    let at = |a: f64, b: f64| Point { x: cx as f64 + f + a * dx as f64, y: cy as f64 + f + b * dy as f64 };
    (img, QRLocation { top_left: at(-n, -n), top_right: at(3.0, -n), bottom_left: at(-n, 3.0), module_size: s as f64 * [0.2, 1.0, 2.0, 3.0, 6.0, 1e9][r.below(6)], version: v as u32 })
}

pub fn c13(r: &mut Rng, idx: u64, _fx: bool) -> Result<(), String> {
    let (img, loc) = scene13(r, idx);
    if describing() { note(format!("C13 location {:?}", loc)); }
    show(img.width(), img.height(), img.as_raw());
    let (v, what) = (loc.version, format!("{:?}", loc));
    let (any0, any255) = (img.pixels().any(|p| p[0] == 0), img.pixels().any(|p| p[0] == 255));
    match QRExtractor::new().extract(&img, loc) {
        Err(_) => Ok(()),
        Ok(q) => {
            let s = 4 * v as u64 + 17;
            if q.version != v || q.side as u64 != s || q.data.len() as u64 != s * s { return Err(format!("C13 {}: version {} side {} with {} entries", what, q.version, q.side, q.data.len())); }
            if q.data.iter().any(|&p| !(p == 0 && any0 || p == 255 && any255)) { return Err(format!("C13 {}: an entry is no pixel of the image", what)); }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ C14
fn scene14(r: &mut Rng, idx: u64, fx: bool) -> GrayImage {
    if fx && idx < 30 { GrayImage::from_pixel((idx % 6) as u32, (idx / 6) as u32, Luma([if r.bit() { 0 } else { 255 }])) } else if fx && idx < 40 {
        // long lines
        let n = [256, 300, 65535, 65536, 70000][(idx / 2 % 5) as usize];
        let k = r.below(3);
        if idx % 2 == 0 { GrayImage::from_fn(n, 1 + k as u32, |x, _| Luma([if x > 40 || x & 1 == 0 { 0 } else { 255 }])) } else { GrayImage::from_fn(1 + k as u32, n, |_, y| Luma([if y > 40 || y & 1 == 0 { 0 } else { 255 }])) }
    } else {
        match r.below(7) {
            0 => bw_image(r),
            1 => { let m = [4, 40, 120][r.below(3)]; GrayImage::from_fn(r.below(m) as u32, r.below(m) as u32, |_, _| Luma([r.byte()])) }
            2 => random_scene(r),
            3 => {
                // stripes 1:1:3:1:1, horizontally, vertically or both, touching the borders
                let (w, h) = (r.range(7, 90) as u32, r.range(1, 90) as u32);
                let (mx, my) = (r.range(1, 5) as u32, r.range(1, 5) as u32);
                let (ox, oy) = (r.below(8) as u32, r.below(8) as u32);
                let k = r.below(3);
                let on = |t: u32, m: u32| matches!(t / m % 8, 0 | 2 | 3 | 4 | 6);
                GrayImage::from_fn(w, h, |x, y| { let d = match k { 0 => on(x + ox, mx), 1 => on(y + oy, my), _ => { let (a, b) = ((x + ox) / mx % 8, (y + oy) / my % 8); let d = (a as i32 - 3).abs().max((b as i32 - 3).abs()); d <= 1 || d == 3 } }; Luma([if d { 0 } else { 255 }]) })
            }
            _ => {
                // three or more finders at small or large distances, stretched and possibly cut off
                let (w, h) = (r.range(15, 200) as u32, r.range(15, 200) as u32);
                let mut img = GrayImage::from_pixel(w, h, Luma([255]));
                let ms = r.fr(1.0, 5.0);
                let d = r.fr(7.2, 30.0) * ms;
                let a = match r.below(3) { 0 => 0.0, 1 => r.fr(-0.2, 0.2), _ => r.fr(0.0, 6.3) };
                let (x, y) = (r.fr(-0.1, 1.0) * w as f64, r.fr(-0.1, 1.0) * h as f64);
                let (s, c) = (a as f64).sin_cos();
                let st = if r.bit() { 1.0 } else { r.fr(0.8, 1.25) };
                for (u, v) in [(0.0, 0.0), (d, 0.0), (0.0, d)] { finder(&mut img, x + u * c - v * s, y + u * s + v * c, ms, ms * st, a); }
                for _ in 0..r.below(4) { let (p, q) = (r.fr(-0.05, 1.05) * w as f64, r.fr(-0.05, 1.05) * h as f64); let m2 = if r.bit() { ms } else { r.fr(1.0, 6.0) }; finder(&mut img, p, q, m2, m2 * st, 0.0); }
                if r.chance(1, 4) { for _ in 0..r.range(1, 60) { let (p, q) = (r.below(w as usize) as u32, r.below(h as usize) as u32); let g = r.byte(); img.put_pixel(p, q, Luma([g])); } }
                img
            }
        }
    }
}

pub fn c14(r: &mut Rng, idx: u64, fx: bool) -> Result<(), String> {
    let img = scene14(r, idx, fx);
    if describing() { note("C14".into()); }
    show(img.width(), img.height(), img.as_raw());
    for Location::QR(l) in LineScan::new().detect(&img) {
        if l.version < 1 || l.version > 1 << 20 { return Err(format!("C14 implausible version: {:?}", l)); }
        let same = |a: &Point, b: &Point| a.x == b.x && a.y == b.y;
        if same(&l.top_left, &l.top_right) || same(&l.top_left, &l.bottom_left) || same(&l.top_right, &l.bottom_left) { return Err(format!("C14 finder centres are not different: {:?}", l)); }
    }
    Ok(())
}

// ------------------------------------------------------------------ C19: the default decoders as a whole
fn scene19(r: &mut Rng, idx: u64, fx: bool) -> RgbaImage {
    let (mut img, grey) = match r.below(5) {
        0 => (scene14(r, idx, fx), true),
        1 => { let m = [1, 4, 12, 60][r.below(4)]; (GrayImage::from_fn(r.below(m) as u32 + u32::from(r.bit()), r.below(m) as u32, |_, _| Luma([r.byte()])), false) }
        k => {
            // upright codes that can be read, whole or with parts painted over
            let (v, ms) = (r.range(1, if k == 2 { 8 } else { 3 }), r.range(3, 5));
            let w = ((iso::side(v) + 8) * ms) as u32 + r.below(30) as u32;
            let mut img = GrayImage::from_pixel(w, w + r.below(20) as u32, Luma([255]));
            let o = (iso::side(v) + 8) as f64 * ms as f64 / 2.0;
            let a = [0.0, 1.5707963267948966, 3.141592653589793, -1.5707963267948966][r.below(4)];
            draw_code(&mut img, r, v, o, o, ms as f64, a, 0.0);
            if r.bit() {
                let n = r.range(1, 12);
                for _ in 0..n {
                    let (x, y, s, g) = (r.below(w as usize) as u32, r.below(w as usize) as u32, r.range(1, 4 * ms) as u32, if r.bit() { 0 } else { 255 });
                    for q in y..(y + s).min(img.height()) { for p in x..(x + s).min(w) { img.put_pixel(p, q, Luma([g])); } }
                }
            }
            (img, r.chance(3, 4))
        }
    };
    // contrast, colour and transparency
    let (lo, hi) = match r.below(3) { 0 => (0, 255), 1 => (r.below(90) as u32, 255), _ => (40, r.range(150, 255) as u32) };
    for p in img.pixels_mut() { p[0] = (lo + (hi - lo) * p[0] as u32 / 255) as u8; }
    let tint = [0, r.below(20) as u8, r.below(20) as u8];
    RgbaImage::from_fn(img.width(), img.height(), |x, y| { let g = img.get_pixel(x, y)[0]; Rgba([g, g.saturating_sub(tint[1]), g.saturating_sub(tint[2]), if grey { 255 } else { r.byte() }]) })
}

pub fn c19(r: &mut Rng, idx: u64, fx: bool) -> Result<(), String> {
    let img = scene19(r, idx, fx);
    let (w, h) = img.dimensions();
    if describing() { note(format!("C19 image {}x{}, RGBA row by row: {}", w, h, img.as_raw().iter().map(|b| format!("{:02x}", b)).collect::<String>())); }
    let src = DynamicImage::ImageRgba8(img);
    let one = bardecoder::default_decoder().decode(&src);
    let two = bardecoder::default_decoder_with_info().decode(&src);
    // the matrices, by the components; what they denote, by an independent decoder
    let prep: GrayImage = BlockedMean::new(5, 7).prepare(&src);
    let locs = LineScan::new().detect(&prep);
    if one.len() != locs.len() || two.len() != locs.len() { return Err(format!("C19 {} and {} entries for {} locations", one.len(), two.len(), locs.len())); }
    for (k, Location::QR(l)) in locs.into_iter().enumerate() {
        let ex = QRExtractor::new().extract(&prep, l);
        let want = match &ex {
            Ok(q) if (1..=40).contains(&q.version) => iso::decode(&super::geo(q.version as usize), &q.data.iter().map(|&p| p == 0).collect::<Vec<_>>()).ok(),
            _ => None,
        };
        let err = ex.err();
        match (&one[k], &want) {
            (Ok(a), Some((t, _))) if a == t => {}
            (Err(e), None) => match e.downcast_ref::<QRError>() { None => return Err(format!("C19 entry {} is the foreign error {:?}", k, e)), Some(q) => if err.as_ref().map_or(false, |x| x != q) { return Err(format!("C19 entry {}: extraction's error {:?} became {:?}", k, err, q)); } },
            (a, b) => return Err(format!("C19 default decoder: entry {} is {:.200?}, the matrix denotes {:.200?}", k, a.as_ref().map_err(|e| e.to_string()), b.as_ref().map(|x| &x.0))),
        }
        match (&two[k], &want) {
            (Ok((a, i)), Some((t, f))) if a == t && i.version as usize == f.v && super::lv(&i.ec_level) == f.l && i.total_data == f.total && i.errors == f.errors => {}
            (Err(e), None) => if e.downcast_ref::<QRError>().is_none() { return Err(format!("C19 entry {} is the foreign error {:?}", k, e)); },
            (a, b) => return Err(format!("C19 default decoder with info: entry {} is {:.200?}, the matrix denotes {:.200?}", k, a.as_ref().map_err(|e| e.to_string()), b.as_ref().map(|x| &x.0))),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C18: the same calls with and without the feature, in two builds of the crate
/// everything the call returns, or that it panicked
pub fn answer18(r: &mut Rng, idx: u64, fx: bool) -> String {
    let detect = idx % 2 == 0;
    let (img, loc) = if detect { (scene14(r, idx / 2, fx), None) } else { let (a, b) = if idx % 4 == 1 { scene18(r) } else { scene13(r, idx / 2) }; (a, Some(b)) };
    // (one debug picture is written per probe: small images only)
    let big = img.width() as u64 * img.height() as u64 > if detect { 300_000 } else { 60_000 };
    if describing() { note(format!("C18 {}", match &loc { None => "LineScan::detect".to_string(), Some(l) => format!("QRExtractor::extract, location {:?}", l) })); }
    show(img.width(), img.height(), img.as_raw());
    if big { return "skipped".into(); }
    let out = std::panic::catch_unwind(move || match loc {
        None => LineScan::new().detect(&img).iter().map(|Location::QR(l)| format!("{:?}", [l.top_left.x, l.top_left.y, l.top_right.x, l.top_right.y, l.bottom_left.x, l.bottom_left.y, l.module_size].map(f64::to_bits)) + &l.version.to_string()).collect::<Vec<_>>().join(";"),
        Some(l) => match QRExtractor::new().extract(&img, l) { Ok(q) => format!("Ok {} {} {:?}", q.version, q.side, q.data), Err(e) => format!("Err {}", e.msg) },
    });
    match out { Ok(s) => s.replace('\n', " "), Err(_) => "PANIC".into() }
}

#[cfg(feature = "debug-images")]
pub fn c18(r: &mut Rng, seed: u64, idx: u64, fx: bool) -> Result<(), String> {
    use std::cell::RefCell;
    use std::io::{BufRead, BufReader, Write};
    use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
    // the build without the feature, answering over a pipe
    struct Off(Child, ChildStdin, BufReader<ChildStdout>);
    impl Drop for Off { fn drop(&mut self) { let _ = self.0.kill(); let _ = self.0.wait(); } }
    thread_local! { static OFF: RefCell<Option<Off>> = RefCell::new(None); }
    let on = answer18(r, idx, fx);
    if idx % 64 == 0 { let _ = std::fs::remove_dir_all(std::env::temp_dir().join("bardecoder-debug-images")); }
    if describing() || on == "skipped" { return Ok(()); }
    let off = OFF.with(|o| -> std::io::Result<String> {
        let mut o = o.borrow_mut();
        if o.is_none() {
            let mut c = Command::new(std::env::var("VH_OFF").expect("VH_OFF")).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
            let (i, q) = (c.stdin.take().unwrap(), BufReader::new(c.stdout.take().unwrap()));
            *o = Some(Off(c, i, q));
        }
        let f = o.as_mut().unwrap();
        writeln!(f.1, "{} {}", seed, idx)?;
        f.1.flush()?;
        let mut l = String::new();
        f.2.read_line(&mut l)?;
        if l.is_empty() { *o = None; }
        Ok(l)
    }).unwrap_or_default();
    // no answer or a panic without the feature: not this property's business
    let off = match off.strip_suffix('\n') { Some(o) => o, None => return Ok(()) };
    if off == "PANIC" || off == on { return Ok(()); }
    Err(format!("C18 {} gives {:.300} with debug-images and {:.300} without", if idx % 2 == 0 { "LineScan::detect" } else { "QRExtractor::extract" }, on, off))
}
#[cfg(not(feature = "debug-images"))]
pub fn c18(_r: &mut Rng, _seed: u64, _idx: u64, _fx: bool) -> Result<(), String> { Err("this build has no debug-images".into()) }
