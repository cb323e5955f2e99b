#raw
use std::ops::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::core::*;
#end
#include qrdata.vc
#include qrerror.vc
#include point.vc
#include image_spec.vc
#include f64_bounds.vc
#include prepare_spec.vc
#include detect_spec.vc
#include extract_spec.vc
#include gf8_spec.vc
#include format_spec.vc
#include boxes.vc
#include blockinfo_spec.vc
#include blocks_spec.vc
#include correct_spec.vc
#include data_spec.vc
#raw
verus! {
#end
#struct src/util/qr.rs QRInfo
#raw
}
#end
#include decoder_spec.vc
#include pipeline.vc
#raw
verus! {
#end
#struct src/decode/qr/decoder.rs QRDecoder
#struct src/decode/qr/decoder.rs QRDecoderWithInfo
#stubimpl prepare src/prepare/blockedmean.rs Prepare<D, GrayImage> for BlockedMean
#stubimpl detect src/detect/linescan.rs Detect<GrayImage> for LineScan
#stubimpl extract src/extract/qr/mod.rs Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor
#stubimpl decoder src/decode/qr/decoder.rs Decode<QRData, String, QRError> for QRDecoder
#stubimpl decoder src/decode/qr/decoder.rs Decode<QRData, (String, QRInfo), QRError> for QRDecoderWithInfo
#stub prepare src/prepare/blockedmean.rs BlockedMean::new
#fn src/detect/linescan.rs LineScan::new
#fn src/extract/qr/mod.rs QRExtractor::new
#fn src/decode/qr/decoder.rs QRDecoder::new
#fn src/decode/qr/decoder.rs QRDecoderWithInfo::new
#raw
// ---------------------------------------------------------------- the default decoders
/// images the whole decoder answers: sides of at most 2^28 pixels, at most 2^36 pixels
pub open spec fn moderate<D: GenericImageView<Pixel = Rgba<u8>>>(i: &D) -> bool {
    0 <= i.w() <= 0x1000_0000 && 0 <= i.h() <= 0x1000_0000 && i.w() * i.h() <= 0x10_0000_0000 && i.w() * i.h() <= usize::MAX
}
/// what BlockedMean with blocks of 5 x 5 pixels and means over 7 x 7 blocks may make of an image
pub open spec fn black_and_white<D: GenericImageView<Pixel = Rgba<u8>>>(i: &D, p: &GrayImage) -> bool {
    exists|s: BlockedMean| s.block_size.0 == 5 && s.block_mean_size.0 == 7 && #[trigger] prepare_ens(&s, i, p)
}
pub open spec fn default_prepare<D: GenericImageView<Pixel = Rgba<u8>>>(b: Box<dyn Prepare<D, GrayImage>>) -> bool {
    (forall|i: &D| moderate(i) ==> #[trigger] b.req(i))
    && (forall|i: &D, p: GrayImage| #[trigger] b.ens(i, &p) ==> black_and_white(i, &p))
}
pub open spec fn default_detect(b: Box<dyn Detect<GrayImage>>) -> bool {
    (forall|p: &GrayImage| detect_req(p) ==> #[trigger] b.req(p))
    && (forall|p: &GrayImage, ls: Seq<Location>| #[trigger] b.ens(p, ls) ==> detect_ens(p, ls))
}
pub open spec fn default_extract(b: Box<dyn Extract<GrayImage, QRLocation, QRData, QRError>>) -> bool {
    (forall|p: &GrayImage, l: QRLocation| #[trigger] b.req(p, l))
    && (forall|p: &GrayImage, l: QRLocation, r: Result<QRData, QRError>| #[trigger] b.ens(p, l, &r) ==> extract_ens(p, l, &r))
}
pub open spec fn default_decode(b: Box<dyn Decode<QRData, String, QRError>>) -> bool {
    (forall|x: Result<QRData, QRError>| decode_req(&x) ==> #[trigger] b.req(&x))
    && (forall|x: Result<QRData, QRError>, r: Result<String, QRError>| #[trigger] b.ens(&x, &r) ==> decode_ens(&x, &r))
}
pub open spec fn default_decode_info(b: Box<dyn Decode<QRData, (String, QRInfo), QRError>>) -> bool {
    (forall|x: Result<QRData, QRError>| decode_req(&x) ==> #[trigger] b.req(&x))
    && (forall|x: Result<QRData, QRError>, r: Result<(String, QRInfo), QRError>| #[trigger] b.ens(&x, &r) ==> decode_info_ens(&x, &r))
}
pub proof fn lemma_blocks(w: int, h: int)
    requires 0 <= w <= u32::MAX, 0 <= h <= u32::MAX, w * h <= 0x10_0000_0000,
    ensures blocks_of_side(w, 5) * blocks_of_side(h, 5) <= u32::MAX,
{
    let a = w / 5; let b = h / 5;
    assert(25 * (a * b) <= w * h) by (nonlinear_arith) requires 0 <= 5 * a <= w, 0 <= 5 * b <= h;
    assert((a + 1) * (b + 1) == a * b + a + b + 1) by (nonlinear_arith);
    if w > 0x4_0000 && h > 0x4_0000 { assert(w * h > 0x10_0000_0000) by (nonlinear_arith) requires w > 0x4_0000, h > 0x4_0000; }
}
pub proof fn lemma_preparable<D: GenericImageView<Pixel = Rgba<u8>>>(s: &BlockedMean)
    requires s.block_size.0 == 5, s.block_mean_size.0 == 7,
    ensures forall|i: &D| #[trigger] moderate(i) ==> prepare_req(s, i),
{
    assert forall|i: &D| #[trigger] moderate(i) implies prepare_req(s, i) by { lemma_blocks(i.w(), i.h()); }
}
#end
#fn src/decoder.rs default_builder
@ret r
@spec
    ensures complete(&r), default_prepare(r.prepare->Some_0), default_detect(r.detect->Some_0), default_extract(r.qr->Some_0.extract), default_decode(r.qr->Some_0.decode),
@entry
    proof { assert forall|s: BlockedMean| s.block_size.0 == 5 && s.block_mean_size.0 == 7 implies forall|i: &D| moderate(i) ==> #[trigger] prepare_req(&s, i) by { lemma_preparable::<D>(&s); } }
#fn src/decoder.rs default_builder_with_info
@ret r
@spec
    ensures complete(&r), default_prepare(r.prepare->Some_0), default_detect(r.detect->Some_0), default_extract(r.qr->Some_0.extract), default_decode_info(r.qr->Some_0.decode),
@entry
    proof { assert forall|s: BlockedMean| s.block_size.0 == 5 && s.block_mean_size.0 == 7 implies forall|i: &D| moderate(i) ==> #[trigger] prepare_req(&s, i) by { lemma_preparable::<D>(&s); } }
#fn src/decoder.rs default_decoder
@ret r
@spec
    ensures default_prepare(r.prepare), default_detect(r.detect), default_extract(r.qr.extract), default_decode(r.qr.decode),
#fn src/decoder.rs default_decoder_with_info
@ret r
@spec
    ensures default_prepare(r.prepare), default_detect(r.detect), default_extract(r.qr.extract), default_decode_info(r.qr.decode),
#raw
/// the prepared image and the locations found on it
pub open spec fn seen<D: GenericImageView<Pixel = Rgba<u8>>>(i: &D, p: &GrayImage, ls: Seq<Location>) -> bool {
    black_and_white(i, p) && detect_ens(p, ls)
}
/// the matrix q, made of pixels of the prepared image, of the version of the location l, denotes the text s
pub open spec fn read(p: &GrayImage, l: Location, q: &QRData, d: u16, cs: Seq<Seq<u8>>, s: Seq<char>) -> bool {
    (l->QR_0).version >= 1 && is_matrix(p, (l->QR_0).version, q) && decodes(q, d, cs, s)
}
/// an entry is a text that such a matrix denotes, or an error
pub open spec fn entry_ok(p: &GrayImage, l: Location, e: &Result<String, Error>) -> bool {
    match e {
        Ok(s) => exists|q: QRData, d: u16, cs: Seq<Seq<u8>>| #[trigger] read(p, l, &q, d, cs, s@),
        Err(e) => exists|x: QRError| *e == wrapped(x),
    }
}
pub open spec fn entry_info_ok(p: &GrayImage, l: Location, e: &Result<(String, QRInfo), Error>) -> bool {
    match e {
        Ok(o) => exists|q: QRData, d: u16, cs: Seq<Seq<u8>>| #[trigger] read(p, l, &q, d, cs, o.0@) && facts(&q, d, cs, &o.1),
        Err(e) => exists|x: QRError| *e == wrapped(x),
    }
}
pub proof fn lemma_matrix(p: &GrayImage, l: QRLocation, x: Result<QRData, QRError>)
    requires extract_ens(p, l, &x),
    ensures decode_req(&x),
{ }
/// C19
pub fn theorem_default<D: GenericImageView<Pixel = Rgba<u8>>>(i: &D) -> (r: Vec<Result<String, Error>>)
    requires moderate(i),
    ensures exists|p: GrayImage, ls: Seq<Location>| #[trigger] seen(i, &p, ls) && r@.len() == ls.len() && forall|k: int| 0 <= k < ls.len() ==> entry_ok(&p, ls[k], &#[trigger] r@[k]),
{
    let d = default_decoder::<D>();
    proof {
        assert forall|p: GrayImage, l: QRLocation, x: Result<QRData, QRError>| #[trigger] d.qr.extract.ens(&p, l, &x) implies d.qr.decode.req(&x) by { lemma_matrix(&p, l, x); }
        assert forall|p: GrayImage| #[trigger] d.prepare.ens(i, &p) implies d.detect.req(&p) by { assert(detect_req(&p)); }
        assert(fits(&d, i));
    }
    let r = d.decode(i);
    proof {
        let (p, ls) = choose|p: GrayImage, ls: Seq<Location>| d.prepare.ens(i, &p) && #[trigger] d.detect.ens(&p, ls) && entries(&d, p, ls, r@);
        assert(seen(i, &p, ls));
        assert forall|k: int| 0 <= k < ls.len() implies entry_ok(&p, ls[k], &#[trigger] r@[k]) by {
            assert(is_entry(&d, p, ls[k], r@[k]));
            let (x, o) = choose|x: Result<QRData, QRError>, o: Result<String, QRError>| #[trigger] via(&d, p, ls[k], x, o) && r@[k] == outcome(o);
            assert(extract_ens(&p, ls[k]->QR_0, &x)); assert(decode_ens(&x, &o));
            match o {
                Ok(s) => { assert(r@[k] == Ok::<String, Error>(s)); assert(x is Ok); let q = x->Ok_0; let (f, cs) = choose|f: u16, cs: Seq<Seq<u8>>| #[trigger] decodes(&q, f, cs, s@);
                    let cand = choose|c: Seq<Point>| #[trigger] candidates_of(&p, c) && forall|n: int| 0 <= n < ls.len() ==> plausible(#[trigger] ls[n], c); assert(plausible(ls[k], cand));
                    assert(r@[k]->Ok_0@ == s@); assert(read(&p, ls[k], &q, f, cs, r@[k]->Ok_0@)); }
                Err(e) => { assert(r@[k]->Err_0 == wrapped(e)); }
            }
        }
    }
    r
}
pub fn theorem_default_info<D: GenericImageView<Pixel = Rgba<u8>>>(i: &D) -> (r: Vec<Result<(String, QRInfo), Error>>)
    requires moderate(i),
    ensures exists|p: GrayImage, ls: Seq<Location>| #[trigger] seen(i, &p, ls) && r@.len() == ls.len() && forall|k: int| 0 <= k < ls.len() ==> entry_info_ok(&p, ls[k], &#[trigger] r@[k]),
{
    let d = default_decoder_with_info::<D>();
    proof {
        assert forall|p: GrayImage, l: QRLocation, x: Result<QRData, QRError>| #[trigger] d.qr.extract.ens(&p, l, &x) implies d.qr.decode.req(&x) by { lemma_matrix(&p, l, x); }
        assert forall|p: GrayImage| #[trigger] d.prepare.ens(i, &p) implies d.detect.req(&p) by { assert(detect_req(&p)); }
        assert(fits(&d, i));
    }
    let r = d.decode(i);
    proof {
        let (p, ls) = choose|p: GrayImage, ls: Seq<Location>| d.prepare.ens(i, &p) && #[trigger] d.detect.ens(&p, ls) && entries(&d, p, ls, r@);
        assert(seen(i, &p, ls));
        assert forall|k: int| 0 <= k < ls.len() implies entry_info_ok(&p, ls[k], &#[trigger] r@[k]) by {
            assert(is_entry(&d, p, ls[k], r@[k]));
            let (x, o) = choose|x: Result<QRData, QRError>, o: Result<(String, QRInfo), QRError>| #[trigger] via(&d, p, ls[k], x, o) && r@[k] == outcome(o);
            assert(extract_ens(&p, ls[k]->QR_0, &x)); assert(decode_info_ens(&x, &o));
            match o {
                Ok(s) => { assert(r@[k] == Ok::<(String, QRInfo), Error>(s)); assert(x is Ok); let q = x->Ok_0; let (f, cs) = choose|f: u16, cs: Seq<Seq<u8>>| #[trigger] decodes(&q, f, cs, s.0@) && facts(&q, f, cs, &s.1);
                    let cand = choose|c: Seq<Point>| #[trigger] candidates_of(&p, c) && forall|n: int| 0 <= n < ls.len() ==> plausible(#[trigger] ls[n], c); assert(plausible(ls[k], cand));
                    assert(r@[k]->Ok_0 == s); assert(r@[k]->Ok_0.0@ == s.0@); assert(read(&p, ls[k], &q, f, cs, r@[k]->Ok_0.0@)); }
                Err(e) => { assert(r@[k]->Err_0 == wrapped(e)); }
            }
        }
    }
    r
}
}
#end
