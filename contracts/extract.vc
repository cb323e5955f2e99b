#include qrdata.vc
#include qrerror.vc
#include point.vc
#include image_spec.vc
#include extract_spec.vc
#ifdef DEBUG
#include debug_image.vc
#outline src/extract/qr/mod.rs extract debug_picture(prepared: &GrayImage) -> RgbImage = prepared
#outline src/extract/qr/mod.rs extract debug_dot(img: &mut RgbImage, pixel: u8, x: u32, y: u32) = &mut img, pixel, x, y
#outline src/extract/qr/mod.rs extract debug_save(img: RgbImage, start: Point, dx: Delta, dy: Delta) = img, start, dx, dy
#outline src/extract/qr/mod.rs determine_perspective debug_alignment(prepared: &GrayImage, est_alignment: Point, loc: &QRLocation) = prepared, est_alignment, loc
#outline src/extract/qr/mod.rs is_alignment debug_pattern(prepared: &GrayImage, p: Point, dx: Delta, dy: Delta) = prepared, p, dx, dy
#endif
#raw
use vstd::std_specs::iter::*;
verus! {
#end
#struct src/extract/qr/mod.rs Perspective
#cast u32 cast_u32
#ifdef DEBUG
#neg f64_neg
#sub `tmp.push(format!(..))` => `tmp.push(file_name())`
#endif
#sub `format!(..)` => `fmt_msg()`
#raw
pub open spec fn at(g: &GrayImage, p: Point) -> bool { g.inside(f64_to_u32(rounded(p.x)) as int, f64_to_u32(rounded(p.y)) as int) }
#end
#ifdef DEBUG
#raw
pub open spec fn small(g: &GrayImage) -> bool { g.w() <= 0x1000_0000 && g.h() <= 0x1000_0000 }
#end
#fn src/extract/qr/mod.rs debug_picture
@ret img
@spec
    ensures img.w() == prepared.w(), img.h() == prepared.h(),
#fn src/extract/qr/mod.rs debug_dot
@attr #[verifier::loop_isolation(false)]
@spec
    requires old(img).w() <= 0x1000_0000, old(img).h() <= 0x1000_0000, x < old(img).w(), y < old(img).h(),
    ensures final(img).w() == old(img).w(), final(img).h() == old(img).h(),
@loop 1
        invariant img.w() == old(img).w(), img.h() == old(img).h(), x < img.w(), y < img.h(), img.w() <= 0x1000_0000, img.h() <= 0x1000_0000,
@loop 2
            invariant img.w() == old(img).w(), img.h() == old(img).h(), i < img.w(), y < img.h(), img.h() <= 0x1000_0000,
#fn src/extract/qr/mod.rs debug_save
#fn src/extract/qr/mod.rs debug_alignment
@attr #[verifier::loop_isolation(false)]
@spec
    requires small(prepared),
@entry
    proof {
        f64_total(); f64_ops(2.5f64, loc.module_size);
        let m = f_mul(2.5f64, loc.module_size);
        f64_ops(est_alignment.x, m); f64_ops(est_alignment.y, m);
    }
@loop 1
        invariant img.w() == prepared.w(), img.h() == prepared.h(),
@loop 2
            invariant img.w() == prepared.w(), img.h() == prepared.h(),
#fn src/extract/qr/mod.rs debug_pattern
@attr #[verifier::loop_isolation(false)]
@entry
    proof { f64_total(); }
@loop 1
        invariant img.w() == prepared.w(), img.h() == prepared.h(),
@loop 2
            invariant img.w() == prepared.w(), img.h() == prepared.h(),
#endif
#desugar \. rev \( \)$
#fn src/extract/qr/mod.rs Perspective::new
@ret r
#fn src/extract/qr/mod.rs sample
@ret r
@closures &Luma -> u8 | |
@spec
    ensures r is Some == at(prepared, p),
#fn src/extract/qr/mod.rs is_alignment
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    ensures r ==> at(prepared, p),
@entry
    proof { f64_total(); }
#fn src/extract/qr/mod.rs determine_perspective
@ret r
@desugar
@attr #[verifier::loop_isolation(false)]
@spec
    requires 17 <= size <= 177,
#ifdef DEBUG
        small(prepared),
#endif
@entry
    proof { f64_total(); assert(0 <= (size - 10) * (size - 10) <= 27889) by (nonlinear_arith) requires 17 <= size <= 177; }
@loop 1
        invariant 0 <= iter1.start <= 4, iter1.end == 4, found ==> at(prepared, est_alignment),
        decreases 4 - iter1.start
@loop 2
            invariant found ==> at(prepared, est_alignment),
            decreases array2.len() - iter2
@loop 3
                invariant found ==> at(prepared, est_alignment),
                decreases IteratorSpec::decrease(&iter3)->Some_0
@loop 4
                invariant found ==> at(prepared, est_alignment),
                decreases IteratorSpec::decrease(&iter4)->Some_0
@loop 5
        invariant iter5 <= al_x,
        decreases iter5
@loop 7
        invariant iter7 <= al_y,
        decreases iter7
#trait src/extract/mod.rs Extract
@decl
    /// what the caller owes and is owed
    spec fn req(&self, prepared: &PREPD, loc: LOC) -> bool;
    spec fn ens(&self, prepared: &PREPD, loc: LOC, r: &Result<DATA, ERROR>) -> bool;
@method extract r
        requires self.req(prepared, loc),
        ensures self.ens(prepared, loc, &r),
#impl src/extract/qr/mod.rs Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor
#raw
#ifdef DEBUG
    /// an image of moderate size
    open spec fn req(&self, prepared: &GrayImage, loc: QRLocation) -> bool { small(prepared) }
#else
    open spec fn req(&self, prepared: &GrayImage, loc: QRLocation) -> bool { true }
#endif
    open spec fn ens(&self, prepared: &GrayImage, loc: QRLocation, r: &Result<QRData, QRError>) -> bool { extract_ens(prepared, loc, r) }
#end
#fn src/extract/qr/mod.rs extract
@ret r
@attr #[verifier::loop_isolation(false)]
@entry
        proof { f64_total(); }
@afterlet size 1
        proof { assert(size * size <= 177 * 177) by (nonlinear_arith) requires size <= 177; }
@loop 1 it rows
            invariant rows.seq().len() == size, data@.len() == rows.index@ * size, forall|k: int| 0 <= k < data@.len() ==> is_pixel(prepared, #[trigger] data@[k]),
#ifdef DEBUG
                img.w() == prepared.w(), img.h() == prepared.h(),
#endif
@loop 2 it cols
                invariant cols.seq().len() == size, data@.len() == rows.index@ * size + cols.index@, forall|k: int| 0 <= k < data@.len() ==> is_pixel(prepared, #[trigger] data@[k]),
#ifdef DEBUG
                    img.w() == prepared.w(), img.h() == prepared.h(),
#endif
@loopend 1
            proof { let i = rows.index@ as int; let n = size as int; assert((i + 1) * n == i * n + n) by (nonlinear_arith); }
#endimpl
#raw
}
#end
