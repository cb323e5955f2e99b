#raw
use std::ops::*;
use vstd::std_specs::core::*;
#end
#include f64_spec.vc
#include image_spec.vc
#include prepare_spec.vc
#raw
verus! {
#end
#struct src/prepare/blockedmean.rs Stats #[derive(Copy, Clone)]
#struct src/prepare/blockedmean.rs ImageCoord #[derive(Copy, Clone)]
#struct src/prepare/blockedmean.rs BlockCoord #[derive(Copy, Clone)]
#struct src/prepare/blockedmean.rs BlockCoordRangeInclusive
#derives src/prepare/blockedmean.rs BlockCoord Eq PartialEq Ord PartialOrd
#raw
// ---------------------------------------------------------------- derived and macro-generated parts, written out
#[verifier::external_body]
pub fn max(a: BlockCoord, b: BlockCoord) -> (r: BlockCoord) ensures r.0 == if a.0 >= b.0 { a.0 } else { b.0 } { unimplemented!() }
#[verifier::external_body]
pub fn min(a: BlockCoord, b: BlockCoord) -> (r: BlockCoord) ensures r.0 == if a.0 <= b.0 { a.0 } else { b.0 } { unimplemented!() }
impl AddSpecImpl<BlockCoord> for BlockCoord {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: BlockCoord) -> bool { self.0 + o.0 <= u32::MAX }
    open spec fn add_spec(self, o: BlockCoord) -> BlockCoord { BlockCoord((self.0 + o.0) as u32) }
}
impl Add<BlockCoord> for BlockCoord { type Output = BlockCoord; fn add(self, o: BlockCoord) -> BlockCoord { BlockCoord(self.0 + o.0) } }
impl MulSpecImpl<BlockCoord> for BlockCoord {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: BlockCoord) -> bool { self.0 * o.0 <= u32::MAX }
    open spec fn mul_spec(self, o: BlockCoord) -> BlockCoord { BlockCoord((self.0 * o.0) as u32) }
}
impl Mul<BlockCoord> for BlockCoord { type Output = BlockCoord; fn mul(self, o: BlockCoord) -> BlockCoord { BlockCoord(self.0 * o.0) } }
impl DivSpecImpl<BlockSize> for ImageCoord {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: BlockSize) -> bool { o.0 != 0 }
    open spec fn div_spec(self, o: BlockSize) -> BlockCoord { BlockCoord((self.0 / o.0) as u32) }
}
#end
#impl src/prepare/blockedmean.rs Div<BlockSize> for ImageCoord
#fn src/prepare/blockedmean.rs div
@ret r
#endimpl
#fn src/prepare/blockedmean.rs BlockCoord::saturating_sub
@ret r
@spec
    ensures r.0 == if self.0 >= other.0 { self.0 - other.0 } else { 0int },
#impl src/prepare/blockedmean.rs Iterator for BlockCoordRangeInclusive inherent
#fn src/prepare/blockedmean.rs next
@ret r
@sub `Self::Item` => `BlockCoord`
@spec
    requires old(self).end < u32::MAX,
    ensures final(self).end == old(self).end,
        old(self).current > old(self).end ==> r is None && final(self).current == old(self).current,
        old(self).current <= old(self).end ==> r is Some && r->Some_0.0 == old(self).current && final(self).current == old(self).current + 1,
#endimpl
#fn src/prepare/blockedmean.rs range
@ret r
@spec
    requires end.0 >= 1,
    ensures r.current == start.0, r.end == end.0 - 1,
#fn src/prepare/blockedmean.rs range_inc
@ret r
@spec
    ensures r.current == start.0, r.end == end.0,
#fn src/prepare/blockedmean.rs as_block_coords
@ret r
@spec
    requires block_size.0 >= 1,
    ensures r.0.0 == x.0 / block_size.0, r.1.0 == y.0 / block_size.0,
#raw
/// place of block (x, y) in a vector of rows of w + 1 blocks
pub open spec fn block_at(w: int, x: int, y: int) -> int { y * (w + 1) + x }
pub open spec fn n_cells(w: int, h: int) -> int { (w + 1) * (h + 1) }
pub proof fn lemma_cell(w: int, h: int, x: int, y: int)
    requires 0 <= x <= w, 0 <= y <= h,
    ensures 0 <= block_at(w, x, y) < n_cells(w, h), 0 <= y * (w + 1) <= block_at(w, x, y),
{
    assert(y * (w + 1) + x < (h + 1) * (w + 1)) by (nonlinear_arith) requires 0 <= x <= w, 0 <= y <= h;
    assert((h + 1) * (w + 1) == (w + 1) * (h + 1)) by (nonlinear_arith);
    assert(y * (w + 1) >= 0) by (nonlinear_arith) requires y >= 0, w >= 0;
}
pub proof fn lemma_quot(x: int, w: int, b: int)
    requires 0 <= x <= w, b >= 1,
    ensures 0 <= x / b <= w / b, w / b <= w,
{
    assert(0 <= x / b <= w / b && w / b <= w) by (nonlinear_arith) requires 0 <= x <= w, b >= 1;
}
#end
#fn src/prepare/blockedmean.rs to_index
@ret r
@spec
    requires width.0 < u32::MAX, block_at(width.0 as int, coords.0.0 as int, coords.1.0 as int) <= u32::MAX,
    ensures r == block_at(width.0 as int, coords.0.0 as int, coords.1.0 as int),
@entry
    proof { assert(coords.1.0 * (width.0 + 1) >= 0) by (nonlinear_arith) requires coords.1.0 >= 0, width.0 >= 0; }
#raw
/// what the parameters of the three passes have in common
pub open spec fn grid(s: &BlockedMean, w: int, h: int) -> bool {
    let b = s.block_size.0 as int;
    b >= 1 && s.block_mean_size.0 >= 1 && 0 <= w <= u32::MAX && 0 <= h <= u32::MAX && w * h <= 0x10_0000_0000
    && w / b + s.block_mean_size.0 / 2 < u32::MAX && h / b + s.block_mean_size.0 / 2 < u32::MAX && n_cells(w / b, h / b) <= u32::MAX
}
pub open spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }
/// at most this many pixels are in one block
pub open spec fn block_area(w: int, h: int, b: int) -> int { least(b, w) * least(b, h) }
pub open spec fn clamped(v: int, l: int, h: int) -> int { if v < l { l } else if v > h { h } else { v } }
/// how many pixels of block (bx, by) come before pixel (x, y)
pub open spec fn before(w: int, h: int, b: int, bx: int, by: int, x: int, y: int) -> int {
    let x0 = bx * b; let x1 = least(x0 + b, w); let y0 = by * b; let y1 = least(y0 + b, h);
    (clamped(y, y0, y1) - y0) * (x1 - x0) + if y0 <= y < y1 { clamped(x, x0, x1) - x0 } else { 0 }
}
pub open spec fn seen(w: int, h: int, b: int, bx: int, by: int, n: int) -> int { before(w, h, b, bx, by, n % w, n / w) }
pub proof fn lemma_block_start(w: int, b: int, bx: int)
    requires w >= 1, b >= 1, 0 <= bx <= w / b,
    ensures 0 <= bx * b <= w,
{ assert(0 <= bx * b <= w) by (nonlinear_arith) requires w >= 1, b >= 1, 0 <= bx <= w / b; }
/// pixel (x, y) is counted for its own block and for no other
pub proof fn lemma_seen_step(w: int, h: int, b: int, bx: int, by: int, x: int, y: int)
    requires w >= 1, h >= 1, b >= 1, 0 <= bx <= w / b, 0 <= by <= h / b, 0 <= x < w, 0 <= y < h,
    ensures
        seen(w, h, b, bx, by, y * w + x) <= seen(w, h, b, bx, by, y * w + x + 1),
        bx == x / b && by == y / b ==> seen(w, h, b, bx, by, y * w + x) + 1 <= seen(w, h, b, bx, by, y * w + x + 1),
{
    lemma_block_start(w, b, bx); lemma_block_start(h, b, by);
    let x0 = bx * b; let x1 = least(x0 + b, w); let y0 = by * b; let y1 = least(y0 + b, h);
    let n = y * w + x;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n, w, y, x);
    if x + 1 < w {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + 1, w, y, x + 1);
    } else {
        assert(n + 1 == (y + 1) * w + 0) by (nonlinear_arith) requires n + 1 == y * w + x + 1, x + 1 == w;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + 1, w, y + 1, 0);
    }
    if bx == x / b && by == y / b {
        assert(x0 <= x < x0 + b) by (nonlinear_arith) requires x0 == (x / b) * b, b >= 1;
        assert(y0 <= y < y0 + b) by (nonlinear_arith) requires y0 == (y / b) * b, b >= 1;
    }
    if x + 1 == w && y0 <= y < y1 {
        assert((y + 1 - y0) * (x1 - x0) == (y - y0) * (x1 - x0) + (x1 - x0)) by (nonlinear_arith);
    }
}
pub proof fn lemma_seen_bounds(w: int, h: int, b: int, bx: int, by: int, n: int)
    requires w >= 1, h >= 1, b >= 1, 0 <= bx <= w / b, 0 <= by <= h / b,
    ensures 0 <= seen(w, h, b, bx, by, n) <= block_area(w, h, b),
{
    lemma_block_start(w, b, bx); lemma_block_start(h, b, by);
    let x0 = bx * b; let x1 = least(x0 + b, w); let y0 = by * b; let y1 = least(y0 + b, h);
    let x = n % w; let y = n / w;
    let c = clamped(y, y0, y1) - y0; let d = x1 - x0;
    if y0 <= y < y1 {
        assert(0 <= c * d <= (y1 - y0) * d - d) by (nonlinear_arith) requires 0 <= c <= y1 - y0 - 1, d >= 0;
    } else {
        assert(0 <= c * d <= (y1 - y0) * d) by (nonlinear_arith) requires 0 <= c <= y1 - y0, d >= 0;
    }
    let p = least(b, w); let q = least(b, h);
    assert((y1 - y0) * d <= p * q) by (nonlinear_arith) requires 0 <= y1 - y0 <= q, 0 <= d <= p;
}
/// different blocks have different places
pub proof fn lemma_cell_inj(w: int, x: int, y: int, i: int, j: int)
    requires 0 <= x <= w, 0 <= i <= w, block_at(w, x, y) == block_at(w, i, j),
    ensures x == i && y == j,
{
    let n = y * (w + 1) + x;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n, w + 1, y, x);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n, w + 1, j, i);
}
/// the blocks of a side, times the pixels a block has along it
pub proof fn lemma_side(w: int, b: int, n: int)
    requires w >= 1, b >= 1, 0 <= n <= w / b + 1,
    ensures 0 <= n * least(b, w) <= 2 * w,
{
    if b <= w { assert(0 <= n * b <= 2 * w) by (nonlinear_arith) requires b <= w, b >= 1, 0 <= n <= w / b + 1; }
    else { assert(w / b == 0) by (nonlinear_arith) requires 1 <= w < b; assert(0 <= n * w <= 2 * w) by (nonlinear_arith) requires 0 <= n <= 1, w >= 1; }
}
/// no window of blocks holds more pixels than four images
pub proof fn lemma_window(w: int, h: int, b: int, n: int, m: int)
    requires w >= 1, h >= 1, b >= 1, 0 <= n <= w / b + 1, 0 <= m <= h / b + 1,
    ensures 0 <= n * (m * block_area(w, h, b)) <= 4 * (w * h),
{
    lemma_side(w, b, n); lemma_side(h, b, m);
    let p = least(b, w); let q = least(b, h); let s = n * p; let t = m * q;
    assert(n * (m * (p * q)) == (n * p) * (m * q)) by (nonlinear_arith);
    assert(0 <= s * t <= 4 * (w * h)) by (nonlinear_arith) requires 0 <= s <= 2 * w, 0 <= t <= 2 * h;
}
pub open spec fn counted(s: Seq<Stats>, w: int, h: int, b: int) -> bool {
    forall|i: int, j: int| 0 <= i <= w / b && 0 <= j <= h / b ==> (#[trigger] s[block_at(w / b, i, j)]).count <= block_area(w, h, b)
}
pub open spec fn partly_counted(s: Seq<Stats>, w: int, h: int, b: int, n: int) -> bool {
    forall|i: int, j: int| 0 <= i <= w / b && 0 <= j <= h / b ==> (#[trigger] s[block_at(w / b, i, j)]).count <= seen(w, h, b, i, j, n)
}
#end
#desugar enumerate_pixels(_mut)? \( \)$
#desugar ^& mut \w+$
#desugar ^range(_inc)? \(
#fn src/prepare/blockedmean.rs BlockedMean::as_block_map
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    requires grid(self, width.0 as int, height.0 as int), width.0 == grayscale.w(), height.0 == grayscale.h(),
    ensures r@.len() == n_cells(width.0 as int / self.block_size.0 as int, height.0 as int / self.block_size.0 as int),
        forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).total <= 255 * r@[k].count,
        grayscale.w() * grayscale.h() > 0 ==> counted(r@, grayscale.w(), grayscale.h(), self.block_size.0 as int),
@entry
        let ghost w = grayscale.w(); let ghost h = grayscale.h(); let ghost b = self.block_size.0 as int;
        proof { f64_total(); lemma_quot(w, w, b); lemma_quot(h, h, b); lemma_cell(w / b, h / b, w / b, h / b); }
@beforeloop 1
        proof {
            if w >= 1 && h >= 1 {
                assert forall|i: int, j: int| 0 <= i <= w / b && 0 <= j <= h / b implies (#[trigger] blocks@[block_at(w / b, i, j)]).count <= seen(w, h, b, i, j, 0) by {
                    lemma_cell(w / b, h / b, i, j); lemma_seen_bounds(w, h, b, i, j, 0);
                }
            }
        }
@loop 1
            invariant iter1.img() == grayscale, 0 <= iter1.pos() <= w * h, blocks@.len() == n_cells(w / b, h / b),
                forall|k: int| 0 <= k < blocks@.len() ==> (#[trigger] blocks@[k]).total <= 255 * blocks@[k].count && blocks@[k].count <= iter1.pos(),
                w >= 1 && h >= 1 ==> partly_counted(blocks@, w, h, b, iter1.pos()),
            decreases w * h - iter1.pos()
@loopstart 1
            let ghost seen0 = blocks@;
            proof { lemma_position(w, h, iter1.pos() - 1); lemma_quot(x as int, w, b); lemma_quot(y as int, h, b); lemma_cell(w / b, h / b, x as int / b, y as int / b); }
@loopend 1
            proof {
                let n = iter1.pos() - 1;
                assert forall|i: int, j: int| 0 <= i <= w / b && 0 <= j <= h / b implies (#[trigger] blocks@[block_at(w / b, i, j)]).count <= seen(w, h, b, i, j, n + 1) by {
                    lemma_cell(w / b, h / b, i, j); lemma_seen_step(w, h, b, i, j, x as int, y as int);
                    assert(seen0[block_at(w / b, i, j)].count <= seen(w, h, b, i, j, n));
                    if block_at(w / b, i, j) == block_at(w / b, x as int / b, y as int / b) { lemma_cell_inj(w / b, i, j, x as int / b, y as int / b); }
                }
            }
@beforeloop 2
        proof {
            if w * h > 0 {
                assert(w >= 1 && h >= 1) by (nonlinear_arith) requires w * h > 0, w >= 0, h >= 0;
                assert forall|i: int, j: int| 0 <= i <= w / b && 0 <= j <= h / b implies (#[trigger] blocks@[block_at(w / b, i, j)]).count <= block_area(w, h, b) by {
                    lemma_seen_bounds(w, h, b, i, j, w * h);
                    assert(blocks@[block_at(w / b, i, j)].count <= seen(w, h, b, i, j, w * h));
                }
            }
        }
@loop 2
            invariant blocks@.len() == n_cells(w / b, h / b), iter2 <= blocks@.len(),
                forall|k: int| 0 <= k < blocks@.len() ==> (#[trigger] blocks@[k]).total <= 255 * blocks@[k].count,
                w * h > 0 ==> counted(blocks@, w, h, b),
            decreases blocks@.len() - iter2
#fn src/prepare/blockedmean.rs BlockedMean::to_block_mean_map
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    requires grid(self, width.0 as int, height.0 as int),
        blocks@.len() == n_cells(width.0 as int / self.block_size.0 as int, height.0 as int / self.block_size.0 as int),
        forall|k: int| 0 <= k < blocks@.len() ==> (#[trigger] blocks@[k]).total <= 255 * blocks@[k].count,
        width.0 >= 1, height.0 >= 1, counted(blocks@, width.0 as int, height.0 as int, self.block_size.0 as int),
    ensures r@.len() == blocks@.len(),
@entry
        let ghost w = width.0 as int; let ghost h = height.0 as int; let ghost b = self.block_size.0 as int; let ghost area = block_area(w, h, b);
        proof { f64_total(); lemma_quot(w, w, b); lemma_quot(h, h, b); lemma_cell(w / b, h / b, w / b, h / b); }
@loop 1
            invariant iter1.end == w / b, 0 <= iter1.current <= w / b + 1, block_means@.len() == n_cells(w / b, h / b),
            decreases w / b + 1 - iter1.current
@loop 2
                invariant iter2.end == h / b, 0 <= iter2.current <= h / b + 1, block_means@.len() == n_cells(w / b, h / b),
                decreases h / b + 1 - iter2.current
@loop 3
                    invariant iter3.end == x_end.0 - 1, x_start.0 <= iter3.current <= x_end.0, count <= (iter3.current - x_start.0) * ((y_end.0 - y_start.0) * area), total <= 255 * count,
                    decreases x_end.0 - iter3.current
@loop 4
                        invariant iter4.end == y_end.0 - 1, y_start.0 <= iter4.current <= y_end.0, count <= (iter3.current - 1 - x_start.0) * ((y_end.0 - y_start.0) * area) + (iter4.current - y_start.0) * area, total <= 255 * count,
                        decreases y_end.0 - iter4.current
@beforeloop 3
                proof {
                    assert(x_start.0 <= x_end.0 - 1 && x_end.0 <= w / b + 1);
                    assert(y_start.0 <= y_end.0 - 1 && y_end.0 <= h / b + 1);
                }
@beforeloop 4
                    proof {
                        let c = iter3.current - 1 - x_start.0;
                        assert(iter3.current - 1 == x.0);
                    }
@loopstart 4
                        proof {
                            lemma_cell(w / b, h / b, x.0 as int, y.0 as int);
                            let c = iter3.current - 1 - x_start.0; let d = iter4.current - 1 - y_start.0; let e = y_end.0 - y_start.0;
                            lemma_window(w, h, b, c + 1, e);
                            assert(c * (e * area) + d * area + area <= (c + 1) * (e * area)) by (nonlinear_arith) requires 0 <= d < e, 0 <= c, area >= 0;
                            assert(c * (e * area) + (d + 1) * area == c * (e * area) + d * area + area) by (nonlinear_arith);
                        }
@loopend 3
                    proof {
                        let c = iter3.current - 1 - x_start.0; let e = y_end.0 - y_start.0;
                        assert((c + 1) * (e * area) == c * (e * area) + e * area) by (nonlinear_arith);
                    }
@afterloop 3
                proof { lemma_cell(w / b, h / b, block_x.0 as int, block_y.0 as int); }
#raw
/// how to_threshold decides
pub open spec fn white(m: f64, g: u8) -> bool { above(m, 250.0f64) || (!below(m, 5.0f64) && above(<f64 as FromSpec<u8>>::from_spec(g), m)) }
/// u8 to f64 is exact
pub axiom fn f64_from_u8(a: u8, c: u8, m: f64)
    ensures a <= c && above(<f64 as FromSpec<u8>>::from_spec(a), m) ==> above(<f64 as FromSpec<u8>>::from_spec(c), m);
pub open spec fn mean_at(s: Seq<Stats>, w: int, b: int, x: int, y: int) -> f64 { s[block_at(w / b, x / b, y / b)].mean }
pub open spec fn done(w: int, n: int, x: int, y: int) -> bool { y * w + x < n }
/// the first n pixels are thresholded, the others are as they were
pub open spec fn partly(o: &GrayImage, g: &GrayImage, s: Seq<Stats>, b: int, n: int) -> bool {
    g.w() == o.w() && g.h() == o.h() && forall|x: int, y: int| o.inside(x, y) ==> #[trigger] g.px(x, y) == if done(o.w(), n, x, y) { if white(mean_at(s, o.w(), b, x, y), o.px(x, y)) { 255u8 } else { 0u8 } } else { o.px(x, y) }
}
pub proof fn lemma_step_pixel(w: int, x: int, y: int, i: int, j: int)
    requires 0 <= x < w, 0 <= i < w, 0 <= y, 0 <= j,
    ensures done(w, y * w + x + 1, i, j) == (done(w, y * w + x, i, j) || (i == x && j == y)),
{
    if j * w + i == y * w + x {
        assert(i == x && j == y) by (nonlinear_arith) requires j * w + i == y * w + x, 0 <= x < w, 0 <= i < w;
    }
}
pub proof fn lemma_all_done(w: int, h: int, x: int, y: int)
    requires 0 <= x < w, 0 <= y < h,
    ensures done(w, w * h, x, y), !done(w, 0, x, y),
{ assert(0 <= y * w + x < w * h) by (nonlinear_arith) requires 0 <= x < w, 0 <= y < h; }
#end
#fn src/prepare/blockedmean.rs BlockedMean::to_threshold
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    requires grid(self, width.0 as int, height.0 as int), width.0 == grayscale.w(), height.0 == grayscale.h(),
        block_means@.len() == n_cells(width.0 as int / self.block_size.0 as int, height.0 as int / self.block_size.0 as int),
    ensures r.w() == grayscale.w(), r.h() == grayscale.h(), bilevel(&r),
        forall|x: int, y: int, k: int, l: int| #![trigger r.px(x, y), r.px(k, l)] r.inside(x, y) && r.inside(k, l) && same_block(self.block_size.0 as int, x, y, k, l)
            && grayscale.px(x, y) <= grayscale.px(k, l) && r.px(x, y) == 255 ==> r.px(k, l) == 255,
@entry
        let ghost o = grayscale; let ghost w = o.w(); let ghost h = o.h(); let ghost b = self.block_size.0 as int;
        proof {
            f64_total(); lemma_quot(w, w, b); lemma_quot(h, h, b); lemma_cell(w / b, h / b, w / b, h / b);
            assert forall|x: int, y: int| o.inside(x, y) implies !done(w, 0, x, y) by { lemma_all_done(w, h, x, y); }
        }
@loop 1
            invariant iter1.w() == w, iter1.h() == h, 0 <= iter1.pos() <= w * h, partly(&o, &grayscale, block_means@, b, iter1.pos()),
            decreases w * h - iter1.pos()
@loopstart 1
            let ghost n = iter1.pos() - 1;
            proof {
                lemma_position(w, h, n); lemma_quot(x as int, w, b); lemma_quot(y as int, h, b); lemma_cell(w / b, h / b, x as int / b, y as int / b);
                assert forall|i: int, j: int| o.inside(i, j) implies #[trigger] done(w, n + 1, i, j) == (done(w, n, i, j) || (i == x && j == y)) by { lemma_step_pixel(w, x as int, y as int, i, j); }
            }
@beforetail
        proof {
            assert forall|x: int, y: int| o.inside(x, y) implies #[trigger] done(w, w * h, x, y) by { lemma_all_done(w, h, x, y); }
            assert forall|x: int, y: int, k: int, l: int| #![trigger grayscale.px(x, y), grayscale.px(k, l)] o.inside(x, y) && o.inside(k, l) && same_block(b, x, y, k, l)
                && o.px(x, y) <= o.px(k, l) && grayscale.px(x, y) == 255 implies grayscale.px(k, l) == 255 by {
                assert(done(w, w * h, x, y) && done(w, w * h, k, l));
                f64_from_u8(o.px(x, y), o.px(k, l), mean_at(block_means@, w, b, x, y));
            }
        }
#trait src/prepare/mod.rs Prepare
@decl
    /// what the caller owes and is owed
    spec fn req(&self, source: &IMG) -> bool;
    spec fn ens(&self, source: &IMG, r: &PREPD) -> bool;
@method prepare r
        requires self.req(source),
        ensures self.ens(source, &r),
#impl src/prepare/blockedmean.rs Prepare<D, GrayImage> for BlockedMean
#raw
    open spec fn req(&self, source: &D) -> bool { prepare_req(self, source) }
    open spec fn ens(&self, source: &D, r: &GrayImage) -> bool { prepare_ens(self, source, r) }
#end
#fn src/prepare/blockedmean.rs prepare
@ret r
@entry
        proof { lemma_quot(input.w(), input.w(), self.block_size.0 as int); lemma_quot(input.h(), input.h(), self.block_size.0 as int);
            if input.w() >= 1 && input.h() >= 1 { assert(input.w() * input.h() > 0) by (nonlinear_arith) requires input.w() >= 1, input.h() >= 1; } }
#endimpl
#fn src/prepare/blockedmean.rs BlockedMean::new
@ret r
@spec
    ensures r.block_size.0 == block_size, r.block_mean_size.0 == block_mean_size,
#raw
// ---------------------------------------------------------------- C12 for the preparation of the default decoder
/// any image with at most 2^36 pixels
pub fn theorem_default_preparation<D: GenericImageView<Pixel = Rgba<u8>>>(input: &D) -> (r: GrayImage)
    requires 0 <= input.w() <= u32::MAX, 0 <= input.h() <= u32::MAX, input.w() * input.h() <= 0x10_0000_0000, input.w() * input.h() <= usize::MAX,
    ensures r.w() == input.w(), r.h() == input.h(), bilevel(&r),
        forall|x: int, y: int, k: int, l: int| #![trigger r.px(x, y), r.px(k, l)] r.inside(x, y) && r.inside(k, l) && same_block(5, x, y, k, l)
            && luma_of(input.at(x, y)) <= luma_of(input.at(k, l)) && r.px(x, y) == 255 ==> r.px(k, l) == 255,
{
    let p = BlockedMean::new(5, 7);
    proof { lemma_blocks(input.w(), input.h()); }
    p.prepare(input)
}
pub proof fn lemma_blocks(w: int, h: int)
    requires 0 <= w <= u32::MAX, 0 <= h <= u32::MAX, w * h <= 0x10_0000_0000,
    ensures blocks_of_side(w, 5) * blocks_of_side(h, 5) <= u32::MAX,
{
    let a = w / 5; let b = h / 5;
    assert(25 * (a * b) <= w * h) by (nonlinear_arith) requires 0 <= 5 * a <= w, 0 <= 5 * b <= h;
    assert((a + 1) * (b + 1) == a * b + a + b + 1) by (nonlinear_arith);
    // at most one side is above 2^18
    if w > 0x4_0000 && h > 0x4_0000 { assert(w * h > 0x10_0000_0000) by (nonlinear_arith) requires w > 0x4_0000, h > 0x4_0000; }
}
}
#end
