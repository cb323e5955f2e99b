#raw
use std::ops::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::core::*;
#end
#include point.vc
#include image_spec.vc
#include f64_bounds.vc
#include detect_spec.vc
#ifdef DEBUG
#include debug_image.vc
#outline src/detect/linescan.rs detect debug_candidates(prepared: &GrayImage, candidates: &Vec<QRFinderPosition>) = prepared, &candidates
#endif
#raw
verus! {
// ---------------------------------------------------------------- std
#end
#ifdef DEBUG
#else
#raw
pub fn min(a: u32, b: u32) -> (r: u32) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
#end
#endif
#raw
/// an iterator of u32, as far as its contract is used here
pub trait Steps: Sized {
    /// every number it still gives is less than n
    spec fn under(&self, n: int) -> bool;
    /// how many numbers it still gives, if they end
    spec fn left(&self) -> Option<nat>;
    fn next(&mut self) -> (r: Option<u32>)
        ensures forall|n: int| #![trigger old(self).under(n)] old(self).under(n) ==> final(self).under(n) && (r matches Some(x) ==> x < n),
            final(self).left() is Some == old(self).left() is Some,
            r is Some && old(self).left() is Some ==> old(self).left()->Some_0 == final(self).left()->Some_0 + 1;
}
impl Steps for Range<u32> {
    open spec fn under(&self, n: int) -> bool { self.start >= self.end || self.end <= n }
    open spec fn left(&self) -> Option<nat> { Some(if self.start < self.end { (self.end - self.start) as nat } else { 0 }) }
    fn next(&mut self) -> (r: Option<u32>) {
        if self.start < self.end { let x = self.start; self.start += 1; Some(x) } else { None }
    }
}
pub struct Repeat { pub v: u32 }
impl Steps for Repeat {
    open spec fn under(&self, n: int) -> bool { self.v < n }
    open spec fn left(&self) -> Option<nat> { None }
    fn next(&mut self) -> (r: Option<u32>) { Some(self.v) }
}
pub fn repeat(v: u32) -> (r: Repeat) ensures r.v == v { Repeat { v } }
pub open spec fn few<S: Steps>(s: &S, n: int) -> bool { s.left() matches Some(k) ==> k <= n }
#end
#cast u32 cast_u32
#neg f64_neg
#ifdef DEBUG
#sub `format!(..)` => `file_name()`
#endif
#struct src/detect/linescan.rs QRFinderPosition
#struct src/detect/linescan.rs QRFinderPattern
#raw
pub open spec fn size(m: f64) -> bool { within(m, 1, 0x400_0000) }
/// run lengths counted so far
pub open spec fn total(p: &QRFinderPattern) -> int { p.0 + p.1 + p.2 + p.3 + p.4 + p.5 + p.6 }
pub open spec fn recent(p: &QRFinderPattern) -> int { p.2 + p.3 + p.4 + p.5 + p.6 }
#end
#fn src/detect/linescan.rs QRFinderPattern::new
@ret r
@spec
    ensures total(&r) == 0,
#fn src/detect/linescan.rs QRFinderPattern::slide
@spec
    requires total(old(self)) < u32::MAX,
    ensures total(final(self)) <= total(old(self)) + 1,
@entry
        proof { f64_total(); }
#fn src/detect/linescan.rs QRFinderPattern::est_mod_size
@ret r
@spec
    requires total(self) <= 0x1000_0000,
    ensures recent(self) >= 7 ==> size(r),
@entry
        proof {
            f64_total(); w_literals();
            let t = recent(self);
            w_u32(t as u32);
            if t >= 7 { w_wider(<f64 as FromSpec<u32>>::from_spec(t as u32), t, t, 7, 0x1000_0000); w_div(<f64 as FromSpec<u32>>::from_spec(t as u32), 7.0f64, 7, 0x1000_0000, 7, 7, 1, 0x400_0000); }
        }
#fn src/detect/linescan.rs QRFinderPattern::looks_like_finder
@ret r
@spec
    requires total(self) <= 0x1000_0000,
    ensures r ==> recent(self) >= 7,
@entry
        proof { f64_total(); }
#fn src/detect/linescan.rs diff
@entry
    proof { f64_total(); }
#raw
/// a position of moderate size
pub open spec fn near(p: Point) -> bool { within(p.x, -0x1000_0000, 0x1000_0000) && within(p.y, -0x1000_0000, 0x1000_0000) }
pub proof fn lemma_near(g: &GrayImage, p: Point)
    requires detect_req(g), on(g, p),
    ensures near(p),
{
    w_wider(p.x, -0x1000_0000, g.w() - 1, -0x1000_0000, 0x1000_0000);
    w_wider(p.y, -0x1000_0000, g.h() - 1, -0x1000_0000, 0x1000_0000);
}
/// distances of near points
pub proof fn lemma_dist(x1: f64, y1: f64, x2: f64, y2: f64)
    requires within(x1, -0x1000_0000, 0x1000_0000), within(x2, -0x1000_0000, 0x1000_0000), within(y1, -0x1000_0000, 0x1000_0000), within(y2, -0x1000_0000, 0x1000_0000),
    ensures within(root(f_add(f_mul(f_sub(x1, x2), f_sub(x1, x2)), f_mul(f_sub(y1, y2), f_sub(y1, y2)))), 0, 0x4000_0000),
{
    let dx = f_sub(x1, x2); let dy = f_sub(y1, y2);
    w_sub(x1, x2, -0x1000_0000, 0x1000_0000, -0x1000_0000, 0x1000_0000);
    w_sub(y1, y2, -0x1000_0000, 0x1000_0000, -0x1000_0000, 0x1000_0000);
    let m = 0x2000_0000int; let n = 0x4000_0000int;
    assert(m * m == 0x400_0000_0000_0000) by (nonlinear_arith) requires m == 0x2000_0000int;
    assert(n * n == 0x1000_0000_0000_0000) by (nonlinear_arith) requires n == 0x4000_0000int;
    w_square(dx, m, 0x400_0000_0000_0000); w_square(dy, m, 0x400_0000_0000_0000);
    w_add(f_mul(dx, dx), f_mul(dy, dy), 0, 0x400_0000_0000_0000, 0, 0x400_0000_0000_0000);
    w_sqrt(f_add(f_mul(dx, dx), f_mul(dy, dy)), n, 0x800_0000_0000_0000);
}
#end
#fn src/detect/linescan.rs dist
@ret r
@spec
    ensures near(*one) && near(*other) ==> within(r, 0, 0x4000_0000),
@entry
    proof {
        f64_total(); f64_ops(one.x, other.x); f64_ops(one.y, other.y);
        if near(*one) && near(*other) {
            lemma_dist(one.x, one.y, other.x, other.y);
        }
    }
#raw
/// the number of modules between two finders, in fours
pub proof fn lemma_modules(d: f64, m: f64)
    requires within(d, 0, 0x4000_0000), size(m),
    ensures f64_to_u32(rounded(f_div(f_sub(f_add(f_div(d, m), 7.0f64), 1.0f64), 4.0f64))) <= 0x1000_0002,
{
    w_literals();
    w_div(d, m, 0, 0x4000_0000, 1, 0x400_0000, 0, 0x4000_0000);
    let s = f_add(f_div(d, m), 7.0f64);
    w_add(f_div(d, m), 7.0f64, 0, 0x4000_0000, 7, 7);
    w_sub(s, 1.0f64, 7, 0x4000_0007, 1, 1);
    w_div(f_sub(s, 1.0f64), 4.0f64, 6, 0x4000_0006, 4, 4, 1, 0x1000_0002);
    w_cast(f_div(f_sub(s, 1.0f64), 4.0f64), 1, 0x1000_0002);
}
#end
#fn src/detect/linescan.rs find_qr_internal
@ret r
@spec
    requires near(*one), near(*three), size(module_size),
    ensures r matches Some(q) ==> q.version >= 1 && q.module_size == module_size && corners(q, *one, *two, *three),
@entry
    proof {
        f64_total(); f64_ops(two.x, one.x); f64_ops(two.y, one.y); f64_ops(three.x, one.x); f64_ops(three.y, one.y);
        assert forall|d: f64| within(d, 0, 0x4000_0000) implies f64_to_u32(rounded(f_div(f_sub(f_add(#[trigger] DivSpec::div_spec(d, module_size), 7.0f64), 1.0f64), 4.0f64))) <= 0x1000_0002 by { lemma_modules(d, module_size); }
    }
#fn src/detect/linescan.rs find_qr
@ret r
@spec
    requires near(*one), near(*two), near(*three), size(module_size),
    ensures r matches Some(q) ==> q.version >= 1 && q.module_size == module_size && trio(q, *one, *two, *three),
#raw
/// a refined position
pub open spec fn refined(g: &GrayImage, r: &Option<QRFinderPosition>) -> bool {
    r matches Some(q) ==> within(q.location.x, 0, g.w() - 1) && within(q.location.y, 0, g.h() - 1) && size(q.module_size) && size(q.last_module_size)
}
pub open spec fn refine_req(g: &GrayImage, m: f64) -> bool { detect_req(g) && g.w() >= 1 && g.h() >= 1 && size(m) }
/// the mean of two module sizes
pub proof fn lemma_mean(a: f64, b: f64)
    requires size(a), size(b),
    ensures size(f_div(f_add(a, b), 2.0f64)),
{
    w_literals();
    w_add(a, b, 1, 0x400_0000, 1, 0x400_0000);
    w_div(f_add(a, b), 2.0f64, 2, 0x800_0000, 2, 2, 1, 0x400_0000);
}
pub proof fn lemma_place(k: u32, n: int)
    requires k < n,
    ensures within(<f64 as FromSpec<u32>>::from_spec(k), 0, n - 1),
{
    w_u32(k);
    w_wider(<f64 as FromSpec<u32>>::from_spec(k), k as int, k as int, 0, n - 1);
}
#end
#desugar zip \( \w+ \)$
#fn src/detect/linescan.rs LineScan::refine
@ret r
@attr #[verifier::loop_isolation(false)]
@sub `range_x: impl Iterator<Item = u32>` => `range_x: impl Steps`
@sub `range_y: impl Iterator<Item = u32>` => `range_y: impl Steps`
@spec
        requires refine_req(prepared, module_size), range_x.under(prepared.w()), range_y.under(prepared.h()),
            few(&range_x, 0x1000_0000), few(&range_y, 0x1000_0000), range_x.left() is Some || range_y.left() is Some,
        ensures refined(prepared, &r),
@entry
        proof {
            f64_total();
            assert forall|k: u32| k < prepared.w() implies within(#[trigger] <f64 as FromSpec<u32>>::from_spec(k), 0, prepared.w() - 1) by { lemma_place(k, prepared.w()); }
            assert forall|k: u32| k < prepared.h() implies within(#[trigger] <f64 as FromSpec<u32>>::from_spec(k), 0, prepared.h() - 1) by { lemma_place(k, prepared.h()); }
            assert forall|m: f64| size(m) implies size(f_div(#[trigger] AddSpec::add_spec(module_size, m), 2.0f64)) by { lemma_mean(module_size, m); }
        }
@loop 1
            invariant iter1.under(prepared.w()), second1.under(prepared.h()), last_x < prepared.w(), last_y < prepared.h(),
                iter1.left() is Some || second1.left() is Some,
                iter1.left() matches Some(k) ==> total(&pattern) + k <= 0x1000_0000,
                second1.left() matches Some(k) ==> total(&pattern) + k <= 0x1000_0000,
            decreases if iter1.left() is Some { iter1.left()->Some_0 } else { second1.left()->Some_0 }
#fn src/detect/linescan.rs LineScan::refine_horizontal
@ret r
@spec
        requires refine_req(prepared, module_size), on(prepared, *finder),
        ensures refined(prepared, &r),
@entry
        proof { f64_total(); f64_ops(finder.x, f_mul(5.0f64, module_size)); w_cast(finder.y, -0x1000_0000, prepared.h() - 1); }
#fn src/detect/linescan.rs LineScan::refine_vertical
@ret r
@spec
        requires refine_req(prepared, module_size), on(prepared, *finder),
        ensures refined(prepared, &r),
@entry
        proof { f64_total(); f64_ops(finder.y, f_mul(5.0f64, module_size)); w_cast(finder.x, -0x1000_0000, prepared.w() - 1); }
#fn src/detect/linescan.rs LineScan::refine_diagonal
@ret r
@spec
        requires refine_req(prepared, module_size), on(prepared, *finder),
        ensures refined(prepared, &r),
@entry
        proof {
            f64_total(); f64_ops(finder.x, finder.y); f64_ops(finder.y, finder.x);
            f64_ops(finder.x, f_mul(5.0f64, module_size)); f64_ops(finder.y, f_mul(5.0f64, module_size));
        }
#fn src/detect/linescan.rs LineScan::new
@ret r
#raw
/// `Box<dyn Fn(&LineScan, &GrayImage, &Point, f64) -> Option<QRFinderPosition>>` of the three functions, as a trait the verifier knows
pub trait RefineFn {
    fn call(&self, s: &LineScan, prepared: &GrayImage, finder: &Point, module_size: f64) -> (r: Option<QRFinderPosition>)
        requires refine_req(prepared, module_size), on(prepared, *finder),
        ensures refined(prepared, &r);
}
type Refine = dyn RefineFn;
pub struct RefineHorizontal { }
impl RefineFn for RefineHorizontal { fn call(&self, s: &LineScan, p: &GrayImage, f: &Point, m: f64) -> (r: Option<QRFinderPosition>) { s.refine_horizontal(p, f, m) } }
pub struct RefineVertical { }
impl RefineFn for RefineVertical { fn call(&self, s: &LineScan, p: &GrayImage, f: &Point, m: f64) -> (r: Option<QRFinderPosition>) { s.refine_vertical(p, f, m) } }
pub struct RefineDiagonal { }
impl RefineFn for RefineDiagonal { fn call(&self, s: &LineScan, p: &GrayImage, f: &Point, m: f64) -> (r: Option<QRFinderPosition>) { s.refine_diagonal(p, f, m) } }
pub proof fn lemma_plausible(q: QRLocation, cs: Seq<Point>, i: int, j: int, k: int)
    requires q.version >= 1, 0 <= i < cs.len(), 0 <= j < cs.len(), 0 <= k < cs.len(), differ(i, j, k), trio(q, cs[i], cs[j], cs[k]),
    ensures plausible(Location::QR(q), cs),
{ }
/// scan state
pub open spec fn scanning(g: &GrayImage, n: int, p: &QRFinderPattern) -> bool { n < g.w() * g.h() && column(g.w(), n) != 0 ==> total(p) <= column(g.w(), n) }
pub open spec fn found(g: &GrayImage, cs: Seq<QRFinderPosition>) -> bool { forall|i: int| 0 <= i < cs.len() ==> on(g, (#[trigger] cs[i]).location) && size(cs[i].module_size) }
pub open spec fn places(cs: Seq<QRFinderPosition>) -> Seq<Point> { Seq::new(cs.len(), |i: int| cs[i].location) }
pub proof fn lemma_column(w: int, n: int)
    requires w > 0, n >= 0,
    ensures column(w, n + 1) == 0 || column(w, n + 1) == column(w, n) + 1, column(w, n) == w - 1 ==> column(w, n + 1) == 0,
{
    let q = n / w; let r = n % w;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, w);
    assert(0 <= r < w) by (nonlinear_arith) requires w > 0, r == n % w;
    if r + 1 < w {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + 1, w, q, r + 1);
    } else {
        assert(w * (q + 1) == w * q + w) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + 1, w, q + 1, 0);
    }
}
/// the centre of a finder ends at most 3.5 modules after it
pub proof fn lemma_first(x: u32, n: int, m: f64)
    requires x < n, n <= 0x1000_0000, size(m),
    ensures within(f_sub(<f64 as FromSpec<u32>>::from_spec(x), f_mul(m, 3.5f64)), -0x1000_0000, n - 1), within(<f64 as FromSpec<u32>>::from_spec(x), -0x1000_0000, n - 1),
{
    w_literals(); w_u32(x);
    let f = <f64 as FromSpec<u32>>::from_spec(x); let d = f_mul(m, 3.5f64);
    w_mul(m, 3.5f64, 1, 0x400_0000, 3, 4);
    w_sub(f, d, x as int, x as int, 3, 0x1000_0000);
    w_wider(f_sub(f, d), x - 0x1000_0000, x - 3, -0x1000_0000, n - 1);
    w_wider(f, x as int, x as int, -0x1000_0000, n - 1);
}
pub proof fn lemma_next(a: f64, n: int, d: f64, m: f64)
    requires within(a, 0, n - 1), 1 <= n <= 0x1000_0000, within(d, 0, 1), size(m),
    ensures within(f_sub(a, f_mul(d, f_mul(3.5f64, m))), -0x1000_0000, n - 1),
{
    w_literals();
    w_mul(3.5f64, m, 3, 4, 1, 0x400_0000);
    w_mul(d, f_mul(3.5f64, m), 0, 1, 3, 0x1000_0000);
    w_sub(a, f_mul(d, f_mul(3.5f64, m)), 0, n - 1, 0, 0x1000_0000);
    w_wider(f_sub(a, f_mul(d, f_mul(3.5f64, m))), -0x1000_0000, n - 1, -0x1000_0000, n - 1);
}
#end
#ifdef DEBUG
#fn src/detect/linescan.rs debug_candidates
@attr #[verifier::loop_isolation(false)]
@spec
    requires detect_req(prepared),
@entry
    proof { f64_total(); }
@loop 1
        invariant img.w() == prepared.w(), img.h() == prepared.h(),
@loopstart 1
                proof {
                    let m = f_mul(3.5f64, c.module_size);
                    f64_ops(3.5f64, c.module_size); f64_ops(c.location.x, m); f64_ops(c.location.y, m);
                }
@loop 2
                    invariant img.w() == prepared.w(), img.h() == prepared.h(),
@loop 3
                        invariant img.w() == prepared.w(), img.h() == prepared.h(),
#endif
#trait src/detect/mod.rs Detect
@decl
    /// what the caller owes and is owed
    spec fn req(&self, prepared: &PREPD) -> bool;
    spec fn ens(&self, prepared: &PREPD, r: Seq<Location>) -> bool;
@method detect r
        requires self.req(prepared),
        ensures self.ens(prepared, r@),
#desugar enumerate_pixels \( \)$
#desugar ^& \w+$
#impl src/detect/linescan.rs Detect<GrayImage> for LineScan
#raw
    open spec fn req(&self, prepared: &GrayImage) -> bool { detect_req(prepared) }
    open spec fn ens(&self, prepared: &GrayImage, r: Seq<Location>) -> bool { detect_ens(prepared, r) }
#end
#fn src/detect/linescan.rs detect
@ret r
@attr #[verifier::loop_isolation(false)]
@sub `LineScan::refine_vertical` => `RefineVertical { }`
@sub `LineScan::refine_horizontal` => `RefineHorizontal { }`
@sub `LineScan::refine_diagonal` => `RefineDiagonal { }`
@sub `refine_func(self` => `refine_func.call(self`
@entry
        let ghost w = prepared.w(); let ghost h = prepared.h();
        proof { f64_total(); w_literals(); w_wider(0.0f64, 0, 0, 0, 1); w_wider(1.0f64, 1, 1, 0, 1); w_wider(1.0f64, 1, 1, 1, 0x400_0000); }
@loop 1
            invariant iter1.img() == prepared, 0 <= iter1.pos() <= w * h, scanning(prepared, iter1.pos(), &pattern), found(prepared, candidates@),
            decreases w * h - iter1.pos()
@loopstart 1
            proof {
                let n = iter1.pos() - 1; lemma_position(w, h, n); lemma_column(w, n);
                assert forall|m: f64| size(m) implies within(f_sub(<f64 as FromSpec<u32>>::from_spec(x), #[trigger] MulSpec::<f64>::mul_spec(m, 3.5f64)), -0x1000_0000, w - 1) by { lemma_first(x, w, m); }
                lemma_first(y, h, 1.0f64);
            }
@loop 2
                invariant total(&pattern) <= x + 1, x != w - 1 ==> total(&pattern) <= x,
                decreases candidates@.len() - iter2
@loop 3
                invariant on(prepared, finder), size(module_size), total(&pattern) <= x + 1, x != w - 1 ==> total(&pattern) <= x,
                decreases refine_func@.len() - iter3
@before "let half_finder"
                    proof { f64_ops(3.5f64, vert.last_module_size); }
@afterlet half_finder
                    proof { f64_ops(*dx, half_finder); f64_ops(*dy, half_finder); f64_ops(vert.location.x, f_mul(*dx, half_finder)); f64_ops(vert.location.y, f_mul(*dy, half_finder)); f64_ops(vert.location.x, MulSpec::<f64>::mul_spec(dx, half_finder)); f64_ops(vert.location.y, MulSpec::<f64>::mul_spec(dy, half_finder)); lemma_next(vert.location.x, w, *dx, vert.last_module_size); lemma_next(vert.location.y, h, *dy, vert.last_module_size); }
@after "locations: Vec"
        let ghost cs = places(candidates@);
        proof { assert(candidates_of(prepared, cs)); assert forall|i: int| 0 <= i < candidates@.len() implies near(#[trigger] candidates@[i].location) by { lemma_near(prepared, candidates@[i].location); } }
@loop 4
            invariant forall|n: int| 0 <= n < locations@.len() ==> plausible(#[trigger] locations@[n], cs),
@loop 5
                invariant forall|n: int| 0 <= n < locations@.len() ==> plausible(#[trigger] locations@[n], cs),
@loop 6
                    invariant forall|n: int| 0 <= n < locations@.len() ==> plausible(#[trigger] locations@[n], cs),
@before "locations.push"
                        proof { let i = candidate1 as int; let j = candidate2 as int; let k = candidate3 as int; assert(cs[i] == candidates@[i].location && cs[j] == candidates@[j].location && cs[k] == candidates@[k].location); lemma_plausible(qr, cs, i, j, k); }
                        let ghost before = locations@;
@after "locations.push"
                        proof { assert forall|n: int| 0 <= n < locations@.len() implies plausible(#[trigger] locations@[n], cs) by { if n < before.len() { assert(locations@[n] == before[n]); } } }
#endimpl
#raw
}
#end
