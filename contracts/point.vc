#include f64_spec.vc
#raw
use std::ops::*;
verus! {
/// rounding and conversion: the same number each time
pub uninterp spec fn rounded(x: f64) -> f64;
pub assume_specification [ f64::round ] (x: f64) -> (r: f64) ensures r == rounded(x);
/// total; which number is not specified
pub assume_specification [ f64::floor ] (x: f64) -> (r: f64);
pub assume_specification [ f64::ceil ] (x: f64) -> (r: f64);
pub assume_specification [ f64::trunc ] (x: f64) -> (r: f64);
pub assume_specification [ f64::abs ] (x: f64) -> (r: f64);
pub assume_specification [ f64::max ] (x: f64, y: f64) -> (r: f64);
pub assume_specification [ f64::min ] (x: f64, y: f64) -> (r: f64);
pub assume_specification [ f64::mul_add ] (x: f64, y: f64, z: f64) -> (r: f64);
pub assume_specification [ f64::hypot ] (x: f64, y: f64) -> (r: f64);
pub trait Cast: Sized { spec fn to_u32(self) -> u32; fn cast_u32(self) -> (r: u32) ensures r == self.to_u32(); }
pub uninterp spec fn f64_to_u32(x: f64) -> u32;
impl Cast for f64 {
    open spec fn to_u32(self) -> u32 { f64_to_u32(self) }
    #[verifier::external_body]
    fn cast_u32(self) -> (r: u32) { self as u32 }
}
impl Cast for usize { open spec fn to_u32(self) -> u32 { self as u32 } #[verifier::truncate] fn cast_u32(self) -> (r: u32) { self as u32 } }
impl Cast for u32 { open spec fn to_u32(self) -> u32 { self } fn cast_u32(self) -> (r: u32) { self } }
impl Cast for i32 { open spec fn to_u32(self) -> u32 { self as u32 } #[verifier::truncate] fn cast_u32(self) -> (r: u32) { self as u32 } }
pub fn cast_u32<T: Cast>(x: T) -> (r: u32) ensures r == x.to_u32() { x.cast_u32() }
#end
#struct src/util/point.rs Point #[derive(Copy, Clone)]
#struct src/util/point.rs Delta #[derive(Copy, Clone)]
#raw
pub open spec fn f_add(a: f64, b: f64) -> f64 { AddSpec::add_spec(a, b) }
pub open spec fn f_sub(a: f64, b: f64) -> f64 { SubSpec::sub_spec(a, b) }
pub open spec fn f_mul(a: f64, b: f64) -> f64 { MulSpec::<f64>::mul_spec(a, b) }
pub open spec fn f_div(a: f64, b: f64) -> f64 { DivSpec::div_spec(a, b) }
impl AddSpecImpl<Delta> for Point {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Delta) -> bool { true }
    open spec fn add_spec(self, o: Delta) -> Point { Point { x: f_add(self.x, o.dx), y: f_add(self.y, o.dy) } }
}
impl SubSpecImpl<Delta> for Point {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Delta) -> bool { true }
    open spec fn sub_spec(self, o: Delta) -> Point { Point { x: f_sub(self.x, o.dx), y: f_sub(self.y, o.dy) } }
}
impl SubSpecImpl<Point> for Point {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Point) -> bool { true }
    open spec fn sub_spec(self, o: Point) -> Delta { Delta { dx: f_sub(self.x, o.x), dy: f_sub(self.y, o.y) } }
}
impl AddSpecImpl<Delta> for Delta {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Delta) -> bool { true }
    open spec fn add_spec(self, o: Delta) -> Delta { Delta { dx: f_add(self.dx, o.dx), dy: f_add(self.dy, o.dy) } }
}
impl SubSpecImpl<Delta> for Delta {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Delta) -> bool { true }
    open spec fn sub_spec(self, o: Delta) -> Delta { Delta { dx: f_sub(self.dx, o.dx), dy: f_sub(self.dy, o.dy) } }
}
impl MulSpecImpl<f64> for Delta {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: f64) -> bool { true }
    open spec fn mul_spec(self, o: f64) -> Delta { Delta { dx: f_mul(self.dx, o), dy: f_mul(self.dy, o) } }
}
impl MulSpecImpl<Delta> for f64 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Delta) -> bool { true }
    open spec fn mul_spec(self, o: Delta) -> Delta { Delta { dx: f_mul(o.dx, self), dy: f_mul(o.dy, self) } }
}
impl DivSpecImpl<f64> for Delta {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: f64) -> bool { true }
    open spec fn div_spec(self, o: f64) -> Delta { Delta { dx: f_div(self.dx, o), dy: f_div(self.dy, o) } }
}
#end
#impl src/util/point.rs Add<Delta> for Point
#fn src/util/point.rs add
@entry
        proof { f64_total(); f64_ops(self.x, delta.dx); f64_ops(self.y, delta.dy); }
#endimpl
#impl src/util/point.rs Sub<Delta> for Point
#fn src/util/point.rs sub
@entry
        proof { f64_total(); f64_ops(self.x, delta.dx); f64_ops(self.y, delta.dy); }
#endimpl
#impl src/util/point.rs Sub<Point> for Point
#fn src/util/point.rs sub
@entry
        proof { f64_total(); f64_ops(self.x, other.x); f64_ops(self.y, other.y); }
#endimpl
#impl src/util/point.rs Add<Delta> for Delta
#fn src/util/point.rs add
@entry
        proof { f64_total(); f64_ops(self.dx, delta.dx); f64_ops(self.dy, delta.dy); }
#endimpl
#impl src/util/point.rs Sub<Delta> for Delta
#fn src/util/point.rs sub
@entry
        proof { f64_total(); f64_ops(self.dx, delta.dx); f64_ops(self.dy, delta.dy); }
#endimpl
#impl src/util/point.rs Mul<f64> for Delta
#fn src/util/point.rs mul
@entry
        proof { f64_total(); f64_ops(self.dx, scalar); f64_ops(self.dy, scalar); }
#endimpl
#impl src/util/point.rs Mul<Delta> for f64
#fn src/util/point.rs mul
@entry
        proof { f64_total(); f64_ops(delta.dx, self); f64_ops(delta.dy, self); }
#endimpl
#impl src/util/point.rs Div<f64> for Delta
#fn src/util/point.rs div
@entry
        proof { f64_total(); f64_ops(self.dx, scalar); f64_ops(self.dy, scalar); }
#endimpl
#raw
}
#end
