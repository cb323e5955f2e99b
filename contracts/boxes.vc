#raw
verus! {
// ---------------------------------------------------------------- boxed closures: calling the box is calling the closure (assumed)
#[verifier::external_body]
pub struct MaskBox { f: Box<dyn Fn(u32, u32) -> bool> }
impl MaskBox {
    pub uninterp spec fn req(&self, a: u32, b: u32) -> bool;
    pub uninterp spec fn ens(&self, a: u32, b: u32, r: bool) -> bool;
    #[verifier::external_body]
    pub fn new<F: Fn(u32, u32) -> bool + 'static>(f: F) -> (r: MaskBox)
        ensures forall|a: u32, b: u32| #[trigger] r.req(a, b) <== call_requires(f, (a, b)),
            forall|a: u32, b: u32, o: bool| #[trigger] r.ens(a, b, o) ==> call_ensures(f, (a, b), o),
    { MaskBox { f: Box::new(f) } }
    #[verifier::external_body]
    pub fn call(&self, a: u32, b: u32) -> (r: bool)
        requires self.req(a, b),
        ensures self.ens(a, b, r),
    { (self.f)(a, b) }
}
#[verifier::external_body]
pub struct QRMaskBox { f: Box<dyn Fn(&QRData, u32, u32) -> u8> }
impl QRMaskBox {
    pub uninterp spec fn req(&self, q: &QRData, a: u32, b: u32) -> bool;
    pub uninterp spec fn ens(&self, q: &QRData, a: u32, b: u32, r: u8) -> bool;
    #[verifier::external_body]
    pub fn new<F: Fn(&QRData, u32, u32) -> u8 + 'static>(f: F) -> (r: QRMaskBox)
        ensures forall|q: &QRData, a: u32, b: u32| #[trigger] r.req(q, a, b) <== call_requires(f, (q, a, b)),
            forall|q: &QRData, a: u32, b: u32, o: u8| #[trigger] r.ens(q, a, b, o) ==> call_ensures(f, (q, a, b), o),
    { QRMaskBox { f: Box::new(f) } }
    #[verifier::external_body]
    pub fn call(&self, q: &QRData, a: u32, b: u32) -> (r: u8)
        requires self.req(q, a, b),
        ensures self.ens(q, a, b, r),
    { (self.f)(q, a, b) }
}
/// a box that applies mask m
pub open spec fn applies(b: &QRMaskBox, m: u8) -> bool {
    (forall|q: &QRData, x: u32, y: u32| in_matrix(q, x as int, y as int) && x < 200 && y < 200 ==> #[trigger] b.req(q, x, y))
    && (forall|q: &QRData, x: u32, y: u32, r: u8| in_matrix(q, x as int, y as int) && x < 200 && y < 200 && #[trigger] b.ens(q, x, y, r) ==> r == unmasked(q, m, x as int, y as int))
}
}
#end
