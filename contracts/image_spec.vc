#raw
verus! {
// ---------------------------------------------------------------- the image crate, as far as it is used: assumed contracts
/// one grey value
pub struct Luma { pub v: [u8; 1] }
impl Luma {
    pub open spec fn spec_index(&self, i: int) -> u8 { self.v[i] }
    #[verifier::external_body]
    pub fn channels(&self) -> (r: &[u8]) ensures r@ == self.v@ { &self.v }
    #[verifier::external_body]
    pub fn channels_mut(&mut self) -> (r: &mut [u8]) ensures r@ == old(self).v@, final(r)@ == final(self).v@ { &mut self.v }
}
impl Index<usize> for Luma {
    type Output = u8;
    fn index(&self, i: usize) -> (r: &u8) ensures *r == self.v[i as int] { &self.v[i] }
}
impl IndexSpecImpl<usize> for Luma {
    open spec fn index_req(&self, i: &usize) -> bool { *i == 0 }
}
/// an image of width x height grey values, whose buffer holds just these
#[verifier::external_body]
pub struct GrayImage { _p: usize }
impl GrayImage {
    pub uninterp spec fn w(&self) -> int;
    pub uninterp spec fn h(&self) -> int;
    pub uninterp spec fn px(&self, x: int, y: int) -> u8;
    pub open spec fn inside(&self, x: int, y: int) -> bool { 0 <= x < self.w() && 0 <= y < self.h() }
    pub axiom fn sides(&self) ensures 0 <= self.w() <= u32::MAX, 0 <= self.h() <= u32::MAX;
    #[verifier::external_body]
    pub fn new(w: u32, h: u32) -> (r: GrayImage)
        requires w * h <= usize::MAX,
        ensures r.w() == w, r.h() == h, forall|x: int, y: int| r.inside(x, y) ==> r.px(x, y) == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn dimensions(&self) -> (r: (u32, u32)) ensures r.0 == self.w(), r.1 == self.h() { unimplemented!() }
    #[verifier::external_body]
    pub fn width(&self) -> (r: u32) ensures r == self.w() { unimplemented!() }
    #[verifier::external_body]
    pub fn height(&self) -> (r: u32) ensures r == self.h() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_pixel(&self, x: u32, y: u32) -> (r: &Luma)
        requires self.inside(x as int, y as int),
        ensures r.v@ == seq![self.px(x as int, y as int)],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_pixel_checked(&self, x: u32, y: u32) -> (r: Option<&Luma>)
        ensures r is Some == self.inside(x as int, y as int), r is Some ==> r->Some_0.v@ == seq![self.px(x as int, y as int)],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_pixel_mut(&mut self, x: u32, y: u32) -> (r: &mut Luma)
        requires old(self).inside(x as int, y as int),
        ensures r.v@ == seq![old(self).px(x as int, y as int)], final(self).w() == old(self).w(), final(self).h() == old(self).h(),
            forall|i: int, j: int| old(self).inside(i, j) ==> #[trigger] final(self).px(i, j) == if i == x && j == y { final(r).v[0] } else { old(self).px(i, j) },
    { unimplemented!() }
    /// all pixels, row by row
    #[verifier::external_body]
    pub fn enumerate_pixels(&self) -> (r: EnumeratePixels<'_>) ensures r.img() == self, r.pos() == 0 { unimplemented!() }
    /// the positions of the pixels, row by row
    #[verifier::external_body]
    pub fn positions(&self) -> (r: Positions) ensures r.w() == self.w(), r.h() == self.h(), r.pos() == 0 { unimplemented!() }
}
/// the n-th position of an image of width w
pub open spec fn column(w: int, n: int) -> int { n % w }
pub open spec fn line(w: int, n: int) -> int { n / w }
#[verifier::external_body]
pub struct EnumeratePixels<'a> { _p: &'a usize }
impl<'a> EnumeratePixels<'a> {
    pub uninterp spec fn img(&self) -> &'a GrayImage;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(u32, u32, &'a Luma)>)
        ensures final(self).img() == old(self).img(),
            r is Some == (old(self).pos() < old(self).img().w() * old(self).img().h()),
            r is None ==> final(self).pos() == old(self).pos(),
            r is Some ==> final(self).pos() == old(self).pos() + 1
                && r->Some_0.0 == column(old(self).img().w(), old(self).pos()) && r->Some_0.1 == line(old(self).img().w(), old(self).pos())
                && r->Some_0.2.v@ == seq![old(self).img().px(r->Some_0.0 as int, r->Some_0.1 as int)],
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Positions { _p: usize }
impl Positions {
    pub uninterp spec fn w(&self) -> int;
    pub uninterp spec fn h(&self) -> int;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(u32, u32)>)
        ensures final(self).w() == old(self).w(), final(self).h() == old(self).h(),
            r is Some == (old(self).pos() < old(self).w() * old(self).h()),
            r is None ==> final(self).pos() == old(self).pos(),
            r is Some ==> final(self).pos() == old(self).pos() + 1
                && r->Some_0.0 == column(old(self).w(), old(self).pos()) && r->Some_0.1 == line(old(self).w(), old(self).pos()),
    { unimplemented!() }
}
pub proof fn lemma_position(w: int, h: int, n: int)
    requires 0 <= n < w * h, w >= 0, h >= 0,
    ensures 0 <= column(w, n) < w, 0 <= line(w, n) < h, n == line(w, n) * w + column(w, n),
{
    assert(w > 0) by (nonlinear_arith) requires n >= 0, n < w * h, w >= 0, h >= 0;
    assert(0 <= n % w < w && n == (n / w) * w + n % w && 0 <= n / w) by (nonlinear_arith) requires w > 0, n >= 0;
    assert(n / w < h) by (nonlinear_arith) requires n == (n / w) * w + n % w, n % w >= 0, n < w * h, w > 0;
}
}
#end
