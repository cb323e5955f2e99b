#raw
verus! {
// ---------------------------------------------------------------- what the debug pictures use of the image crate and of std: assumed contracts
pub fn min(a: u32, b: u32) -> (r: u32) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn max(a: u32, b: u32) -> (r: u32) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
impl GrayImage {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: GrayImage) ensures r.w() == self.w(), r.h() == self.h() { unimplemented!() }
}
pub struct Rgb<T>(pub [T; 3]);
#[verifier::external_body]
pub struct RgbImage { _p: usize }
impl RgbImage {
    pub uninterp spec fn w(&self) -> int;
    pub uninterp spec fn h(&self) -> int;
    #[verifier::external_body]
    pub fn dimensions(&self) -> (r: (u32, u32)) ensures r.0 == self.w(), r.1 == self.h() { unimplemented!() }
    #[verifier::external_body]
    pub fn width(&self) -> (r: u32) ensures r == self.w() { unimplemented!() }
    #[verifier::external_body]
    pub fn height(&self) -> (r: u32) ensures r == self.h() { unimplemented!() }
    #[verifier::external_body]
    pub fn put_pixel(&mut self, x: u32, y: u32, p: Rgb<u8>)
        requires 0 <= x < old(self).w(), 0 <= y < old(self).h(),
        ensures final(self).w() == old(self).w(), final(self).h() == old(self).h(),
    { unimplemented!() }
}
pub enum DynamicImage { ImageLuma8(GrayImage), ImageRgb8(RgbImage) }
pub struct SaveError { }
impl DynamicImage {
    #[verifier::external_body]
    pub fn to_rgb8(&self) -> (r: RgbImage) ensures self matches DynamicImage::ImageLuma8(g) ==> r.w() == g.w() && r.h() == g.h() { unimplemented!() }
    /// writes a file or says why not
    #[verifier::external_body]
    pub fn save(&self, p: PathBuf) -> (r: Result<(), SaveError>) { unimplemented!() }
}
pub struct PathBuf { }
pub trait PathPart { }
impl PathPart for &str { }
impl PathPart for String { }
impl PathBuf {
    pub fn push<T: PathPart>(&mut self, t: T) { }
    pub fn clone(&self) -> PathBuf { PathBuf { } }
}
#[verifier::external_body]
pub fn temp_dir() -> PathBuf { unimplemented!() }
#[verifier::external_body]
pub fn create_dir_all(p: PathBuf) -> (r: Result<(), SaveError>) { unimplemented!() }
#[verifier::external_body]
pub fn file_name() -> String { unimplemented!() }
}
#end
