#raw
verus! {
#end
#struct src/prepare/blockedmean.rs BlockSize #[derive(Copy, Clone)]
#struct src/prepare/blockedmean.rs BlockedMean
#raw
// ---------------------------------------------------------------- the image to prepare
pub struct Rgba<T> { pub v: [T; 4] }
/// the image crate's view of an image: assumed to show the same image at every call
pub trait GenericImageView {
    type Pixel;
    spec fn w(&self) -> int;
    spec fn h(&self) -> int;
    spec fn at(&self, x: int, y: int) -> Self::Pixel;
    fn width(&self) -> (r: u32) ensures r == self.w();
    fn height(&self) -> (r: u32) ensures r == self.h();
}
/// the grey value of a colour
pub uninterp spec fn luma_of(p: Rgba<u8>) -> u8;
#[verifier::external_body]
pub fn grayscale<D: GenericImageView<Pixel = Rgba<u8>>>(image: &D) -> (r: GrayImage)
    requires image.w() * image.h() <= usize::MAX,
    ensures r.w() == image.w(), r.h() == image.h(), forall|x: int, y: int| r.inside(x, y) ==> #[trigger] r.px(x, y) == luma_of(image.at(x, y)),
{ unimplemented!() }
/// the grid: block number of a pixel, in each direction, for blocks of b x b pixels
pub open spec fn same_block(b: int, x: int, y: int, i: int, j: int) -> bool { x / b == i / b && y / b == j / b }
/// pure black and white
pub open spec fn bilevel(g: &GrayImage) -> bool { forall|x: int, y: int| g.inside(x, y) ==> #[trigger] g.px(x, y) == 0 || g.px(x, y) == 255 }
/// within a block, a pixel at least as bright as a white one is white
pub open spec fn monotone(b: int, o: &GrayImage, n: &GrayImage) -> bool {
    forall|x: int, y: int, i: int, j: int| o.inside(x, y) && o.inside(i, j) && same_block(b, x, y, i, j) && o.px(x, y) <= o.px(i, j) && n.px(x, y) == 255 ==> #[trigger] n.px(i, j) == 255 || #[trigger] n.px(x, y) != 255
}
pub open spec fn blocks_of_side(w: int, b: int) -> int { w / b + 1 }
/// the parameters make sense and the numbers of pixels and of blocks are within the number types
pub open spec fn prepare_req<D: GenericImageView<Pixel = Rgba<u8>>>(s: &BlockedMean, i: &D) -> bool {
    s.block_size.0 >= 1 && s.block_mean_size.0 >= 1 && 0 <= i.w() <= u32::MAX && 0 <= i.h() <= u32::MAX && i.w() * i.h() <= 0x10_0000_0000 && i.w() * i.h() <= usize::MAX
    && blocks_of_side(i.w(), s.block_size.0 as int) + s.block_mean_size.0 / 2 <= u32::MAX && blocks_of_side(i.h(), s.block_size.0 as int) + s.block_mean_size.0 / 2 <= u32::MAX
    && blocks_of_side(i.w(), s.block_size.0 as int) * blocks_of_side(i.h(), s.block_size.0 as int) <= u32::MAX
}
pub open spec fn prepare_ens<D: GenericImageView<Pixel = Rgba<u8>>>(s: &BlockedMean, i: &D, r: &GrayImage) -> bool {
    r.w() == i.w() && r.h() == i.h() && bilevel(r)
    && forall|x: int, y: int, k: int, l: int| #![trigger r.px(x, y), r.px(k, l)] r.inside(x, y) && r.inside(k, l) && same_block(s.block_size.0 as int, x, y, k, l)
        && luma_of(i.at(x, y)) <= luma_of(i.at(k, l)) && r.px(x, y) == 255 ==> r.px(k, l) == 255
}
}
#end
