#raw
verus! {
#end
#struct src/util/qr.rs QRLocation
#struct src/detect/mod.rs Location
#struct src/detect/linescan.rs LineScan
#raw
/// sides of at most 2^28 pixels
pub open spec fn detect_req(g: &GrayImage) -> bool { 0 <= g.w() <= 0x1000_0000 && 0 <= g.h() <= 0x1000_0000 }
/// a point that is not right of or below the image
pub open spec fn on(g: &GrayImage, p: Point) -> bool { within(p.x, -0x1000_0000, g.w() - 1) && within(p.y, -0x1000_0000, g.h() - 1) }
/// the corners of a code are three points of which the first is in the angle
pub open spec fn corners(q: QRLocation, a: Point, b: Point, c: Point) -> bool {
    q.top_left == a && (q.top_right == b && q.bottom_left == c || q.top_right == c && q.bottom_left == b)
}
pub open spec fn trio(q: QRLocation, a: Point, b: Point, c: Point) -> bool { corners(q, a, b, c) || corners(q, b, a, c) || corners(q, c, a, b) }
pub open spec fn differ(i: int, j: int, k: int) -> bool { i != j && j != k && i != k }
/// a version, and three different ones of the candidates as corners
pub open spec fn plausible(l: Location, cs: Seq<Point>) -> bool {
    (l->QR_0).version >= 1 && exists|i: int, j: int, k: int| 0 <= i < cs.len() && 0 <= j < cs.len() && 0 <= k < cs.len() && differ(i, j, k) && #[trigger] trio(l->QR_0, cs[i], cs[j], cs[k])
}
pub open spec fn candidates_of(g: &GrayImage, cs: Seq<Point>) -> bool { forall|i: int| 0 <= i < cs.len() ==> on(g, #[trigger] cs[i]) }
pub open spec fn detect_ens(g: &GrayImage, ls: Seq<Location>) -> bool {
    exists|cs: Seq<Point>| #[trigger] candidates_of(g, cs) && forall|n: int| 0 <= n < ls.len() ==> plausible(#[trigger] ls[n], cs)
}
}
#end
