#raw
verus! {
#end
#struct src/util/qr.rs QRLocation
#struct src/extract/qr/mod.rs QRExtractor
#raw
/// a pixel of the image
pub open spec fn is_pixel(g: &GrayImage, v: u8) -> bool { exists|x: int, y: int| g.inside(x, y) && v == #[trigger] g.px(x, y) }
/// a full matrix of pixels of the image, for the version of the location
pub open spec fn is_matrix(g: &GrayImage, v: u32, q: &QRData) -> bool {
    q.version == v && q.side == 4 * v + 17 && v <= 40 && q.data@.len() == q.side * q.side && forall|k: int| 0 <= k < q.data@.len() ==> is_pixel(g, #[trigger] q.data@[k])
}
pub open spec fn extract_ens(g: &GrayImage, loc: QRLocation, r: &Result<QRData, QRError>) -> bool { r matches Ok(q) ==> is_matrix(g, loc.version, &q) }
}
#end
