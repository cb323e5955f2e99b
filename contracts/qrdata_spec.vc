#raw
use vstd::std_specs::core::*;
verus! {
#end
#struct src/util/qr.rs QRData
#struct src/util/qr.rs ECLevel #[derive(PartialEq, Eq)]
#raw
/// module (x, y) of a matrix: 1 for black (grey value 0), 0 for anything else; row-major
pub open spec fn module(q: &QRData, x: int, y: int) -> u8 { if q.data@[y * q.side + x] == 0 { 1 } else { 0 } }
/// the lookup stays inside the vector and inside the number types
pub open spec fn in_matrix(q: &QRData, x: int, y: int) -> bool {
    0 <= x && 0 <= y && y * q.side + x < q.data@.len()
}
impl IndexSpecImpl<[u32; 2]> for QRData {
    open spec fn index_req(&self, index: &[u32; 2]) -> bool { in_matrix(self, index@[0] as int, index@[1] as int) }
}
}
#end
