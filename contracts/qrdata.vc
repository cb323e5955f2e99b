#raw
use std::ops::*;
use vstd::std_specs::ops::*;
#end
#include qrdata_spec.vc
#raw
verus! {
#end
#fn src/util/qr.rs QRData::new
@ret r
@spec
    requires version <= (u32::MAX - 17) / 4,
    ensures r.data@ == data@, r.version == version, r.side == 4 * version + 17,
#impl src/util/qr.rs Index<[u32; 2]> for QRData
#fn src/util/qr.rs index
@ret r
@spec
    ensures *r == module(self, index@[0] as int, index@[1] as int),
@entry
        proof { assert(self.data.len() <= usize::MAX); assert(index@[1] * self.side >= 0) by (nonlinear_arith); }
#endimpl
#raw
pub fn use_index(q: &QRData, x: u32, y: u32) -> (r: u8)
    requires in_matrix(q, x as int, y as int),
    ensures r == module(q, x as int, y as int),
{ q[[x, y]] }
}
#end
