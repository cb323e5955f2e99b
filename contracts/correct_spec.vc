#raw
verus! {
// ---------------------------------------------------------------- Reed-Solomon codewords (ISO/IEC 18004 7.5, annex A)
/// a block read as a polynomial: the last byte is the coefficient of x^0
pub open spec fn rev(b: Seq<u8>) -> Seq<u8> { Seq::new(b.len(), |k: int| b[b.len() - 1 - k]) }
/// value at the i-th power of the primitive element of the first n terms of the polynomial y
pub open spec fn ssum(y: Seq<u8>, i: int, n: int) -> u8
    decreases n
{ if n <= 0 { 0 } else { ssum(y, i, n - 1) ^ gm8(y[n - 1], al8((i * (n - 1)) as nat)) } }
pub open spec fn synd(b: Seq<u8>, i: int) -> u8 { ssum(rev(b), i, b.len() as int) }
/// a codeword with e check bytes: a multiple of (x - 1)(x - a)...(x - a^(e-1))
pub open spec fn is_codeword(b: Seq<u8>, e: int) -> bool { forall|i: int| 0 <= i < e ==> #[trigger] synd(b, i) == 0 }
pub open spec fn xs(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |k: int| a[k] ^ b[k]) }
/// number of non-zero terms among the first n
pub open spec fn wt(y: Seq<u8>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { wt(y, n - 1) + (if y[n - 1] != 0 { 1int } else { 0 }) } }
pub open spec fn ones8(a: u8) -> int {
    (a & 1) as int + ((a >> 1u8) & 1) as int + ((a >> 2u8) & 1) as int + ((a >> 3u8) & 1) as int + ((a >> 4u8) & 1) as int + ((a >> 5u8) & 1) as int + ((a >> 6u8) & 1) as int + ((a >> 7u8) & 1) as int
}
pub open spec fn bsum(y: Seq<u8>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { bsum(y, n - 1) + ones8(y[n - 1]) } }
/// number of bytes in which two blocks differ
pub open spec fn dist(b: Seq<u8>, c: Seq<u8>) -> int { wt(xs(rev(b), rev(c)), b.len() as int) }
/// number of bits in which two blocks differ
pub open spec fn bit_dist(b: Seq<u8>, c: Seq<u8>) -> int { bsum(xs(rev(b), rev(c)), b.len() as int) }
/// c is a codeword that differs from b in at most cap bytes
pub open spec fn near_codeword(b: Seq<u8>, c: Seq<u8>, e: int, cap: int) -> bool { c.len() == b.len() && is_codeword(c, e) && dist(b, c) <= cap }
/// what the correction needs to know about a block description; the block lists of all versions and levels have it
pub open spec fn block_ok(b: &BlockInfo) -> bool { 1 <= b.data_per < b.total_per && b.total_per <= 255 && 1 <= b.ec_cap && 2 * b.ec_cap <= b.total_per - b.data_per }
}
#end
