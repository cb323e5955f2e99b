#raw
verus! {
// ---------------------------------------------------------------- the field of order 256: bytes modulo the primitive polynomial
/// multiplication by the primitive element
pub open spec fn xt8(a: u8) -> u8 { if a & 0x80u8 != 0u8 { (a << 1u8) ^ 0x1du8 } else { a << 1u8 } }
/// k steps of shift-and-add multiplication
pub open spec fn mulk8(a: u8, b: u8, k: nat) -> u8
    decreases k
{ if k == 0 { 0u8 } else { (if b & 1u8 == 1u8 { a } else { 0u8 }) ^ mulk8(xt8(a), b >> 1u8, (k - 1) as nat) } }
/// the product
#[verifier::opaque]
#[verifier::memoize]
pub open spec fn gm8(a: u8, b: u8) -> u8 { mulk8(a, b, 8) }
pub open spec fn xtn8(i: nat, a: u8) -> u8
    decreases i
{ if i == 0 { a } else { xt8(xtn8((i - 1) as nat, a)) } }
/// the i-th power of the primitive element
#[verifier::memoize]
pub open spec fn al8(i: nat) -> u8 { xtn8(i, 1u8) }
pub open spec fn el8(a: u8) -> bool { a & 0u8 == 0u8 }
}
#end
