#raw
verus! {
// ---------------------------------------------------------------- the field of order 16: bytes modulo the primitive polynomial
/// multiplication by the primitive element
pub open spec fn xt4(a: u8) -> u8 { if a & 8u8 != 0u8 { (a << 1u8) ^ 0x13u8 } else { a << 1u8 } }
/// k steps of shift-and-add multiplication
pub open spec fn mulk4(a: u8, b: u8, k: nat) -> u8
    decreases k
{ if k == 0 { 0u8 } else { (if b & 1u8 == 1u8 { a } else { 0u8 }) ^ mulk4(xt4(a), b >> 1u8, (k - 1) as nat) } }
/// the product
#[verifier::opaque]
#[verifier::memoize]
pub open spec fn gm4(a: u8, b: u8) -> u8 { mulk4(a, b, 4) }
pub open spec fn xtn4(i: nat, a: u8) -> u8
    decreases i
{ if i == 0 { a } else { xt4(xtn4((i - 1) as nat, a)) } }
/// the i-th power of the primitive element
#[verifier::memoize]
pub open spec fn al4(i: nat) -> u8 { xtn4(i, 1u8) }
pub open spec fn el4(a: u8) -> bool { a & 0xf0u8 == 0u8 }
}
#end
