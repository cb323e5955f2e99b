#include gf8_spec.vc
#raw
verus! {
pub proof fn lemma_xt8_lin(a: u8, b: u8)
    ensures xt8(a ^ b) == xt8(a) ^ xt8(b), xt8(0u8) == 0u8, el8(a) ==> el8(xt8(a)),
{
    assert(xt8(a ^ b) == xt8(a) ^ xt8(b)) by (bit_vector);
    assert(xt8(0u8) == 0u8) by (bit_vector);
    assert(el8(a) ==> el8(xt8(a))) by (bit_vector);
}
pub proof fn lemma_xor8(a: u8, b: u8, c: u8, d: u8)
    ensures a ^ b == b ^ a, (a ^ b) ^ c == a ^ (b ^ c), a ^ 0u8 == a, 0u8 ^ a == a, a ^ a == 0u8, (a ^ b) ^ (c ^ d) == (a ^ c) ^ (b ^ d),
        (a ^ b == 0u8) == (a == b), (a ^ b) ^ b == a,
{
    assert(a ^ b == b ^ a) by (bit_vector);
    assert((a ^ b) ^ c == a ^ (b ^ c)) by (bit_vector);
    assert(a ^ 0u8 == a) by (bit_vector);
    assert(0u8 ^ a == a) by (bit_vector);
    assert(a ^ a == 0u8) by (bit_vector);
    assert((a ^ b) ^ (c ^ d) == (a ^ c) ^ (b ^ d)) by (bit_vector);
    assert((a ^ b == 0u8) == (a == b)) by (bit_vector);
    assert((a ^ b) ^ b == a) by (bit_vector);
}
pub proof fn lemma_mulk8(a: u8, b: u8, c: u8, k: nat)
    ensures
        mulk8(a, b ^ c, k) == mulk8(a, b, k) ^ mulk8(a, c, k),
        mulk8(a ^ b, c, k) == mulk8(a, c, k) ^ mulk8(b, c, k),
        mulk8(xt8(a), c, k) == xt8(mulk8(a, c, k)),
        mulk8(0u8, c, k) == 0u8, mulk8(a, 0u8, k) == 0u8,
        el8(a) ==> el8(mulk8(a, c, k)),
    decreases k
{
    lemma_xt8_lin(a, b);
    lemma_xt8_lin(0u8, 0u8);
    assert(0u8 ^ 0u8 == 0u8) by (bit_vector);
    if k > 0 {
        let j = (k - 1) as nat;
        lemma_mulk8(xt8(a), b >> 1u8, c >> 1u8, j);
        lemma_mulk8(xt8(a), xt8(b), c >> 1u8, j);
        lemma_mulk8(0u8, 0u8, c >> 1u8, j);
        assert((b ^ c) >> 1u8 == (b >> 1u8) ^ (c >> 1u8)) by (bit_vector);
        let x = mulk8(xt8(a), b >> 1u8, j); let y = mulk8(xt8(a), c >> 1u8, j); let z = mulk8(xt8(b), c >> 1u8, j);
        assert((if (b ^ c) & 1u8 == 1u8 { a } else { 0u8 }) ^ (x ^ y) == ((if b & 1u8 == 1u8 { a } else { 0u8 }) ^ x) ^ ((if c & 1u8 == 1u8 { a } else { 0u8 }) ^ y)) by (bit_vector);
        assert((if c & 1u8 == 1u8 { a ^ b } else { 0u8 }) ^ (y ^ z) == ((if c & 1u8 == 1u8 { a } else { 0u8 }) ^ y) ^ ((if c & 1u8 == 1u8 { b } else { 0u8 }) ^ z)) by (bit_vector);
        let s = if c & 1u8 == 1u8 { a } else { 0u8 };
        lemma_xt8_lin(s, y);
        assert(0u8 >> 1u8 == 0u8 && 0u8 & 1u8 == 0u8) by (bit_vector);
        lemma_mulk8(xt8(a), 0u8, 0u8, j);
        assert(el8(s) && el8(y) ==> el8(s ^ y)) by (bit_vector);
        assert(el8(0u8)) by (bit_vector);
    } else { assert(el8(0u8)) by (bit_vector); }
}
/// distributivity and closure
pub proof fn lemma_gm8_lin(a: u8, b: u8, c: u8)
    ensures gm8(a, b ^ c) == gm8(a, b) ^ gm8(a, c), gm8(a ^ b, c) == gm8(a, c) ^ gm8(b, c),
        gm8(xt8(a), c) == xt8(gm8(a, c)), gm8(0u8, c) == 0u8, gm8(a, 0u8) == 0u8, el8(a) ==> el8(gm8(a, c)),
{ reveal(gm8); lemma_mulk8(a, b, c, 8); }

pub proof fn lemma_gm8_unit(b: u8)
    requires el8(b),
    ensures gm8(1u8, b) == b,
{
    reveal(gm8); reveal_with_fuel(mulk8, 9);
    assert(xt8(1u8) == 2u8 && xt8(2u8) == 4u8 && xt8(4u8) == 8u8 && xt8(8u8) == 16u8 && xt8(16u8) == 32u8 && xt8(32u8) == 64u8 && xt8(64u8) == 128u8) by (bit_vector);
    assert(el8(b) ==> ((if b & 1u8 == 1u8 { 1u8 } else { 0u8 }) ^ ((if (b >> 1u8) & 1u8 == 1u8 { 2u8 } else { 0u8 }) ^ ((if ((b >> 1u8) >> 1u8) & 1u8 == 1u8 { 4u8 } else { 0u8 }) ^ ((if (((b >> 1u8) >> 1u8) >> 1u8) & 1u8 == 1u8 { 8u8 } else { 0u8 }) ^ ((if ((((b >> 1u8) >> 1u8) >> 1u8) >> 1u8) & 1u8 == 1u8 { 16u8 } else { 0u8 }) ^ ((if (((((b >> 1u8) >> 1u8) >> 1u8) >> 1u8) >> 1u8) & 1u8 == 1u8 { 32u8 } else { 0u8 }) ^ ((if ((((((b >> 1u8) >> 1u8) >> 1u8) >> 1u8) >> 1u8) >> 1u8) & 1u8 == 1u8 { 64u8 } else { 0u8 }) ^ ((if (((((((b >> 1u8) >> 1u8) >> 1u8) >> 1u8) >> 1u8) >> 1u8) >> 1u8) & 1u8 == 1u8 { 128u8 } else { 0u8 }) ^ 0u8)))))))) == b) by (bit_vector);
}
pub proof fn lemma_xtn8(i: nat, j: nat, a: u8)
    ensures xtn8(i + j, a) == xtn8(i, xtn8(j, a)), el8(a) ==> el8(xtn8(i, a)), xtn8(i, 0u8) == 0u8,
    decreases i
{ lemma_xt8_lin(xtn8((i - 1) as nat, a), 0u8); if i > 0 { lemma_xtn8((i - 1) as nat, j, a); lemma_xt8_lin(0u8, 0u8); } }
pub proof fn lemma_gm8_xtn(i: nat, b: u8)
    requires el8(b),
    ensures gm8(al8(i), b) == xtn8(i, b),
    decreases i
{
    if i == 0 { lemma_gm8_unit(b); } else { lemma_gm8_xtn((i - 1) as nat, b); lemma_gm8_lin(al8((i - 1) as nat), 0u8, b); }
}
/// exponents add up
pub proof fn lemma_al8_add(i: nat, j: nat)
    ensures gm8(al8(i), al8(j)) == al8(i + j), el8(al8(i)),
{
    assert(el8(1u8)) by (bit_vector);
    lemma_xtn8(j, 0, 1u8); lemma_xtn8(i, 0, 1u8); lemma_gm8_xtn(i, al8(j)); lemma_xtn8(i, j, 1u8);
}
/// the primitive element has order 255
pub proof fn lemma_al8_period(i: nat)
    ensures al8(i + 255) == al8(i), al8(255) == 1u8,
{ assert(al8(255) == 1u8) by (compute_only); lemma_xtn8(i, 255, 1u8); }
pub proof fn lemma_al8_mod(i: nat)
    ensures al8(i) == al8(i % 255),
    decreases i
{ if i >= 255 { lemma_al8_period((i - 255) as nat); lemma_al8_mod((i - 255) as nat); } }
#end
#struct src/decode/qr/galois.rs GF8 #[derive(Copy, Clone, PartialEq, Eq)]
#const src/decode/qr/galois.rs EXP8 #[verifier::opaque]
#const src/decode/qr/galois.rs LOG8 #[verifier::opaque]
#raw
impl PartialEqSpecImpl for GF8 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, rhs: &GF8) -> bool { self.0 == rhs.0 }
}
// ---------------------------------------------------------------- the tables
pub open spec fn exp8_ok(n: nat) -> bool
    decreases n
{ n == 0 || (exp8_ok((n - 1) as nat) && EXP8[(n - 1) as int].0 == al8((n - 1) as nat)) }
pub open spec fn log8_ok(n: nat) -> bool
    decreases n
{ n <= 1 || (log8_ok((n - 1) as nat) && LOG8[(n - 1) as int] < 255 && EXP8[LOG8[(n - 1) as int] as int].0 == n - 1) }
pub open spec fn inv8_ok(n: nat) -> bool
    decreases n
{ n == 0 || (inv8_ok((n - 1) as nat) && 0 < EXP8[(n - 1) as int].0 < 256 && LOG8[EXP8[(n - 1) as int].0 as int] == n - 1) }
pub proof fn lemma_tables8_upto(n: nat)
    ensures exp8_ok(n) ==> forall|i: int| 0 <= i < n ==> #[trigger] EXP8[i].0 == al8(i as nat),
        log8_ok(n) ==> forall|a: int| 1 <= a < n ==> #[trigger] LOG8[a] < 255 && EXP8[LOG8[a] as int].0 == a,
        inv8_ok(n) ==> forall|i: int| 0 <= i < n ==> #[trigger] EXP8[i].0 != 0 && EXP8[i].0 < 256 && LOG8[EXP8[i].0 as int] == i,
    decreases n
{ if n > 0 { lemma_tables8_upto((n - 1) as nat); } }
/// EXP8 and LOG8 are the powers of the primitive element and their inverse
pub proof fn lemma_tables8()
    ensures forall|i: int| 0 <= i < 255 ==> #[trigger] EXP8[i].0 == al8(i as nat),
        forall|a: int| 1 <= a < 256 ==> #[trigger] LOG8[a] < 255 && al8(LOG8[a] as nat) == a,
        forall|i: int| 0 <= i < 255 ==> #[trigger] EXP8[i].0 != 0 && EXP8[i].0 < 256 && LOG8[EXP8[i].0 as int] == i,
        EXP8[255].0 == 0, LOG8[0] <= 255,
{
    assert(LOG8[0] <= 255) by (compute_only);
    assert(exp8_ok(255)) by (compute_only);
    assert(log8_ok(256)) by (compute_only);
    assert(inv8_ok(255)) by (compute_only);
    assert(EXP8[255].0 == 0) by (compute_only);
    lemma_tables8_upto(255);
    lemma_tables8_upto(256);
    assert forall|a: int| 1 <= a < 256 implies #[trigger] LOG8[a] < 255 && al8(LOG8[a] as nat) == a by {
        let i = LOG8[a] as int;
        assert(EXP8[i].0 == al8(i as nat));
    }
}
pub open spec fn lg8(a: u8) -> nat { LOG8[a as int] as nat }
/// every non-zero element is a power of the primitive element
pub proof fn lemma_lg8(a: u8)
    requires el8(a), a != 0,
    ensures lg8(a) < 255, al8(lg8(a)) == a,
{ lemma_tables8(); lemma_el8(a); assert(LOG8[a as int] < 255); }
pub proof fn lemma_el8(a: u8)
    ensures el8(a) ==> a < 256, a < 256 ==> el8(a),
{ assert(el8(a)) by (bit_vector); }
pub proof fn lemma_lg8_al(i: nat)
    requires i < 255,
    ensures lg8(al8(i)) == i, al8(i) != 0, el8(al8(i)),
{ lemma_tables8(); assert(EXP8[i as int].0 == al8(i)); lemma_al8_add(i, 0); }
/// commutative, associative, unit, no zero divisors
pub proof fn lemma_gm8_field(a: u8, b: u8, c: u8)
    requires el8(a), el8(b), el8(c),
    ensures gm8(a, b) == gm8(b, a), gm8(gm8(a, b), c) == gm8(a, gm8(b, c)), gm8(a, 1u8) == a, gm8(1u8, a) == a,
        a != 0 && b != 0 ==> gm8(a, b) != 0, gm8(a, 0u8) == 0u8, gm8(0u8, a) == 0u8, gm8(0u8, b) == 0u8, el8(gm8(a, b)),
{
    lemma_gm8_lin(a, 0u8, b); lemma_gm8_lin(b, 0u8, a); lemma_gm8_lin(0u8, 0u8, c); lemma_gm8_lin(a, 0u8, c); lemma_gm8_lin(b, 0u8, c);
    lemma_gm8_lin(c, 0u8, a); lemma_gm8_lin(gm8(a, b), 0u8, c); lemma_gm8_lin(a, 0u8, gm8(b, c));
    lemma_gm8_unit(a); lemma_gm8_lin(0u8, 0u8, 1u8);
    assert(al8(0) == 1u8);
    if a != 0 {
        lemma_lg8(a);
        lemma_al8_add(lg8(a), 0);
        if b != 0 {
            lemma_lg8(b);
            let i = lg8(a); let j = lg8(b);
            lemma_al8_add(i, j); lemma_al8_add(j, i);
            lemma_al8_mod(i + j); lemma_lg8_al((i + j) % 255);
            if c != 0 {
                lemma_lg8(c);
                let k = lg8(c);
                lemma_al8_add(i + j, k); lemma_al8_add(j, k); lemma_al8_add(i, j + k);
                assert((i + j) + k == i + (j + k));
            }
        }
    }
}
// ---------------------------------------------------------------- the operators
impl AddSpecImpl<GF8> for GF8 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: GF8) -> bool { true }
    open spec fn add_spec(self, rhs: GF8) -> GF8 { GF8(self.0 ^ rhs.0) }
}
impl SubSpecImpl<GF8> for GF8 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: GF8) -> bool { true }
    open spec fn sub_spec(self, rhs: GF8) -> GF8 { GF8(self.0 ^ rhs.0) }
}
impl MulSpecImpl<GF8> for GF8 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: GF8) -> bool { el8(self.0) && el8(rhs.0) }
    open spec fn mul_spec(self, rhs: GF8) -> GF8 { GF8(gm8(self.0, rhs.0)) }
}
/// the quotient; a quotient by zero is left open except that it is an element
pub open spec fn is_quot8(a: u8, b: u8, r: u8) -> bool { el8(r) && (a == 0 ==> r == 0) && (b != 0 ==> gm8(r, b) == a) }
impl DivSpecImpl<GF8> for GF8 {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, rhs: GF8) -> bool { el8(self.0) && el8(rhs.0) }
    open spec fn div_spec(self, rhs: GF8) -> GF8 { arbitrary() }
}
#end
#impl src/decode/qr/galois.rs Add<GF8> for GF8
#fn src/decode/qr/galois.rs add
#endimpl
#impl src/decode/qr/galois.rs Sub<GF8> for GF8
#fn src/decode/qr/galois.rs sub
#endimpl
#impl src/decode/qr/galois.rs Mul<GF8> for GF8
#fn src/decode/qr/galois.rs mul
@ret r
@entry
        proof {
            assert(el8(0u8)) by (bit_vector); lemma_tables8(); lemma_el8(self.0); lemma_el8(other.0); lemma_gm8_field(self.0, other.0, 0u8);
            if self.0 != 0 && other.0 != 0 {
                lemma_lg8(self.0); lemma_lg8(other.0);
                lemma_al8_add(lg8(self.0), lg8(other.0)); lemma_al8_mod(lg8(self.0) + lg8(other.0));
                assert(EXP8[((lg8(self.0) + lg8(other.0)) % 255) as int].0 == al8((lg8(self.0) + lg8(other.0)) % 255));
            }
        }
#endimpl
#impl src/decode/qr/galois.rs Div<GF8> for GF8
#fn src/decode/qr/galois.rs div
@sub `i16::from(..)` => `($ARGS as i16)`
@ret r
@spec
    ensures is_quot8(self.0, other.0, r.0),
@entry
        proof {
            assert(el8(0u8)) by (bit_vector); lemma_tables8(); lemma_el8(self.0); lemma_el8(other.0); lemma_gm8_field(self.0, other.0, 0u8);
            lemma_gm8_lin(0u8, 0u8, other.0);
            assert(el8(0u8)) by (bit_vector);
            lemma_al8_add(0, 0);
            assert forall|i: int| 0 <= i < 255 implies #[trigger] el8(EXP8[i].0) by { lemma_el8(EXP8[i].0); }
            if self.0 != 0 && other.0 != 0 {
                lemma_lg8(self.0); lemma_lg8(other.0);
                let i = lg8(self.0); let j = lg8(other.0);
                let d = if i >= j { i - j } else { i - j + 255 };
                lemma_al8_add(d as nat, j);
                if i < j { lemma_al8_period(i); assert(d as nat + j == i + 255); }
                assert(EXP8[d].0 == al8(d as nat));
            }
        }
#endimpl
#raw
}
#end
