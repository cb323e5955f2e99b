#include gf4_spec.vc
#raw
verus! {
pub proof fn lemma_xt4_lin(a: u8, b: u8)
    ensures xt4(a ^ b) == xt4(a) ^ xt4(b), xt4(0u8) == 0u8, el4(a) ==> el4(xt4(a)),
{
    assert(xt4(a ^ b) == xt4(a) ^ xt4(b)) by (bit_vector);
    assert(xt4(0u8) == 0u8) by (bit_vector);
    assert(el4(a) ==> el4(xt4(a))) by (bit_vector);
}
pub proof fn lemma_xor4(a: u8, b: u8, c: u8, d: u8)
    ensures a ^ b == b ^ a, (a ^ b) ^ c == a ^ (b ^ c), a ^ 0u8 == a, 0u8 ^ a == a, a ^ a == 0u8, (a ^ b) ^ (c ^ d) == (a ^ c) ^ (b ^ d),
        (a ^ b == 0u8) == (a == b), (a ^ b) ^ b == a,
{
    assert(a ^ b == b ^ a) by (bit_vector);
    assert((a ^ b) ^ c == a ^ (b ^ c)) by (bit_vector);
    assert(a ^ 0u8 == a) by (bit_vector);
    assert(0u8 ^ a == a) by (bit_vector);
    assert(a ^ a == 0u8) by (bit_vector);
    assert((a ^ b) ^ (c ^ d) == (a ^ c) ^ (b ^ d)) by (bit_vector);
    assert((a ^ b == 0u8) == (a == b)) by (bit_vector);
    assert((a ^ b) ^ b == a) by (bit_vector);
}
pub proof fn lemma_mulk4(a: u8, b: u8, c: u8, k: nat)
    ensures
        mulk4(a, b ^ c, k) == mulk4(a, b, k) ^ mulk4(a, c, k),
        mulk4(a ^ b, c, k) == mulk4(a, c, k) ^ mulk4(b, c, k),
        mulk4(xt4(a), c, k) == xt4(mulk4(a, c, k)),
        mulk4(0u8, c, k) == 0u8, mulk4(a, 0u8, k) == 0u8,
        el4(a) ==> el4(mulk4(a, c, k)),
    decreases k
{
    lemma_xt4_lin(a, b);
    lemma_xt4_lin(0u8, 0u8);
    assert(0u8 ^ 0u8 == 0u8) by (bit_vector);
    if k > 0 {
        let j = (k - 1) as nat;
        lemma_mulk4(xt4(a), b >> 1u8, c >> 1u8, j);
        lemma_mulk4(xt4(a), xt4(b), c >> 1u8, j);
        lemma_mulk4(0u8, 0u8, c >> 1u8, j);
        assert((b ^ c) >> 1u8 == (b >> 1u8) ^ (c >> 1u8)) by (bit_vector);
        let x = mulk4(xt4(a), b >> 1u8, j); let y = mulk4(xt4(a), c >> 1u8, j); let z = mulk4(xt4(b), c >> 1u8, j);
        assert((if (b ^ c) & 1u8 == 1u8 { a } else { 0u8 }) ^ (x ^ y) == ((if b & 1u8 == 1u8 { a } else { 0u8 }) ^ x) ^ ((if c & 1u8 == 1u8 { a } else { 0u8 }) ^ y)) by (bit_vector);
        assert((if c & 1u8 == 1u8 { a ^ b } else { 0u8 }) ^ (y ^ z) == ((if c & 1u8 == 1u8 { a } else { 0u8 }) ^ y) ^ ((if c & 1u8 == 1u8 { b } else { 0u8 }) ^ z)) by (bit_vector);
        let s = if c & 1u8 == 1u8 { a } else { 0u8 };
        lemma_xt4_lin(s, y);
        assert(0u8 >> 1u8 == 0u8 && 0u8 & 1u8 == 0u8) by (bit_vector);
        lemma_mulk4(xt4(a), 0u8, 0u8, j);
        assert(el4(s) && el4(y) ==> el4(s ^ y)) by (bit_vector);
        assert(el4(0u8)) by (bit_vector);
    } else { assert(el4(0u8)) by (bit_vector); }
}
/// distributivity and closure
pub proof fn lemma_gm4_lin(a: u8, b: u8, c: u8)
    ensures gm4(a, b ^ c) == gm4(a, b) ^ gm4(a, c), gm4(a ^ b, c) == gm4(a, c) ^ gm4(b, c),
        gm4(xt4(a), c) == xt4(gm4(a, c)), gm4(0u8, c) == 0u8, gm4(a, 0u8) == 0u8, el4(a) ==> el4(gm4(a, c)),
{ reveal(gm4); lemma_mulk4(a, b, c, 4); }

pub proof fn lemma_gm4_unit(b: u8)
    requires el4(b),
    ensures gm4(1u8, b) == b,
{
    reveal(gm4); reveal_with_fuel(mulk4, 5);
    assert(xt4(1u8) == 2u8 && xt4(2u8) == 4u8 && xt4(4u8) == 8u8) by (bit_vector);
    assert(el4(b) ==> ((if b & 1u8 == 1u8 { 1u8 } else { 0u8 }) ^ ((if (b >> 1u8) & 1u8 == 1u8 { 2u8 } else { 0u8 }) ^ ((if ((b >> 1u8) >> 1u8) & 1u8 == 1u8 { 4u8 } else { 0u8 }) ^ ((if (((b >> 1u8) >> 1u8) >> 1u8) & 1u8 == 1u8 { 8u8 } else { 0u8 }) ^ 0u8)))) == b) by (bit_vector);
}
pub proof fn lemma_xtn4(i: nat, j: nat, a: u8)
    ensures xtn4(i + j, a) == xtn4(i, xtn4(j, a)), el4(a) ==> el4(xtn4(i, a)), xtn4(i, 0u8) == 0u8,
    decreases i
{ lemma_xt4_lin(xtn4((i - 1) as nat, a), 0u8); if i > 0 { lemma_xtn4((i - 1) as nat, j, a); lemma_xt4_lin(0u8, 0u8); } }
pub proof fn lemma_gm4_xtn(i: nat, b: u8)
    requires el4(b),
    ensures gm4(al4(i), b) == xtn4(i, b),
    decreases i
{
    if i == 0 { lemma_gm4_unit(b); } else { lemma_gm4_xtn((i - 1) as nat, b); lemma_gm4_lin(al4((i - 1) as nat), 0u8, b); }
}
/// exponents add up
pub proof fn lemma_al4_add(i: nat, j: nat)
    ensures gm4(al4(i), al4(j)) == al4(i + j), el4(al4(i)),
{
    assert(el4(1u8)) by (bit_vector);
    lemma_xtn4(j, 0, 1u8); lemma_xtn4(i, 0, 1u8); lemma_gm4_xtn(i, al4(j)); lemma_xtn4(i, j, 1u8);
}
/// the primitive element has order 15
pub proof fn lemma_al4_period(i: nat)
    ensures al4(i + 15) == al4(i), al4(15) == 1u8,
{ assert(al4(15) == 1u8) by (compute_only); lemma_xtn4(i, 15, 1u8); }
pub proof fn lemma_al4_mod(i: nat)
    ensures al4(i) == al4(i % 15),
    decreases i
{ if i >= 15 { lemma_al4_period((i - 15) as nat); lemma_al4_mod((i - 15) as nat); } }
#end
#struct src/decode/qr/galois.rs GF4 #[derive(Copy, Clone, PartialEq, Eq)]
#const src/decode/qr/galois.rs EXP4 #[verifier::opaque]
#const src/decode/qr/galois.rs LOG4 #[verifier::opaque]
#raw
impl PartialEqSpecImpl for GF4 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, rhs: &GF4) -> bool { self.0 == rhs.0 }
}
// ---------------------------------------------------------------- the tables
pub open spec fn exp4_ok(n: nat) -> bool
    decreases n
{ n == 0 || (exp4_ok((n - 1) as nat) && EXP4[(n - 1) as int].0 == al4((n - 1) as nat)) }
pub open spec fn log4_ok(n: nat) -> bool
    decreases n
{ n <= 1 || (log4_ok((n - 1) as nat) && LOG4[(n - 1) as int] < 15 && EXP4[LOG4[(n - 1) as int] as int].0 == n - 1) }
pub open spec fn inv4_ok(n: nat) -> bool
    decreases n
{ n == 0 || (inv4_ok((n - 1) as nat) && 0 < EXP4[(n - 1) as int].0 < 16 && LOG4[EXP4[(n - 1) as int].0 as int] == n - 1) }
pub proof fn lemma_tables4_upto(n: nat)
    ensures exp4_ok(n) ==> forall|i: int| 0 <= i < n ==> #[trigger] EXP4[i].0 == al4(i as nat),
        log4_ok(n) ==> forall|a: int| 1 <= a < n ==> #[trigger] LOG4[a] < 15 && EXP4[LOG4[a] as int].0 == a,
        inv4_ok(n) ==> forall|i: int| 0 <= i < n ==> #[trigger] EXP4[i].0 != 0 && EXP4[i].0 < 16 && LOG4[EXP4[i].0 as int] == i,
    decreases n
{ if n > 0 { lemma_tables4_upto((n - 1) as nat); } }
/// EXP4 and LOG4 are the powers of the primitive element and their inverse
pub proof fn lemma_tables4()
    ensures forall|i: int| 0 <= i < 15 ==> #[trigger] EXP4[i].0 == al4(i as nat),
        forall|a: int| 1 <= a < 16 ==> #[trigger] LOG4[a] < 15 && al4(LOG4[a] as nat) == a,
        forall|i: int| 0 <= i < 15 ==> #[trigger] EXP4[i].0 != 0 && EXP4[i].0 < 16 && LOG4[EXP4[i].0 as int] == i,
        EXP4[15].0 == 0, LOG4[0] <= 15,
{
    assert(LOG4[0] <= 15) by (compute_only);
    assert(exp4_ok(15)) by (compute_only);
    assert(log4_ok(16)) by (compute_only);
    assert(inv4_ok(15)) by (compute_only);
    assert(EXP4[15].0 == 0) by (compute_only);
    lemma_tables4_upto(15);
    lemma_tables4_upto(16);
    assert forall|a: int| 1 <= a < 16 implies #[trigger] LOG4[a] < 15 && al4(LOG4[a] as nat) == a by {
        let i = LOG4[a] as int;
        assert(EXP4[i].0 == al4(i as nat));
    }
}
pub open spec fn lg4(a: u8) -> nat { LOG4[a as int] as nat }
/// every non-zero element is a power of the primitive element
pub proof fn lemma_lg4(a: u8)
    requires el4(a), a != 0,
    ensures lg4(a) < 15, al4(lg4(a)) == a,
{ lemma_tables4(); lemma_el4(a); assert(LOG4[a as int] < 15); }
pub proof fn lemma_el4(a: u8)
    ensures el4(a) ==> a < 16, a < 16 ==> el4(a),
{ assert(el4(a) == (a < 16u8)) by (bit_vector); }
pub proof fn lemma_lg4_al(i: nat)
    requires i < 15,
    ensures lg4(al4(i)) == i, al4(i) != 0, el4(al4(i)),
{ lemma_tables4(); assert(EXP4[i as int].0 == al4(i)); lemma_al4_add(i, 0); }
/// commutative, associative, unit, no zero divisors
pub proof fn lemma_gm4_field(a: u8, b: u8, c: u8)
    requires el4(a), el4(b), el4(c),
    ensures gm4(a, b) == gm4(b, a), gm4(gm4(a, b), c) == gm4(a, gm4(b, c)), gm4(a, 1u8) == a, gm4(1u8, a) == a,
        a != 0 && b != 0 ==> gm4(a, b) != 0, gm4(a, 0u8) == 0u8, gm4(0u8, a) == 0u8, gm4(0u8, b) == 0u8, el4(gm4(a, b)),
{
    lemma_gm4_lin(a, 0u8, b); lemma_gm4_lin(b, 0u8, a); lemma_gm4_lin(0u8, 0u8, c); lemma_gm4_lin(a, 0u8, c); lemma_gm4_lin(b, 0u8, c);
    lemma_gm4_lin(c, 0u8, a); lemma_gm4_lin(gm4(a, b), 0u8, c); lemma_gm4_lin(a, 0u8, gm4(b, c));
    lemma_gm4_unit(a); lemma_gm4_lin(0u8, 0u8, 1u8);
    assert(al4(0) == 1u8);
    if a != 0 {
        lemma_lg4(a);
        lemma_al4_add(lg4(a), 0);
        if b != 0 {
            lemma_lg4(b);
            let i = lg4(a); let j = lg4(b);
            lemma_al4_add(i, j); lemma_al4_add(j, i);
            lemma_al4_mod(i + j); lemma_lg4_al((i + j) % 15);
            if c != 0 {
                lemma_lg4(c);
                let k = lg4(c);
                lemma_al4_add(i + j, k); lemma_al4_add(j, k); lemma_al4_add(i, j + k);
                assert((i + j) + k == i + (j + k));
            }
        }
    }
}
// ---------------------------------------------------------------- the operators
impl AddSpecImpl<GF4> for GF4 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: GF4) -> bool { true }
    open spec fn add_spec(self, rhs: GF4) -> GF4 { GF4(self.0 ^ rhs.0) }
}
impl SubSpecImpl<GF4> for GF4 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: GF4) -> bool { true }
    open spec fn sub_spec(self, rhs: GF4) -> GF4 { GF4(self.0 ^ rhs.0) }
}
impl MulSpecImpl<GF4> for GF4 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: GF4) -> bool { el4(self.0) && el4(rhs.0) }
    open spec fn mul_spec(self, rhs: GF4) -> GF4 { GF4(gm4(self.0, rhs.0)) }
}
/// the quotient; a quotient by zero is left open except that it is an element
pub open spec fn is_quot4(a: u8, b: u8, r: u8) -> bool { el4(r) && (a == 0 ==> r == 0) && (b != 0 ==> gm4(r, b) == a) }
impl DivSpecImpl<GF4> for GF4 {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, rhs: GF4) -> bool { el4(self.0) && el4(rhs.0) }
    open spec fn div_spec(self, rhs: GF4) -> GF4 { arbitrary() }
}
#end
#impl src/decode/qr/galois.rs Add<GF4> for GF4
#fn src/decode/qr/galois.rs add
#endimpl
#impl src/decode/qr/galois.rs Sub<GF4> for GF4
#fn src/decode/qr/galois.rs sub
#endimpl
#impl src/decode/qr/galois.rs Mul<GF4> for GF4
#fn src/decode/qr/galois.rs mul
@ret r
@entry
        proof {
            assert(el4(0u8)) by (bit_vector); lemma_tables4(); lemma_el4(self.0); lemma_el4(other.0); lemma_gm4_field(self.0, other.0, 0u8);
            if self.0 != 0 && other.0 != 0 {
                lemma_lg4(self.0); lemma_lg4(other.0);
                lemma_al4_add(lg4(self.0), lg4(other.0)); lemma_al4_mod(lg4(self.0) + lg4(other.0));
                assert(EXP4[((lg4(self.0) + lg4(other.0)) % 15) as int].0 == al4((lg4(self.0) + lg4(other.0)) % 15));
            }
        }
#endimpl
#impl src/decode/qr/galois.rs Div<GF4> for GF4
#fn src/decode/qr/galois.rs div
@sub `i16::from(..)` => `($ARGS as i16)`
@ret r
@spec
    ensures is_quot4(self.0, other.0, r.0),
@entry
        proof {
            assert(el4(0u8)) by (bit_vector); lemma_tables4(); lemma_el4(self.0); lemma_el4(other.0); lemma_gm4_field(self.0, other.0, 0u8);
            lemma_gm4_lin(0u8, 0u8, other.0);
            assert(el4(0u8)) by (bit_vector);
            lemma_al4_add(0, 0);
            assert forall|i: int| 0 <= i < 15 implies #[trigger] el4(EXP4[i].0) by { lemma_el4(EXP4[i].0); }
            if self.0 != 0 && other.0 != 0 {
                lemma_lg4(self.0); lemma_lg4(other.0);
                let i = lg4(self.0); let j = lg4(other.0);
                let d = if i >= j { i - j } else { i - j + 15 };
                lemma_al4_add(d as nat, j);
                if i < j { lemma_al4_period(i); assert(d as nat + j == i + 15); }
                assert(EXP4[d].0 == al4(d as nat));
            }
        }
#endimpl
#raw
}
#end
