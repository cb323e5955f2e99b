#!/usr/bin/env python3
"""writes contracts/gf4.vc and gf8.vc (the same contracts for the two fields)"""
import os
T = r'''#raw
verus! {
// ---------------------------------------------------------------- the field of order @Q@: bytes modulo the primitive polynomial
/// multiplication by the primitive element
pub open spec fn xt@N@(a: u8) -> u8 { if a & @TOP@u8 != 0u8 { (a << 1u8) ^ @POLY@u8 } else { a << 1u8 } }
/// k steps of shift-and-add multiplication
pub open spec fn mulk@N@(a: u8, b: u8, k: nat) -> u8
    decreases k
{ if k == 0 { 0u8 } else { (if b & 1u8 == 1u8 { a } else { 0u8 }) ^ mulk@N@(xt@N@(a), b >> 1u8, (k - 1) as nat) } }
/// the product
#[verifier::opaque]
#[verifier::memoize]
pub open spec fn gm@N@(a: u8, b: u8) -> u8 { mulk@N@(a, b, @N@) }
pub open spec fn xtn@N@(i: nat, a: u8) -> u8
    decreases i
{ if i == 0 { a } else { xt@N@(xtn@N@((i - 1) as nat, a)) } }
/// the i-th power of the primitive element
#[verifier::memoize]
pub open spec fn al@N@(i: nat) -> u8 { xtn@N@(i, 1u8) }
pub open spec fn el@N@(a: u8) -> bool { @EL@ }

pub proof fn lemma_xt@N@_lin(a: u8, b: u8)
    ensures xt@N@(a ^ b) == xt@N@(a) ^ xt@N@(b), xt@N@(0u8) == 0u8, el@N@(a) ==> el@N@(xt@N@(a)),
{
    assert(xt@N@(a ^ b) == xt@N@(a) ^ xt@N@(b)) by (bit_vector);
    assert(xt@N@(0u8) == 0u8) by (bit_vector);
    assert(el@N@(a) ==> el@N@(xt@N@(a))) by (bit_vector);
}
pub proof fn lemma_xor(a: u8, b: u8, c: u8, d: u8)
    ensures a ^ b == b ^ a, (a ^ b) ^ c == a ^ (b ^ c), a ^ 0u8 == a, 0u8 ^ a == a, a ^ a == 0u8, (a ^ b) ^ (c ^ d) == (a ^ c) ^ (b ^ d),
        (a ^ b == 0u8) == (a == b), (a ^ b) ^ b == a,
{
    assert(a ^ b == b ^ a) by (bit_vector);
    assert((a ^ b) ^ c == a ^ (b ^ c)) by (bit_vector);
    assert(a ^ 0u8 == a) by (bit_vector);
    assert(0u8 ^ a == a) by (bit_vector);
    assert(a ^ a == 0u8) by (bit_vector);
    assert((a ^ b) ^ (c ^ d) == (a ^ c) ^ (b ^ d)) by (bit_vector);
    assert((a ^ b == 0u8) == (a == b)) by (bit_vector);
    assert((a ^ b) ^ b == a) by (bit_vector);
}
pub proof fn lemma_mulk@N@(a: u8, b: u8, c: u8, k: nat)
    ensures
        mulk@N@(a, b ^ c, k) == mulk@N@(a, b, k) ^ mulk@N@(a, c, k),
        mulk@N@(a ^ b, c, k) == mulk@N@(a, c, k) ^ mulk@N@(b, c, k),
        mulk@N@(xt@N@(a), c, k) == xt@N@(mulk@N@(a, c, k)),
        mulk@N@(0u8, c, k) == 0u8, mulk@N@(a, 0u8, k) == 0u8,
        el@N@(a) ==> el@N@(mulk@N@(a, c, k)),
    decreases k
{
    lemma_xt@N@_lin(a, b);
    lemma_xt@N@_lin(0u8, 0u8);
    assert(0u8 ^ 0u8 == 0u8) by (bit_vector);
    if k > 0 {
        let j = (k - 1) as nat;
        lemma_mulk@N@(xt@N@(a), b >> 1u8, c >> 1u8, j);
        lemma_mulk@N@(xt@N@(a), xt@N@(b), c >> 1u8, j);
        lemma_mulk@N@(0u8, 0u8, c >> 1u8, j);
        assert((b ^ c) >> 1u8 == (b >> 1u8) ^ (c >> 1u8)) by (bit_vector);
        let x = mulk@N@(xt@N@(a), b >> 1u8, j); let y = mulk@N@(xt@N@(a), c >> 1u8, j); let z = mulk@N@(xt@N@(b), c >> 1u8, j);
        assert((if (b ^ c) & 1u8 == 1u8 { a } else { 0u8 }) ^ (x ^ y) == ((if b & 1u8 == 1u8 { a } else { 0u8 }) ^ x) ^ ((if c & 1u8 == 1u8 { a } else { 0u8 }) ^ y)) by (bit_vector);
        assert((if c & 1u8 == 1u8 { a ^ b } else { 0u8 }) ^ (y ^ z) == ((if c & 1u8 == 1u8 { a } else { 0u8 }) ^ y) ^ ((if c & 1u8 == 1u8 { b } else { 0u8 }) ^ z)) by (bit_vector);
        let s = if c & 1u8 == 1u8 { a } else { 0u8 };
        lemma_xt@N@_lin(s, y);
        assert(0u8 >> 1u8 == 0u8 && 0u8 & 1u8 == 0u8) by (bit_vector);
        lemma_mulk@N@(xt@N@(a), 0u8, 0u8, j);
        assert(el@N@(s) && el@N@(y) ==> el@N@(s ^ y)) by (bit_vector);
        assert(el@N@(0u8)) by (bit_vector);
    } else { assert(el@N@(0u8)) by (bit_vector); }
}
/// distributivity and closure
pub proof fn lemma_gm@N@_lin(a: u8, b: u8, c: u8)
    ensures gm@N@(a, b ^ c) == gm@N@(a, b) ^ gm@N@(a, c), gm@N@(a ^ b, c) == gm@N@(a, c) ^ gm@N@(b, c),
        gm@N@(xt@N@(a), c) == xt@N@(gm@N@(a, c)), gm@N@(0u8, c) == 0u8, gm@N@(a, 0u8) == 0u8, el@N@(a) ==> el@N@(gm@N@(a, c)),
{ reveal(gm@N@); lemma_mulk@N@(a, b, c, @N@); }

pub proof fn lemma_gm@N@_unit(b: u8)
    requires el@N@(b),
    ensures gm@N@(1u8, b) == b,
{
    reveal(gm@N@); reveal_with_fuel(mulk@N@, @N1@);
    @UNIT@
}
pub proof fn lemma_xtn@N@(i: nat, j: nat, a: u8)
    ensures xtn@N@(i + j, a) == xtn@N@(i, xtn@N@(j, a)), el@N@(a) ==> el@N@(xtn@N@(i, a)), xtn@N@(i, 0u8) == 0u8,
    decreases i
{ lemma_xt@N@_lin(xtn@N@((i - 1) as nat, a), 0u8); if i > 0 { lemma_xtn@N@((i - 1) as nat, j, a); lemma_xt@N@_lin(0u8, 0u8); } }
pub proof fn lemma_gm@N@_xtn(i: nat, b: u8)
    requires el@N@(b),
    ensures gm@N@(al@N@(i), b) == xtn@N@(i, b),
    decreases i
{
    if i == 0 { lemma_gm@N@_unit(b); } else { lemma_gm@N@_xtn((i - 1) as nat, b); lemma_gm@N@_lin(al@N@((i - 1) as nat), 0u8, b); }
}
/// exponents add up
pub proof fn lemma_al@N@_add(i: nat, j: nat)
    ensures gm@N@(al@N@(i), al@N@(j)) == al@N@(i + j), el@N@(al@N@(i)),
{
    assert(el@N@(1u8)) by (bit_vector);
    lemma_xtn@N@(j, 0, 1u8); lemma_xtn@N@(i, 0, 1u8); lemma_gm@N@_xtn(i, al@N@(j)); lemma_xtn@N@(i, j, 1u8);
}
/// the primitive element has order @O@
pub proof fn lemma_al@N@_period(i: nat)
    ensures al@N@(i + @O@) == al@N@(i), al@N@(@O@) == 1u8,
{ assert(al@N@(@O@) == 1u8) by (compute_only); lemma_xtn@N@(i, @O@, 1u8); }
pub proof fn lemma_al@N@_mod(i: nat)
    ensures al@N@(i) == al@N@(i % @O@),
    decreases i
{ if i >= @O@ { lemma_al@N@_period((i - @O@) as nat); lemma_al@N@_mod((i - @O@) as nat); } }
#end
#struct src/decode/qr/galois.rs GF@N@ #[derive(Copy, Clone, PartialEq, Eq)]
#const src/decode/qr/galois.rs EXP@N@ #[verifier::opaque]
#const src/decode/qr/galois.rs LOG@N@ #[verifier::opaque]
#raw
impl PartialEqSpecImpl for GF@N@ {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, rhs: &GF@N@) -> bool { self.0 == rhs.0 }
}
// ---------------------------------------------------------------- the tables
pub open spec fn exp@N@_ok(n: nat) -> bool
    decreases n
{ n == 0 || (exp@N@_ok((n - 1) as nat) && EXP@N@[(n - 1) as int].0 == al@N@((n - 1) as nat)) }
pub open spec fn log@N@_ok(n: nat) -> bool
    decreases n
{ n <= 1 || (log@N@_ok((n - 1) as nat) && LOG@N@[(n - 1) as int] < @O@ && EXP@N@[LOG@N@[(n - 1) as int] as int].0 == n - 1) }
pub open spec fn inv@N@_ok(n: nat) -> bool
    decreases n
{ n == 0 || (inv@N@_ok((n - 1) as nat) && 0 < EXP@N@[(n - 1) as int].0 < @Q@ && LOG@N@[EXP@N@[(n - 1) as int].0 as int] == n - 1) }
pub proof fn lemma_tables@N@_upto(n: nat)
    ensures exp@N@_ok(n) ==> forall|i: int| 0 <= i < n ==> #[trigger] EXP@N@[i].0 == al@N@(i as nat),
        log@N@_ok(n) ==> forall|a: int| 1 <= a < n ==> #[trigger] LOG@N@[a] < @O@ && EXP@N@[LOG@N@[a] as int].0 == a,
        inv@N@_ok(n) ==> forall|i: int| 0 <= i < n ==> #[trigger] EXP@N@[i].0 != 0 && EXP@N@[i].0 < @Q@ && LOG@N@[EXP@N@[i].0 as int] == i,
    decreases n
{ if n > 0 { lemma_tables@N@_upto((n - 1) as nat); } }
/// EXP@N@ and LOG@N@ are the powers of the primitive element and their inverse
pub proof fn lemma_tables@N@()
    ensures forall|i: int| 0 <= i < @O@ ==> #[trigger] EXP@N@[i].0 == al@N@(i as nat),
        forall|a: int| 1 <= a < @Q@ ==> #[trigger] LOG@N@[a] < @O@ && al@N@(LOG@N@[a] as nat) == a,
        forall|i: int| 0 <= i < @O@ ==> #[trigger] EXP@N@[i].0 != 0 && EXP@N@[i].0 < @Q@ && LOG@N@[EXP@N@[i].0 as int] == i,
        EXP@N@[@O@].0 == 0, LOG@N@[0] <= @O@,
{
    assert(LOG@N@[0] <= @O@) by (compute_only);
    assert(exp@N@_ok(@O@)) by (compute_only);
    assert(log@N@_ok(@Q@)) by (compute_only);
    assert(inv@N@_ok(@O@)) by (compute_only);
    assert(EXP@N@[@O@].0 == 0) by (compute_only);
    lemma_tables@N@_upto(@O@);
    lemma_tables@N@_upto(@Q@);
    assert forall|a: int| 1 <= a < @Q@ implies #[trigger] LOG@N@[a] < @O@ && al@N@(LOG@N@[a] as nat) == a by {
        let i = LOG@N@[a] as int;
        assert(EXP@N@[i].0 == al@N@(i as nat));
    }
}
pub open spec fn lg@N@(a: u8) -> nat { LOG@N@[a as int] as nat }
/// every non-zero element is a power of the primitive element
pub proof fn lemma_lg@N@(a: u8)
    requires el@N@(a), a != 0,
    ensures lg@N@(a) < @O@, al@N@(lg@N@(a)) == a,
{ lemma_tables@N@(); lemma_el@N@(a); assert(LOG@N@[a as int] < @O@); }
pub proof fn lemma_el@N@(a: u8)
    ensures el@N@(a) ==> a < @Q@, a < @Q@ ==> el@N@(a),
{ @ELP@ }
pub proof fn lemma_lg@N@_al(i: nat)
    requires i < @O@,
    ensures lg@N@(al@N@(i)) == i, al@N@(i) != 0, el@N@(al@N@(i)),
{ lemma_tables@N@(); assert(EXP@N@[i as int].0 == al@N@(i)); lemma_al@N@_add(i, 0); }
/// commutative, associative, unit, no zero divisors
pub proof fn lemma_gm@N@_field(a: u8, b: u8, c: u8)
    requires el@N@(a), el@N@(b), el@N@(c),
    ensures gm@N@(a, b) == gm@N@(b, a), gm@N@(gm@N@(a, b), c) == gm@N@(a, gm@N@(b, c)), gm@N@(a, 1u8) == a, gm@N@(1u8, a) == a,
        a != 0 && b != 0 ==> gm@N@(a, b) != 0, gm@N@(a, 0u8) == 0u8, gm@N@(0u8, a) == 0u8, gm@N@(0u8, b) == 0u8, el@N@(gm@N@(a, b)),
{
    lemma_gm@N@_lin(a, 0u8, b); lemma_gm@N@_lin(b, 0u8, a); lemma_gm@N@_lin(0u8, 0u8, c); lemma_gm@N@_lin(a, 0u8, c); lemma_gm@N@_lin(b, 0u8, c);
    lemma_gm@N@_lin(c, 0u8, a); lemma_gm@N@_lin(gm@N@(a, b), 0u8, c); lemma_gm@N@_lin(a, 0u8, gm@N@(b, c));
    lemma_gm@N@_unit(a); lemma_gm@N@_lin(0u8, 0u8, 1u8);
    assert(al@N@(0) == 1u8);
    if a != 0 {
        lemma_lg@N@(a);
        lemma_al@N@_add(lg@N@(a), 0);
        if b != 0 {
            lemma_lg@N@(b);
            let i = lg@N@(a); let j = lg@N@(b);
            lemma_al@N@_add(i, j); lemma_al@N@_add(j, i);
            lemma_al@N@_mod(i + j); lemma_lg@N@_al((i + j) % @O@);
            if c != 0 {
                lemma_lg@N@(c);
                let k = lg@N@(c);
                lemma_al@N@_add(i + j, k); lemma_al@N@_add(j, k); lemma_al@N@_add(i, j + k);
                assert((i + j) + k == i + (j + k));
            }
        }
    }
}
// ---------------------------------------------------------------- the operators
impl AddSpecImpl<GF@N@> for GF@N@ {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: GF@N@) -> bool { true }
    open spec fn add_spec(self, rhs: GF@N@) -> GF@N@ { GF@N@(self.0 ^ rhs.0) }
}
impl SubSpecImpl<GF@N@> for GF@N@ {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: GF@N@) -> bool { true }
    open spec fn sub_spec(self, rhs: GF@N@) -> GF@N@ { GF@N@(self.0 ^ rhs.0) }
}
impl MulSpecImpl<GF@N@> for GF@N@ {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: GF@N@) -> bool { el@N@(self.0) && el@N@(rhs.0) }
    open spec fn mul_spec(self, rhs: GF@N@) -> GF@N@ { GF@N@(gm@N@(self.0, rhs.0)) }
}
/// the quotient; a quotient by zero is left open except that it is an element
pub open spec fn is_quot@N@(a: u8, b: u8, r: u8) -> bool { el@N@(r) && (a == 0 ==> r == 0) && (b != 0 ==> gm@N@(r, b) == a) }
impl DivSpecImpl<GF@N@> for GF@N@ {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, rhs: GF@N@) -> bool { el@N@(self.0) && el@N@(rhs.0) }
    open spec fn div_spec(self, rhs: GF@N@) -> GF@N@ { arbitrary() }
}
#end
#impl src/decode/qr/galois.rs Add<GF@N@> for GF@N@
#fn src/decode/qr/galois.rs add
#endimpl
#impl src/decode/qr/galois.rs Sub<GF@N@> for GF@N@
#fn src/decode/qr/galois.rs sub
#endimpl
#impl src/decode/qr/galois.rs Mul<GF@N@> for GF@N@
#fn src/decode/qr/galois.rs mul
@ret r
@entry
        proof {
            assert(el@N@(0u8)) by (bit_vector); lemma_tables@N@(); lemma_el@N@(self.0); lemma_el@N@(other.0); lemma_gm@N@_field(self.0, other.0, 0u8);
            if self.0 != 0 && other.0 != 0 {
                lemma_lg@N@(self.0); lemma_lg@N@(other.0);
                lemma_al@N@_add(lg@N@(self.0), lg@N@(other.0)); lemma_al@N@_mod(lg@N@(self.0) + lg@N@(other.0));
                assert(EXP@N@[((lg@N@(self.0) + lg@N@(other.0)) % @O@) as int].0 == al@N@((lg@N@(self.0) + lg@N@(other.0)) % @O@));
            }
        }
#endimpl
#impl src/decode/qr/galois.rs Div<GF@N@> for GF@N@
#fn src/decode/qr/galois.rs div
@sub `i16::from(..)` => `($ARGS as i16)`
@ret r
@spec
    ensures is_quot@N@(self.0, other.0, r.0),
@entry
        proof {
            assert(el@N@(0u8)) by (bit_vector); lemma_tables@N@(); lemma_el@N@(self.0); lemma_el@N@(other.0); lemma_gm@N@_field(self.0, other.0, 0u8);
            lemma_gm@N@_lin(0u8, 0u8, other.0);
            assert(el@N@(0u8)) by (bit_vector);
            lemma_al@N@_add(0, 0);
            assert forall|i: int| 0 <= i < @O@ implies #[trigger] el@N@(EXP@N@[i].0) by { lemma_el@N@(EXP@N@[i].0); }
            if self.0 != 0 && other.0 != 0 {
                lemma_lg@N@(self.0); lemma_lg@N@(other.0);
                let i = lg@N@(self.0); let j = lg@N@(other.0);
                let d = if i >= j { i - j } else { i - j + @O@ };
                lemma_al@N@_add(d as nat, j);
                if i < j { lemma_al@N@_period(i); assert(d as nat + j == i + @O@); }
                assert(EXP@N@[d].0 == al@N@(d as nat));
            }
        }
#endimpl
#raw
}
#end
'''
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts")
UNIT8 = "assert(xt8(1u8) == 2u8 && xt8(2u8) == 4u8 && xt8(4u8) == 8u8 && xt8(8u8) == 16u8 && xt8(16u8) == 32u8 && xt8(32u8) == 64u8 && xt8(64u8) == 128u8) by (bit_vector);\n    shift8(b);"
for n, top, poly, el, elp, unit in ((8, "0x80", "0x1d", "a & 0u8 == 0u8", "assert(el8(a)) by (bit_vector);", None), (4, "8", "0x13", "a & 0xf0u8 == 0u8", "assert(el4(a) == (a < 16u8)) by (bit_vector);", None)):
    sh = lambda k: "b" if k == 0 else "(" + sh(k - 1) + " >> 1u8)"
    sel = lambda k: "(if %s & 1u8 == 1u8 { %du8 } else { 0u8 })" % (sh(k), 1 << k)
    expr = "0u8"
    for k in reversed(range(n)): expr = "(%s ^ %s)" % (sel(k), expr)
    unit = "assert(" + " && ".join("xt%d(%du8) == %du8" % (n, 1 << k, 1 << (k + 1)) for k in range(n - 1)) + ") by (bit_vector);\n    assert(el%d(b) ==> %s == b) by (bit_vector);" % (n, expr)
    t = T
    for a, b in (("UNIT", unit), ("EL", el), ("ELP", elp), ("TOP", top), ("POLY", poly), ("N1", str(n + 1)), ("N", str(n)), ("Q", str(1 << n)), ("O", str((1 << n) - 1))): t = t.replace("@%s@" % a, b)
    if n == 4: t = t[:t.index("pub proof fn lemma_xor")] + t[t.index("pub proof fn lemma_mulk4"):] if False else t
    t = t.replace("pub proof fn lemma_xor(", "pub proof fn lemma_xor%d(" % n)
    k = t.index("\npub proof fn") + 1
    open(os.path.join(D, "gf%d_spec.vc" % n), "w").write(t[:k].rstrip() + "\n}\n#end\n")
    open(os.path.join(D, "gf%d.vc" % n), "w").write("#include gf%d_spec.vc\n#raw\nverus! {\n" % n + t[k:])
