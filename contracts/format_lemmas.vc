#raw
verus! {
// ---------------------------------------------------------------- syndromes
pub open spec fn sy1(w: u16) -> u8 { (if w & 1u16 != 0u16 { 1u8 } else { 0u8 }) ^ (if w & 2u16 != 0u16 { 2u8 } else { 0u8 }) ^ (if w & 4u16 != 0u16 { 4u8 } else { 0u8 }) ^ (if w & 8u16 != 0u16 { 8u8 } else { 0u8 }) ^ (if w & 16u16 != 0u16 { 3u8 } else { 0u8 }) ^ (if w & 32u16 != 0u16 { 6u8 } else { 0u8 }) ^ (if w & 64u16 != 0u16 { 12u8 } else { 0u8 }) ^ (if w & 128u16 != 0u16 { 11u8 } else { 0u8 }) ^ (if w & 256u16 != 0u16 { 5u8 } else { 0u8 }) ^ (if w & 512u16 != 0u16 { 10u8 } else { 0u8 }) ^ (if w & 1024u16 != 0u16 { 7u8 } else { 0u8 }) ^ (if w & 2048u16 != 0u16 { 14u8 } else { 0u8 }) ^ (if w & 4096u16 != 0u16 { 15u8 } else { 0u8 }) ^ (if w & 8192u16 != 0u16 { 13u8 } else { 0u8 }) ^ (if w & 16384u16 != 0u16 { 9u8 } else { 0u8 }) }
pub open spec fn sy3(w: u16) -> u8 { (if w & 1u16 != 0u16 { 1u8 } else { 0u8 }) ^ (if w & 2u16 != 0u16 { 8u8 } else { 0u8 }) ^ (if w & 4u16 != 0u16 { 12u8 } else { 0u8 }) ^ (if w & 8u16 != 0u16 { 10u8 } else { 0u8 }) ^ (if w & 16u16 != 0u16 { 15u8 } else { 0u8 }) ^ (if w & 32u16 != 0u16 { 1u8 } else { 0u8 }) ^ (if w & 64u16 != 0u16 { 8u8 } else { 0u8 }) ^ (if w & 128u16 != 0u16 { 12u8 } else { 0u8 }) ^ (if w & 256u16 != 0u16 { 10u8 } else { 0u8 }) ^ (if w & 512u16 != 0u16 { 15u8 } else { 0u8 }) ^ (if w & 1024u16 != 0u16 { 1u8 } else { 0u8 }) ^ (if w & 2048u16 != 0u16 { 8u8 } else { 0u8 }) ^ (if w & 4096u16 != 0u16 { 12u8 } else { 0u8 }) ^ (if w & 8192u16 != 0u16 { 10u8 } else { 0u8 }) ^ (if w & 16384u16 != 0u16 { 15u8 } else { 0u8 }) }
pub open spec fn sy5(w: u16) -> u8 { (if w & 1u16 != 0u16 { 1u8 } else { 0u8 }) ^ (if w & 2u16 != 0u16 { 6u8 } else { 0u8 }) ^ (if w & 4u16 != 0u16 { 7u8 } else { 0u8 }) ^ (if w & 8u16 != 0u16 { 1u8 } else { 0u8 }) ^ (if w & 16u16 != 0u16 { 6u8 } else { 0u8 }) ^ (if w & 32u16 != 0u16 { 7u8 } else { 0u8 }) ^ (if w & 64u16 != 0u16 { 1u8 } else { 0u8 }) ^ (if w & 128u16 != 0u16 { 6u8 } else { 0u8 }) ^ (if w & 256u16 != 0u16 { 7u8 } else { 0u8 }) ^ (if w & 512u16 != 0u16 { 1u8 } else { 0u8 }) ^ (if w & 1024u16 != 0u16 { 6u8 } else { 0u8 }) ^ (if w & 2048u16 != 0u16 { 7u8 } else { 0u8 }) ^ (if w & 4096u16 != 0u16 { 1u8 } else { 0u8 }) ^ (if w & 8192u16 != 0u16 { 6u8 } else { 0u8 }) ^ (if w & 16384u16 != 0u16 { 7u8 } else { 0u8 }) }
pub proof fn lemma_sy_lin(w0: u16, w1: u16)
    ensures sy1(w0 ^ w1) == sy1(w0) ^ sy1(w1), sy3(w0 ^ w1) == sy3(w0) ^ sy3(w1), sy5(w0 ^ w1) == sy5(w0) ^ sy5(w1),
{
    assert(sy1(w0 ^ w1) == sy1(w0) ^ sy1(w1)) by (bit_vector);
    assert(sy3(w0 ^ w1) == sy3(w0) ^ sy3(w1)) by (bit_vector);
    assert(sy5(w0 ^ w1) == sy5(w0) ^ sy5(w1)) by (bit_vector);
}
pub proof fn lemma_sy_el(w: u16)
    ensures el4(sy1(w)), el4(sy3(w)), el4(sy5(w)), sy1(0u16) == 0u8, sy3(0u16) == 0u8, sy5(0u16) == 0u8,
{
    assert(el4(sy1(w))) by (bit_vector); assert(el4(sy3(w))) by (bit_vector); assert(el4(sy5(w))) by (bit_vector);
    assert(sy1(0u16) == 0u8 && sy3(0u16) == 0u8 && sy5(0u16) == 0u8) by (bit_vector);
}
pub open spec fn unit_ok(n: nat) -> bool
    decreases n
{
    n == 0 || (unit_ok((n - 1) as nat) && sy1(1u16 << ((n - 1) as u16)) == al4(((n - 1) % 15) as nat) && sy3(1u16 << ((n - 1) as u16)) == al4(((3 * (n - 1)) % 15) as nat)
        && sy5(1u16 << ((n - 1) as u16)) == al4(((5 * (n - 1)) % 15) as nat))
}
pub proof fn lemma_unit_upto(n: nat, i: nat)
    requires unit_ok(n), i < n,
    ensures sy1(1u16 << (i as u16)) == al4((i % 15) as nat), sy3(1u16 << (i as u16)) == al4(((3 * i) % 15) as nat), sy5(1u16 << (i as u16)) == al4(((5 * i) % 15) as nat),
    decreases n
{ if i < n - 1 { lemma_unit_upto((n - 1) as nat, i); } }
pub proof fn lemma_unit(i: nat)
    requires i < 15,
    ensures sy1(1u16 << (i as u16)) == al4((i % 15) as nat), sy3(1u16 << (i as u16)) == al4(((3 * i) % 15) as nat), sy5(1u16 << (i as u16)) == al4(((5 * i) % 15) as nat),
{ assert(unit_ok(15)) by (compute_only); lemma_unit_upto(15, i); }
/// the three syndromes vanish exactly for the 32 valid words
pub proof fn lemma_codeword(w: u16)
    requires w < 32768,
    ensures (sy1(w) == 0 && sy3(w) == 0 && sy5(w) == 0) == (w == fmt_word(w >> 10u16)), w >> 10u16 < 32,
{
    assert(w < 32768 ==> ((sy1(w) == 0u8 && sy3(w) == 0u8 && sy5(w) == 0u8) == (w == fmt_word(w >> 10u16)))) by (bit_vector);
    assert(w < 32768 ==> w >> 10u16 < 32) by (bit_vector);
}
pub proof fn lemma_fmt_word(d: u16)
    requires d < 32,
    ensures fmt_word(d) < 32768, fmt_word(d) >> 10u16 == d, sy1(fmt_word(d)) == 0, sy3(fmt_word(d)) == 0, sy5(fmt_word(d)) == 0,
{
    assert(d < 32 ==> fmt_word(d) < 32768 && fmt_word(d) >> 10u16 == d) by (bit_vector);
    lemma_codeword(fmt_word(d));
}
// ---------------------------------------------------------------- the error locator polynomial x^3 + a x^2 + b x + c
pub open spec fn root4(a: u8, b: u8, c: u8, x: u8) -> bool { ((c ^ gm4(b, x)) ^ gm4(gm4(a, x), x)) ^ gm4(gm4(x, x), x) == 0 }
/// the error pattern its roots stand for
pub open spec fn emask(a: u8, b: u8, c: u8, n: nat) -> u16
    decreases n
{ if n <= 1 { 0u16 } else { emask(a, b, c, (n - 1) as nat) ^ (if root4(a, b, c, (n - 1) as u8) { 1u16 << (LOG4[n - 1] as u16) } else { 0u16 }) } }
pub open spec fn num4(s1: u8, s3: u8, s5: u8) -> u8 { let s2 = gm4(s1, s1); let s4 = gm4(s2, s2); (s5 ^ gm4(s4, s1)) ^ gm4(s2, s3 ^ gm4(s2, s1)) }
pub open spec fn den4(s1: u8, s3: u8) -> u8 { s3 ^ gm4(s1, gm4(s1, s1)) }
pub open spec fn quo4(a: u8, b: u8) -> u8 { if a == 0 || b == 0 { 0u8 } else { al4(((LOG4[a as int] + 15 - LOG4[b as int]) % 15) as nat) } }
/// the pattern the code derives from the three syndromes
pub open spec fn fix4(s1: u8, s3: u8, s5: u8) -> u16 {
    let b = quo4(num4(s1, s3, s5), den4(s1, s3));
    emask(s1, b, (s3 ^ gm4(gm4(s1, s1), s1)) ^ gm4(s1, b), 16)
}
pub open spec fn fix_at(e: u16) -> bool {
    fix4(sy1(e), sy3(e), sy5(e)) == e && (den4(sy1(e), sy3(e)) != 0 || num4(sy1(e), sy3(e), sy5(e)) == 0)
}
/// fix_at for every pattern that agrees with base above bit n and has at most c ones below
pub open spec fn fix_all(base: u16, n: nat, c: nat) -> bool
    decreases n
{
    if n == 0 { fix_at(base) }
    else { fix_all(base, (n - 1) as nat, c) && (c > 0 ==> fix_all(base ^ (1u16 << ((n - 1) as u16)), (n - 1) as nat, (c - 1) as nat)) }
}
pub proof fn lemma_fix_all(base: u16, n: nat, c: nat, e: u16)
    requires fix_all(base, n, c), n <= 15, onesn(e, n) <= c, base == (e >> (n as u16)) << (n as u16),
    ensures fix_at(e),
    decreases n
{
    let i = (n - 1) as u16; let j = n as u16;
    if n == 0 { assert((e >> 0u16) << 0u16 == e) by (bit_vector); }
    else if (e >> i) & 1 == 1 {
        assert(j == i + 1 && i < 15 && (e >> i) & 1 == 1 ==> ((e >> j) << j) ^ (1u16 << i) == (e >> i) << i) by (bit_vector);
        lemma_onesn(e, (n - 1) as nat);
        lemma_fix_all(base ^ (1u16 << i), (n - 1) as nat, (c - 1) as nat, e);
    } else {
        assert(j == i + 1 && i < 15 && (e >> i) & 1 != 1 ==> ((e >> j) << j) == (e >> i) << i) by (bit_vector);
        lemma_fix_all(base, (n - 1) as nat, c, e);
    }
}
pub proof fn lemma_onesn(e: u16, n: nat)
    ensures onesn(e, n) >= 0,
    decreases n
{ if n > 0 { lemma_onesn(e, (n - 1) as nat); } }
/// every pattern of at most three errors is found from its syndromes
pub proof fn lemma_fix(e: u16)
    requires e < 32768, ones(e) <= 3,
    ensures fix_at(e),
{
    assert(fix_all(0u16, 15, 3)) by (compute_only);
    assert(e < 32768 ==> (e >> 15u16) << 15u16 == 0) by (bit_vector);
    lemma_fix_all(0u16, 15, 3, e);
}
/// a cubic has at most three roots
pub open spec fn few_at(v: nat) -> bool { ones(emask((v % 16) as u8, ((v / 16) % 16) as u8, (v / 256) as u8, 16)) <= 3 }
pub open spec fn few_all(lo: nat, n: nat) -> bool
    decreases n
{ if n == 0 { true } else if n == 1 { few_at(lo) } else { few_all(lo, n / 2) && few_all(lo + n / 2, (n - n / 2) as nat) } }
pub proof fn lemma_few_all(lo: nat, n: nat, v: nat)
    requires few_all(lo, n), lo <= v < lo + n,
    ensures few_at(v),
    decreases n
{ if n > 1 { if v < lo + n / 2 { lemma_few_all(lo, n / 2, v); } else { lemma_few_all(lo + n / 2, (n - n / 2) as nat, v); } } }
pub proof fn lemma_few(a: u8, b: u8, c: u8)
    requires el4(a), el4(b), el4(c),
    ensures ones(emask(a, b, c, 16)) <= 3,
{
    assert(few_all(0, 4096)) by (compute_only);
    lemma_el4(a); lemma_el4(b); lemma_el4(c);
    let v = (a + 16 * b + 256 * c) as nat;
    assert(v % 16 == a && (v / 16) % 16 == b && v / 256 == c);
    lemma_few_all(0, 4096, v);
}
pub proof fn lemma_emask(a: u8, b: u8, c: u8, n: nat)
    requires n <= 16,
    ensures emask(a, b, c, n) < 32768,
    decreases n
{
    if n > 1 {
        lemma_emask(a, b, c, (n - 1) as nat); lemma_tables4();
        let l = LOG4[n - 1] as u16; let m = emask(a, b, c, (n - 1) as nat);
        assert(LOG4[n - 1] < 15);
        assert(m < 32768 && l < 15 ==> m ^ (1u16 << l) < 32768 && m ^ 0u16 == m) by (bit_vector);
    }
}
pub proof fn lemma_quo4(a: u8, b: u8, r: u8)
    requires el4(a), el4(b), is_quot4(a, b, r), b != 0 || a == 0,
    ensures r == quo4(a, b),
{
    lemma_tables4(); lemma_el4(a); lemma_el4(b);
    assert(el4(0u8)) by (bit_vector);
    if a != 0 {
        lemma_lg4(a); lemma_lg4(b);
        let q = quo4(a, b);
        let d = ((lg4(a) + 15 - lg4(b)) % 15) as nat;
        lemma_al4_add(d, lg4(b)); lemma_al4_mod(d + lg4(b)); lemma_al4_mod(lg4(a));
        assert((d + lg4(b)) % 15 == lg4(a));
        assert(gm4(q, b) == a);
        assert(el4(q) && el4(r) ==> el4(q ^ r)) by (bit_vector);
        lemma_gm4_lin(q, r, b);
        lemma_xor4(a, a, q, r); lemma_xor4(q, r, 0u8, 0u8);
        lemma_gm4_field(q ^ r, b, 0u8);
    }
}
// ---------------------------------------------------------------- sequences of flips
pub open spec fn lmask(s: Seq<u8>, n: nat) -> u16
    decreases n
{ if n == 0 { 0u16 } else { lmask(s, (n - 1) as nat) ^ (1u16 << (s[n - 1] as u16)) } }
pub proof fn lemma_lmask(s: Seq<u8>, t: Seq<u8>, n: nat)
    requires n <= s.len(), n <= t.len(), forall|k: int| 0 <= k < n ==> s[k] == t[k],
    ensures lmask(s, n) == lmask(t, n),
    decreases n
{ if n > 0 { lemma_lmask(s, t, (n - 1) as nat); } }
pub proof fn lemma_wn(v: Seq<u8>, n: nat)
    requires bits15(v), n <= 15,
    ensures wn(v, n) < 32768, n == 0 || wn(v, n) == wn(v, (n - 1) as nat) ^ ((v[15 - n] as u16) << ((n - 1) as u16)),
    decreases n
{
    if n > 0 {
        lemma_wn(v, (n - 1) as nat);
        let b = v[15 - n]; let w = wn(v, (n - 1) as nat); let i = (n - 1) as u16;
        assert(w < 32768 && b <= 1 && i < 15 ==> w ^ ((b as u16) << i) < 32768) by (bit_vector);
    }
}
pub proof fn lemma_flip(v: Seq<u8>, e: int, n: nat)
    requires bits15(v), 0 <= e < 15, n <= 15,
    ensures wn(v.update(14 - e, v[14 - e] ^ 1), n) == wn(v, n) ^ (if e < n { 1u16 << (e as u16) } else { 0u16 }), bits15(v.update(14 - e, v[14 - e] ^ 1)),
    decreases n
{
    let b = v[14 - e];
    assert(b <= 1 ==> b ^ 1 <= 1) by (bit_vector);
    if n > 0 {
        lemma_flip(v, e, (n - 1) as nat);
        let i = (n - 1) as u16; let x = wn(v, (n - 1) as nat); let y = v[15 - n]; let z = 1u16 << (e as u16);
        assert((x ^ z) ^ ((y as u16) << i) == (x ^ ((y as u16) << i)) ^ z) by (bit_vector);
        assert(b <= 1 ==> (x ^ 0u16) ^ (((b ^ 1) as u16) << i) == (x ^ ((b as u16) << i)) ^ (1u16 << i)) by (bit_vector);
        assert((x ^ 0u16) ^ ((y as u16) << i) == (x ^ ((y as u16) << i)) ^ 0u16) by (bit_vector);
    } else { assert(0u16 ^ 0u16 == 0u16) by (bit_vector); }
}
/// the leading five bits of a word
pub proof fn lemma_lead(v: Seq<u8>)
    requires bits15(v),
    ensures word(v) >> 10u16 == 16 * v[0] + 8 * v[1] + 4 * v[2] + 2 * v[3] + v[4], word(v) < 32768,
{
    lemma_wn(v, 15); lemma_wn(v, 14); lemma_wn(v, 13); lemma_wn(v, 12); lemma_wn(v, 11); lemma_low(v, 10);
    assert((1u16 << 10u16) == 1024) by (bit_vector);
    let x = wn(v, 10); let a = v[0]; let b = v[1]; let c = v[2]; let d = v[3]; let e = v[4];
    assert(x < 1024 && a <= 1 && b <= 1 && c <= 1 && d <= 1 && e <= 1 ==>
        (((((x ^ ((e as u16) << 10u16)) ^ ((d as u16) << 11u16)) ^ ((c as u16) << 12u16)) ^ ((b as u16) << 13u16)) ^ ((a as u16) << 14u16)) >> 10u16
          == 16 * (a as u16) + 8 * (b as u16) + 4 * (c as u16) + 2 * (d as u16) + (e as u16)) by (bit_vector);
}
pub proof fn lemma_low(v: Seq<u8>, n: nat)
    requires bits15(v), n <= 10,
    ensures wn(v, n) < (1u16 << (n as u16)),
    decreases n
{
    if n > 0 {
        lemma_low(v, (n - 1) as nat);
        let b = v[15 - n]; let w = wn(v, (n - 1) as nat); let i = (n - 1) as u16; let j = n as u16;
        assert(w < (1u16 << i) && b <= 1 && i < 10 && j == i + 1 ==> w ^ ((b as u16) << i) < (1u16 << j)) by (bit_vector);
    } else { assert(0u16 < (1u16 << 0u16)) by (bit_vector); }
    assert((1u16 << 10u16) == 1024) by (bit_vector);
}
}
#end
