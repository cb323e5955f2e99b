#raw
use std::ops::*;
use std::cmp::Ordering;
use std::iter::Peekable;
use std::vec::IntoIter;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
verus! {
// ---------------------------------------------------------------- bit sequences
/// bit i of a byte, most significant first
pub open spec fn bit(b: u8, i: int) -> bool { (b >> ((7 - i) as u8)) & 1u8 == 1u8 }

/// the bits of a byte sequence, most significant bit of each byte first
pub open spec fn bits_of(s: Seq<u8>) -> Seq<bool> { Seq::new((8 * s.len()) as nat, |k: int| bit(s[k / 8], k % 8)) }

/// value of a bit sequence, most significant first
pub open spec fn val(s: Seq<bool>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { 2 * val(s.drop_last()) + if s.last() { 1nat } else { 0nat } }
}

pub open spec fn top(b: u8, n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| bit(b, i)) }

pub proof fn lemma_top(b: u8, n: u8)
    requires 1 <= n <= 8,
    ensures (b >> ((8 - n) as u8)) as nat == val(top(b, n as int)),
    decreases n
{
    let t = top(b, n as int);
    assert(t.drop_last() =~= top(b, n - 1));
    assert(t.last() == bit(b, n - 1));
    if n == 1 {
        assert(val(t.drop_last()) == 0);
        assert((b >> 7u8) == (if (b >> 7u8) & 1u8 == 1u8 { 1u8 } else { 0u8 })) by (bit_vector);
    } else {
        lemma_top(b, (n - 1) as u8);
        let m = (n - 1) as u8;
        assert(1 <= m <= 7 ==> (b >> ((7 - m) as u8)) as int == 2 * ((b >> ((8 - m) as u8)) as int) + (if (b >> ((7 - m) as u8)) & 1u8 == 1u8 { 1int } else { 0int })) by (bit_vector);
    }
}

pub proof fn lemma_shl_bits(b: u8, n: u8)
    requires n <= 7,
    ensures forall|i: int| 0 <= i && i + n < 8 ==> bit(b << n, i) == bit(b, i + n),
{
    assert forall|i: int| 0 <= i && i + n < 8 implies bit(b << n, i) == bit(b, i + n) by {
        let j = i as u8;
        assert(n <= 7 && j + n < 8 ==> (((b << n) >> ((7 - j) as u8)) & 1u8 == 1u8) == ((b >> ((7 - (j + n)) as u8)) & 1u8 == 1u8)) by (bit_vector);
    }
}

pub open spec fn p2(n: int) -> nat
    decreases n
{
    if n <= 0 { 1 } else { 2 * p2(n - 1) }
}

pub proof fn lemma_val_bound(s: Seq<bool>)
    ensures val(s) < p2(s.len() as int),
    decreases s.len()
{
    if s.len() > 0 { lemma_val_bound(s.drop_last()); }
}

pub proof fn lemma_val_concat(a: Seq<bool>, b: Seq<bool>)
    ensures val(a + b) == val(a) * p2(b.len() as int) + val(b),
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
        let x = val(a);
        let z = p2(b.len() as int);
        assert(z == 1);
        assert(x * z == x) by (nonlinear_arith) requires z == 1;
        assert(val(b) == 0);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_val_concat(a, b.drop_last());
        let x = val(a);
        let y = p2(b.len() - 1);
        assert(b =~= b.drop_last().push(b.last()));
        let l = if b.last() { 1nat } else { 0nat };
        assert(val(b) == 2 * val(b.drop_last()) + l);
        assert(val(a + b) == 2 * val((a + b).drop_last()) + l);
        let z = p2(b.len() as int);
        assert(z == 2 * y);
        assert(x * z == 2 * (x * y)) by (nonlinear_arith) requires z == 2 * y;
        assert(val((a + b).drop_last()) == x * y + val(b.drop_last()));
    }
}

pub proof fn lemma_shl_value(t: u8, g: u8, n: nat)
    requires g <= 8, n + g <= 8, t < p2(n as int), n >= 1,
    ensures (t << g) as nat == t * p2(g as int), t * p2(g as int) + p2(g as int) <= 256,
{
    reveal_with_fuel(p2, 9);
    assert(p2(0) == 1 && p2(1) == 2 && p2(2) == 4 && p2(3) == 8 && p2(4) == 16 && p2(5) == 32 && p2(6) == 64 && p2(7) == 128 && p2(8) == 256);
    if g == 0 { assert(t << 0u8 == t) by (bit_vector); }
    else if g == 1 { assert(t < 128u8 ==> (t << 1u8) == t * 2) by (bit_vector); }
    else if g == 2 { assert(t < 64u8 ==> (t << 2u8) == t * 4) by (bit_vector); }
    else if g == 3 { assert(t < 32u8 ==> (t << 3u8) == t * 8) by (bit_vector); }
    else if g == 4 { assert(t < 16u8 ==> (t << 4u8) == t * 16) by (bit_vector); }
    else if g == 5 { assert(t < 8u8 ==> (t << 5u8) == t * 32) by (bit_vector); }
    else if g == 6 { assert(t < 4u8 ==> (t << 6u8) == t * 64) by (bit_vector); }
    else { assert(t < 2u8 ==> (t << 7u8) == t * 128) by (bit_vector); }
}

pub proof fn lemma_p2_values()
    ensures p2(0) == 1, p2(1) == 2, p2(2) == 4, p2(3) == 8, p2(4) == 16, p2(5) == 32, p2(6) == 64, p2(7) == 128, p2(8) == 256,
{
    reveal_with_fuel(p2, 9);
}

/// widening an eight bit value and making room for g more bits
pub proof fn lemma_wide(t: Seq<bool>, g: u8)
    requires t.len() == 8, 1 <= g <= 8,
    ensures ((val(t) as u16) << g) as nat == val(t) * p2(g as int), val(t) < 256, val(t) * p2(g as int) + p2(g as int) <= 65536,
{
    lemma_p2_values();
    lemma_val_bound(t);
    let v = val(t) as u16;
    if g == 1 { assert(v < 256u16 ==> (v << 1u8) == v * 2) by (bit_vector); }
    else if g == 2 { assert(v < 256u16 ==> (v << 2u8) == v * 4) by (bit_vector); }
    else if g == 3 { assert(v < 256u16 ==> (v << 3u8) == v * 8) by (bit_vector); }
    else if g == 4 { assert(v < 256u16 ==> (v << 4u8) == v * 16) by (bit_vector); }
    else if g == 5 { assert(v < 256u16 ==> (v << 5u8) == v * 32) by (bit_vector); }
    else if g == 6 { assert(v < 256u16 ==> (v << 6u8) == v * 64) by (bit_vector); }
    else if g == 7 { assert(v < 256u16 ==> (v << 7u8) == v * 128) by (bit_vector); }
    else { assert(v < 256u16 ==> (v << 8u8) == v * 256) by (bit_vector); }
}

pub proof fn lemma_bits_of_step(s: Seq<u8>)
    requires s.len() > 0,
    ensures bits_of(s) == top(s[0], 8) + bits_of(s.skip(1)),
{
    let r = s.skip(1);
    assert(bits_of(s) =~= top(s[0], 8) + bits_of(r)) by {
        assert forall|k: int| 0 <= k < 8 * s.len() implies #[trigger] bits_of(s)[k] == (top(s[0], 8) + bits_of(r))[k] by {
            if k >= 8 { assert(r[(k - 8) / 8] == s[k / 8]); assert((k - 8) % 8 == k % 8); }
        }
    }
}
}
#end
