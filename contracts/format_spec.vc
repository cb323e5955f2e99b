#raw
verus! {
// ---------------------------------------------------------------- format information (ISO/IEC 18004 8.9, annex C)
pub open spec fn wf(q: &QRData) -> bool { q.side == 4 * q.version + 17 && q.data@.len() == q.side * q.side }
pub proof fn lemma_wf(q: &QRData)
    requires wf(q),
    ensures forall|x: int, y: int| 0 <= x < q.side && 0 <= y < q.side ==> #[trigger] in_matrix(q, x, y),
{
    assert forall|x: int, y: int| 0 <= x < q.side && 0 <= y < q.side implies #[trigger] in_matrix(q, x, y) by {
        assert(y * q.side >= 0 && y * q.side + x < q.side * q.side) by (nonlinear_arith) requires 0 <= x < q.side, 0 <= y < q.side;
    }
}
/// column and row of the k-th module of the two copies; k = 0 is the most significant bit
pub open spec fn pos1(k: int) -> (int, int) { if k < 6 { (k, 8) } else if k < 8 { (k + 1, 8) } else if k == 8 { (8, 7) } else { (8, 14 - k) } }
pub open spec fn pos2(side: int, k: int) -> (int, int) { if k < 7 { (8, side - 1 - k) } else { (side - 15 + k, 8) } }
/// the 15-bit pattern all format words are xored with
pub open spec fn fmt_xor(k: int) -> u8 { ((0b101010000010010u16 >> ((14 - k) as u16)) & 1) as u8 }
pub open spec fn copy1(q: &QRData) -> Seq<u8> { Seq::new(15, |k: int| module(q, pos1(k).0, pos1(k).1) ^ fmt_xor(k)) }
pub open spec fn copy2(q: &QRData) -> Seq<u8> { Seq::new(15, |k: int| module(q, pos2(q.side as int, k).0, pos2(q.side as int, k).1) ^ fmt_xor(k)) }
pub open spec fn bits15(v: Seq<u8>) -> bool { v.len() == 15 && forall|k: int| 0 <= k < 15 ==> #[trigger] v[k] <= 1 }
/// 15 modules as a word, the low n bits
pub open spec fn wn(v: Seq<u8>, n: nat) -> u16
    decreases n
{ if n == 0 { 0u16 } else { wn(v, (n - 1) as nat) ^ ((v[15 - n] as u16) << ((n - 1) as u16)) } }
pub open spec fn word(v: Seq<u8>) -> u16 { wn(v, 15) }
/// the (15,5) BCH code: remainder modulo x^10+x^8+x^5+x^4+x^2+x+1
pub open spec fn red(v: u16, i: u16) -> u16 { if v & (0x400u16 << i) != 0 { v ^ (0x537u16 << i) } else { v } }
pub open spec fn fmt_word(d: u16) -> u16 { (d << 10u16) ^ red(red(red(red(red(d << 10u16, 4u16), 3u16), 2u16), 1u16), 0u16) }
pub open spec fn onesn(w: u16, n: nat) -> int
    decreases n
{ if n == 0 { 0 } else { onesn(w, (n - 1) as nat) + (if (w >> ((n - 1) as u16)) & 1u16 == 1u16 { 1int } else { 0int }) } }
pub open spec fn ones(w: u16) -> int { onesn(w, 15) }
/// d is the data of a valid word that differs from w in at most three bits
pub open spec fn near(w: u16, d: u16) -> bool { d < 32 && ones(w ^ fmt_word(d)) <= 3 }
/// what the standard's rule selects: the first copy decides if some valid word is near it, otherwise the second
pub open spec fn selected(q: &QRData, d: u16) -> bool {
    near(word(copy1(q)), d) || ((forall|e: u16| !near(word(copy1(q)), e)) && near(word(copy2(q)), d))
}
/// no other word qualifies
pub open spec fn only(q: &QRData, d: u16) -> bool { forall|e: u16| selected(q, e) ==> e == d }
pub open spec fn level_of(d: u16) -> ECLevel {
    if d / 8 == 1 { ECLevel::LOW } else if d / 8 == 0 { ECLevel::MEDIUM } else if d / 8 == 3 { ECLevel::QUARTILE } else { ECLevel::HIGH }
}
/// the eight masks; i is the row and j the column
pub open spec fn mask_at(m: u8, i: int, j: int) -> bool {
    if m == 0 { (i + j) % 2 == 0 }
    else if m == 1 { i % 2 == 0 }
    else if m == 2 { j % 3 == 0 }
    else if m == 3 { (i + j) % 3 == 0 }
    else if m == 4 { (i / 2 + j / 3) % 2 == 0 }
    else if m == 5 { (i * j) % 2 + (i * j) % 3 == 0 }
    else if m == 6 { ((i * j) % 2 + (i * j) % 3) % 2 == 0 }
    else { ((i + j) % 2 + (i * j) % 3) % 2 == 0 }
}
pub open spec fn unmasked(q: &QRData, m: u8, x: int, y: int) -> u8 { module(q, x, y) ^ (if mask_at(m, y, x) { 1u8 } else { 0u8 }) }
}
#end
