#raw
verus! {
// ---------------------------------------------------------------- function patterns (ISO/IEC 18004 6.3, annex E)
pub open spec fn side_of(v: int) -> int { 4 * v + 17 }
/// alignment pattern centres: number per axis, spacing, coordinates
pub open spec fn n_align(v: int) -> int { if v == 1 { 0 } else { v / 7 + 2 } }
pub open spec fn align_step(v: int) -> int { if v == 32 { 26 } else { ((4 * v + 2 * n_align(v) + 1) / (2 * n_align(v) - 2)) * 2 } }
pub open spec fn align_center(v: int, i: int) -> int { if i == 0 { 6 } else { side_of(v) - 7 - (n_align(v) - 1 - i) * align_step(v) } }
/// which of the first k centres is within two modules of c; -1 if none
pub open spec fn centre_near(v: int, c: int, k: int) -> int
    decreases k
{ if k <= 0 { -1 } else if -2 <= c - align_center(v, k - 1) <= 2 { k - 1 } else { centre_near(v, c, k - 1) } }
/// what matters about one coordinate
pub struct Axis { pub timing: bool, pub below6: bool, pub below8: bool, pub eight: bool, pub last8: bool, pub version: bool, pub centre: int }
/// centre: 0 none, 1 first, 2 last, 3 another alignment centre
#[verifier::memoize]
pub open spec fn axis(v: int, c: int) -> Axis {
    let k = centre_near(v, c, n_align(v));
    Axis { timing: c == 6, below6: c < 6, below8: c < 8, eight: c == 8, last8: c >= side_of(v) - 8, version: side_of(v) - 11 <= c < side_of(v) - 8,
        centre: if k < 0 { 0 } else if k == 0 { 1 } else if k == n_align(v) - 1 { 2 } else { 3 } }
}
pub open spec fn function_axes(has_version: bool, x: Axis, y: Axis) -> bool {
    // timing patterns
    x.timing || y.timing
    // finder patterns with their separators
    || (x.below8 && y.below8) || (x.last8 && y.below8) || (x.below8 && y.last8)
    // format information and the dark module
    || (x.eight && (y.below8 || y.eight || y.last8)) || (y.eight && (x.below8 || x.eight || x.last8))
    // version information
    || (has_version && ((x.version && y.below6) || (y.version && x.below6)))
    // alignment patterns, not where they would meet a finder pattern
    || (x.centre > 0 && y.centre > 0 && !(x.centre == 1 && y.centre == 1) && !(x.centre == 1 && y.centre == 2) && !(x.centre == 2 && y.centre == 1))
}
/// (x, y) belongs to a finder, separator, timing, alignment, format or version pattern
pub open spec fn is_function(v: int, x: int, y: int) -> bool { function_axes(v >= 7, axis(v, x), axis(v, y)) }
// ---------------------------------------------------------------- placement (6.7.3)
/// pairs of columns from the right; the vertical timing pattern is skipped
pub open spec fn n_pairs(v: int) -> int { (side_of(v) - 1) / 2 }
pub open spec fn right(v: int, c: int) -> int { let x = side_of(v) - 1 - 2 * c; if x > 6 { x } else { x - 1 } }
/// upwards and downwards in turn
pub open spec fn row(v: int, c: int, k: int) -> int { if c % 2 == 0 { side_of(v) - 1 - k } else { k } }
pub open spec fn cell(v: int, x: int, y: int) -> Seq<(int, int)> { if is_function(v, x, y) { Seq::empty() } else { seq![(x, y)] } }
/// the data modules in order: the first c pairs of columns and k rows of the next pair
pub open spec fn cells(v: int, c: int, k: int) -> Seq<(int, int)>
    decreases c, k
{
    if k > 0 { cells(v, c, k - 1) + cell(v, right(v, c), row(v, c, k - 1)) + cell(v, right(v, c) - 1, row(v, c, k - 1)) }
    else if c > 0 { cells(v, c - 1, side_of(v)) }
    else { Seq::empty() }
}
pub open spec fn all_cells(v: int) -> Seq<(int, int)> { cells(v, n_pairs(v), 0) }
/// the bit stream of a symbol with mask m undone
pub open spec fn stream(q: &QRData, m: u8) -> Seq<u8> {
    Seq::new(all_cells(q.version as int).len(), |i: int| unmasked(q, m, all_cells(q.version as int)[i].0, all_cells(q.version as int)[i].1))
}
/// k bits from position s, most significant first
pub open spec fn bits_value(b: Seq<u8>, s: int, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else { 2 * bits_value(b, s, k - 1) + b[s + k - 1] } }
pub open spec fn codeword(q: &QRData, m: u8, w: int) -> int { bits_value(stream(q, m), 8 * w, 8) }
// ---------------------------------------------------------------- interleaving (6.6)
pub open spec fn short_data(v: int, l: int) -> int { short_total(v, l) - n_check(v, l) }
pub open spec fn first_long(v: int, l: int) -> int { n_blocks(v, l) - n_long(v, l) }
pub open spec fn data_len(v: int, l: int, j: int) -> int { short_data(v, l) + (if j >= first_long(v, l) { 1int } else { 0 }) }
/// position in the stream of codeword i of block j: data codewords dealt in rounds, then check codewords in rounds
pub open spec fn number(v: int, l: int, j: int, i: int) -> int {
    let n = n_blocks(v, l);
    if i < short_data(v, l) { i * n + j }
    else if i < data_len(v, l, j) { i * n + j - first_long(v, l) }
    else { short_data(v, l) * n + n_long(v, l) + (i - data_len(v, l, j)) * n + j }
}
/// every block holds exactly its own codewords
pub open spec fn is_dealt(q: &QRData, m: u8, l: int, b: Seq<Vec<u8>>) -> bool {
    let v = q.version as int;
    b.len() == n_blocks(v, l)
    && (forall|j: int| 0 <= j < b.len() ==> (#[trigger] b[j])@.len() == data_len(v, l, j) + n_check(v, l))
    && (forall|j: int, i: int| 0 <= j < b.len() && 0 <= i < b[j]@.len() ==> #[trigger] b[j]@[i] == codeword(q, m, number(v, l, j, i)))
}
}
#end
