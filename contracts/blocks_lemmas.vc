#raw
verus! {
// ---------------------------------------------------------------- counting the data modules
#[verifier::memoize]
pub open spec fn cnt(v: int, x: Axis, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { cnt(v, x, n - 1) + (if function_axes(v >= 7, x, axis(v, n - 1)) { 0int } else { 1int }) } }
/// data modules in the columns from x on
pub open spec fn from_col(v: int, x: int) -> int
    decreases side_of(v) - x
{ if x >= side_of(v) { 0 } else { from_col(v, x + 1) + (if x == 6 { 0int } else { cnt(v, axis(v, x), side_of(v)) }) } }
pub open spec fn count_ok(v: int) -> bool
    decreases v
{ v <= 0 || (count_ok(v - 1) && from_col(v, 0) / 8 == n_codewords(v)) }
pub proof fn lemma_count_upto(v: int, w: int)
    requires count_ok(v), 1 <= w <= v,
    ensures from_col(w, 0) / 8 == n_codewords(w),
    decreases v
{ if w < v { lemma_count_upto(v - 1, w); } }
/// the data modules are as many as the codewords of the standard need
pub proof fn lemma_count(v: int)
    requires 1 <= v <= 40,
    ensures from_col(v, 0) / 8 == n_codewords(v),
{ assert(count_ok(40)) by (compute_only); lemma_count_upto(40, v); }

// ---------------------------------------------------------------- alignment coordinates
#[verifier::opaque]
pub open spec fn loc_start(v: int) -> int { if v == 1 { 1000 } else { align_center(v, 1) } }
#[verifier::opaque]
pub open spec fn loc_step(v: int) -> int { if n_align(v) < 3 { 1000 } else { align_step(v) } }
/// the coordinates taken for alignment patterns, from a first centre and a spacing
pub open spec fn coord_rule(start: int, step: int, c: int) -> bool { 4 <= c <= 8 || (c >= start - 2 && (c - (start - 2)) % step <= 4) }
pub open spec fn near_any(v: int, c: int) -> bool { axis(v, c).centre > 0 || (v == 1 && 4 <= c <= 8) }
pub open spec fn coord_at(v: int, c: int) -> bool {
    coord_rule(loc_start(v), loc_step(v), c) == near_any(v, c)
    && (v > 1 ==> (axis(v, c).centre == 1) == (4 <= c <= 8)) && (v > 1 ==> (axis(v, c).centre == 2) == (side_of(v) - 9 <= c <= side_of(v) - 5))
}
pub open spec fn coords_ok(v: int, c: int) -> bool
    decreases c
{ c <= 0 || (coords_ok(v, c - 1) && coord_at(v, c - 1)) }
pub open spec fn all_coords_ok(v: int) -> bool
    decreases v
{ v <= 0 || (all_coords_ok(v - 1) && coords_ok(v, side_of(v))) }
pub proof fn lemma_coords_upto(v: int, c: int, d: int)
    requires coords_ok(v, c), 0 <= d < c,
    ensures coord_at(v, d),
    decreases c
{ if d < c - 1 { lemma_coords_upto(v, c - 1, d); } }
pub proof fn lemma_all_coords_upto(v: int, w: int)
    requires all_coords_ok(v), 1 <= w <= v,
    ensures coords_ok(w, side_of(w)),
    decreases v
{ if w < v { lemma_all_coords_upto(v - 1, w); } }
pub proof fn lemma_coord(v: int)
    requires 1 <= v <= 40,
    ensures forall|c: int| 0 <= c < side_of(v) ==> #[trigger] axis(v, c).centre >= 0 && coord_at(v, c),
{
    assert(all_coords_ok(40)) by (compute_only);
    lemma_all_coords_upto(40, v);
    assert forall|c: int| 0 <= c < side_of(v) implies #[trigger] axis(v, c).centre >= 0 && coord_at(v, c) by { lemma_coords_upto(v, side_of(v), c); }
}
pub proof fn lemma_locs()
    ensures loc_start(1) == 1000 && loc_step(1) == 1000,
        loc_start(2) == 18 && loc_step(2) == 1000,
        loc_start(3) == 22 && loc_step(3) == 1000,
        loc_start(4) == 26 && loc_step(4) == 1000,
        loc_start(5) == 30 && loc_step(5) == 1000,
        loc_start(6) == 34 && loc_step(6) == 1000,
        loc_start(7) == 22 && loc_step(7) == 16,
        loc_start(8) == 24 && loc_step(8) == 18,
        loc_start(9) == 26 && loc_step(9) == 20,
        loc_start(10) == 28 && loc_step(10) == 22,
        loc_start(11) == 30 && loc_step(11) == 24,
        loc_start(12) == 32 && loc_step(12) == 26,
        loc_start(13) == 34 && loc_step(13) == 28,
        loc_start(14) == 26 && loc_step(14) == 20,
        loc_start(15) == 26 && loc_step(15) == 22,
        loc_start(16) == 26 && loc_step(16) == 24,
        loc_start(17) == 30 && loc_step(17) == 24,
        loc_start(18) == 30 && loc_step(18) == 26,
        loc_start(19) == 30 && loc_step(19) == 28,
        loc_start(20) == 34 && loc_step(20) == 28,
        loc_start(21) == 28 && loc_step(21) == 22,
        loc_start(22) == 26 && loc_step(22) == 24,
        loc_start(23) == 30 && loc_step(23) == 24,
        loc_start(24) == 28 && loc_step(24) == 26,
        loc_start(25) == 32 && loc_step(25) == 26,
        loc_start(26) == 30 && loc_step(26) == 28,
        loc_start(27) == 34 && loc_step(27) == 28,
        loc_start(28) == 26 && loc_step(28) == 24,
        loc_start(29) == 30 && loc_step(29) == 24,
        loc_start(30) == 26 && loc_step(30) == 26,
        loc_start(31) == 30 && loc_step(31) == 26,
        loc_start(32) == 34 && loc_step(32) == 26,
        loc_start(33) == 30 && loc_step(33) == 28,
        loc_start(34) == 34 && loc_step(34) == 28,
        loc_start(35) == 30 && loc_step(35) == 24,
        loc_start(36) == 24 && loc_step(36) == 26,
        loc_start(37) == 28 && loc_step(37) == 26,
        loc_start(38) == 32 && loc_step(38) == 26,
        loc_start(39) == 26 && loc_step(39) == 28,
        loc_start(40) == 30 && loc_step(40) == 28,
{ assert(loc_start(1) == 1000 && loc_step(1) == 1000) by (compute_only); assert(loc_start(2) == 18 && loc_step(2) == 1000) by (compute_only); assert(loc_start(3) == 22 && loc_step(3) == 1000) by (compute_only); assert(loc_start(4) == 26 && loc_step(4) == 1000) by (compute_only); assert(loc_start(5) == 30 && loc_step(5) == 1000) by (compute_only); assert(loc_start(6) == 34 && loc_step(6) == 1000) by (compute_only); assert(loc_start(7) == 22 && loc_step(7) == 16) by (compute_only); assert(loc_start(8) == 24 && loc_step(8) == 18) by (compute_only); assert(loc_start(9) == 26 && loc_step(9) == 20) by (compute_only); assert(loc_start(10) == 28 && loc_step(10) == 22) by (compute_only); assert(loc_start(11) == 30 && loc_step(11) == 24) by (compute_only); assert(loc_start(12) == 32 && loc_step(12) == 26) by (compute_only); assert(loc_start(13) == 34 && loc_step(13) == 28) by (compute_only); assert(loc_start(14) == 26 && loc_step(14) == 20) by (compute_only); assert(loc_start(15) == 26 && loc_step(15) == 22) by (compute_only); assert(loc_start(16) == 26 && loc_step(16) == 24) by (compute_only); assert(loc_start(17) == 30 && loc_step(17) == 24) by (compute_only); assert(loc_start(18) == 30 && loc_step(18) == 26) by (compute_only); assert(loc_start(19) == 30 && loc_step(19) == 28) by (compute_only); assert(loc_start(20) == 34 && loc_step(20) == 28) by (compute_only); assert(loc_start(21) == 28 && loc_step(21) == 22) by (compute_only); assert(loc_start(22) == 26 && loc_step(22) == 24) by (compute_only); assert(loc_start(23) == 30 && loc_step(23) == 24) by (compute_only); assert(loc_start(24) == 28 && loc_step(24) == 26) by (compute_only); assert(loc_start(25) == 32 && loc_step(25) == 26) by (compute_only); assert(loc_start(26) == 30 && loc_step(26) == 28) by (compute_only); assert(loc_start(27) == 34 && loc_step(27) == 28) by (compute_only); assert(loc_start(28) == 26 && loc_step(28) == 24) by (compute_only); assert(loc_start(29) == 30 && loc_step(29) == 24) by (compute_only); assert(loc_start(30) == 26 && loc_step(30) == 26) by (compute_only); assert(loc_start(31) == 30 && loc_step(31) == 26) by (compute_only); assert(loc_start(32) == 34 && loc_step(32) == 26) by (compute_only); assert(loc_start(33) == 30 && loc_step(33) == 28) by (compute_only); assert(loc_start(34) == 34 && loc_step(34) == 28) by (compute_only); assert(loc_start(35) == 30 && loc_step(35) == 24) by (compute_only); assert(loc_start(36) == 24 && loc_step(36) == 26) by (compute_only); assert(loc_start(37) == 28 && loc_step(37) == 26) by (compute_only); assert(loc_start(38) == 32 && loc_step(38) == 26) by (compute_only); assert(loc_start(39) == 26 && loc_step(39) == 28) by (compute_only); assert(loc_start(40) == 30 && loc_step(40) == 28) by (compute_only); }
// ---------------------------------------------------------------- the order visits every data module once
pub proof fn lemma_right(v: int, c: int)
    requires 1 <= v <= 40, 0 <= c < n_pairs(v),
    ensures 1 <= right(v, c) < side_of(v), right(v, c) != 6, right(v, c) - 1 != 6, (c == n_pairs(v) - 1) == (right(v, c) == 1),
        c + 1 < n_pairs(v) ==> right(v, c + 1) == (if right(v, c) == 8 { 5 } else { right(v, c) - 2 }),
        c == 0 ==> right(v, c) == side_of(v) - 1,
{}
/// data modules of column x in rows from .. to
pub proof fn lemma_cells(v: int, c: int, k: int)
    requires 1 <= v <= 40, 0 <= c <= n_pairs(v), 0 <= k <= side_of(v), c == n_pairs(v) ==> k == 0,
    ensures
        c < n_pairs(v) ==> ({
            let r = axis(v, right(v, c)); let l = axis(v, right(v, c) - 1); let s = side_of(v);
            cells(v, c, k).len() == from_col(v, right(v, c) + 1) + (if c % 2 == 0 { cnt(v, r, s) - cnt(v, r, s - k) + cnt(v, l, s) - cnt(v, l, s - k) } else { cnt(v, r, k) + cnt(v, l, k) })
        }),
        c == n_pairs(v) ==> cells(v, c, k).len() == from_col(v, 0),
        forall|i: int| 0 <= i < cells(v, c, k).len() ==> 0 <= (#[trigger] cells(v, c, k)[i]).0 < side_of(v) && 0 <= cells(v, c, k)[i].1 < side_of(v),
    decreases c, k
{
    let s = side_of(v);
    if k > 0 {
        lemma_cells(v, c, k - 1); lemma_right(v, c);
        let y = row(v, c, k - 1);
        assert(0 <= y < s);
    } else if c > 0 {
        lemma_cells(v, c - 1, s); lemma_right(v, c - 1);
        let x = right(v, c - 1);
        assert(from_col(v, x) == from_col(v, x + 1) + cnt(v, axis(v, x), s));
        assert(from_col(v, x - 1) == from_col(v, x) + cnt(v, axis(v, x - 1), s));
        assert(cnt(v, axis(v, x), 0) == 0 && cnt(v, axis(v, x - 1), 0) == 0);
        if c < n_pairs(v) {
            lemma_right(v, c);
            if x == 8 { assert(from_col(v, 6) == from_col(v, 7)); }
        }
    }
}
pub proof fn lemma_all_cells(v: int)
    requires 1 <= v <= 40,
    ensures all_cells(v).len() / 8 == n_codewords(v),
        forall|i: int| 0 <= i < all_cells(v).len() ==> 0 <= (#[trigger] all_cells(v)[i]).0 < side_of(v) && 0 <= all_cells(v)[i].1 < side_of(v),
{ lemma_cells(v, n_pairs(v), 0); lemma_count(v); }
}
#end
