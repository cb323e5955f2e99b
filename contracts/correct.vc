#include galois_head.vc
#include gf8.vc
#include qrerror.vc
#raw
verus! {
#end
#struct src/decode/qr/mod.rs BlockInfo
#raw
}
#end
#include correct_spec.vc
#include correct_lemmas.vc
#raw
verus! {
// ---------------------------------------------------------------- std functions without a specification in vstd (assumed)
pub assume_specification<T>[<[T]>::swap](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification[u8::count_ones](x: u8) -> (r: u32)
    ensures r == ones8(x);
/// `dst[..=last].clone_from_slice(src)`
pub fn set_prefix(dst: &mut Vec<GF8>, last: usize, src: &[GF8])
    requires last < old(dst)@.len(), src@.len() == last + 1,
    ensures final(dst)@.len() == old(dst)@.len(), forall|j: int| 0 <= j <= last ==> final(dst)@[j] == src@[j], forall|j: int| last < j < final(dst)@.len() ==> final(dst)@[j] == old(dst)@[j],
{
    let mut k: usize = 0;
    let ghost before = dst@;
    while k <= last
        invariant last < dst.len(), dst@.len() == before.len(), src@.len() == last + 1, k <= last + 1, dst@.len() == before.len(), forall|j: int| 0 <= j < k ==> dst@[j] == src@[j], forall|j: int| k <= j < dst@.len() ==> dst@[j] == before[j],
        decreases last + 1 - k,
    { dst[k] = src[k]; k = k + 1; }
}
// ---------------------------------------------------------------- systems of linear equations; the last entry of a row is the right-hand side
pub open spec fn vals(s: Seq<GF8>) -> Seq<u8> { Seq::new(s.len(), |j: int| s[j].0) }
pub open spec fn dot(a: Seq<GF8>, x: Seq<u8>, lo: int, hi: int) -> u8
    decreases hi - lo
{ if hi <= lo { 0 } else { dot(a, x, lo, hi - 1) ^ gm8(a[hi - 1].0, x[hi - 1]) } }
pub open spec fn sat_row(a: Seq<GF8>, x: Seq<u8>) -> bool { dot(a, x, 0, a.len() - 1) == a[a.len() - 1].0 }
pub open spec fn sat(e: Seq<Vec<GF8>>, x: Seq<u8>) -> bool { forall|i: int| 0 <= i < e.len() ==> #[trigger] sat_row(e[i]@, x) }
pub open spec fn rect(e: Seq<Vec<GF8>>, m: int) -> bool { forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i])@.len() == m }
/// the same solutions
pub open spec fn same(d: Seq<Vec<GF8>>, e: Seq<Vec<GF8>>, m: int) -> bool { forall|x: Seq<u8>| x.len() == m - 1 ==> #[trigger] sat(d, x) == sat(e, x) }
/// rows scaled: a == p * b
pub proof fn lemma_dot_scale(a: Seq<GF8>, b: Seq<GF8>, p: u8, x: Seq<u8>, n: int)
    requires n <= a.len(), n <= b.len(), forall|j: int| 0 <= j < n ==> (#[trigger] a[j]).0 == gm8(b[j].0, p),
    ensures dot(a, x, 0, n) == gm8(dot(b, x, 0, n), p),
    decreases n
{
    if n > 0 {
        lemma_dot_scale(a, b, p, x, n - 1);
        let v = b[n - 1].0; let t = x[n - 1];
        assert(a[n - 1].0 == gm8(v, p));
        lemma_ring(v, p, t); lemma_ring(p, t, 0); lemma_ring(v, t, p); lemma_ring(dot(b, x, 0, n - 1), gm8(v, t), p);
    } else { lemma_ring(p, 0, 0); }
}
/// a row with a multiple of another row subtracted: a == c + f * b
pub proof fn lemma_dot_add(a: Seq<GF8>, c: Seq<GF8>, b: Seq<GF8>, f: u8, x: Seq<u8>, n: int)
    requires n <= a.len(), n <= b.len(), n <= c.len(), forall|j: int| 0 <= j < n ==> (#[trigger] a[j]).0 == c[j].0 ^ gm8(f, b[j].0),
    ensures dot(a, x, 0, n) == dot(c, x, 0, n) ^ gm8(f, dot(b, x, 0, n)),
    decreases n
{
    if n > 0 {
        lemma_dot_add(a, c, b, f, x, n - 1);
        let v = b[n - 1].0; let w = c[n - 1].0; let t = x[n - 1]; let s = dot(c, x, 0, n - 1); let u = dot(b, x, 0, n - 1);
        assert(a[n - 1].0 == w ^ gm8(f, v));
        lemma_ring(w, gm8(f, v), t); lemma_ring(f, v, t); lemma_ring(f, u, gm8(v, t));
        lemma_xor8(s, gm8(f, u), gm8(w, t), gm8(f, gm8(v, t)));
    } else { lemma_ring(f, 0, 0); assert(0u8 ^ 0u8 == 0u8) by (bit_vector); }
}
/// an entry of the vector where the row is zero does not matter; sums split
pub proof fn lemma_dot_update(a: Seq<GF8>, x: Seq<u8>, c: int, v: u8, lo: int, hi: int)
    requires 0 <= lo, hi <= a.len(), hi <= x.len(), 0 <= c < x.len(), lo <= c < hi ==> a[c].0 == 0,
    ensures dot(a, x.update(c, v), lo, hi) == dot(a, x, lo, hi),
    decreases hi - lo
{ if hi > lo { lemma_dot_update(a, x, c, v, lo, hi - 1); lemma_ring(v, 0, 0); lemma_ring(x[c], 0, 0); } }
pub proof fn lemma_dot_split(a: Seq<GF8>, x: Seq<u8>, lo: int, mid: int, hi: int)
    requires lo <= mid <= hi,
    ensures dot(a, x, lo, hi) == dot(a, x, lo, mid) ^ dot(a, x, mid, hi),
    decreases hi - mid
{
    if hi > mid { lemma_dot_split(a, x, lo, mid, hi - 1); lemma_xor8(dot(a, x, lo, mid), dot(a, x, mid, hi - 1), gm8(a[hi - 1].0, x[hi - 1]), 0); }
    else { lemma_xor8(dot(a, x, lo, mid), 0, 0, 0); }
}
pub proof fn lemma_dot_zero(a: Seq<GF8>, x: Seq<u8>, lo: int, hi: int)
    requires forall|j: int| lo <= j < hi ==> (#[trigger] a[j]).0 == 0,
    ensures dot(a, x, lo, hi) == 0,
    decreases hi - lo
{ if hi > lo { lemma_dot_zero(a, x, lo, hi - 1); lemma_ring(x[hi - 1], 0, 0); assert(0u8 ^ 0u8 == 0u8) by (bit_vector); } }
pub proof fn lemma_sat_scale(a: Seq<GF8>, b: Seq<GF8>, p: u8, x: Seq<u8>)
    requires a.len() == b.len(), a.len() > 0, p != 0, forall|j: int| 0 <= j < a.len() ==> (#[trigger] a[j]).0 == gm8(b[j].0, p),
    ensures sat_row(a, x) == sat_row(b, x),
{
    let n = a.len() - 1;
    lemma_dot_scale(a, b, p, x, n);
    let s = dot(b, x, 0, n); let r = b[n].0;
    assert(a[n].0 == gm8(r, p));
    lemma_ring(s, r, p); lemma_ring(s ^ r, p, 0); lemma_xor8(s, r, 0, 0); lemma_xor8(gm8(s, p), gm8(r, p), 0, 0);
}
pub proof fn lemma_sat_add(a: Seq<GF8>, c: Seq<GF8>, b: Seq<GF8>, f: u8, x: Seq<u8>)
    requires a.len() == b.len(), a.len() == c.len(), a.len() > 0, forall|j: int| 0 <= j < a.len() ==> (#[trigger] a[j]).0 == c[j].0 ^ gm8(f, b[j].0), sat_row(b, x),
    ensures sat_row(a, x) == sat_row(c, x),
{
    let n = a.len() - 1;
    lemma_dot_add(a, c, b, f, x, n);
    let t = gm8(f, b[n].0);
    assert(a[n].0 == c[n].0 ^ t);
    lemma_xor8(dot(c, x, 0, n), t, 0, 0); lemma_xor8(c[n].0, t, 0, 0);
}
// ---------------------------------------------------------------- elimination
/// row i has its leading 1 in column pivots[i]; the rows below are zero in the columns done
pub open spec fn echelon(e: Seq<Vec<GF8>>, pivots: Seq<usize>, col: int) -> bool {
    pivots.len() <= e.len()
    && (forall|i: int| 0 <= i < pivots.len() ==> (#[trigger] pivots[i]) < col && e[i]@[pivots[i] as int].0 == 1 && (forall|j: int| 0 <= j < pivots[i] ==> (#[trigger] e[i]@[j]).0 == 0))
    && (forall|i: int, k: int| 0 <= i < k < pivots.len() ==> pivots[i] < pivots[k])
    && (forall|i: int, j: int| pivots.len() <= i < e.len() && 0 <= j < col ==> (#[trigger] e[i]@[j]).0 == 0)
}
pub proof fn lemma_swap(d: Seq<Vec<GF8>>, e: Seq<Vec<GF8>>, a: int, b: int, m: int)
    requires 0 <= a < d.len(), 0 <= b < d.len(), e == d.update(a, d[b]).update(b, d[a]),
    ensures same(d, e, m),
{
    assert forall|x: Seq<u8>| x.len() == m - 1 implies #[trigger] sat(d, x) == sat(e, x) by {
        if sat(d, x) { assert(sat_row(d[a]@, x) && sat_row(d[b]@, x)); assert forall|i: int| 0 <= i < e.len() implies #[trigger] sat_row(e[i]@, x) by { assert(sat_row(d[i]@, x)); } }
        if sat(e, x) { assert(sat_row(e[a]@, x) && sat_row(e[b]@, x)); assert forall|i: int| 0 <= i < d.len() implies #[trigger] sat_row(d[i]@, x) by { assert(sat_row(e[i]@, x)); } }
    }
}
/// row i replaced by one with the same solutions
pub proof fn lemma_same_row(d: Seq<Vec<GF8>>, e: Seq<Vec<GF8>>, i: int, m: int)
    requires d.len() == e.len(), 0 <= i < d.len(), forall|k: int| 0 <= k < d.len() && k != i ==> (#[trigger] e[k])@ == d[k]@,
        forall|x: Seq<u8>| x.len() == m - 1 && (forall|k: int| 0 <= k < d.len() && k != i ==> #[trigger] sat_row(d[k]@, x)) ==> sat_row(d[i]@, x) == sat_row(e[i]@, x),
    ensures same(d, e, m),
{
    assert forall|x: Seq<u8>| x.len() == m - 1 implies #[trigger] sat(d, x) == sat(e, x) by {
        if sat(d, x) {
            assert forall|k: int| 0 <= k < e.len() implies #[trigger] sat_row(e[k]@, x) by { assert(sat_row(d[k]@, x)); }
        }
        if sat(e, x) {
            assert forall|k: int| 0 <= k < d.len() && k != i implies #[trigger] sat_row(d[k]@, x) by { assert(sat_row(e[k]@, x)); }
            assert(sat_row(e[i]@, x));
            assert forall|k: int| 0 <= k < d.len() implies #[trigger] sat_row(d[k]@, x) by { }
        }
    }
}
pub proof fn lemma_vals_update(s: Seq<GF8>, c: int, v: GF8)
    requires 0 <= c < s.len(),
    ensures vals(s.update(c, v)) == vals(s).update(c, v.0),
{ assert(vals(s.update(c, v)) =~= vals(s).update(c, v.0)); }
/// row i divided by its entry p in column col
pub proof fn lemma_normalised(d: Seq<Vec<GF8>>, e: Seq<Vec<GF8>>, i: int, col: int, p: u8, m: int)
    requires d.len() == e.len(), 0 <= i < d.len(), d[i]@.len() == m, e[i]@.len() == m, 0 <= col < m, p == d[i]@[col].0, p != 0,
        forall|k: int| 0 <= k < e.len() && k != i ==> #[trigger] e[k] == d[k],
        forall|j: int| col <= j < m ==> gm8((#[trigger] e[i]@[j]).0, p) == d[i]@[j].0,
        forall|j: int| 0 <= j < col ==> (#[trigger] e[i]@[j]).0 == 0,
        forall|j: int| 0 <= j < col ==> (#[trigger] d[i]@[j]).0 == 0,
    ensures same(d, e, m), e[i]@[col].0 == 1,
{
    let a = e[i]@; let b = d[i]@; let v = a[col].0;
    lemma_ring(v, 1, p); lemma_ring(v ^ 1, p, 0); lemma_ring(p, 0, 0); lemma_xor8(v, 1, 0, 0); lemma_xor8(p, p, 0, 0);
    assert forall|x: Seq<u8>| x.len() == m - 1 implies sat_row(b, x) == sat_row(a, x) by {
        assert forall|j: int| 0 <= j < b.len() implies (#[trigger] b[j]).0 == gm8(a[j].0, p) by {
            if j < col { lemma_ring(0, p, 0); lemma_ring(p, 0, 0); assert(d[i]@[j].0 == 0 && e[i]@[j].0 == 0); } else { assert(gm8(e[i]@[j].0, p) == d[i]@[j].0); }
        }
        lemma_sat_scale(b, a, p, x);
    }
    lemma_same_row(d, e, i, m);
}
/// row i, which has a leading 1 in column col, subtracted f times from row j
pub proof fn lemma_eliminated(d: Seq<Vec<GF8>>, e: Seq<Vec<GF8>>, i: int, j: int, col: int, f: u8, m: int)
    requires d.len() == e.len(), 0 <= i < j < d.len(), d[i]@.len() == m, e[j]@.len() == m, d[j]@.len() == m, 0 <= col < m, f == d[j]@[col].0, d[i]@[col].0 == 1,
        forall|k: int| 0 <= k < e.len() && k != j ==> #[trigger] e[k] == d[k],
        forall|c: int| col <= c < m ==> (#[trigger] e[j]@[c]).0 == d[j]@[c].0 ^ gm8(f, d[i]@[c].0),
        forall|c: int| 0 <= c < col ==> #[trigger] e[j]@[c] == d[j]@[c],
        forall|c: int| 0 <= c < col ==> (#[trigger] d[i]@[c]).0 == 0,
    ensures same(d, e, m), e[j]@[col].0 == 0,
{
    let a = e[j]@; let c = d[j]@; let b = d[i]@;
    lemma_ring(f, 0, 0); lemma_xor8(f, f, 0, 0);
    assert(e[j]@[col].0 == d[j]@[col].0 ^ gm8(f, d[i]@[col].0));
    assert forall|x: Seq<u8>| x.len() == m - 1 && (forall|k: int| 0 <= k < d.len() && k != j ==> #[trigger] sat_row(d[k]@, x)) implies sat_row(c, x) == sat_row(a, x) by {
        assert(sat_row(d[i]@, x));
        assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).0 == c[k].0 ^ gm8(f, b[k].0) by {
            if k < col { lemma_xor8(c[k].0, 0, 0, 0); assert(d[i]@[k].0 == 0); assert(e[j]@[k] == d[j]@[k]); } else { assert(e[j]@[k].0 == d[j]@[k].0 ^ gm8(f, d[i]@[k].0)); }
        }
        lemma_sat_add(a, c, b, f, x);
    }
    lemma_same_row(d, e, j, m);
}
/// back substitution of row i: the rows below stay solved, row i gets solved
pub proof fn lemma_back(e: Seq<Vec<GF8>>, pivots: Seq<usize>, cols: int, m: int, i: int, x0: Seq<u8>, x: Seq<u8>)
    requires echelon(e, pivots, cols), rect(e, m), cols == m - 1, 0 <= i < pivots.len(), x0.len() == m - 1, x.len() == m - 1,
        x == x0.update(pivots[i] as int, x[pivots[i] as int]),
        x[pivots[i] as int] == e[i]@[m - 1].0 ^ dot(e[i]@, x0, pivots[i] + 1, m - 1),
        forall|q: int| i < q < pivots.len() ==> sat_row(#[trigger] e[q]@, x0),
    ensures forall|q: int| i <= q < pivots.len() ==> sat_row(#[trigger] e[q]@, x),
{
    let col = pivots[i] as int; let n = m - 1; let v = x[col]; let a = e[i]@;
    assert forall|q: int| i < q < pivots.len() implies sat_row(#[trigger] e[q]@, x) by {
        assert(pivots[i] < pivots[q]); assert(e[q]@[col].0 == 0); assert(e[q]@.len() == m);
        lemma_dot_update(e[q]@, x0, col, v, 0, n);
    }
    assert(e[i]@.len() == m);
    lemma_dot_update(a, x0, col, v, col + 1, n);
    lemma_dot_split(a, x, 0, col, n); lemma_dot_split(a, x, col, col + 1, n);
    assert forall|j: int| 0 <= j < col implies (#[trigger] a[j]).0 == 0 by { assert(e[i]@[j].0 == 0); }
    lemma_dot_zero(a, x, 0, col);
    assert(dot(a, x, col, col) == 0);
    let d = dot(a, x, col + 1, n); let r = a[n].0;
    lemma_ring(v, 0, 0); lemma_xor8(v, 0, 0, 0); lemma_xor8(v, d, 0, 0); lemma_xor8(r, d, 0, 0);
    assert(dot(a, x, col, col + 1) == v);
}
/// a row without coefficients
pub proof fn lemma_consistent(e: Seq<Vec<GF8>>, pivots: Seq<usize>, m: int, x: Seq<u8>, y: Seq<u8>)
    requires echelon(e, pivots, m - 1), rect(e, m), m >= 1, sat(e, x), forall|q: int| 0 <= q < pivots.len() ==> sat_row(#[trigger] e[q]@, y),
    ensures sat(e, y),
{
    assert forall|q: int| 0 <= q < e.len() implies sat_row(#[trigger] e[q]@, y) by {
        if q >= pivots.len() {
            assert(sat_row(e[q]@, x)); assert(e[q]@.len() == m);
            assert forall|j: int| 0 <= j < m - 1 implies (#[trigger] e[q]@[j]).0 == 0 by { }
            lemma_dot_zero(e[q]@, x, 0, m - 1); lemma_dot_zero(e[q]@, y, 0, m - 1);
        }
    }
}
#end
#fn src/decode/qr/correct.rs solve
@ret r
@attr #[verifier::loop_isolation(false)]
@sub `<T>(` => `(`
@sub `T` => `GF8`
@spec
    requires eq@.len() > 0 ==> rect(eq@, eq@[0]@.len() as int), zero.0 == 0,
    ensures
        !fail_on_rank && eq@.len() > 0 && eq@[0]@.len() > 0 ==> r is Some,
        eq@.len() == 0 ==> r is None,
        r matches Some(s) ==> eq@.len() > 0 && s@.len() == eq@[0]@.len() - 1 && (forall|x: Seq<u8>| x.len() == s@.len() && #[trigger] sat(eq@, x) ==> sat(eq@, vals(s@))),
@entry
    let ghost eq0 = eq@;
    let ghost m = if eq0.len() > 0 { eq0[0]@.len() as int } else { 0 };
    proof { assert forall|a: u8| #[trigger] el8(a) by { lemma_el(a); } }
@loop 1 it outer
        invariant eq@.len() == eq0.len(), rect(eq@, m), same(eq0, eq@, m), echelon(eq@, pivots@, outer.index@),
@loopstart 1
        let ghost start = eq@;
@loop 2
            invariant i <= pivot <= num_eq, forall|k: int| i <= k < pivot ==> (#[trigger] eq@[k])@[col as int].0 == 0,
            decreases num_eq - pivot,
@afterloop 2
        proof { if pivot == num_eq { assert forall|a: int, b: int| pivots@.len() <= a < eq@.len() && 0 <= b < col + 1 implies (#[trigger] eq@[a]@[b]).0 == 0 by { assert(eq@[a]@[col as int].0 == 0); } } }
@after "eq.swap" 1
        proof { lemma_swap(start, eq@, i as int, pivot as int, m); }
        let ghost swapped = eq@;
        let ghost p = eq@[i as int]@[col as int].0;
        proof { assert(p != 0); assert forall|k: int, c: int| i <= k < eq@.len() && 0 <= c < col implies (#[trigger] eq@[k]@[c]).0 == 0 by { if k == i { assert(start[pivot as int]@[c].0 == 0); } else if k == pivot { assert(start[i as int]@[c].0 == 0); } else { assert(start[k]@[c].0 == 0); } } }
@loop 3 it norm
            invariant eq@.len() == eq0.len(), rect(eq@, m), forall|k: int| 0 <= k < eq@.len() && k != i ==> #[trigger] eq@[k] == swapped[k],
                forall|j: int| 0 <= j < m ==> (#[trigger] eq@[i as int]@[j]) == swapped[i as int]@[j] || (j >= m - norm.index@ && gm8(eq@[i as int]@[j].0, p) == swapped[i as int]@[j].0),
                forall|j: int| m - norm.index@ <= j < m ==> gm8((#[trigger] eq@[i as int]@[j]).0, p) == swapped[i as int]@[j].0,
                forall|j: int| 0 <= j < m - norm.index@ ==> (#[trigger] eq@[i as int]@[j]) == swapped[i as int]@[j],
@afterloop 3
        let ghost normed = eq@;
        proof { lemma_normalised(swapped, normed, i as int, col as int, p, m); }
@loop 4 it elim
            invariant eq@.len() == eq0.len(), rect(eq@, m), same(eq0, eq@, m), forall|k: int| 0 <= k <= i ==> #[trigger] eq@[k] == normed[k],
                forall|k: int, c: int| i < k < eq@.len() && 0 <= c < col ==> (#[trigger] eq@[k]@[c]).0 == 0,
                forall|k: int| i < k < i + 1 + elim.index@ ==> (#[trigger] eq@[k])@[col as int].0 == 0,
@loopstart 4
            let ghost row = eq@;
            let ghost f = eq@[j as int]@[col as int].0;
@loop 5 it sub
                invariant eq@.len() == eq0.len(), rect(eq@, m), forall|c: int| 0 <= c < eq@.len() && c != j ==> #[trigger] eq@[c] == row[c],
                    forall|c: int| m - sub.index@ <= c < m ==> (#[trigger] eq@[j as int]@[c]).0 == row[j as int]@[c].0 ^ gm8(f, eq@[i as int]@[c].0),
                    forall|c: int| 0 <= c < m - sub.index@ ==> (#[trigger] eq@[j as int]@[c]) == row[j as int]@[c],
@loopend 4
            proof { lemma_eliminated(row, eq@, i as int, j as int, col as int, f, m); }
@loop 6 it back
        invariant solution@.len() == m - 1, forall|q: int| pivots@.len() - back.index@ <= q < pivots@.len() ==> sat_row(#[trigger] eq@[q]@, vals(solution@)),
@loopstart 6
        let ghost x0 = vals(solution@);
@loop 7 it bs
            invariant solution@.len() == m - 1, vals(solution@) == x0.update(col as int, solution@[col as int].0), 
                solution@[col as int].0 == eq@[i as int]@[m - 1].0 ^ dot(eq@[i as int]@, x0, col + 1, col + 1 + bs.index@),
@beforeloop 7
        proof { assert(vals(solution@) =~= x0.update(col as int, solution@[col as int].0)); lemma_xor8(solution@[col as int].0, 0, 0, 0); }
@loopstart 7
            let ghost before = solution@;
@loopend 7
            proof {
                lemma_vals_update(before, col as int, solution@[col as int]);
                assert(solution@ == before.update(col as int, solution@[col as int]));
                assert(vals(solution@) =~= x0.update(col as int, solution@[col as int].0));
                assert(before[j as int].0 == x0[j as int]) by { assert(vals(before)[j as int] == x0[j as int]); }
                lemma_xor8(eq@[i as int]@[m - 1].0, dot(eq@[i as int]@, x0, col + 1, j as int), gm8(eq@[i as int]@[j as int].0, x0[j as int]), 0);
            }
@loopend 6
        proof { lemma_back(eq@, pivots@, num_coeff - 1, m, i as int, x0, vals(solution@)); }
@beforetail
    proof {
        assert forall|x: Seq<u8>| x.len() == solution@.len() && #[trigger] sat(eq0, x) implies sat(eq0, vals(solution@)) by {
            assert(sat(eq@, x));
            lemma_consistent(eq@, pivots@, m, x, vals(solution@));
        }
    }
#raw
// ---------------------------------------------------------------- what the syndromes say
/// y could be the damage: no more terms than can be corrected, and these are its syndromes
pub open spec fn explains(y: Seq<u8>, s: Seq<GF8>, n: int, cap: int) -> bool { y.len() == n && wt(y, n) <= cap && forall|i: int| 0 <= i < s.len() ==> #[trigger] ssum(y, i, n) == s[i].0 }
/// all damaged places are listed
pub open spec fn covers(locs: Seq<usize>, y: Seq<u8>) -> bool { forall|k: int| 0 <= k < y.len() && #[trigger] y[k] != 0 ==> exists|j: int| 0 <= j < locs.len() && #[trigger] locs[j] == k }
/// the rows of the key equations
pub open spec fn key_rows(e: Seq<Vec<GF8>>, s: Seq<GF8>, z: int) -> bool { e.len() == z && forall|i: int| 0 <= i < z ==> (#[trigger] e[i])@.len() == z + 1 && forall|j: int| 0 <= j <= z ==> (#[trigger] e[i]@[j]).0 == s[i + j].0 }
pub open spec fn value_rows(e: Seq<Vec<GF8>>, s: Seq<GF8>, locs: Seq<usize>) -> bool {
    e.len() == locs.len() && forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i])@.len() == e.len() + 1 && e[i]@[e.len() as int].0 == s[i].0 && forall|j: int| 0 <= j < e.len() ==> (#[trigger] e[i]@[j]).0 == al8((i * locs[j]) as nat)
}
pub proof fn lemma_key_dot(row: Seq<GF8>, y: Seq<u8>, a: Seq<u8>, i: int, j: int)
    requires 0 <= j <= a.len(), row.len() == a.len() + 1, forall|q: int| 0 <= q <= a.len() ==> (#[trigger] row[q]).0 == ssum(y, i + q, y.len() as int),
    ensures keyval(y, i, a, 0) == dot(row, a, 0, j) ^ keyval(y, i, a, j),
    decreases j
{
    if j > 0 {
        lemma_key_dot(row, y, a, i, j - 1);
        assert(row[j - 1].0 == ssum(y, i + (j - 1), y.len() as int));
        lemma_xor8(dot(row, a, 0, j - 1), gm8(row[j - 1].0, a[j - 1]), keyval(y, i, a, j), 0);
    } else { lemma_xor8(keyval(y, i, a, 0), 0, 0, 0); }
}
pub proof fn lemma_key_row(row: Seq<GF8>, y: Seq<u8>, a: Seq<u8>, i: int)
    requires row.len() == a.len() + 1, forall|q: int| 0 <= q <= a.len() ==> (#[trigger] row[q]).0 == ssum(y, i + q, y.len() as int),
    ensures sat_row(row, a) == (keyval(y, i, a, 0) == 0),
{
    let z = a.len() as int;
    lemma_key_dot(row, y, a, i, z);
    assert(row[z].0 == ssum(y, i + z, y.len() as int));
    lemma_xor8(dot(row, a, 0, z), row[z].0, 0, 0);
}
/// a solution of the key equations shows all places, if there is an explanation at all
pub proof fn lemma_sigma(e: Seq<Vec<GF8>>, s: Seq<GF8>, z: int, a: Seq<u8>, y: Seq<u8>, n: int)
    requires key_rows(e, s, z), 2 * z <= s.len(), explains(y, s, n, z), 0 <= z, n <= 255, a.len() == z, forall|x: Seq<u8>| x.len() == z && #[trigger] sat(e, x) ==> sat(e, a),
    ensures forall|k: int| 0 <= k < n && #[trigger] y[k] != 0 ==> mev(a, al8(k as nat), 0) == 0,
{
    let l = locator(y, n, z);
    lemma_locator(y, n, z);
    assert forall|i: int| 0 <= i < z implies #[trigger] sat_row(e[i]@, l) by {
        lemma_key_solved(y, l, i);
        assert forall|q: int| 0 <= q <= z implies (#[trigger] e[i]@[q]).0 == ssum(y, i + q, n) by { assert(e[i]@.len() == z + 1); assert(e[i]@[q].0 == s[i + q].0); }
        lemma_key_row(e[i]@, y, l, i);
    }
    assert(sat(e, l));
    assert forall|i: int| 0 <= i < z implies #[trigger] keyval(y, i, a, 0) == 0 by {
        assert(sat_row(e[i]@, a));
        assert forall|q: int| 0 <= q <= z implies (#[trigger] e[i]@[q]).0 == ssum(y, i + q, n) by { assert(e[i]@.len() == z + 1); assert(e[i]@[q].0 == s[i + q].0); }
        lemma_key_row(e[i]@, y, a, i);
    }
    lemma_key_roots(y, a, z);
}
/// evaluation by powers
pub open spec fn xpow(x: u8, k: int) -> u8
    decreases k
{ if k <= 0 { 1 } else { gm8(xpow(x, k - 1), x) } }
pub open spec fn pev(a: Seq<u8>, x: u8, k: int) -> u8
    decreases k
{ if k <= 0 { 0 } else { pev(a, x, k - 1) ^ gm8(xpow(x, k - 1), a[k - 1]) } }
pub proof fn lemma_pev(a: Seq<u8>, x: u8, k: int)
    requires 0 <= k <= a.len(),
    ensures mev(a, x, 0) == pev(a, x, k) ^ gm8(xpow(x, k), mev(a, x, k)),
    decreases k
{
    if k > 0 {
        lemma_pev(a, x, k - 1);
        let p = xpow(x, k - 1); let t = mev(a, x, k);
        lemma_ring(p, a[k - 1], gm8(x, t)); lemma_ring(p, x, t);
        lemma_xor8(pev(a, x, k - 1), gm8(p, a[k - 1]), gm8(gm8(p, x), t), 0);
    } else { lemma_ring(mev(a, x, 0), 0, 0); lemma_xor8(mev(a, x, 0), 0, 0, 0); }
}
/// the sum of all powers is the value
pub proof fn lemma_pev_all(a: Seq<u8>, x: u8)
    ensures pev(a, x, a.len() as int) ^ xpow(x, a.len() as int) == mev(a, x, 0),
{ lemma_pev(a, x, a.len() as int); lemma_ring(xpow(x, a.len() as int), 0, 0); }
pub proof fn lemma_locs_few(a: Seq<u8>, locs: Seq<usize>, n: int)
    requires places(locs, n), n <= 255, forall|j: int| 0 <= j < locs.len() ==> mev(a, al8(#[trigger] locs[j] as nat), 0) == 0,
    ensures locs.len() <= a.len(),
{
    let r = Seq::new(locs.len(), |j: int| al8(locs[j] as nat));
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] != r[j] by { assert(locs[i] < n && locs[j] < n); lemma_al_distinct(locs[i] as int, locs[j] as int); lemma_xor8(r[i], r[j], 0, 0); }
    lemma_roots(a, r);
}
pub proof fn lemma_value_row(row: Seq<GF8>, s: Seq<GF8>, locs: Seq<usize>, d: Seq<u8>, i: int, j: int)
    requires 0 <= j <= locs.len(), row.len() == locs.len() + 1, d.len() == locs.len(), forall|q: int| 0 <= q < locs.len() ==> (#[trigger] row[q]).0 == al8((i * locs[q]) as nat),
    ensures dot(row, d, 0, j) == psum(locs, d, i, j),
    decreases j
{ if j > 0 { lemma_value_row(row, s, locs, d, i, j - 1); assert(row[j - 1].0 == al8((i * locs[j - 1]) as nat)); } }
/// a solution of the value equations is the damage, if the places are right
pub proof fn lemma_distances(e: Seq<Vec<GF8>>, s: Seq<GF8>, locs: Seq<usize>, d: Seq<u8>, y: Seq<u8>)
    requires value_rows(e, s, locs), d.len() == locs.len(), forall|x: Seq<u8>| x.len() == locs.len() && #[trigger] sat(e, x) ==> sat(e, d),
        places(locs, y.len() as int), y.len() <= 255, covers(locs, y), forall|i: int| 0 <= i < locs.len() ==> #[trigger] ssum(y, i, y.len() as int) == s[i].0,
    ensures spread(locs, d, y.len() as int, locs.len() as int) == y,
{
    let w = locs.len() as int; let x = at_places(locs, y);
    assert forall|i: int| 0 <= i < w implies #[trigger] sat_row(e[i]@, x) by {
        assert(e[i]@.len() == w + 1); lemma_value_row(e[i]@, s, locs, x, i, w); lemma_values_exist(locs, y, i); assert(ssum(y, i, y.len() as int) == s[i].0);
    }
    assert(sat(e, x));
    assert forall|i: int| 0 <= i < w implies #[trigger] psum(locs, d, i, w) == ssum(y, i, y.len() as int) by {
        assert(sat_row(e[i]@, d)); assert(e[i]@.len() == w + 1); lemma_value_row(e[i]@, s, locs, d, i, w); assert(ssum(y, i, y.len() as int) == s[i].0);
    }
    lemma_values(locs, d, y);
}
/// the difference to a codeword explains the syndromes
pub proof fn lemma_explains(b: Seq<u8>, c: Seq<u8>, s: Seq<GF8>, e: int, cap: int)
    requires near_codeword(b, c, e, cap), s.len() == e, forall|i: int| 0 <= i < e ==> (#[trigger] s[i]).0 == synd(b, i),
    ensures explains(xs(rev(b), rev(c)), s, b.len() as int, cap),
{
    let n = b.len() as int; let y = xs(rev(b), rev(c));
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] ssum(y, i, n) == s[i].0 by { lemma_ssum_xor(rev(b), rev(c), i, n); assert(synd(c, i) == 0); lemma_xor8(synd(b, i), 0, 0, 0); }
}
/// two blocks with the same difference are the same
pub proof fn lemma_same_block(b: Seq<u8>, c: Seq<u8>, y: Seq<u8>)
    requires b.len() == c.len(), y.len() == b.len(), rev(c) == xs(rev(b), y),
    ensures xs(rev(b), rev(c)) == y,
{
    assert forall|k: int| 0 <= k < y.len() implies xs(rev(b), rev(c))[k] == y[k] by { let u = rev(b)[k]; lemma_xor8(u, u, y[k], 0); lemma_xor8(0, y[k], 0, 0); assert(rev(c)[k] == u ^ y[k]); lemma_xor8(y[k], 0, 0, 0); }
    assert(xs(rev(b), rev(c)) =~= y);
}
pub proof fn lemma_unique(b: Seq<u8>, c: Seq<u8>, d: Seq<u8>)
    requires b.len() == c.len(), b.len() == d.len(), xs(rev(b), rev(c)) == xs(rev(b), rev(d)),
    ensures c == d,
{
    assert forall|k: int| 0 <= k < c.len() implies c[k] == d[k] by {
        let q = c.len() - 1 - k;
        let u = rev(b)[q]; let x = c[k]; let z = d[k];
        assert(xs(rev(b), rev(c))[q] == u ^ rev(c)[q]); assert(xs(rev(b), rev(d))[q] == u ^ rev(d)[q]);
        assert(rev(c)[q] == x && rev(d)[q] == z);
        assert((u ^ x == u ^ z) ==> x == z) by (bit_vector);
    }
    assert(c =~= d);
}
/// a codeword is its own and only correction
pub proof fn lemma_fine(b: Seq<u8>, e: int, cap: int)
    requires is_codeword(b, e), 0 <= cap <= e, b.len() <= 255,
    ensures near_codeword(b, b, e, cap), bit_dist(b, b) == 0, forall|c: Seq<u8>| #[trigger] near_codeword(b, c, e, cap) ==> c == b,
{
    let n = b.len() as int; let o = xs(rev(b), rev(b));
    assert forall|k: int| 0 <= k < n implies #[trigger] o[k] == 0 by { lemma_xor8(rev(b)[k], 0, 0, 0); }
    lemma_zero(o, 0, n);
    assert forall|c: Seq<u8>| #[trigger] near_codeword(b, c, e, cap) implies c == b by {
        let y = xs(rev(b), rev(c));
        assert forall|i: int| 0 <= i < cap implies #[trigger] ssum(y, i, n) == 0 by { lemma_ssum_xor(rev(b), rev(c), i, n); assert(synd(c, i) == 0 && synd(b, i) == 0); lemma_xor8(0, 0, 0, 0); }
        lemma_vdm(y, cap);
        assert(y =~= o);
        lemma_unique(b, c, b);
    }
}
/// nothing damaged: a codeword
pub proof fn lemma_undamaged(b: Seq<u8>, c: Seq<u8>, e: int, cap: int, locs: Seq<usize>)
    requires near_codeword(b, c, e, cap), locs.len() == 0, covers(locs, xs(rev(b), rev(c))), !is_codeword(b, e),
    ensures false,
{
    let y = xs(rev(b), rev(c));
    assert forall|k: int| 0 <= k < b.len() implies b[k] == c[k] by {
        let q = b.len() - 1 - k;
        assert(y[q] == 0); lemma_xor8(b[k], c[k], 0, 0); assert(rev(b)[q] == b[k] && rev(c)[q] == c[k]);
    }
    assert(b =~= c);
}
pub proof fn lemma_rev_xs(b: Seq<u8>, y: Seq<u8>)
    requires y.len() == b.len(), forall|k: int| 0 <= k < y.len() ==> y[k] == 0,
    ensures rev(b) == xs(rev(b), y),
{
    assert forall|k: int| 0 <= k < y.len() implies xs(rev(b), y)[k] == rev(b)[k] by { lemma_xor8(rev(b)[k], 0, 0, 0); }
    assert(rev(b) =~= xs(rev(b), y));
}
pub proof fn lemma_ones(v: u8)
    ensures 0 <= ones8(v) <= 8,
{ assert(ones8(v) <= 8) by (bit_vector); }
/// one more place put right
pub proof fn lemma_fixed(b: Seq<u8>, before: Seq<u8>, after: Seq<u8>, locs: Seq<usize>, d: Seq<u8>, n: int, i: int)
    requires b.len() == n, before.len() == n, places(locs, n), d.len() == locs.len(), 0 <= i < locs.len(), rev(before) == xs(rev(b), spread(locs, d, n, i)),
        after == before.update(n - 1 - locs[i], before[n - 1 - locs[i]] ^ d[i]),
    ensures rev(after) == xs(rev(b), spread(locs, d, n, i + 1)),
{
    let s = spread(locs, d, n, i); let t = spread(locs, d, n, i + 1); let p = locs[i] as int;
    lemma_spread(locs, d, n, i, 0);
    assert(s[p] == 0);
    assert(t == s.update(p, d[i]));
    assert forall|k: int| 0 <= k < n implies rev(after)[k] == xs(rev(b), t)[k] by {
        assert(rev(before)[k] == rev(b)[k] ^ s[k]);
        if k == p { lemma_xor8(rev(b)[k], 0, 0, 0); }
    }
    assert(rev(after) =~= xs(rev(b), t));
}
#end
#fn src/decode/qr/correct.rs syndrome
@ret r
@spec
    requires block@.len() <= 255,
    ensures forall|i: int| 0 <= i <= 255 && base.0 == #[trigger] al8(i as nat) ==> r.0 == synd(block@, i),
@entry
    proof { assert forall|a: u8| #[trigger] el8(a) by { lemma_el(a); } lemma_pw(0, 0); }
@loop 1 it w
        invariant w.seq().len() == block@.len(), block@.len() <= 255, forall|k: int| 0 <= k < block@.len() ==> *(#[trigger] w.seq()[k]) == block@[block@.len() - 1 - k],
            forall|a: u8| #[trigger] el8(a),
            forall|i: int| 0 <= i <= 255 && base.0 == #[trigger] al8(i as nat) ==> synd.0 == ssum(rev(block@), i, w.index@) && alpha.0 == al8((i * w.index@) as nat),
@loopstart 1
        let ghost s0 = synd.0; let ghost a0 = alpha.0;
@loopend 1
        proof {
            let k = w.index@;
            assert(*codeword == rev(block@)[k]);
            lemma_ring(a0, *codeword, 0);
            assert forall|i: int| 0 <= i <= 255 && base.0 == #[trigger] al8(i as nat) implies synd.0 == ssum(rev(block@), i, k + 1) && alpha.0 == al8((i * (k + 1)) as nat) by {
                assert(i * (k + 1) == i * k + i && 0 <= i * k) by (nonlinear_arith) requires 0 <= i, 0 <= k;
                lemma_al8_add((i * k) as nat, i as nat);
            }
        }
#fn src/decode/qr/correct.rs calculate_syndromes
@ret r
@spec
    requires block@.len() <= 255, block_ok(block_info),
    ensures r.1@.len() == block_info.total_per - block_info.data_per, forall|i: int| 0 <= i < r.1@.len() ==> (#[trigger] r.1@[i]).0 == synd(block@, i),
        r.0 == is_codeword(block@, r.1@.len() as int),
@entry
    proof { lemma_tables8(); }
@loop 1 it w
        invariant num_syndromes == block_info.total_per - block_info.data_per, num_syndromes < 255, block@.len() <= 255, syndromes@.len() == num_syndromes,
            forall|i: int| 0 <= i < 255 ==> #[trigger] EXP8[i].0 == al8(i as nat),
            forall|i: int| 0 <= i < w.index@ ==> (#[trigger] syndromes@[i]).0 == synd(block@, i),
            all_fine == is_codeword(block@, w.index@),
@loopend 1
        proof {
            assert(EXP8[i as int].0 == al8(i as nat));
            assert(syndromes@[i as int].0 == synd(block@, i as int));
            if is_codeword(block@, i + 1) { assert(synd(block@, i as int) == 0); assert forall|q: int| 0 <= q < i implies #[trigger] synd(block@, q) == 0 by { } assert(is_codeword(block@, i as int)); }
        }
#fn src/decode/qr/correct.rs find_locs
@ret r
@sub `eq[i][..=z].clone_from_slice(..)` => `set_prefix(&mut eq[i], z, $ARGS)`
@attr #[verifier::loop_isolation(false)]
@spec
    requires block_ok(block_info), syndromes@.len() == block_info.total_per - block_info.data_per,
    ensures
        r matches Ok(l) && places(l@, block_info.total_per as int) && l@.len() <= block_info.ec_cap
            && forall|y: Seq<u8>| #[trigger] explains(y, syndromes@, block_info.total_per as int, block_info.ec_cap as int) ==> covers(l@, y),
@entry
    let ghost n = block_info.total_per as int;
    proof { assert forall|a: u8| #[trigger] el8(a) by { lemma_el(a); } lemma_tables8(); }
@loop 1 it rows
        invariant eq@.len() == z, forall|i: int| 0 <= i < z ==> (#[trigger] eq@[i])@.len() == z + 1,
            forall|i: int, j: int| 0 <= i < rows.index@ && 0 <= j <= z ==> (#[trigger] eq@[i]@[j]).0 == syndromes@[i + j].0,
@loopstart 1
        let ghost before = eq@;
@loopend 1
        proof {
            assert forall|q: int, j: int| 0 <= q < i + 1 && 0 <= j <= z implies (#[trigger] eq@[q]@[j]).0 == syndromes@[q + j].0 by {
                if q == i { assert(eq@[i as int]@[j] == syndromes@.subrange(i as int, z + 1 + i)[j]); } else { assert(eq@[q] == before[q]); }
            }
        }
@afterloop 1
    let ghost e0 = eq@;
@afterlet sigma 2
    let ghost a = vals(sigma@);
    proof { assert(key_rows(e0, syndromes@, z as int)); }
@loop 2 it scan
        invariant scan.seq().len() == n, enum2 == scan.index@, forall|k: int| 0 <= k < n ==> *(#[trigger] scan.seq()[k]) == EXP8[k],
            places(locs@, enum2 as int), forall|j: int| 0 <= j < locs@.len() ==> mev(a, al8(#[trigger] locs@[j] as nat), 0) == 0,
            forall|k: int| 0 <= k < enum2 && mev(a, #[trigger] al8(k as nat), 0) == 0 ==> exists|j: int| 0 <= j < locs@.len() && #[trigger] locs@[j] == k,
@loop 3 it ev
            invariant ev.seq().len() == a.len() - 1, forall|k: int| 0 <= k < ev.seq().len() ==> *(#[trigger] ev.seq()[k]) == sigma@[k + 1],
                x.0 == xpow(exp.0, ev.index@ + 1), check_value.0 == pev(a, exp.0, ev.index@ + 1),
@beforeloop 3
        proof {
            assert(xpow(exp.0, 0) == 1 && pev(a, exp.0, 0) == 0);
            lemma_ring(exp.0, 0, 0); lemma_ring(a[0], 0, 0); lemma_xor8(a[0], 0, 0, 0);
            assert(pev(a, exp.0, 1) == pev(a, exp.0, 0) ^ gm8(xpow(exp.0, 0), a[0]));
        }
@loopend 3
            proof {
                let k = ev.index@ + 1;
                assert(*s == sigma@[k]); assert(a[k] == sigma@[k].0);
                assert(xpow(exp.0, k + 1) == gm8(xpow(exp.0, k), exp.0));
                assert(pev(a, exp.0, k + 1) == pev(a, exp.0, k) ^ gm8(xpow(exp.0, k), a[k]));
            }
@loopstart 2
        let ghost l0 = locs@;
@loopend 2
        proof {
            assert(*exp == EXP8[i as int]); assert(exp.0 == al8(i as nat));
            lemma_pev_all(a, exp.0);
            let hit = mev(a, al8(i as nat), 0) == 0;
            assert(locs@ == if hit { l0.push(i) } else { l0 });
            assert forall|j: int| 0 <= j < locs@.len() implies mev(a, al8(#[trigger] locs@[j] as nat), 0) == 0 by { if j < l0.len() { assert(locs@[j] == l0[j]); } }
            assert forall|k: int| 0 <= k < i + 1 && mev(a, #[trigger] al8(k as nat), 0) == 0 implies exists|j: int| 0 <= j < locs@.len() && #[trigger] locs@[j] == k by {
                if k < i { let j = choose|j: int| 0 <= j < l0.len() && #[trigger] l0[j] == k; assert(locs@[j] == k); } else { assert(locs@[l0.len() as int] == k); }
            }
        }
@beforetail
    proof {
        lemma_locs_few(a, locs@, n);
        assert forall|y: Seq<u8>| #[trigger] explains(y, syndromes@, n, z as int) implies covers(locs@, y) by {
            lemma_sigma(e0, syndromes@, z as int, a, y, n);
            assert forall|k: int| 0 <= k < y.len() && #[trigger] y[k] != 0 implies exists|j: int| 0 <= j < locs@.len() && #[trigger] locs@[j] == k by { assert(mev(a, al8(k as nat), 0) == 0); }
        }
    }
#fn src/decode/qr/correct.rs calculate_distances
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    requires locs@.len() <= syndromes@.len(), locs@.len() <= 127, places(locs@, 255),
    ensures r is None == (locs@.len() == 0),
        r matches Some(d) ==> d@.len() == locs@.len() && forall|y: Seq<u8>| y.len() <= 255 && places(locs@, y.len() as int) && #[trigger] covers(locs@, y) && (forall|i: int| 0 <= i < locs@.len() ==> #[trigger] ssum(y, i, y.len() as int) == syndromes@[i].0)
            ==> spread(locs@, vals(d@), y.len() as int, locs@.len() as int) == y,
@entry
    proof { lemma_tables8(); }
    let ghost w = locs@.len() as int;
@loop 1 it rows
        invariant eq@.len() == w, forall|i: int| 0 <= i < w ==> (#[trigger] eq@[i])@.len() == w + 1,
            forall|q: int| 0 <= q < rows.index@ ==> (#[trigger] eq@[q])@[w].0 == syndromes@[q].0,
            forall|q: int, j: int| 0 <= q < rows.index@ && 0 <= j < w ==> (#[trigger] eq@[q]@[j]).0 == al8((q * locs@[j]) as nat),
@loop 2 it cols
            invariant eq@.len() == w, forall|i: int| 0 <= i < w ==> (#[trigger] eq@[i])@.len() == w + 1,
                forall|q: int| 0 <= q < i ==> (#[trigger] eq@[q])@[w].0 == syndromes@[q].0,
                forall|q: int, j: int| 0 <= q < i && 0 <= j < w ==> (#[trigger] eq@[q]@[j]).0 == al8((q * locs@[j]) as nat),
                forall|j: int| 0 <= j < cols.index@ ==> (#[trigger] eq@[i as int]@[j]).0 == al8((i * locs@[j]) as nat),
@loopstart 2
            proof {
                let p = locs@[j as int] as int;
                assert(p < 255);
                assert(0 <= i * p <= 127 * 255) by (nonlinear_arith) requires 0 <= i <= 127, 0 <= p < 255;
                lemma_al8_mod((i * p) as nat);
                assert(EXP8[((i * p) % 255) as int].0 == al8(((i * p) % 255) as nat));
            }
@beforetail
    let ghost e0 = eq@;
    proof {
        assert(value_rows(e0, syndromes@, locs@));
        assert forall|d: Seq<GF8>, y: Seq<u8>| d.len() == w && (forall|x: Seq<u8>| x.len() == w && #[trigger] sat(e0, x) ==> sat(e0, vals(d))) && y.len() <= 255 && places(locs@, y.len() as int) && #[trigger] covers(locs@, y) && (forall|i: int| 0 <= i < w ==> #[trigger] ssum(y, i, y.len() as int) == syndromes@[i].0)
            implies #[trigger] spread(locs@, vals(d), y.len() as int, w) == y by { lemma_distances(e0, syndromes@, locs@, vals(d), y); }
    }
#fn src/decode/qr/correct.rs correct_with_error_count
@ret r
@spec
    requires block_ok(block_info), block@.len() == block_info.total_per,
    ensures
        r is Ok ==> near_codeword(block@, r->Ok_0.0@, block_info.total_per - block_info.data_per, block_info.ec_cap as int), /*C02*/
        r is Ok ==> r->Ok_0.1 == bit_dist(block@, r->Ok_0.0@), /*C10*/
        forall|c: Seq<u8>| #[trigger] near_codeword(block@, c, block_info.total_per - block_info.data_per, block_info.ec_cap as int) ==> r is Ok && r->Ok_0.0@ == c, /*C01*/
@attr #[verifier::loop_isolation(false)]
@entry
    let ghost b0 = block@; let ghost n = block_info.total_per as int; let ghost e = block_info.total_per - block_info.data_per; let ghost cap = block_info.ec_cap as int;
@after "calculate_syndromes (" 1
    proof {
        if is_codeword(b0, e) { lemma_fine(b0, e, cap); }
        assert forall|c: Seq<u8>| #[trigger] near_codeword(b0, c, e, cap) implies explains(xs(rev(b0), rev(c)), syndromes@, n, cap) by { lemma_explains(b0, c, syndromes@, e, cap); }
    }
@afterlet locs 1
    proof {
        if locs@.len() == 0 {
            assert forall|c: Seq<u8>| #[trigger] near_codeword(b0, c, e, cap) implies false by { lemma_undamaged(b0, c, e, cap, locs@); }
        }
    }
@afterlet distance 2
    let ghost d = vals(distance@); let ghost w = locs@.len() as int;
    proof {
        lemma_rev_xs(b0, spread(locs@, d, n, 0));
        assert forall|c: Seq<u8>| #[trigger] near_codeword(b0, c, e, cap) implies spread(locs@, d, n, w) == xs(rev(b0), rev(c)) by { assert(covers(locs@, xs(rev(b0), rev(c)))); }
    }
@loop 1 it fix
        invariant block@.len() == n, rev(block@) == xs(rev(b0), spread(locs@, d, n, fix.index@)), error_count == bits_of(d, fix.index@), error_count <= 8 * fix.index@,
@loopstart 1
        let ghost before = block@;
        proof { assert(locs@[i as int] < n); lemma_ones(d[i as int]); assert(d[i as int] == distance@[i as int].0); }
@loopend 1
        proof { lemma_fixed(b0, before, block@, locs@, d, n, i as int); }
@afterloop 1
    proof {
        let y = spread(locs@, d, n, w);
        lemma_spread(locs@, d, n, w, 0);
        lemma_same_block(b0, block@, y);
        assert forall|c: Seq<u8>| #[trigger] near_codeword(b0, c, e, cap) implies c == block@ by { lemma_unique(b0, c, block@); }
    }
#fn src/decode/qr/correct.rs correct
@closures (Vec<u8>, u32) -> Vec<u8> | |
@ret r
@spec
    requires block_ok(block_info), block@.len() == block_info.total_per,
    ensures
        r is Ok ==> near_codeword(block@, r->Ok_0@, block_info.total_per - block_info.data_per, block_info.ec_cap as int), /*C02*/
        forall|c: Seq<u8>| #[trigger] near_codeword(block@, c, block_info.total_per - block_info.data_per, block_info.ec_cap as int) ==> r is Ok && r->Ok_0@ == c, /*C01*/
#raw
}
#end
