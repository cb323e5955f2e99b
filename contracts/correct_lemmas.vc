#raw
verus! {
// ---------------------------------------------------------------- the field, without side conditions
pub proof fn lemma_ring(a: u8, b: u8, c: u8)
    ensures gm8(a, b) == gm8(b, a), gm8(gm8(a, b), c) == gm8(a, gm8(b, c)), gm8(a, b ^ c) == gm8(a, b) ^ gm8(a, c), gm8(a ^ b, c) == gm8(a, c) ^ gm8(b, c),
        gm8(a, 1u8) == a, gm8(1u8, a) == a, gm8(a, 0u8) == 0u8, gm8(0u8, a) == 0u8, a != 0 && b != 0 ==> gm8(a, b) != 0,
{
    assert(el8(a) && el8(b) && el8(c)) by { assert(a & 0u8 == 0u8) by (bit_vector); assert(b & 0u8 == 0u8) by (bit_vector); assert(c & 0u8 == 0u8) by (bit_vector); }
    lemma_gm8_field(a, b, c); lemma_gm8_lin(a, b, c);
}
pub proof fn lemma_el(a: u8) ensures el8(a) { assert(a & 0u8 == 0u8) by (bit_vector); }
/// powers of the k-th locator
pub proof fn lemma_pw(i: int, k: int)
    requires 0 <= i, 0 <= k,
    ensures al8(((i + 1) * k) as nat) == gm8(al8((i * k) as nat), al8(k as nat)), 0 <= i * k, al8(0) == 1u8,
{
    assert((i + 1) * k == i * k + k && 0 <= i * k) by (nonlinear_arith) requires 0 <= i, 0 <= k;
    lemma_al8_add((i * k) as nat, k as nat);
}
pub proof fn lemma_al_distinct(k: int, q: int)
    requires 0 <= k < 255, 0 <= q < 255,
    ensures (al8(k as nat) ^ al8(q as nat) == 0) == (k == q), al8(k as nat) != 0,
{ lemma_lg8_al(k as nat); lemma_lg8_al(q as nat); lemma_xor8(al8(k as nat), al8(q as nat), 0, 0); }
// ---------------------------------------------------------------- sums
pub proof fn lemma_ssum_xor(a: Seq<u8>, b: Seq<u8>, i: int, n: int)
    requires a.len() == b.len(), n <= a.len(),
    ensures ssum(xs(a, b), i, n) == ssum(a, i, n) ^ ssum(b, i, n),
    decreases n
{
    if n > 0 {
        lemma_ssum_xor(a, b, i, n - 1);
        let p = al8((i * (n - 1)) as nat);
        lemma_ring(a[n - 1], b[n - 1], p);
        lemma_xor8(ssum(a, i, n - 1), gm8(a[n - 1], p), ssum(b, i, n - 1), gm8(b[n - 1], p));
        lemma_xor8(ssum(a, i, n - 1), ssum(b, i, n - 1), gm8(a[n - 1], p), gm8(b[n - 1], p));
    } else { assert(0u8 ^ 0u8 == 0u8) by (bit_vector); }
}
/// only term q is there
pub proof fn lemma_ssum_single(y: Seq<u8>, q: int, i: int, n: int)
    requires n <= y.len(), 0 <= q, forall|k: int| 0 <= k < n && k != q ==> #[trigger] y[k] == 0,
    ensures ssum(y, i, n) == (if q < n { gm8(y[q], al8((i * q) as nat)) } else { 0u8 }),
    decreases n
{
    if n > 0 {
        lemma_ssum_single(y, q, i, n - 1);
        let t = gm8(y[n - 1], al8((i * (n - 1)) as nat));
        lemma_ring(al8((i * (n - 1)) as nat), 0, 0); lemma_xor8(t, 0, 0, 0); lemma_xor8(ssum(y, i, n - 1), 0, 0, 0);
    }
}
pub proof fn lemma_ssum_update(y: Seq<u8>, q: int, v: u8, i: int, n: int)
    requires n <= y.len(), 0 <= q < y.len(), y[q] == 0,
    ensures ssum(y.update(q, v), i, n) == ssum(y, i, n) ^ (if q < n { gm8(v, al8((i * q) as nat)) } else { 0u8 }),
        wt(y.update(q, v), n) <= wt(y, n) + (if q < n { 1int } else { 0 }),
        bsum(y.update(q, v), n) == bsum(y, n) + (if q < n { ones8(v) } else { 0 }),
    decreases n
{
    if n > 0 {
        lemma_ssum_update(y, q, v, i, n - 1);
        let z = y.update(q, v); let p = al8((i * (n - 1)) as nat); let s = ssum(y, i, n - 1); let t = gm8(y[n - 1], p);
        let u = gm8(v, al8((i * q) as nat));
        lemma_ring(p, 0, 0); lemma_xor8(s, 0, 0, 0); lemma_xor8(s, u, t, 0); lemma_xor8(s, t, u, 0); lemma_xor8(t, u, 0, 0); lemma_xor8(s ^ t, 0, 0, 0);
        lemma_xor8(s, 0, u, 0);
        assert(ones8(0) == 0) by (bit_vector);
    } else { assert(0u8 ^ 0u8 == 0u8) by (bit_vector); }
}
pub proof fn lemma_wt(y: Seq<u8>, n: int)
    requires n <= y.len(),
    ensures 0 <= wt(y, n), n >= 0 ==> wt(y, n) <= n, wt(y, n) == 0 ==> forall|k: int| 0 <= k < n ==> #[trigger] y[k] == 0,
        wt(y, n) > 0 ==> exists|k: int| 0 <= k < n && #[trigger] y[k] != 0,
    decreases n
{ if n > 0 { lemma_wt(y, n - 1); } }
pub proof fn lemma_zero(y: Seq<u8>, i: int, n: int)
    requires n <= y.len(), forall|k: int| 0 <= k < n ==> #[trigger] y[k] == 0,
    ensures ssum(y, i, n) == 0, wt(y, n) == 0, bsum(y, n) == 0,
    decreases n
{
    if n > 0 {
        lemma_zero(y, i, n - 1); lemma_ring(al8((i * (n - 1)) as nat), 0, 0); assert(0u8 ^ 0u8 == 0u8) by (bit_vector); assert(ones8(0) == 0) by (bit_vector);
    }
}
/// the support of y lies in the support of z
pub proof fn lemma_wt_sub(y: Seq<u8>, z: Seq<u8>, n: int)
    requires n <= y.len(), n <= z.len(), forall|k: int| 0 <= k < n && #[trigger] y[k] != 0 ==> z[k] != 0,
    ensures wt(y, n) <= wt(z, n),
    decreases n
{ if n > 0 { lemma_wt_sub(y, z, n - 1); } }
// ---------------------------------------------------------------- few terms and many zero values: nothing at all (Vandermonde)
pub open spec fn shift(y: Seq<u8>, q: int) -> Seq<u8> { Seq::new(y.len(), |k: int| gm8(y[k], al8(k as nat) ^ al8(q as nat))) }
pub proof fn lemma_shift(y: Seq<u8>, q: int, i: int, n: int)
    requires 0 <= q, 0 <= i, n <= y.len(),
    ensures ssum(shift(y, q), i, n) == ssum(y, i + 1, n) ^ gm8(al8(q as nat), ssum(y, i, n)),
    decreases n
{
    if n > 0 {
        lemma_shift(y, q, i, n - 1);
        let k = n - 1; let v = y[k]; let xk = al8(k as nat); let xq = al8(q as nat); let p = al8((i * k) as nat);
        lemma_pw(i, k);
        // v (xk + xq) p == v (p xk) + xq (v p)
        lemma_ring(v, xk ^ xq, p); lemma_ring(xk, xq, p); lemma_ring(p, xk, 0); lemma_ring(v, gm8(xk, p), gm8(xq, p)); lemma_ring(xq, v, p); lemma_ring(v, xq, p);
        assert(gm8(gm8(v, xk ^ xq), p) == gm8(v, gm8(p, xk)) ^ gm8(xq, gm8(v, p)));
        let s1 = ssum(y, i + 1, k); let s0 = ssum(y, i, k);
        lemma_ring(xq, s0, gm8(v, p));
        lemma_xor8(s1, gm8(xq, s0), gm8(v, gm8(p, xk)), gm8(xq, gm8(v, p)));
    } else { lemma_ring(al8(q as nat), 0, 0); assert(0u8 ^ 0u8 == 0u8) by (bit_vector); }
}
pub proof fn lemma_shift_wt(y: Seq<u8>, q: int, n: int)
    requires n <= y.len() <= 255, 0 <= q < y.len(), y[q] != 0,
    ensures wt(shift(y, q), n) == wt(y, n) - (if q < n { 1int } else { 0 }), forall|k: int| 0 <= k < n ==> ((#[trigger] shift(y, q)[k] == 0) == (y[k] == 0 || k == q)),
    decreases n
{
    if n > 0 {
        lemma_shift_wt(y, q, n - 1);
        let k = n - 1;
        lemma_al_distinct(k, q);
        lemma_ring(y[k], al8(k as nat) ^ al8(q as nat), 0); lemma_ring(al8(k as nat) ^ al8(q as nat), 0, 0);
    }
}
pub proof fn lemma_vdm(y: Seq<u8>, m: int)
    requires y.len() <= 255, wt(y, y.len() as int) <= m, forall|i: int| 0 <= i < m ==> #[trigger] ssum(y, i, y.len() as int) == 0,
    ensures forall|k: int| 0 <= k < y.len() ==> #[trigger] y[k] == 0,
    decreases m
{
    let n = y.len() as int;
    lemma_wt(y, n);
    if wt(y, n) > 0 {
        let q = choose|k: int| 0 <= k < n && #[trigger] y[k] != 0;
        let z = shift(y, q);
        lemma_shift_wt(y, q, n);
        assert forall|i: int| 0 <= i < m - 1 implies #[trigger] ssum(z, i, n) == 0 by {
            lemma_shift(y, q, i, n); assert(ssum(y, i + 1, n) == 0 && ssum(y, i, n) == 0); lemma_ring(al8(q as nat), 0, 0); assert(0u8 ^ 0u8 == 0u8) by (bit_vector);
        }
        lemma_vdm(z, m - 1);
        assert forall|k: int| 0 <= k < n && k != q implies #[trigger] y[k] == 0 by { assert(z[k] == 0); }
        lemma_ssum_single(y, q, 0, n);
        assert(ssum(y, 0, n) == 0);
        lemma_pw(0, 0); lemma_ring(y[q], 0, 0);
        assert(0 * q == 0);
    }
}
// ---------------------------------------------------------------- monic polynomials x^z + a[z-1] x^(z-1) + ... + a[0]
pub open spec fn mev(a: Seq<u8>, x: u8, j: int) -> u8
    decreases a.len() - j
{ if j >= a.len() { 1 } else { a[j] ^ gm8(x, mev(a, x, j + 1)) } }
pub open spec fn quotient(a: Seq<u8>, r: u8) -> Seq<u8> { Seq::new((a.len() - 1) as nat, |j: int| mev(a, r, j + 1)) }
pub proof fn lemma_quotient(a: Seq<u8>, r: u8, x: u8, j: int)
    requires 0 <= j < a.len(),
    ensures mev(a, x, j) == gm8(x ^ r, mev(quotient(a, r), x, j)) ^ mev(a, r, j),
    decreases a.len() - j
{
    let q = quotient(a, r);
    if j == a.len() - 1 {
        assert(mev(a, x, j + 1) == 1 && mev(a, r, j + 1) == 1 && mev(q, x, j) == 1);
        lemma_ring(x, 0, 0); lemma_ring(r, 0, 0); lemma_ring(x ^ r, 0, 0);
        let aj = a[j];
        assert(aj ^ x == (x ^ r) ^ (aj ^ r)) by (bit_vector);
    } else {
        lemma_quotient(a, r, x, j + 1);
        let qn = mev(q, x, j + 1); let pr = mev(a, r, j + 1); let aj = a[j];
        assert(q[j] == pr);
        // aj + x ((x+r) qn + pr) == (x+r) (pr + x qn) + (aj + r pr)
        lemma_ring(x, gm8(x ^ r, qn), pr); lemma_ring(x ^ r, pr, gm8(x, qn)); lemma_ring(x, r, pr); lemma_ring(x ^ r, x, qn); lemma_ring(x, x ^ r, qn); lemma_ring(x, x ^ r, 0);
        let t = gm8(x, gm8(x ^ r, qn)); let u = gm8(x, pr); let w = gm8(r, pr);
        assert(gm8(x ^ r, gm8(x, qn)) == t);
        assert(aj ^ (t ^ u) == ((u ^ w) ^ t) ^ (aj ^ w)) by (bit_vector);
    }
}
/// a polynomial has no more roots than its degree
pub proof fn lemma_roots(a: Seq<u8>, r: Seq<u8>)
    requires forall|i: int| 0 <= i < r.len() ==> mev(a, #[trigger] r[i], 0) == 0, forall|i: int, j: int| 0 <= i < j < r.len() ==> r[i] != r[j],
    ensures r.len() <= a.len(),
    decreases a.len()
{
    if r.len() > 0 {
        let m = r.len() - 1; let l = r[m];
        assert(mev(a, l, 0) == 0);
        if a.len() > 0 {
            let q = quotient(a, l); let s = r.drop_last();
            assert forall|i: int| 0 <= i < s.len() implies mev(q, #[trigger] s[i], 0) == 0 by {
                let x = s[i];
                assert(x == r[i] && mev(a, r[i], 0) == 0);
                lemma_quotient(a, l, x, 0);
                lemma_xor8(x, l, 0, 0); lemma_xor8(gm8(x ^ l, mev(q, x, 0)), 0, 0, 0);
                lemma_ring(x ^ l, mev(q, x, 0), 0);
            }
            lemma_roots(q, s);
        }
    }
}
pub open spec fn times_root(a: Seq<u8>, r: u8) -> Seq<u8> { Seq::new(a.len() + 1, |j: int| gm8(r, if j < a.len() { a[j] } else { 1 }) ^ (if j > 0 { a[j - 1] } else { 0 })) }
pub proof fn lemma_times_root(a: Seq<u8>, r: u8, x: u8, j: int)
    requires 0 <= j <= a.len(),
    ensures mev(times_root(a, r), x, j) == gm8(x ^ r, mev(a, x, j)) ^ (if j > 0 { a[j - 1] } else { 0u8 }),
    decreases a.len() - j
{
    let c = times_root(a, r); let d = if j > 0 { a[j - 1] } else { 0u8 };
    if j == a.len() {
        assert(mev(c, x, j + 1) == 1 && mev(a, x, j) == 1);
        lemma_ring(x, 0, 0); lemma_ring(r, 0, 0); lemma_ring(x ^ r, 0, 0);
        assert((r ^ d) ^ x == (x ^ r) ^ d) by (bit_vector);
    } else {
        lemma_times_root(a, r, x, j + 1);
        let p = mev(a, x, j + 1); let aj = a[j];
        // (r aj + d) + x ((x+r) p + aj) == (x+r)(aj + x p) + d
        lemma_ring(x, gm8(x ^ r, p), aj); lemma_ring(x ^ r, aj, gm8(x, p)); lemma_ring(x, r, aj); lemma_ring(x, x ^ r, p); lemma_ring(x ^ r, x, p); lemma_ring(x, x ^ r, 0);
        let t = gm8(x, gm8(x ^ r, p)); let u = gm8(x, aj); let w = gm8(r, aj);
        assert(gm8(x ^ r, gm8(x, p)) == t);
        assert((w ^ d) ^ (t ^ u) == ((u ^ w) ^ t) ^ d) by (bit_vector);
    }
}
/// a monic polynomial of degree z that is zero at the locators of all non-zero terms
pub open spec fn locator(y: Seq<u8>, n: int, z: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { Seq::new(z as nat, |j: int| 0u8) } else if y[n - 1] != 0 { times_root(locator(y, n - 1, z - 1), al8((n - 1) as nat)) } else { locator(y, n - 1, z) }
}
pub proof fn lemma_locator(y: Seq<u8>, n: int, z: int)
    requires 0 <= n <= y.len(), wt(y, n) <= z,
    ensures locator(y, n, z).len() == z, forall|k: int| 0 <= k < n && #[trigger] y[k] != 0 ==> mev(locator(y, n, z), al8(k as nat), 0) == 0,
    decreases n
{
    lemma_wt(y, n);
    if n > 0 {
        if y[n - 1] != 0 {
            let a = locator(y, n - 1, z - 1); let r = al8((n - 1) as nat);
            lemma_locator(y, n - 1, z - 1);
            assert forall|k: int| 0 <= k < n && #[trigger] y[k] != 0 implies mev(times_root(a, r), al8(k as nat), 0) == 0 by {
                let x = al8(k as nat);
                lemma_times_root(a, r, x, 0);
                lemma_xor8(x, r, 0, 0); lemma_xor8(gm8(x ^ r, mev(a, x, 0)), 0, 0, 0);
                lemma_ring(x ^ r, mev(a, x, 0), 0); lemma_ring(mev(a, x, 0), 0, 0);
            }
        } else { lemma_locator(y, n - 1, z); }
    }
}
// ---------------------------------------------------------------- the key equation
/// sum over j.. of S(i+j) a[j], with leading coefficient 1
pub open spec fn keyval(y: Seq<u8>, i: int, a: Seq<u8>, j: int) -> u8
    decreases a.len() - j
{ if j >= a.len() { ssum(y, i + a.len(), y.len() as int) } else { gm8(ssum(y, i + j, y.len() as int), a[j]) ^ keyval(y, i, a, j + 1) } }
pub open spec fn weighted(y: Seq<u8>, a: Seq<u8>, j: int) -> Seq<u8> { Seq::new(y.len(), |k: int| gm8(y[k], mev(a, al8(k as nat), j))) }
pub proof fn lemma_weighted(y: Seq<u8>, a: Seq<u8>, i: int, j: int, n: int)
    requires 0 <= i, 0 <= j < a.len(), n <= y.len(),
    ensures ssum(weighted(y, a, j), i, n) == gm8(ssum(y, i, n), a[j]) ^ ssum(weighted(y, a, j + 1), i + 1, n),
    decreases n
{
    let aj = a[j];
    if n > 0 {
        lemma_weighted(y, a, i, j, n - 1);
        let k = n - 1; let v = y[k]; let x = al8(k as nat); let p = al8((i * k) as nat); let t = mev(a, x, j + 1);
        lemma_pw(i, k);
        // v (aj + x t) p == (v p) aj + (v t) (p x)
        lemma_ring(v, aj, gm8(x, t)); lemma_ring(gm8(v, aj), gm8(v, gm8(x, t)), p);
        lemma_ring(v, aj, p); lemma_ring(aj, p, 0); lemma_ring(v, p, aj);
        assert(gm8(gm8(v, aj), p) == gm8(gm8(v, p), aj));
        lemma_ring(v, gm8(x, t), p); lemma_ring(x, t, p); lemma_ring(t, p, 0); lemma_ring(t, gm8(p, x), 0); lemma_ring(v, t, gm8(p, x)); lemma_ring(x, p, t); lemma_ring(x, gm8(t, p), 0); lemma_ring(t, p, x);
        assert(gm8(gm8(x, t), p) == gm8(t, gm8(p, x)));
        assert(gm8(gm8(v, gm8(x, t)), p) == gm8(gm8(v, t), gm8(p, x)));
        let s = ssum(y, i, k); let w = ssum(weighted(y, a, j + 1), i + 1, k);
        lemma_ring(s, gm8(v, p), aj);
        lemma_xor8(gm8(s, aj), w, gm8(gm8(v, p), aj), gm8(gm8(v, t), gm8(p, x)));
    } else { lemma_ring(aj, 0, 0); assert(0u8 ^ 0u8 == 0u8) by (bit_vector); }
}
pub proof fn lemma_key(y: Seq<u8>, a: Seq<u8>, i: int, j: int)
    requires 0 <= i, 0 <= j <= a.len(),
    ensures keyval(y, i, a, j) == ssum(weighted(y, a, j), i + j, y.len() as int),
    decreases a.len() - j
{
    if j == a.len() {
        assert forall|k: int| 0 <= k < y.len() implies weighted(y, a, j)[k] == y[k] by { lemma_ring(y[k], 0, 0); }
        assert(weighted(y, a, j) =~= y);
    } else {
        lemma_key(y, a, i, j + 1);
        lemma_weighted(y, a, i + j, j, y.len() as int);
    }
}
/// the locator polynomial solves the key equations
pub proof fn lemma_key_solved(y: Seq<u8>, a: Seq<u8>, i: int)
    requires 0 <= i, forall|k: int| 0 <= k < y.len() && #[trigger] y[k] != 0 ==> mev(a, al8(k as nat), 0) == 0,
    ensures keyval(y, i, a, 0) == 0,
{
    lemma_key(y, a, i, 0);
    let w = weighted(y, a, 0);
    assert forall|k: int| 0 <= k < w.len() implies #[trigger] w[k] == 0 by { lemma_ring(y[k], 0, 0); lemma_ring(mev(a, al8(k as nat), 0), 0, 0); }
    lemma_zero(w, i, y.len() as int);
}
/// every solution of the key equations is zero at the locators of all non-zero terms
pub proof fn lemma_key_roots(y: Seq<u8>, a: Seq<u8>, z: int)
    requires y.len() <= 255, wt(y, y.len() as int) <= z, forall|i: int| 0 <= i < z ==> #[trigger] keyval(y, i, a, 0) == 0,
    ensures forall|k: int| 0 <= k < y.len() && #[trigger] y[k] != 0 ==> mev(a, al8(k as nat), 0) == 0,
{
    let w = weighted(y, a, 0); let n = y.len() as int;
    assert forall|i: int| 0 <= i < z implies #[trigger] ssum(w, i, n) == 0 by { lemma_key(y, a, i, 0); assert(keyval(y, i, a, 0) == 0); }
    assert forall|k: int| 0 <= k < n && #[trigger] w[k] != 0 implies y[k] != 0 by { lemma_ring(mev(a, al8(k as nat), 0), 0, 0); }
    lemma_wt_sub(w, y, n);
    lemma_vdm(w, z);
    assert forall|k: int| 0 <= k < n && #[trigger] y[k] != 0 implies mev(a, al8(k as nat), 0) == 0 by { assert(w[k] == 0); lemma_ring(y[k], mev(a, al8(k as nat), 0), 0); }
}
// ---------------------------------------------------------------- values at given places
pub open spec fn spread(locs: Seq<usize>, d: Seq<u8>, n: int, w: int) -> Seq<u8>
    decreases w
{ if w <= 0 { Seq::new(n as nat, |k: int| 0u8) } else { spread(locs, d, n, w - 1).update(locs[w - 1] as int, d[w - 1]) } }
pub open spec fn places(locs: Seq<usize>, n: int) -> bool { (forall|i: int| 0 <= i < locs.len() ==> #[trigger] locs[i] < n) && (forall|i: int, j: int| 0 <= i < j < locs.len() ==> locs[i] != locs[j]) }
pub open spec fn psum(locs: Seq<usize>, d: Seq<u8>, i: int, w: int) -> u8
    decreases w
{ if w <= 0 { 0 } else { psum(locs, d, i, w - 1) ^ gm8(al8((i * locs[w - 1]) as nat), d[w - 1]) } }
pub open spec fn bits_of(d: Seq<u8>, w: int) -> int
    decreases w
{ if w <= 0 { 0 } else { bits_of(d, w - 1) + ones8(d[w - 1]) } }
pub proof fn lemma_spread(locs: Seq<usize>, d: Seq<u8>, n: int, w: int, i: int)
    requires places(locs, n), 0 <= w <= locs.len(), w <= d.len(), 0 <= n,
    ensures spread(locs, d, n, w).len() == n, ssum(spread(locs, d, n, w), i, n) == psum(locs, d, i, w), wt(spread(locs, d, n, w), n) <= w,
        bsum(spread(locs, d, n, w), n) == bits_of(d, w),
        forall|j: int| 0 <= j < w ==> spread(locs, d, n, w)[#[trigger] locs[j] as int] == d[j],
        forall|k: int| 0 <= k < n && (forall|j: int| 0 <= j < w ==> #[trigger] locs[j] != k) ==> #[trigger] spread(locs, d, n, w)[k] == 0,
    decreases w
{
    if w > 0 {
        let y = spread(locs, d, n, w - 1); let q = locs[w - 1] as int;
        lemma_spread(locs, d, n, w - 1, i);
        assert(y[q] == 0);
        lemma_ssum_update(y, q, d[w - 1], i, n);
        lemma_ring(d[w - 1], al8((i * q) as nat), 0);
    } else { lemma_zero(spread(locs, d, n, 0), i, n); }
}
/// the values at the right places are determined by as many sums
pub proof fn lemma_values(locs: Seq<usize>, d: Seq<u8>, y: Seq<u8>)
    requires places(locs, y.len() as int), d.len() == locs.len(), y.len() <= 255,
        forall|k: int| 0 <= k < y.len() && #[trigger] y[k] != 0 ==> exists|j: int| 0 <= j < locs.len() && #[trigger] locs[j] == k,
        forall|i: int| 0 <= i < locs.len() ==> #[trigger] psum(locs, d, i, locs.len() as int) == ssum(y, i, y.len() as int),
    ensures spread(locs, d, y.len() as int, locs.len() as int) == y,
{
    let n = y.len() as int; let w = locs.len() as int;
    let u = spread(locs, d, n, w); let x = xs(u, y);
    lemma_spread(locs, d, n, w, 0);
    // a vector that is non-zero exactly at the places
    let one = Seq::new(w as nat, |j: int| 1u8);
    let m = spread(locs, one, n, w);
    lemma_spread(locs, one, n, w, 0);
    assert forall|k: int| 0 <= k < n && #[trigger] x[k] != 0 implies m[k] != 0 by {
        if forall|j: int| 0 <= j < w ==> #[trigger] locs[j] != k { assert(u[k] == 0); assert(y[k] == 0); assert(0u8 ^ 0u8 == 0u8) by (bit_vector); }
        else { let j = choose|j: int| 0 <= j < w && #[trigger] locs[j] == k; assert(m[locs[j] as int] == one[j]); }
    }
    lemma_wt_sub(x, m, n);
    assert forall|i: int| 0 <= i < w implies #[trigger] ssum(x, i, n) == 0 by {
        lemma_ssum_xor(u, y, i, n); lemma_spread(locs, d, n, w, i); assert(psum(locs, d, i, w) == ssum(y, i, n)); lemma_xor8(ssum(y, i, n), 0, 0, 0);
    }
    lemma_vdm(x, w);
    assert forall|k: int| 0 <= k < n implies u[k] == y[k] by { assert(x[k] == 0); lemma_xor8(u[k], y[k], 0, 0); }
    assert(u =~= y);
}
/// the right values solve the sums
pub proof fn lemma_values_exist(locs: Seq<usize>, y: Seq<u8>, i: int)
    requires places(locs, y.len() as int),
        forall|k: int| 0 <= k < y.len() && #[trigger] y[k] != 0 ==> exists|j: int| 0 <= j < locs.len() && #[trigger] locs[j] == k,
    ensures psum(locs, at_places(locs, y), i, locs.len() as int) == ssum(y, i, y.len() as int),
{
    let n = y.len() as int; let w = locs.len() as int; let d = at_places(locs, y);
    lemma_spread(locs, d, n, w, i);
    let u = spread(locs, d, n, w);
    assert forall|k: int| 0 <= k < n implies u[k] == y[k] by {
        if forall|j: int| 0 <= j < w ==> #[trigger] locs[j] != k { assert(u[k] == 0); assert(y[k] == 0); }
        else { let j = choose|j: int| 0 <= j < w && #[trigger] locs[j] == k; assert(u[locs[j] as int] == d[j]); }
    }
    assert(u =~= y);
}
pub open spec fn at_places(locs: Seq<usize>, y: Seq<u8>) -> Seq<u8> { Seq::new(locs.len(), |j: int| y[locs[j] as int]) }
}
#end
