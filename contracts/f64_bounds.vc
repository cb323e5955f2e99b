#raw
verus! {
/// f is a finite number with l <= f <= h
pub uninterp spec fn within(f: f64, l: int, h: int) -> bool;
/// an integer with magnitude at most 2^53, or 2^54 .. 2^60: an f64 can be exactly that
pub open spec fn exact(n: int) -> bool { -0x20_0000_0000_0000 <= n <= 0x20_0000_0000_0000 || n == 0x400_0000_0000_0000 || n == 0x800_0000_0000_0000 || n == 0x1000_0000_0000_0000 }
/// IEEE 754 arithmetic keeps to bounds that are themselves f64 numbers, since rounding is monotone (proved in float/Bounds.v for all f64)
pub axiom fn w_wider(f: f64, l: int, h: int, l2: int, h2: int) requires within(f, l, h), l2 <= l, h <= h2 ensures within(f, l2, h2);
pub axiom fn w_u32(k: u32) ensures within(<f64 as FromSpec<u32>>::from_spec(k), k as int, k as int);
pub axiom fn w_add(a: f64, b: f64, l: int, h: int, l2: int, h2: int)
    requires within(a, l, h), within(b, l2, h2), exact(l + l2), exact(h + h2) ensures within(AddSpec::add_spec(a, b), l + l2, h + h2);
pub axiom fn w_sub(a: f64, b: f64, l: int, h: int, l2: int, h2: int)
    requires within(a, l, h), within(b, l2, h2), exact(l - h2), exact(h - l2) ensures within(SubSpec::sub_spec(a, b), l - h2, h - l2);
pub axiom fn w_mul(a: f64, b: f64, l: int, h: int, l2: int, h2: int)
    requires within(a, l, h), within(b, l2, h2), 0 <= l, 0 <= l2, exact(l * l2), exact(h * h2) ensures within(MulSpec::<f64>::mul_spec(a, b), l * l2, h * h2);
pub axiom fn w_square(a: f64, m: int, s: int)
    requires within(a, -m, m), m * m <= s, exact(s) ensures within(MulSpec::<f64>::mul_spec(a, a), 0, s);
pub axiom fn w_div(a: f64, b: f64, l: int, h: int, l2: int, h2: int, q: int, r: int)
    requires within(a, l, h), within(b, l2, h2), 0 <= l, 0 < l2, q * h2 <= l, h <= r * l2, 0 <= q, exact(q), exact(r) ensures within(DivSpec::div_spec(a, b), q, r);
pub axiom fn w_sqrt(a: f64, m: int, s: int)
    requires within(a, 0, s), 0 <= m, s <= m * m, exact(m) ensures within(root(a), 0, m);
pub axiom fn w_cast(a: f64, l: int, h: int)
    requires within(a, l, h), 0 <= h ensures f64_to_u32(rounded(a)) <= h;
pub axiom fn w_literals()
    ensures within(0.0f64, 0, 0), within(1.0f64, 1, 1), within(2.0f64, 2, 2), within(3.5f64, 3, 4), within(4.0f64, 4, 4), within(7.0f64, 7, 7);
pub uninterp spec fn root(x: f64) -> f64;
pub assume_specification [ f64::sqrt ] (x: f64) -> (r: f64) ensures r == root(x);
#[verifier::external_body]
pub fn f64_neg(x: f64) -> (r: f64) { -x }
}
#end
