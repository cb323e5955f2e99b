#include galois_head.vc
#include gf4.vc
#include qrdata.vc
#include qrerror.vc
#include format_spec.vc
#include format_lemmas.vc
#include boxes.vc
#raw
verus! {
pub fn u8_from_bool(b: bool) -> (r: u8) ensures r == (if b { 1u8 } else { 0u8 }) { if b { 1 } else { 0 } }
pub proof fn lemma_product(i: u32, j: u32)
    requires i < 200, j < 200,
    ensures 0 <= i * j < 40000, 0 <= j * i < 40000, i * j == j * i,
{ assert(0 <= i * j < 40000 && i * j == j * i) by (nonlinear_arith) requires i < 200, j < 200; }
/// what correct() is given and what it has to return
pub open spec fn fmt_corrected(v: Seq<u8>, r: Result<Vec<u8>, QRError>) -> bool {
    match r {
        Ok(o) => bits15(o@) && near(word(v), word(o@) >> 10u16) && word(o@) == fmt_word(word(o@) >> 10u16),
        Err(_) => forall|d: u16| !near(word(v), d),
    }
}
pub proof fn lemma_xor16(a: u16, b: u16, c: u16)
    ensures a ^ (a ^ b) == b, (a ^ b) ^ c == a ^ (b ^ c), a ^ b == b ^ a, a ^ 0u16 == a, 0u16 ^ a == a, a < 32768 && b < 32768 ==> a ^ b < 32768,
{
    assert(a ^ (a ^ b) == b) by (bit_vector); assert((a ^ b) ^ c == a ^ (b ^ c)) by (bit_vector); assert(a ^ b == b ^ a) by (bit_vector);
    assert(a ^ 0u16 == a) by (bit_vector); assert(0u16 ^ a == a) by (bit_vector); assert(a < 32768 && b < 32768 ==> a ^ b < 32768) by (bit_vector);
}
/// whatever has a near valid word has the syndromes of an error pattern the code finds, and then only that word is near
pub proof fn lemma_near(w: u16, d: u16)
    requires w < 32768, near(w, d),
    ensures w ^ fix4(sy1(w), sy3(w), sy5(w)) == fmt_word(d), den4(sy1(w), sy3(w)) != 0 || num4(sy1(w), sy3(w), sy5(w)) == 0,
{
    let c = fmt_word(d); let e = w ^ c;
    lemma_fmt_word(d); lemma_xor16(w, c, 0); lemma_xor16(c, w, 0);
    lemma_sy_lin(w, c); lemma_xor4(sy1(w), 0, 0, 0); lemma_xor4(sy3(w), 0, 0, 0); lemma_xor4(sy5(w), 0, 0, 0);
    lemma_fix(e);
}
pub proof fn lemma_near_unique(w: u16, d: u16, e: u16)
    requires w < 32768, near(w, d), near(w, e),
    ensures d == e,
{ lemma_near(w, d); lemma_near(w, e); lemma_fmt_word(d); lemma_fmt_word(e); }
pub proof fn lemma_fmt_xor()
    ensures forall|k: int| 0 <= k < 15 ==> #[trigger] fmt_xor(k) <= 1,
{
    assert forall|k: int| 0 <= k < 15 implies #[trigger] fmt_xor(k) <= 1 by {
        let i = (14 - k) as u16;
        assert(((0b101010000010010u16 >> i) & 1) <= 1) by (bit_vector);
    }
}
pub proof fn lemma_copies(q: &QRData)
    ensures bits15(copy1(q)), bits15(copy2(q)), word(copy1(q)) < 32768, word(copy2(q)) < 32768,
{
    lemma_fmt_xor();
    assert forall|k: int| 0 <= k < 15 implies #[trigger] copy1(q)[k] <= 1 by {
        let a = module(q, pos1(k).0, pos1(k).1); let b = fmt_xor(k);
        assert(a <= 1 && b <= 1 ==> a ^ b <= 1) by (bit_vector);
    }
    assert forall|k: int| 0 <= k < 15 implies #[trigger] copy2(q)[k] <= 1 by {
        let a = module(q, pos2(q.side as int, k).0, pos2(q.side as int, k).1); let b = fmt_xor(k);
        assert(a <= 1 && b <= 1 ==> a ^ b <= 1) by (bit_vector);
    }
    lemma_wn(copy1(q), 15); lemma_wn(copy2(q), 15);
}
pub proof fn lemma_el4_closed()
    ensures forall|a: u8, b: u8| el4(a) && el4(b) ==> #[trigger] el4(a ^ b), forall|a: u8, b: u8| el4(a) && el4(b) ==> #[trigger] el4(gm4(a, b)),
{
    assert forall|a: u8, b: u8| el4(a) && el4(b) implies #[trigger] el4(a ^ b) by { assert(el4(a) && el4(b) ==> el4(a ^ b)) by (bit_vector); }
    assert forall|a: u8, b: u8| el4(a) && el4(b) implies #[trigger] el4(gm4(a, b)) by { lemma_gm4_lin(a, 0, b); }
}
pub proof fn lemma_el4_lt()
    ensures forall|a: u8| a < 16 ==> #[trigger] el4(a)
{ assert forall|a: u8| a < 16 implies #[trigger] el4(a) by { lemma_el4(a); } }
#end
#const src/decode/qr/format.rs MASK
#raw
pub open spec fn mask_const_ok(n: nat) -> bool
    decreases n
{ n == 0 || (mask_const_ok((n - 1) as nat) && MASK[n - 1] == fmt_xor(n - 1)) }
pub proof fn lemma_mask_const_upto(n: nat)
    requires mask_const_ok(n),
    ensures forall|k: int| 0 <= k < n ==> #[trigger] MASK[k] == fmt_xor(k),
    decreases n
{ if n > 0 { lemma_mask_const_upto((n - 1) as nat); } }
pub proof fn lemma_mask_const()
    ensures forall|k: int| 0 <= k < 15 ==> #[trigger] MASK[k] == fmt_xor(k),
{ assert(mask_const_ok(15)) by (compute_only); lemma_mask_const_upto(15); }
#end
#sub `Option<Box<QRMask>>` => `Option<QRMaskBox>`
#sub `Box<QRMask>` => `QRMaskBox`
#sub `u8::from(` => `u8_from_bool(`
#fn src/decode/qr/format.rs syndromes
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    requires bits15(format@),
    ensures r.0.0 == sy1(word(format@)), r.1.0 == sy3(word(format@)), r.2.0 == sy5(word(format@)),
@entry
    proof { lemma_sy_el(0); lemma_tables4(); assert(el4(1u8)) by (bit_vector); assert(el4(0u8)) by (bit_vector); }
@loop 1
        invariant s1.0 == sy1(wn(format@, i as nat)), s3.0 == sy3(wn(format@, i as nat)), s5.0 == sy5(wn(format@, i as nat)),
@loopstart 1
        proof {
            let b = format@[15 - i - 1]; let w = wn(format@, i as nat); let z = (b as u16) << (i as u16);
            assert(wn(format@, (i + 1) as nat) == w ^ z);
            lemma_sy_lin(w, z); lemma_unit(i as nat); lemma_sy_el(0);
            assert(b == 0 ==> z == 0u16) by (bit_vector) requires z == (b as u16) << (i as u16);
            assert(b == 1 ==> z == 1u16 << (i as u16)) by (bit_vector) requires z == (b as u16) << (i as u16);
            lemma_al4_add((i % 15) as nat, 0); lemma_al4_add(((3 * i) % 15) as nat, 0); lemma_al4_add(((5 * i) % 15) as nat, 0);
            lemma_gm4_field(al4((i % 15) as nat), 1u8, 0u8); lemma_gm4_field(al4(((3 * i) % 15) as nat), 1u8, 0u8); lemma_gm4_field(al4(((5 * i) % 15) as nat), 1u8, 0u8);
            assert(EXP4[(i % 15) as int].0 == al4((i % 15) as nat));
            assert(EXP4[((3 * i) % 15) as int].0 == al4(((3 * i) % 15) as nat));
            assert(EXP4[((5 * i) % 15) as int].0 == al4(((5 * i) % 15) as nat));
        }
#fn src/decode/qr/format.rs correct
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    requires bits15(format@),
    ensures fmt_corrected(format@, r),
@entry
    let ghost f0 = format@;
    let ghost w0 = word(f0);
    proof {
        lemma_wn(f0, 15); lemma_sy_el(w0); lemma_codeword(w0); assert(el4(0u8)) by (bit_vector); lemma_xor16(w0, w0, 0); lemma_tables4(); lemma_el4_closed();
        assert(ones(0u16) == 0) by (compute_only); assert(w0 ^ w0 == 0u16) by (bit_vector);
        lemma_el4_lt();
    }
@afterlet sigma3
    let ghost a = s1.0; let ghost b = sigma2.0; let ghost c = sigma3.0;
    let ghost fix = emask(a, b, c, 16);
    proof {
        lemma_few(a, b, c); lemma_emask(a, b, c, 16); lemma_xor16(w0, fix, 0);
        if forall|d: u16| !near(w0, d) {} else {
            let d = choose|d: u16| near(w0, d);
            lemma_near(w0, d);
            lemma_quo4(num4(s1.0, s3.0, s5.0), den4(s1.0, s3.0), b);
            assert(fix == fix4(s1.0, s3.0, s5.0));
            lemma_fmt_word(d);
            assert(sy1(w0 ^ fix) == 0 && sy3(w0 ^ fix) == 0 && sy5(w0 ^ fix) == 0);
        }
    }
@loop 1
        invariant lmask(error_pos@, error_pos@.len()) == emask(a, b, c, i as nat), forall|k: int| 0 <= k < error_pos@.len() ==> #[trigger] error_pos@[k] < 15,
@loopstart 1
        let ghost ep0 = error_pos@;
        proof { lemma_xor16(emask(a, b, c, i as nat), 0, 0); lemma_el4(i); assert(LOG4[i as int] < 15); }
@loopend 1
        proof { if error_pos@.len() > ep0.len() { lemma_lmask(ep0, error_pos@, ep0.len()); } }
@beforeloop 2
    let ghost ep = error_pos@;
@loop 2 it flips
        invariant bits15(format@), word(format@) == w0 ^ lmask(ep, flips.index@ as nat),
@loopstart 2
        proof { lemma_flip(format@, error as int, 15); lemma_xor16(w0, lmask(ep, flips.index@ as nat), 1u16 << (error as u16)); }
@afterloop 2
    proof { lemma_codeword(word(format@)); }
#fn src/decode/qr/format.rs error_correction
@ret r
@spec
    ensures bytes < 4 ==> r is Some && forall|d: u16| #![trigger level_of(d)] d / 8 == bytes ==> r->0 == level_of(d),

#fn src/decode/qr/format.rs format1
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    requires wf(data),
    ensures fmt_corrected(copy1(data), r),
@entry
    proof { lemma_wf(data); lemma_mask_const(); lemma_fmt_xor(); }
@loop 1
        invariant format1@.len() == (if x <= 6 { x } else { (x - 1) as u32 }), forall|k: int| 0 <= k < format1@.len() ==> #[trigger] format1@[k] == module(data, pos1(k).0, pos1(k).1),
@loop 2 it ys
        invariant format1@.len() == (if ys.index@ <= 1 { 8 + ys.index@ } else { 7 + ys.index@ }), forall|k: int| 0 <= k < format1@.len() ==> #[trigger] format1@[k] == module(data, pos1(k).0, pos1(k).1),
@beforeloop 3
    let ghost raw = format1@;
@loop 3
        invariant format1@.len() == 15, forall|k: int| 0 <= k < 15 ==> #[trigger] format1@[k] == if k < i { raw[k] ^ fmt_xor(k) } else { raw[k] },
@afterloop 3
    proof { assert(format1@ =~= copy1(data)); lemma_copies(data); }
#fn src/decode/qr/format.rs format2
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    requires wf(data),
    ensures fmt_corrected(copy2(data), r),
@entry
    proof { lemma_wf(data); lemma_mask_const(); lemma_fmt_xor(); }
@loop 1 it ys
        invariant format2@.len() == ys.index@, forall|k: int| 0 <= k < format2@.len() ==> #[trigger] format2@[k] == module(data, pos2(data.side as int, k).0, pos2(data.side as int, k).1),
@loop 2
        invariant format2@.len() == 15 + x - data.side, forall|k: int| 0 <= k < format2@.len() ==> #[trigger] format2@[k] == module(data, pos2(data.side as int, k).0, pos2(data.side as int, k).1),
@beforeloop 3
    let ghost raw = format2@;
@loop 3
        invariant format2@.len() == 15, forall|k: int| 0 <= k < 15 ==> #[trigger] format2@[k] == if k < i { raw[k] ^ fmt_xor(k) } else { raw[k] },
@afterloop 3
    proof { assert(format2@ =~= copy2(data)); lemma_copies(data); }
#fn src/decode/qr/format.rs qrmask
@ret r
@sub `Box<Mask>` => `MaskBox`
@sub `Box::new` => `QRMaskBox::new`
@sub `mask(` => `mask.call(`
@closurespec u8 %% requires in_matrix($1, $2 as int, $3 as int), mask.req($2, $3) ensures exists|m: bool| mask.ens($2, $3, m) && closure_r == module($1, $2 as int, $3 as int) ^ (if m { 1u8 } else { 0u8 }) %%
@spec
    ensures r is Some,
        forall|q: &QRData, x: u32, y: u32| in_matrix(q, x as int, y as int) && mask.req(x, y) ==> #[trigger] r->0.req(q, x, y),
        forall|q: &QRData, x: u32, y: u32, o: u8| #[trigger] r->0.ens(q, x, y, o) ==> exists|m: bool| mask.ens(x, y, m) && o == module(q, x as int, y as int) ^ (if m { 1u8 } else { 0u8 }),
#fn src/decode/qr/format.rs mask
@ret r
@sub `Box::new` => `MaskBox::new`
@closures u32, u32 -> bool | requires $1 < 200, $2 < 200 | proof { lemma_product($1, $2); }
@spec
    requires bytes < 8,
    ensures r is Some, applies(&r->0, bytes),
#fn src/decode/qr/format.rs format
@ret r
@spec
    requires wf(data),
    ensures match r {
        Ok((level, m)) => exists|d: u16| #[trigger] selected(data, d) && only(data, d) && level == level_of(d) && applies(&m, (d % 8) as u8),
        Err(_) => forall|d: u16| !selected(data, d),
    },
@entry
    proof { lemma_copies(data); }
@afterlet format 2
    proof {
        lemma_lead(format@);
        let d = word(format@) >> 10u16;
        assert(selected(data, d));
        assert forall|e: u16| selected(data, e) implies e == d by {
            if near(word(copy1(data)), d) { lemma_near_unique(word(copy1(data)), e, d); } else { lemma_near_unique(word(copy2(data)), e, d); }
        }
    }
#raw
}
#end
