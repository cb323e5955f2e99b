#include qrdata.vc
#include qrerror.vc
#include format_spec.vc
#include boxes.vc
#include blockinfo_spec.vc
#include blockinfo_lemmas.vc
#include blocks_spec.vc
#include blocks_lemmas.vc
#raw
use vstd::std_specs::iter::*;
verus! {
/// a boxed iterator of numbers, as the numbers it yields (assumed: collecting a range yields what iterating it yields)
#[verifier::external_body]
pub fn boxed_iter<I: Iterator<Item = u32> + IteratorSpec>(it: I) -> (r: Vec<u32>) ensures r@ == it.remaining() { it.collect() }
#end
#stub blockinfo src/decode/qr/mod.rs block_info
#sub `format!(..)` => `fmt_msg()`
#struct src/decode/qr/blocks.rs AlignmentLocation
#struct src/decode/qr/blocks.rs Blocks
#struct src/decode/qr/blocks.rs Codewords
#raw
pub open spec fn loc_ok(loc: &AlignmentLocation, v: int) -> bool { loc.start == loc_start(v) && loc.step == loc_step(v) && loc.start >= 18 && loc.step > 0 }
/// the state of the dealer after the codewords p
pub open spec fn fill(b: &Blocks, v: int, l: int, j: int) -> int {
    if !b.data_blocks { data_len(v, l, j) + (b.round - b.max_data_round) + (if j < b.block { 1int } else { 0 }) }
    else if b.round < short_data(v, l) { b.round + (if j < b.block { 1int } else { 0 }) }
    else { short_data(v, l) + (if first_long(v, l) <= j && j < b.block { 1int } else { 0 }) }
}
/// how many codewords the position stands for
pub open spec fn dealt(b: &Blocks, v: int, l: int) -> int {
    let n = n_blocks(v, l);
    if !b.data_blocks { short_data(v, l) * n + n_long(v, l) + (b.round - b.max_data_round) * n + b.block }
    else if b.round < short_data(v, l) { b.round * n + b.block }
    else { short_data(v, l) * n + (if b.block <= first_long(v, l) { 0 } else { b.block - first_long(v, l) }) }
}
pub open spec fn shape(b: &Blocks, v: int, l: int) -> bool {
    1 <= v <= 40 && 0 <= l < 4 && is_block_list(b.block_info@, v, l) && b.blocks@.len() == n_blocks(v, l) && 0 <= b.block < n_blocks(v, l)
    && b.max_data_round == short_data(v, l) + (if n_long(v, l) > 0 { 1int } else { 0 })
    && b.data_blocks == (b.round < b.max_data_round) && b.round < 2000000
}
pub open spec fn holds(b: &Blocks, v: int, l: int, p: Seq<u8>) -> bool {
    shape(b, v, l) && p.len() == dealt(b, v, l)
    && (forall|j: int| 0 <= j < b.blocks@.len() ==> (#[trigger] b.blocks@[j])@.len() == fill(b, v, l, j))
    && contents(b, v, l, p)
}
pub open spec fn contents(b: &Blocks, v: int, l: int, p: Seq<u8>) -> bool {
    forall|j: int, i: int| 0 <= j < b.blocks@.len() && 0 <= i < b.blocks@[j]@.len() ==> #[trigger] number_ok(v, l, j, i, p.len() as int) && b.blocks@[j]@[i] == p[number(v, l, j, i)]
}
pub open spec fn number_ok(v: int, l: int, j: int, i: int, len: int) -> bool { 0 <= number(v, l, j, i) < len }
pub open spec fn n_facts(v: int, l: int) -> bool {
    n_blocks(v, l) >= 1 && 0 <= n_long(v, l) < n_blocks(v, l) && short_data(v, l) >= 1 && n_check(v, l) >= 1 && short_total(v, l) <= 200 && n_blocks(v, l) <= 100
}
pub proof fn lemma_n_facts(v: int, l: int)
    requires 1 <= v <= 40, 0 <= l < 4,
    ensures n_facts(v, l),
{ lemma_iso(); }
#end
#fn src/decode/qr/blocks.rs AlignmentLocation::new
@ret r
@spec
    ensures r.start == start, r.step == step,
#fn src/decode/qr/blocks.rs alignment_location
@ret r
@spec
    ensures match r { Ok(loc) => 1 <= version <= 40 && loc_ok(&loc, version as int), Err(_) => !(1 <= version <= 40) },
@entry
    proof { lemma_locs(); }
#fn src/decode/qr/blocks.rs is_alignment_coord
@ret r
@spec
    requires loc.start >= 2, loc.step > 0,
    ensures r == coord_rule(loc.start as int, loc.step as int, coord as int),
#fn src/decode/qr/blocks.rs is_data
@ret r
@spec
    requires 1 <= data.version <= 40, data.side == side_of(data.version as int), loc_ok(loc, data.version as int), x < data.side, y < data.side,
    ensures r == !is_function(data.version as int, x as int, y as int),
@entry
    proof { lemma_coord(data.version as int); let a = axis(data.version as int, x as int); let b = axis(data.version as int, y as int); assert(a.centre >= 0 && b.centre >= 0); assert(coord_at(data.version as int, x as int) && coord_at(data.version as int, y as int)); 
        assert(near_any(data.version as int, x as int) == coord_rule(loc.start as int, loc.step as int, x as int));
        assert(near_any(data.version as int, y as int) == coord_rule(loc.start as int, loc.step as int, y as int));
        assert(a.eight == (x == 8) && b.eight == (y == 8) && a.below8 == (x < 8) && b.below8 == (y < 8) && a.below6 == (x < 6) && b.below6 == (y < 6));
        assert(a.last8 == (x > data.side - 9) && b.last8 == (y > data.side - 9));
        assert(a.centre > 0 && b.centre > 0 ==> coord_rule(loc.start as int, loc.step as int, x as int) && coord_rule(loc.start as int, loc.step as int, y as int));
        assert(y < 4 ==> b.centre == 0); assert(x < 4 ==> a.centre == 0);
    }
#fn src/decode/qr/blocks.rs y_range
@ret r
@sub `Box<dyn Iterator<Item = u32>>` => `Vec<u32>`
@sub `Box::new(` => `boxed_iter(`
@sub `i64::from(..)` => `($ARGS as i64)`
@spec
    requires x < side, side <= 177, side >= 21, (side - 17) % 4 == 0,
    ensures r@.len() == side, forall|c: int, k: int| #![trigger row(((side - 17) / 4) as int, c, k)] 0 <= c < n_pairs(((side - 17) / 4) as int) && x == right(((side - 17) / 4) as int, c) && 0 <= k < side ==> r@[k] == row(((side - 17) / 4) as int, c, k),
@entry
    proof {
        let v = ((side - 17) / 4) as int; let z = (if x < 6 { x + 1 } else { x as int });
        assert forall|c: int| 0 <= c < n_pairs(v) && x == #[trigger] right(v, c) implies z - side + 1 == -2 * c && ((z - side + 1) % 4 == 0) == (c % 2 == 0) && (z < side - 1 ==> z - side + 1 < 0) by {}
    }
#raw
// ---------------------------------------------------------------- dealing out the codewords
pub open spec fn all_empty(s: Seq<Vec<u8>>) -> bool { forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j])@.len() == 0 }
/// the position moves on by one block
pub open spec fn stepped(a: &Blocks, b: &Blocks) -> bool {
    b.block_info == a.block_info && b.blocks == a.blocks && b.max_data_round == a.max_data_round
    && (if a.block == a.block_info@.len() - 1 { b.block == 0 && b.round == a.round + 1 && b.data_blocks == (a.data_blocks && a.round + 1 != a.max_data_round) }
        else { b.block == a.block + 1 && b.round == a.round && b.data_blocks == a.data_blocks })
}
/// the block at the position takes the next codeword
pub open spec fn ready(b: &Blocks) -> bool { !b.data_blocks || b.round < b.block_info@[b.block as int].data_per }
pub proof fn lemma_succ(r: int, n: int)
    ensures (r + 1) * n == r * n + n,
{ assert((r + 1) * n == r * n + n) by (nonlinear_arith); }
pub proof fn lemma_mono(a: int, b: int, n: int)
    requires a <= b, n >= 0,
    ensures a * n <= b * n,
{ assert(a * n <= b * n) by (nonlinear_arith) requires a <= b, n >= 0; }
pub proof fn lemma_skip(a: &Blocks, b: &Blocks, v: int, l: int, p: Seq<u8>)
    requires holds(a, v, l, p), !ready(a), stepped(a, b),
    ensures holds(b, v, l, p), b.block == a.block + 1,
{
    lemma_n_facts(v, l);
    assert(is_block(a.block_info@[a.block as int], v, l, a.block as int));
    assert(a.round == short_data(v, l) && a.block < first_long(v, l));
    assert(shape(b, v, l));
    assert(dealt(a, v, l) == dealt(b, v, l));
    assert forall|j: int| 0 <= j < b.blocks@.len() implies (#[trigger] b.blocks@[j])@.len() == fill(b, v, l, j) by {
        assert(a.blocks@[j]@.len() == fill(a, v, l, j));
    }
    assert(p.len() == dealt(b, v, l));
    assert(contents(a, v, l, p));
    assert(contents(b, v, l, p));
}
pub proof fn lemma_push(a: &Blocks, m: &Blocks, b: &Blocks, v: int, l: int, p: Seq<u8>, byte: u8)
    requires holds(a, v, l, p), ready(a), p.len() < 10000, stepped(m, b),
        m.block_info == a.block_info, m.max_data_round == a.max_data_round, m.round == a.round, m.block == a.block, m.data_blocks == a.data_blocks,
        m.blocks@ == a.blocks@.update(a.block as int, m.blocks@[a.block as int]), m.blocks@[a.block as int]@ == a.blocks@[a.block as int]@.push(byte),
    ensures holds(b, v, l, p.push(byte)),
{
    lemma_n_facts(v, l);
    let n = n_blocks(v, l); let k = a.block as int; let q = p.push(byte);
    assert(is_block(a.block_info@[k], v, l, k));
    lemma_succ(a.round as int, n); lemma_succ(a.round - a.max_data_round, n);
    lemma_round(a, v, l, p);
    let i0 = a.blocks@[k]@.len() as int;
    assert(i0 == fill(a, v, l, k));
    assert(number(v, l, k, i0) == p.len()) by {
        if !a.data_blocks { assert(i0 - data_len(v, l, k) == a.round - a.max_data_round); }
    }
    if b.round != a.round { assert(b.round == a.round + 1); lemma_succ(b.round - a.max_data_round - 1, n); }
    assert(shape(b, v, l));
    assert(p.len() == dealt(a, v, l));
    assert(q.len() == dealt(b, v, l)) by {
        if a.data_blocks && !b.data_blocks { assert((b.round - b.max_data_round) * n == 0) by (nonlinear_arith) requires b.round == b.max_data_round; }
    }
    assert forall|j: int| 0 <= j < b.blocks@.len() implies (#[trigger] b.blocks@[j])@.len() == fill(b, v, l, j) by {
        assert(a.blocks@[j]@.len() == fill(a, v, l, j));
    }
    assert(b.blocks@ =~= m.blocks@);
    lemma_contents(a.blocks@, b.blocks@, v, l, k, p, byte);
    assert(contents(b, v, l, q));
}
/// one block got one more codeword, the next of the stream
pub proof fn lemma_contents(x: Seq<Vec<u8>>, y: Seq<Vec<u8>>, v: int, l: int, k: int, p: Seq<u8>, byte: u8)
    requires 0 <= k < x.len(), y == x.update(k, y[k]), y[k]@ == x[k]@.push(byte), number(v, l, k, x[k]@.len() as int) == p.len(),
        forall|j: int, i: int| 0 <= j < x.len() && 0 <= i < x[j]@.len() ==> #[trigger] number_ok(v, l, j, i, p.len() as int) && x[j]@[i] == p[number(v, l, j, i)],
    ensures forall|j: int, i: int| 0 <= j < y.len() && 0 <= i < y[j]@.len() ==> #[trigger] number_ok(v, l, j, i, p.len() as int + 1) && y[j]@[i] == p.push(byte)[number(v, l, j, i)],
{
    let q = p.push(byte);
    assert forall|j: int, i: int| 0 <= j < y.len() && 0 <= i < y[j]@.len() implies #[trigger] number_ok(v, l, j, i, p.len() as int + 1) && y[j]@[i] == q[number(v, l, j, i)] by {
        if j == k && i == x[k]@.len() {
            assert(number_ok(v, l, j, i, q.len() as int));
        } else {
            assert(i < x[j]@.len());
            assert(number_ok(v, l, j, i, p.len() as int));
            assert(y[j]@[i] == x[j]@[i]);
        }
    }
}
pub proof fn lemma_round(b: &Blocks, v: int, l: int, p: Seq<u8>)
    requires holds(b, v, l, p), p.len() < 10000,
    ensures b.round < 20000,
{
    lemma_n_facts(v, l);
    let n = n_blocks(v, l);
    lemma_mono(0, short_data(v, l), n);
    if b.data_blocks && b.round < short_data(v, l) { lemma_mono(0, b.round as int, n); }
    if !b.data_blocks { assert(b.round - b.max_data_round <= (b.round - b.max_data_round) * n || b.round < b.max_data_round) by (nonlinear_arith) requires n >= 1; }
}
#end
#fn src/decode/qr/blocks.rs Blocks::new
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    ensures forall|v: int, l: int| 1 <= v <= 40 && 0 <= l < 4 && is_block_list(block_info@, v, l) ==> #[trigger] holds(&r, v, l, Seq::empty()),
@entry
    proof {
        assert forall|v: int, l: int| 1 <= v <= 40 && 0 <= l < 4 && #[trigger] is_block_list(block_info@, v, l) implies n_facts(v, l) && (forall|i: int| 0 <= i < block_info@.len() ==> is_block(#[trigger] block_info@[i], v, l, i)) by { lemma_n_facts(v, l); }
    }
@loop 1 it iter
        invariant blocks@.len() == iter.index@, all_empty(blocks@),
            forall|v: int, l: int| 1 <= v <= 40 && 0 <= l < 4 && #[trigger] is_block_list(block_info@, v, l) ==> max_data_round == (if iter.index@ == 0 { 0 } else { data_len(v, l, iter.index@ - 1) }),
#fn src/decode/qr/blocks.rs Blocks::push
@attr #[verifier::loop_isolation(false)]
@spec
    requires exists|v: int, l: int, p: Seq<u8>| holds(old(self), v, l, p) && p.len() < 10000,
    ensures forall|v: int, l: int, p: Seq<u8>| #[trigger] holds(old(self), v, l, p) && p.len() < 10000 ==> holds(final(self), v, l, p.push(byte)),
@entry
    let ghost vlp = choose|w: (int, int, Seq<u8>)| holds(old(self), w.0, w.1, w.2) && w.2.len() < 10000;
    proof {
        let (v, l, p) = choose|v: int, l: int, p: Seq<u8>| holds(old(self), v, l, p) && p.len() < 10000;
        assert(holds(old(self), (v, l, p).0, (v, l, p).1, (v, l, p).2));
        lemma_n_facts(vlp.0, vlp.1);
    }
@loop 1
        invariant holds(self, vlp.0, vlp.1, vlp.2), forall|v: int, l: int, p: Seq<u8>| #[trigger] holds(old(self), v, l, p) ==> holds(self, v, l, p),
        decreases self.block_info@.len() - self.block,
@loopstart 1
        let ghost before = *self;
        proof { lemma_round(self, vlp.0, vlp.1, vlp.2); assert(is_block(self.block_info@[self.block as int], vlp.0, vlp.1, self.block as int)); }
@loopend 1
        proof {
            lemma_skip(&before, self, vlp.0, vlp.1, vlp.2);
            assert forall|v: int, l: int, p: Seq<u8>| #[trigger] holds(old(self), v, l, p) implies holds(self, v, l, p) by { lemma_skip(&before, self, v, l, p); }
        }
@afterloop 1
        let ghost before = *self;
        proof { lemma_round(self, vlp.0, vlp.1, vlp.2); assert(ready(self)); }
@before "self.inc_count" 2
        let ghost middle = *self;
@exit
        proof {
            assert forall|v: int, l: int, p: Seq<u8>| #[trigger] holds(old(self), v, l, p) && p.len() < 10000 implies holds(self, v, l, p.push(byte)) by { lemma_push(&before, &middle, self, v, l, p, byte); }
        }
#fn src/decode/qr/blocks.rs Blocks::inc_count
@spec
    requires old(self).block < old(self).block_info@.len(), old(self).round < 2000000,
    ensures stepped(old(self), final(self)),
@entry
        proof { assert(self.block_info@.len() == self.block_info.len() <= usize::MAX); }
#raw
// ---------------------------------------------------------------- bits into codewords
pub open spec fn bits01(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] <= 1 }
pub open spec fn bytes_of(b: Seq<u8>) -> Seq<u8> { Seq::new((b.len() / 8) as nat, |i: int| bits_value(b, 8 * i, 8) as u8) }
pub open spec fn two(k: int) -> int { if k == 0 { 1 } else if k == 1 { 2 } else if k == 2 { 4 } else if k == 3 { 8 } else if k == 4 { 16 } else if k == 5 { 32 } else if k == 6 { 64 } else if k == 7 { 128 } else { 256 } }
pub open spec fn collected(c: &Codewords, v: int, l: int, b: Seq<u8>) -> bool {
    bits01(b) && c.bit_count == b.len() % 8 && c.current_byte == bits_value(b, 8 * (b.len() / 8) as int, (b.len() % 8) as int) && holds(&c.blocks, v, l, bytes_of(b))
}
pub proof fn lemma_value_bound(b: Seq<u8>, s: int, k: int)
    requires bits01(b), 0 <= s, 0 <= k <= 8, s + k <= b.len(),
    ensures 0 <= bits_value(b, s, k) < two(k),
    decreases k
{ if k > 0 { lemma_value_bound(b, s, k - 1); } }
pub proof fn lemma_value_push(b: Seq<u8>, x: u8, s: int, k: int)
    requires 0 <= s, 0 <= k, s + k <= b.len(),
    ensures bits_value(b.push(x), s, k) == bits_value(b, s, k),
    decreases k
{ if k > 0 { lemma_value_push(b, x, s, k - 1); } }
pub proof fn lemma_bytes_push(b: Seq<u8>, x: u8)
    requires bits01(b), x <= 1,
    ensures ({ let w = (b.len() / 8) as int; let n = b.push(x); let k = (b.len() % 8) as int;
        bits01(n) && bits_value(n, 8 * w, k + 1) == 2 * bits_value(b, 8 * w, k as int) + x && 0 <= bits_value(b, 8 * w, k as int) < two(k as int)
        && bytes_of(n) == (if k == 7 { bytes_of(b).push(bits_value(n, 8 * w, 8) as u8) } else { bytes_of(b) }) }),
{
    let w = (b.len() / 8) as int; let n = b.push(x); let k = (b.len() % 8) as int;
    lemma_value_push(b, x, 8 * w, k as int);
    lemma_value_bound(b, 8 * w, k as int);
    assert forall|i: int| 0 <= i < w implies bytes_of(n)[i] == #[trigger] bytes_of(b)[i] by { lemma_value_push(b, x, 8 * i, 8); }
    assert(bytes_of(n) =~= (if k == 7 { bytes_of(b).push(bits_value(n, 8 * w, 8) as u8) } else { bytes_of(b) }));
}
#end
#fn src/decode/qr/blocks.rs Codewords::new
@ret r
@spec
    ensures forall|v: int, l: int| 1 <= v <= 40 && 0 <= l < 4 && #[trigger] is_block_list(block_info@, v, l) ==> collected(&r, v, l, Seq::empty()),
@entry
    proof { assert(bytes_of(Seq::empty()) =~= Seq::<u8>::empty()); }
#fn src/decode/qr/blocks.rs Codewords::add_bit
@spec
    requires bit <= 1, exists|v: int, l: int, b: Seq<u8>| collected(old(self), v, l, b) && b.len() < 70000,
    ensures forall|v: int, l: int, b: Seq<u8>| #[trigger] collected(old(self), v, l, b) && b.len() < 70000 ==> collected(final(self), v, l, b.push(bit)),
@entry
        proof {
            assert forall|v: int, l: int, b: Seq<u8>| #[trigger] collected(old(self), v, l, b) implies
                self.bit_count < 8 && self.current_byte < two(self.bit_count as int) && holds(&self.blocks, v, l, bytes_of(b)) && bytes_of(b).len() == b.len() / 8 by { lemma_bytes_push(b, bit); }
        }
@exit
        proof {
            assert forall|v: int, l: int, b: Seq<u8>| #[trigger] collected(old(self), v, l, b) && b.len() < 70000 implies collected(self, v, l, b.push(bit)) by { lemma_bytes_push(b, bit); }
        }
#fn src/decode/qr/blocks.rs Codewords::blocks
@ret r
@spec
    ensures r@ == self.blocks.blocks@,
#raw
// ---------------------------------------------------------------- the whole reader
/// bits are what the mask function answers for the cells
pub open spec fn read_from(q: &QRData, mask: &QRMaskBox, b: Seq<u8>, z: Seq<(int, int)>) -> bool {
    b.len() == z.len() && forall|i: int| 0 <= i < b.len() ==> mask.ens(q, (#[trigger] z[i]).0 as u32, z[i].1 as u32, b[i])
}
pub proof fn lemma_cells_len(v: int, c: int, k: int)
    requires 1 <= v <= 40, 0 <= c, 0 <= k <= side_of(v),
    ensures cells(v, c, k).len() <= 354 * c + 2 * k,
    decreases c, k
{ if k > 0 { lemma_cells_len(v, c, k - 1); } else if c > 0 { lemma_cells_len(v, c - 1, side_of(v)); } }
pub proof fn lemma_unmasked(q: &QRData, m: u8, x: int, y: int)
    ensures unmasked(q, m, x, y) <= 1,
{
    let a = module(q, x, y); let b = if mask_at(m, y, x) { 1u8 } else { 0u8 };
    assert(a <= 1 && b <= 1 ==> a ^ b <= 1) by (bit_vector);
}
/// all codewords dealt: every block is full
pub proof fn lemma_full(b: &Blocks, v: int, l: int, p: Seq<u8>)
    requires holds(b, v, l, p), p.len() == n_codewords(v),
    ensures forall|j: int| 0 <= j < b.blocks@.len() ==> (#[trigger] b.blocks@[j])@.len() == data_len(v, l, j) + n_check(v, l),
{
    lemma_n_facts(v, l);
    let n = n_blocks(v, l); let s = short_data(v, l); let e = n_check(v, l); let g = n_long(v, l);
    reveal(short_total); reveal(n_long);
    let t = n_codewords(v);
    assert(short_total(v, l) == t / n && g == t % n);
    assert(t == (s + e) * n + g) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, n); assert((t / n) * n == n * (t / n)) by (nonlinear_arith); }
    assert((s + e) * n == s * n + e * n) by (nonlinear_arith);
    lemma_mono(1, e, n);
    if b.data_blocks {
        if b.round < s { lemma_mono(b.round as int, s - 1, n); lemma_succ(s - 1, n); }
        assert(false);
    }
    let k = b.round - b.max_data_round;
    assert(k * n + b.block == e * n);
    if k < e { lemma_mono(k, e - 1, n); lemma_succ(e - 1, n); }
    if k > e { lemma_mono(e + 1, k, n); lemma_succ(e, n); }
    assert(k == e && b.block == 0);
    assert forall|j: int| 0 <= j < b.blocks@.len() implies (#[trigger] b.blocks@[j])@.len() == data_len(v, l, j) + e by {
        assert(b.blocks@[j]@.len() == fill(b, v, l, j));
    }
}
pub proof fn lemma_dealt(q: &QRData, mask: &QRMaskBox, m: u8, l: int, b: Seq<u8>, d: &Blocks)
    requires wf(q), 1 <= q.version <= 40, 0 <= l < 4, applies(mask, m), read_from(q, mask, b, all_cells(q.version as int)), bits01(b), holds(d, q.version as int, l, bytes_of(b)), bytes_of(b).len() == n_codewords(q.version as int),
    ensures is_dealt(q, m, l, d.blocks@),
{
    let v = q.version as int; let z = all_cells(v);
    lemma_wf(q); lemma_all_cells(v); lemma_full(d, v, l, bytes_of(b));
    assert forall|i: int| 0 <= i < b.len() implies b[i] == #[trigger] stream(q, m)[i] by {
        assert(0 <= z[i].0 < side_of(v) && 0 <= z[i].1 < side_of(v));
        assert(in_matrix(q, z[i].0, z[i].1));
    }
    assert(b =~= stream(q, m));
    assert forall|j: int, i: int| 0 <= j < d.blocks@.len() && 0 <= i < d.blocks@[j]@.len() implies #[trigger] d.blocks@[j]@[i] == codeword(q, m, number(v, l, j, i)) by {
        assert(number_ok(v, l, j, i, bytes_of(b).len() as int));
        lemma_value_bound(b, 8 * number(v, l, j, i), 8);
    }
}
#end
#sub `&Box<QRMask>` => `&QRMaskBox`
#fn src/decode/qr/blocks.rs blocks
@ret r
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@sub `mask(` => `mask.call(`
@spec
    requires wf(data), exists|m: u8| applies(mask, m),
    ensures match r {
        Ok(b) => 1 <= data.version <= 40 && forall|m: u8| applies(mask, m) ==> is_dealt(data, m, lev(level), b@),
        Err(_) => !(1 <= data.version <= 40),
    },
@entry
    let ghost mut bits = Seq::<u8>::empty();
    let ghost mut c: int = 0;
    let ghost v = data.version as int;
    let ghost l = lev(level);
    let ghost m0 = choose|m: u8| applies(mask, m);
    proof { lemma_wf(data); }
@beforeloop 1
    proof { lemma_right(v, 0); lemma_all_cells(v); assert(read_from(data, mask, bits, cells(v, 0, 0))); }
@loop 1
        invariant_except_break 0 <= c < n_pairs(v), x == right(v, c), read_from(data, mask, bits, cells(v, c, 0)), collected(&codewords, v, l, bits),
        ensures read_from(data, mask, bits, all_cells(v)), collected(&codewords, v, l, bits),
        decreases x,
@loopstart 1
        proof { lemma_right(v, c); assert((data.side - 17) / 4 == v); }
@loop 2 it iter
            invariant 0 <= iter.index@ <= data.side, read_from(data, mask, bits, cells(v, c, iter.index@)), collected(&codewords, v, l, bits),
@loopstart 2
            let ghost k = iter.index@ as int;
            let ghost z = cells(v, c, k);
            proof {
                assert(y == row(v, c, k)); assert(0 <= y < data.side);
                assert(in_matrix(data, x as int, y as int) && in_matrix(data, x - 1, y as int));
                lemma_cells_len(v, c, k);
                assert(cells(v, c, k + 1) == z + cell(v, x as int, y as int) + cell(v, x - 1, y as int));
            }
@before "codewords.add_bit" 1
                proof { lemma_unmasked(data, m0, x as int, y as int); }
@after "codewords.add_bit" 1
                proof {
                    let o = choose|o: u8| #[trigger] mask.ens(data, x, y, o) && collected(&codewords, v, l, bits.push(o));
                    bits = bits.push(o);
                }
@before "codewords.add_bit" 2
                proof { lemma_unmasked(data, m0, x - 1, y as int); }
@after "codewords.add_bit" 2
                proof {
                    let o = choose|o: u8| #[trigger] mask.ens(data, (x - 1) as u32, y, o) && collected(&codewords, v, l, bits.push(o));
                    bits = bits.push(o);
                }
@afterloop 2
        proof { assert(cells(v, c + 1, 0) == cells(v, c, side_of(v))); }
@loopend 1
        proof { c = c + 1; lemma_right(v, c); }
@afterloop 1
        proof {
            lemma_all_cells(v);
            assert forall|m: u8| applies(mask, m) implies is_dealt(data, m, l, codewords.blocks.blocks@) by { lemma_dealt(data, mask, m, l, bits, &codewords.blocks); }
            assert(is_dealt(data, m0, l, codewords.blocks.blocks@));
            lemma_n_facts(v, l);
        }
@loop 3
        invariant blocks@.len() == n_blocks(v, l), is_dealt(data, m0, l, blocks@),
@loopstart 3
        proof { assert(is_block(bi@[i as int], v, l, i as int)); }
#raw
}
#end
