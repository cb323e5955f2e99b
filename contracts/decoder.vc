#include qrdata.vc
#include qrerror.vc
#include gf8_spec.vc
#include format_spec.vc
#include boxes.vc
#include blockinfo_spec.vc
#include blockinfo_lemmas.vc
#include blocks_spec.vc
#include correct_spec.vc
#include data_spec.vc
#raw
verus! {
#end
#struct src/util/qr.rs QRInfo
#raw
}
#end
#include decoder_spec.vc
#raw
verus! {
#end
#sub `format!(..)` => `fmt_msg()`
#ifdef ERRTEXT
// the text of an error is left unspecified, but it is a function of what the function is given
#pure src/decode/qr/format.rs src/decode/qr/blocks.rs src/decode/qr/mod.rs src/decode/qr/correct.rs src/decode/qr/data.rs src/decode/qr/galois.rs src/util/qr.rs src/util/chomp.rs src/util/point.rs src/util/mod.rs
#raw
pub uninterp spec fn format_err(d: Seq<u8>, version: u32, side: u32) -> Seq<char>;
pub uninterp spec fn blocks_err(d: Seq<u8>, version: u32, side: u32, l: ECLevel, m: u8) -> Seq<char>;
pub uninterp spec fn block_info_err(version: u32, l: ECLevel) -> Seq<char>;
pub uninterp spec fn block_info_res(version: u32, l: ECLevel) -> Seq<BlockInfo>;
pub uninterp spec fn correct_err(b: Seq<u8>, i: BlockInfo) -> Seq<char>;
pub uninterp spec fn data_err(b: Seq<u8>, version: u32) -> Seq<char>;
#end
#stub blockinfo src/decode/qr/mod.rs block_info
@also r matches Err(e) ==> e.msg@ == block_info_err(version, *level)
@also r matches Ok(s) ==> s@ == block_info_res(version, *level)
#stub format src/decode/qr/format.rs format
@also r matches Err(e) ==> e.msg@ == format_err(data.data@, data.version, data.side)
#stub blocks src/decode/qr/blocks.rs blocks
@also r matches Err(e) ==> forall|m: u8| applies(mask, m) ==> e.msg@ == #[trigger] blocks_err(data.data@, data.version, data.side, *level, m)
#stub correct src/decode/qr/correct.rs correct_with_error_count
@also r matches Err(e) ==> e.msg@ == correct_err(block@, *block_info)
#fn src/decode/qr/correct.rs correct
@closures (Vec<u8>, u32) -> Vec<u8> | |
@ret r
@spec
    requires block_ok(block_info), block@.len() == block_info.total_per,
    ensures
        r is Ok ==> near_codeword(block@, r->Ok_0@, block_info.total_per - block_info.data_per, block_info.ec_cap as int), /*C02*/
        forall|c: Seq<u8>| #[trigger] near_codeword(block@, c, block_info.total_per - block_info.data_per, block_info.ec_cap as int) ==> r is Ok && r->Ok_0@ == c, /*C01*/
        r matches Err(e) ==> e.msg@ == correct_err(block@, *block_info), /*C10*/
#stub data src/decode/qr/data.rs data
@also r matches Err(e) ==> e.msg@ == data_err(input@, version)
#else
#stub blockinfo src/decode/qr/mod.rs block_info
#stub format src/decode/qr/format.rs format
#stub blocks src/decode/qr/blocks.rs blocks
#stub correct src/decode/qr/correct.rs correct_with_error_count
#stub correct src/decode/qr/correct.rs correct
#stub data src/decode/qr/data.rs data
#endif
#raw
pub proof fn lemma_ones(v: u8)
    ensures 0 <= ones8(v) <= 8,
{ assert(ones8(v) <= 8) by (bit_vector); }
pub proof fn lemma_bsum(y: Seq<u8>, n: int)
    requires n <= y.len(),
    ensures 0 <= bsum(y, n), n >= 0 ==> bsum(y, n) <= 8 * n,
    decreases n
{ if n > 0 { lemma_bsum(y, n - 1); lemma_ones(y[n - 1]); } }
/// the blocks of every version and level are small
pub open spec fn small(v: int, l: int) -> bool {
    1 <= n_blocks(v, l) <= 81 && 0 <= n_long(v, l) < n_blocks(v, l) && 1 <= short_data(v, l) && short_total(v, l) <= 200 && 1 <= capacity(v, l) && 2 * capacity(v, l) <= n_check(v, l)
}
pub proof fn lemma_small(v: int, l: int)
    requires 1 <= v <= 40, 0 <= l < 4,
    ensures small(v, l),
{ lemma_iso(); }
/// the blocks dealt are those of the symbol
pub proof fn lemma_dealt_block(q: &QRData, m: u8, l: int, b: Seq<Vec<u8>>, j: int)
    requires is_dealt(q, m, l, b), 0 <= j < b.len(),
    ensures b[j]@ == received(q, m, l, j),
{
    let r = received(q, m, l, j);
    assert forall|i: int| 0 <= i < r.len() implies r[i] == b[j]@[i] by { assert(b[j]@[i] == codeword(q, m, number(q.version as int, l, j, i))); }
    assert(b[j]@ =~= r);
}
pub proof fn lemma_payload(v: int, l: int, cs: Seq<Seq<u8>>, ds: Seq<Seq<u8>>, n: int)
    requires n <= cs.len(), n <= ds.len(), forall|j: int| 0 <= j < n ==> cs[j] == ds[j],
    ensures payload(v, l, cs, n) == payload(v, l, ds, n),
    decreases n
{ if n > 0 { lemma_payload(v, l, cs, ds, n - 1); } }
pub proof fn lemma_changed(q: &QRData, m: u8, l: int, cs: Seq<Seq<u8>>, ds: Seq<Seq<u8>>, n: int)
    requires n <= cs.len(), n <= ds.len(), forall|j: int| 0 <= j < n ==> cs[j] == ds[j],
    ensures changed(q, m, l, cs, n) == changed(q, m, l, ds, n),
    decreases n
{ if n > 0 { lemma_changed(q, m, l, cs, ds, n - 1); } }
/// what is known after n blocks
pub open spec fn so_far(q: &QRData, m: u8, l: int, cs: Seq<Seq<u8>>, all: Seq<u8>) -> bool {
    let v = q.version as int;
    (forall|j: int| 0 <= j < cs.len() ==> near_codeword(received(q, m, l, j), #[trigger] cs[j], n_check(v, l), capacity(v, l)))
    && (forall|j: int, c: Seq<u8>| 0 <= j < cs.len() && #[trigger] near_codeword(received(q, m, l, j), c, n_check(v, l), capacity(v, l)) ==> c == cs[j])
    && all == payload(v, l, cs, cs.len() as int) && all.len() == data_size(v, l, cs.len() as int)
}
pub proof fn lemma_size(v: int, l: int, n: int)
    requires small(v, l), 0 <= n,
    ensures 0 <= data_size(v, l, n) <= 201 * n,
    decreases n
{ if n > 0 { lemma_size(v, l, n - 1); } }
pub proof fn lemma_step(q: &QRData, m: u8, l: int, cs: Seq<Seq<u8>>, all: Seq<u8>, c: Seq<u8>)
    requires small(q.version as int, l), so_far(q, m, l, cs, all), near_codeword(received(q, m, l, cs.len() as int), c, n_check(q.version as int, l), capacity(q.version as int, l)),
        forall|d: Seq<u8>| #[trigger] near_codeword(received(q, m, l, cs.len() as int), d, n_check(q.version as int, l), capacity(q.version as int, l)) ==> d == c,
    ensures so_far(q, m, l, cs.push(c), all + c.take(data_len(q.version as int, l, cs.len() as int))),
        changed(q, m, l, cs.push(c), (cs.len() + 1) as int) == changed(q, m, l, cs, cs.len() as int) + bit_dist(received(q, m, l, cs.len() as int), c),
        0 <= bit_dist(received(q, m, l, cs.len() as int), c) <= 1608,
{
    let v = q.version as int; let n = cs.len() as int; let ds = cs.push(c);
    lemma_payload(v, l, cs, ds, n); lemma_changed(q, m, l, cs, ds, n);
    assert(payload(v, l, ds, n + 1) == payload(v, l, ds, n) + ds[n].take(data_len(v, l, n)));
    assert(changed(q, m, l, ds, n + 1) == changed(q, m, l, ds, n) + bit_dist(received(q, m, l, n), ds[n]));
    assert(c.len() == data_len(v, l, n) + n_check(v, l));
    lemma_bsum(xs(rev(received(q, m, l, n)), rev(c)), c.len() as int);
}
/// a block that cannot be repaired: the symbol has no text
pub proof fn lemma_none(q: &QRData, d: u16, j: int)
    requires only(q, d), 0 <= j < n_blocks(q.version as int, lev_of(d)),
        forall|c: Seq<u8>| !#[trigger] near_codeword(received(q, mask_of(d), lev_of(d), j), c, n_check(q.version as int, lev_of(d)), capacity(q.version as int, lev_of(d))),
    ensures forall|e: u16, cs: Seq<Seq<u8>>, t: Seq<char>| !#[trigger] decodes(q, e, cs, t),
{
    assert forall|e: u16, cs: Seq<Seq<u8>>, t: Seq<char>| !#[trigger] decodes(q, e, cs, t) by {
        if decodes(q, e, cs, t) { assert(e == d); assert(near_codeword(received(q, mask_of(d), lev_of(d), j), cs[j], n_check(q.version as int, lev_of(d)), capacity(q.version as int, lev_of(d)))); }
    }
}
/// all blocks repaired: every reading of the symbol is the one of these blocks
pub proof fn lemma_all(q: &QRData, d: u16, cs: Seq<Seq<u8>>, all: Seq<u8>)
    requires 1 <= q.version <= 40, selected(q, d), only(q, d), so_far(q, mask_of(d), lev_of(d), cs, all), cs.len() == n_blocks(q.version as int, lev_of(d)),
    ensures forall|e: u16, ds: Seq<Seq<u8>>, t: Seq<char>| #[trigger] decodes(q, e, ds, t) ==> e == d && ds == cs && parse(bits_of(all), q.version) == Some(t),
        forall|t: Seq<char>| parse(bits_of(all), q.version) == Some(t) ==> #[trigger] decodes(q, d, cs, t),
{
    assert forall|e: u16, ds: Seq<Seq<u8>>, t: Seq<char>| #[trigger] decodes(q, e, ds, t) implies e == d && ds == cs && parse(bits_of(all), q.version) == Some(t) by {
        assert(e == d);
        assert forall|j: int| 0 <= j < ds.len() implies ds[j] == cs[j] by { assert(near_codeword(received(q, mask_of(d), lev_of(d), j), ds[j], n_check(q.version as int, lev_of(d)), capacity(q.version as int, lev_of(d)))); }
        assert(ds =~= cs);
    }
}
pub proof fn lemma_bi(s: Seq<BlockInfo>, v: int, l: int, j: int)
    requires is_block_list(s, v, l), 0 <= l < 4, 0 <= j < s.len(),
    ensures block_ok(&s[j]), s[j].data_per == data_len(v, l, j), s[j].total_per == data_len(v, l, j) + n_check(v, l), s[j].ec_cap == capacity(v, l),
{ lemma_small(v, l); assert(is_block(s[j], v, l, j)); reveal(n_long); reveal(n_blocks); }
#end
#ifdef ERRTEXT
#raw
pub open spec fn has_near(q: &QRData, d: u16, j: int) -> bool {
    let v = q.version as int; let l = lev_of(d);
    exists|c: Seq<u8>| #[trigger] near_codeword(received(q, mask_of(d), l, j), c, n_check(v, l), capacity(v, l))
}
/// block j is the first one that no codeword is near enough to
pub open spec fn first_bad(q: &QRData, d: u16, j: int) -> bool {
    let v = q.version as int; let l = lev_of(d);
    0 <= j < n_blocks(v, l) && !has_near(q, d, j) && forall|i: int| 0 <= i < j ==> #[trigger] has_near(q, d, i)
}
/// all is what the repaired blocks hold
pub open spec fn holds(q: &QRData, d: u16, all: Seq<u8>) -> bool {
    let v = q.version as int; let l = lev_of(d);
    (exists|cs: Seq<Seq<u8>>| #[trigger] repaired(q, mask_of(d), l, cs)) && forall|cs: Seq<Seq<u8>>| #[trigger] repaired(q, mask_of(d), l, cs) ==> all == payload(v, l, cs, n_blocks(v, l))
}
/// e is the text of the error that decoding q gives: that of the first step that fails, on what the steps before it give
pub open spec fn late(q: &QRData, d: u16, e: Seq<char>) -> bool {
    if !(1 <= q.version <= 40) { e == blocks_err(q.data@, q.version, q.side, level_of(d), mask_of(d)) }
    else {
        (exists|j: int| #[trigger] first_bad(q, d, j) && e == correct_err(received(q, mask_of(d), lev_of(d), j), block_info_res(q.version, level_of(d))[j]))
        || (exists|all: Seq<u8>| #[trigger] holds(q, d, all) && e == data_err(all, q.version))
    }
}
pub open spec fn err_is(q: &QRData, e: Seq<char>) -> bool {
    ((forall|d: u16| !selected(q, d)) && e == format_err(q.data@, q.version, q.side))
    || exists|d: u16| selected(q, d) && only(q, d) && #[trigger] late(q, d, e)
}
pub proof fn lemma_one_error(q: &QRData, e: Seq<char>, f: Seq<char>)
    requires err_is(q, e), err_is(q, f),
    ensures e == f,
{
    if exists|d: u16| selected(q, d) {
        let d = choose|d: u16| selected(q, d) && only(q, d) && #[trigger] late(q, d, e);
        let c = choose|c: u16| selected(q, c) && only(q, c) && #[trigger] late(q, c, f);
        assert(c == d);
        let v = q.version as int; let l = lev_of(d); let m = mask_of(d);
        if 1 <= q.version <= 40 {
            if exists|j: int| #[trigger] first_bad(q, d, j) {
                let j = choose|j: int| #[trigger] first_bad(q, d, j);
                assert forall|i: int| #[trigger] first_bad(q, d, i) implies i == j by {
                    if i < j { assert(has_near(q, d, i)); }
                    if j < i { assert(has_near(q, d, j)); }
                }
                assert forall|all: Seq<u8>| !#[trigger] holds(q, d, all) by {
                    if holds(q, d, all) {
                        let cs = choose|cs: Seq<Seq<u8>>| #[trigger] repaired(q, m, l, cs);
                        assert(near_codeword(received(q, m, l, j), cs[j], n_check(v, l), capacity(v, l)));
                    }
                }
            }
        }
    }
}
pub proof fn lemma_err_block(q: &QRData, d: u16, cs: Seq<Seq<u8>>, all: Seq<u8>)
    requires 1 <= q.version <= 40, selected(q, d), only(q, d), so_far(q, mask_of(d), lev_of(d), cs, all), cs.len() < n_blocks(q.version as int, lev_of(d)),
        forall|c: Seq<u8>| !#[trigger] near_codeword(received(q, mask_of(d), lev_of(d), cs.len() as int), c, n_check(q.version as int, lev_of(d)), capacity(q.version as int, lev_of(d))),
    ensures err_is(q, correct_err(received(q, mask_of(d), lev_of(d), cs.len() as int), block_info_res(q.version, level_of(d))[cs.len() as int])),
{
    let v = q.version as int; let l = lev_of(d); let m = mask_of(d);
    assert forall|i: int| 0 <= i < cs.len() implies #[trigger] has_near(q, d, i) by {
        assert(near_codeword(received(q, m, l, i), cs[i], n_check(v, l), capacity(v, l)));
    }
    assert(first_bad(q, d, cs.len() as int));
    assert(late(q, d, correct_err(received(q, mask_of(d), lev_of(d), cs.len() as int), block_info_res(q.version, level_of(d))[cs.len() as int])));
}
pub proof fn lemma_err_data(q: &QRData, d: u16, cs: Seq<Seq<u8>>, all: Seq<u8>)
    requires 1 <= q.version <= 40, selected(q, d), only(q, d), so_far(q, mask_of(d), lev_of(d), cs, all), cs.len() == n_blocks(q.version as int, lev_of(d)),
    ensures err_is(q, data_err(all, q.version)),
{
    let v = q.version as int; let l = lev_of(d); let m = mask_of(d);
    assert(repaired(q, m, l, cs));
    assert forall|ds: Seq<Seq<u8>>| #[trigger] repaired(q, m, l, ds) implies all == payload(v, l, ds, n_blocks(v, l)) by {
        assert forall|j: int| 0 <= j < ds.len() implies ds[j] == cs[j] by { assert(near_codeword(received(q, m, l, j), ds[j], n_check(v, l), capacity(v, l))); }
        assert(ds =~= cs);
    }
    assert(holds(q, d, all));
    assert(late(q, d, data_err(all, q.version)));
}
#end
#endif
#trait src/decode/mod.rs Decode
@decl
    /// what the caller owes and is owed
    spec fn req(&self, data: &Result<DATA, ERROR>) -> bool;
    spec fn ens(&self, data: &Result<DATA, ERROR>, r: &Result<RESULT, ERROR>) -> bool;
@method decode r
    requires self.req(&data),
    ensures self.ens(&data, &r),
#struct src/decode/qr/decoder.rs QRDecoder
#struct src/decode/qr/decoder.rs QRDecoderWithInfo
#sub `super::format::format` => `crate::format`
#sub `super::blocks::blocks` => `crate::blocks`
#sub `super::block_info` => `crate::block_info`
#sub `super::correct::correct` => `crate::correct`
#sub `super::correct::correct_with_error_count` => `crate::correct_with_error_count`
#sub `super::data::data` => `crate::data`
#impl src/decode/qr/decoder.rs Decode<QRData, String, QRError> for QRDecoder
#raw
    open spec fn req(&self, data: &Result<QRData, QRError>) -> bool { decode_req(data) }
    open spec fn ens(&self, data: &Result<QRData, QRError>, r: &Result<String, QRError>) -> bool { decode_ens(data, r) && error_ens(data, r) }
#end
#fn src/decode/qr/decoder.rs decode
@ret r
@attr #[verifier::loop_isolation(false)]
@entry
        let ghost data0 = data;
#ifdef ERRTEXT
@afterlet format
        proof {
            let d = choose|d: u16| #[trigger] selected(&qr_data, d) && only(&qr_data, d) && format.0 == level_of(d) && applies(&format.1, (d % 8) as u8);
            if !(1 <= qr_data.version <= 40) { assert(late(&qr_data, d, blocks_err(qr_data.data@, qr_data.version, qr_data.side, level_of(d), mask_of(d)))); }
        }
#endif
@afterlet blocks
        let ghost d = choose|d: u16| #[trigger] selected(&qr_data, d) && only(&qr_data, d) && format.0 == level_of(d) && applies(&format.1, (d % 8) as u8);
        let ghost v = qr_data.version as int; let ghost l = lev_of(d); let ghost m = mask_of(d);
        let ghost mut cs = Seq::<Seq<u8>>::empty();
        let ghost bs = blocks@;
        proof { lemma_small(v, l); assert(is_dealt(&qr_data, m, l, bs)); }
@afterlet block_info
        let ghost bis = block_info@;
@loop 1 it zipped
            invariant zipped.seq().len() == bs.len(), bs.len() == bis.len(), forall|j: int| 0 <= j < bs.len() ==> #[trigger] zipped.seq()[j] == (bs[j], bis[j]),
                cs.len() == zipped.index@, so_far(&qr_data, m, l, cs, all_blocks@),
@loopstart 1
            let ghost j = zipped.index@ as int;
            let ghost all0 = all_blocks@;
            proof {
                assert(zipped.seq()[j] == (bs[j], bis[j]));
                lemma_dealt_block(&qr_data, m, l, bs, j); lemma_bi(bis, v, l, j);
                if forall|c: Seq<u8>| !#[trigger] near_codeword(received(&qr_data, m, l, j), c, n_check(v, l), capacity(v, l)) { lemma_none(&qr_data, d, j);
#ifdef ERRTEXT
                    lemma_err_block(&qr_data, d, cs, all0);
#endif
                }
            }
@loop 2 it kept
                invariant kept.seq().len() == data_len(v, l, j), forall|k: int| 0 <= k < kept.seq().len() ==> *(#[trigger] kept.seq()[k]) == corrected@[k],
                    all_blocks@ == all0 + corrected@.take(kept.index@ as int),
@loopstart 2
                let ghost k = kept.index@ as int;
@loopend 2
                proof { assert(corrected@.take(k + 1) =~= corrected@.take(k).push(corrected@[k])); }
@beforeloop 2
            proof { assert(all0 + corrected@.take(0) =~= all0); }
@afterloop 2
            proof { lemma_step(&qr_data, m, l, cs, all0, corrected@); cs = cs.push(corrected@); }
@afterloop 1
        proof { lemma_all(&qr_data, d, cs, all_blocks@); lemma_size(v, l, n_blocks(v, l)); }
#ifdef ERRTEXT
        proof { lemma_err_data(&qr_data, d, cs, all_blocks@); }
#endif
@beforetail
        proof { assert(decodes(&qr_data, d, cs, data@)); assert(data0 == Ok::<QRData, QRError>(qr_data)); assert(decode_ens(&data0, &Ok(data))); }
#endimpl
#impl src/decode/qr/decoder.rs Decode<QRData, (String, QRInfo), QRError> for QRDecoderWithInfo
#raw
    open spec fn req(&self, data: &Result<QRData, QRError>) -> bool { decode_req(data) }
    open spec fn ens(&self, data: &Result<QRData, QRError>, r: &Result<(String, QRInfo), QRError>) -> bool { decode_info_ens(data, r) && error_ens(data, r) }
#end
#fn src/decode/qr/decoder.rs decode
@ret r
@attr #[verifier::loop_isolation(false)]
@entry
        let ghost data0 = data;
#ifdef ERRTEXT
@afterlet format
        proof {
            let d = choose|d: u16| #[trigger] selected(&qr_data, d) && only(&qr_data, d) && format.0 == level_of(d) && applies(&format.1, (d % 8) as u8);
            if !(1 <= qr_data.version <= 40) { assert(late(&qr_data, d, blocks_err(qr_data.data@, qr_data.version, qr_data.side, level_of(d), mask_of(d)))); }
        }
#endif
@afterlet blocks
        let ghost d = choose|d: u16| #[trigger] selected(&qr_data, d) && only(&qr_data, d) && format.0 == level_of(d) && applies(&format.1, (d % 8) as u8);
        let ghost v = qr_data.version as int; let ghost l = lev_of(d); let ghost m = mask_of(d);
        let ghost mut cs = Seq::<Seq<u8>>::empty();
        let ghost bs = blocks@;
        proof { lemma_small(v, l); assert(is_dealt(&qr_data, m, l, bs)); }
@afterlet block_info
        let ghost bis = block_info@;
@loop 1 it zipped
            invariant zipped.seq().len() == bs.len(), bs.len() == bis.len(), forall|j: int| 0 <= j < bs.len() ==> #[trigger] zipped.seq()[j] == (bs[j], bis[j]),
                cs.len() == zipped.index@, so_far(&qr_data, m, l, cs, all_blocks@), total_errors == changed(&qr_data, m, l, cs, cs.len() as int), total_errors <= 1608 * cs.len(),
@loopstart 1
            let ghost j = zipped.index@ as int;
            let ghost all0 = all_blocks@;
            proof {
                assert(zipped.seq()[j] == (bs[j], bis[j]));
                lemma_dealt_block(&qr_data, m, l, bs, j); lemma_bi(bis, v, l, j);
                if forall|c: Seq<u8>| !#[trigger] near_codeword(received(&qr_data, m, l, j), c, n_check(v, l), capacity(v, l)) { lemma_none(&qr_data, d, j);
#ifdef ERRTEXT
                    lemma_err_block(&qr_data, d, cs, all0);
#endif
                }
            }
@loop 2 it kept
                invariant kept.seq().len() == data_len(v, l, j), forall|k: int| 0 <= k < kept.seq().len() ==> *(#[trigger] kept.seq()[k]) == corrected@[k],
                    all_blocks@ == all0 + corrected@.take(kept.index@ as int),
@loopstart 2
                let ghost k = kept.index@ as int;
@loopend 2
                proof { assert(corrected@.take(k + 1) =~= corrected@.take(k).push(corrected@[k])); }
@beforeloop 2
            proof { assert(all0 + corrected@.take(0) =~= all0); }
@afterloop 2
            proof {
                lemma_step(&qr_data, m, l, cs, all0, corrected@);
                assert(error_count == bit_dist(received(&qr_data, m, l, j), corrected@));
                cs = cs.push(corrected@);
                assert(total_errors as int + error_count as int == changed(&qr_data, m, l, cs, cs.len() as int));
                assert(total_errors as int + error_count as int <= 1608 * cs.len());
                assert(cs.len() <= 81);
            }
@afterloop 1
        proof { lemma_all(&qr_data, d, cs, all_blocks@); lemma_size(v, l, n_blocks(v, l)); }
#ifdef ERRTEXT
        proof { lemma_err_data(&qr_data, d, cs, all_blocks@); }
#endif
@beforetail
        proof { assert(decodes(&qr_data, d, cs, data@));
            assert(total_data == 8 * data_size(v, l, n_blocks(v, l)));
            assert(total_errors == changed(&qr_data, m, l, cs, n_blocks(v, l)));
            let info = QRInfo { version: qr_data.version, ec_level: format.0, total_data: total_data, errors: total_errors };
            assert(facts(&qr_data, d, cs, &info));
            assert forall|e: u16, ds: Seq<Seq<u8>>, t: Seq<char>| #[trigger] decodes(&qr_data, e, ds, t) implies t == data@ && facts(&qr_data, e, ds, &info) by { }
            assert(decodes(&qr_data, d, cs, data@) && facts(&qr_data, d, cs, &info));
            let o = (data, info); let rr = Ok::<(String, QRInfo), QRError>(o);
            assert(rr->Ok_0.0@ == data@);
            assert(rr->Ok_0.1 == info);
            assert(decodes(&qr_data, d, cs, rr->Ok_0.0@) && facts(&qr_data, d, cs, &rr->Ok_0.1));
            assert forall|e: u16, ds: Seq<Seq<u8>>, t: Seq<char>| #[trigger] decodes(&qr_data, e, ds, t) implies t == rr->Ok_0.0@ && facts(&qr_data, e, ds, &rr->Ok_0.1) by { }
            assert(decode_info_ens(&Ok(qr_data), &rr));
            assert(data0 == Ok::<QRData, QRError>(qr_data)); }
#endimpl
#raw
// ---------------------------------------------------------------- the properties, as consequences of the contracts
/// a symbol for the segments segs: a format word within three bits of d's in the first copy; in every block at most the
/// specified number of codewords differ from those of the codewords cs, whose data bits are the segments followed by a terminator
/// (or by fewer than four bits) and anything
pub open spec fn is_symbol(q: &QRData, d: u16, cs: Seq<Seq<u8>>, segs: Seq<Seg>, tail: Seq<bool>) -> bool {
    let v = q.version as int; let l = lev_of(d);
    wf(q) && 1 <= v <= 40 && near(word(copy1(q)), d) && repaired(q, mask_of(d), l, cs)
    && (forall|i: int| 0 <= i < segs.len() ==> seg_ok(#[trigger] segs[i], q.version)) && (tail.len() < 4 || val(tail.take(4)) == 0)
    && bits_of(payload(v, l, cs, n_blocks(v, l))) == segs_bits(segs, q.version) + tail
}
/// C15
pub fn theorem_standard_symbol(q: QRData, Ghost(d): Ghost<u16>, Ghost(cs): Ghost<Seq<Seq<u8>>>, Ghost(segs): Ghost<Seq<Seg>>, Ghost(tail): Ghost<Seq<bool>>) -> (r: Result<String, QRError>)
    requires is_symbol(&q, d, cs, segs, tail),
    ensures r matches Ok(s) && s@ == segs_text(segs),
{
    proof { theorem_segments_read_back(segs, tail, q.version); assert(selected(&q, d)); assert(decodes(&q, d, cs, segs_text(segs))); }
    QRDecoder { }.decode(Ok(q))
}
pub fn theorem_standard_symbol_info(q: QRData, Ghost(d): Ghost<u16>, Ghost(cs): Ghost<Seq<Seq<u8>>>, Ghost(segs): Ghost<Seq<Seg>>, Ghost(tail): Ghost<Seq<bool>>) -> (r: Result<(String, QRInfo), QRError>)
    requires is_symbol(&q, d, cs, segs, tail),
    ensures r matches Ok(o) && o.0@ == segs_text(segs) && facts(&q, d, cs, &o.1),
{
    proof { theorem_segments_read_back(segs, tail, q.version); assert(selected(&q, d)); assert(decodes(&q, d, cs, segs_text(segs))); }
    QRDecoderWithInfo { }.decode(Ok(q))
}
/// C01: q0 is undamaged; q differs from it, within a block, in at most the specified number of codewords
pub open spec fn undamaged(q: &QRData, m: u8, l: int) -> bool { forall|j: int| 0 <= j < n_blocks(q.version as int, l) ==> is_codeword(#[trigger] received(q, m, l, j), n_check(q.version as int, l)) }
pub open spec fn damaged(q: &QRData, q0: &QRData, m: u8, l: int) -> bool {
    let v = q.version as int;
    q.version == q0.version && forall|j: int| 0 <= j < n_blocks(v, l) ==> dist(#[trigger] received(q, m, l, j), received(q0, m, l, j)) <= capacity(v, l)
}
pub open spec fn blocks_of(q: &QRData, m: u8, l: int) -> Seq<Seq<u8>> { Seq::new(n_blocks(q.version as int, l) as nat, |j: int| received(q, m, l, j)) }
pub fn theorem_damage_undone(q: QRData, q0: QRData, Ghost(d): Ghost<u16>, Ghost(s): Ghost<Seq<char>>) -> (r: Result<String, QRError>)
    requires wf(&q), wf(&q0), selected(&q, d), selected(&q0, d), undamaged(&q0, mask_of(d), lev_of(d)), damaged(&q, &q0, mask_of(d), lev_of(d)),
        decodes(&q0, d, blocks_of(&q0, mask_of(d), lev_of(d)), s),
    ensures r matches Ok(t) && t@ == s,
{
    proof {
        let l = lev_of(d); let m = mask_of(d); let cs = blocks_of(&q0, m, l); let v = q.version as int;
        lemma_small(v, l);
        assert forall|j: int| 0 <= j < cs.len() implies near_codeword(received(&q, m, l, j), #[trigger] cs[j], n_check(v, l), capacity(v, l)) by { assert(cs[j] == received(&q0, m, l, j)); assert(dist(received(&q, m, l, j), received(&q0, m, l, j)) <= capacity(v, l)); }
        assert(decodes(&q, d, cs, s));
    }
    QRDecoder { }.decode(Ok(q))
}
/// the format word is d, and block j is too far from every codeword
pub open spec fn hopeless(q: &QRData, d: u16, j: int) -> bool {
    let v = q.version as int; let l = lev_of(d);
    selected(q, d) && only(q, d) && 0 <= j < n_blocks(v, l) && forall|c: Seq<u8>| !#[trigger] near_codeword(received(q, mask_of(d), l, j), c, n_check(v, l), capacity(v, l))
}
/// C02: a text comes from codewords close to what was read, and a block that has none gives an error
pub fn theorem_no_guess(q: QRData) -> (r: Result<String, QRError>)
    requires wf(&q),
    ensures r is Ok ==> exists|d: u16, cs: Seq<Seq<u8>>| selected(&q, d) && #[trigger] repaired(&q, mask_of(d), lev_of(d), cs),
        forall|d: u16, j: int| #[trigger] hopeless(&q, d, j) ==> r is Err,
{
    proof {
        assert forall|d: u16, j: int| #[trigger] hopeless(&q, d, j) implies forall|e: u16, cs: Seq<Seq<u8>>, t: Seq<char>| !#[trigger] decodes(&q, e, cs, t) by { lemma_none(&q, d, j); }
    }
    QRDecoder { }.decode(Ok(q))
}
/// C09: whatever the modules, and a version that does not exist gives an error
pub fn theorem_total(q: QRData) -> (r: Result<String, QRError>)
    requires wf(&q),
    ensures !(1 <= q.version <= 40) ==> r is Err,
{ QRDecoder { }.decode(Ok(q)) }
/// C10: the two decoders agree
pub fn theorem_agree(q: QRData, p: QRData) -> (r: (Result<String, QRError>, Result<(String, QRInfo), QRError>))
    requires wf(&q), q == p,
#ifdef ERRTEXT
    ensures r.0 is Err == r.1 is Err, r.0 is Err ==> r.0->Err_0.msg@ == r.1->Err_0.msg@,
#else
    ensures
#endif
        r.0 is Ok == r.1 is Ok, r.0 is Ok ==> r.0->Ok_0@ == r.1->Ok_0.0@, r.1 is Ok ==> r.1->Ok_0.1.version == q.version,
{
    let a = QRDecoder { }.decode(Ok(q));
    let b = QRDecoderWithInfo { }.decode(Ok(p));
#ifdef ERRTEXT
    proof { if a is Err && b is Err { lemma_one_error(&q, a->Err_0.msg@, b->Err_0.msg@); } }
#endif
    (a, b)
}
/// an error that comes in goes out
pub fn theorem_pass(e: QRError) -> (r: Result<String, QRError>)
    ensures r == Err::<String, QRError>(e),
{ QRDecoder { }.decode(Err(e)) }
pub fn theorem_pass_info(e: QRError) -> (r: Result<(String, QRInfo), QRError>)
    ensures r == Err::<(String, QRInfo), QRError>(e),
{ QRDecoderWithInfo { }.decode(Err(e)) }
}
#end
