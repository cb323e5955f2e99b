#raw
use vstd::std_specs::core::*;
verus! {
#end
#struct src/util/qr.rs ECLevel #[derive(PartialEq, Eq)]
#raw
}
#end
#include qrerror.vc
#include blockinfo_spec.vc
#include blockinfo_lemmas.vc
#raw
verus! {
/// one or two groups of equal blocks
pub open spec fn groups_ok(s: Seq<BlockInfo>, v: int, l: int) -> bool {
    1 <= v <= 40 && (s.len() == 1 || s.len() == 2)
    && s[0].total_per == short_total(v, l) && s[0].data_per == short_total(v, l) - n_check(v, l) && s[0].ec_cap == capacity(v, l)
    && s[0].block_count == n_blocks(v, l) - n_long(v, l)
    && (if s.len() == 1 { n_long(v, l) == 0 } else { s[1].total_per == short_total(v, l) + 1 && s[1].data_per == s[1].total_per - n_check(v, l) && s[1].ec_cap == capacity(v, l)
        && s[1].block_count == n_long(v, l) })
}
/// how many blocks the first k groups have
pub open spec fn upto(s: Seq<BlockInfo>, k: int) -> int { if k == 0 { 0 } else if k == 1 { s[0].block_count as int } else { s[0].block_count + s[1].block_count } }
#end
#fn src/decode/qr/mod.rs BlockInfo::new
@ret r
@spec
    ensures r.block_count == block_count, r.total_per == total_per, r.data_per == data_per, r.ec_cap == ec_cap,
#sub `format!(..)` => `fmt_msg()`
#fn src/decode/qr/mod.rs block_info
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    ensures match r { Ok(s) => is_block_list(s@, version as int, lev(level)), Err(_) => !(1 <= version <= 40) },
@entry
    proof { lemma_iso(); }
@afterlet block_info
    proof { assert(groups_ok(block_info@, version as int, lev(level))); }
@loop 1 it outer
        invariant 0 <= outer.index@ <= block_info@.len(), bi_unwound@.len() == upto(block_info@, outer.index@),
            forall|i: int| 0 <= i < bi_unwound@.len() ==> is_block(#[trigger] bi_unwound@[i], version as int, lev(level), i),
@loop 2 it inner
        invariant bi_unwound@.len() == upto(block_info@, outer.index@) + inner.index@,
            forall|i: int| 0 <= i < bi_unwound@.len() ==> is_block(#[trigger] bi_unwound@[i], version as int, lev(level), i),
#raw
}
#end
