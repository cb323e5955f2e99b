#raw
verus! {
#end
#struct src/decode/qr/mod.rs BlockInfo
#derives src/decode/qr/mod.rs BlockInfo Clone
#raw
/// what #[derive(Clone)] means for a struct of numbers
impl Clone for BlockInfo {
    fn clone(&self) -> (r: BlockInfo)
        ensures r == *self,
    { BlockInfo { block_count: self.block_count, total_per: self.total_per, data_per: self.data_per, ec_cap: self.ec_cap } }
}
// ---------------------------------------------------------------- ISO/IEC 18004 table 9, by its structure
pub open spec fn lev(l: &ECLevel) -> int { match l { ECLevel::LOW => 0, ECLevel::MEDIUM => 1, ECLevel::QUARTILE => 2, ECLevel::HIGH => 3 } }
/// number of codewords of a symbol: the modules left over by the function patterns, in whole bytes
pub open spec fn n_codewords(v: int) -> int {
    let a = v / 7 + 2;
    ((16 * v + 128) * v + 64 - (if v >= 2 { (25 * a - 10) * a - 55 } else { 0 }) - (if v >= 7 { 36int } else { 0 })) / 8
}
/// check codewords of each block
#[verifier::opaque]
pub open spec fn n_check(v: int, l: int) -> int {
    if l == 0 { seq![7int, 10int, 15int, 20int, 26int, 18int, 20int, 24int, 30int, 18int, 20int, 24int, 26int, 30int, 22int, 24int, 28int, 30int, 28int, 28int, 28int, 28int, 30int, 30int, 26int, 28int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int][v - 1] }
    else if l == 1 { seq![10int, 16int, 26int, 18int, 24int, 16int, 18int, 22int, 22int, 26int, 30int, 22int, 22int, 24int, 24int, 28int, 28int, 26int, 26int, 26int, 26int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int][v - 1] }
    else if l == 2 { seq![13int, 22int, 18int, 26int, 18int, 24int, 18int, 22int, 20int, 24int, 28int, 26int, 24int, 20int, 30int, 24int, 28int, 28int, 26int, 30int, 28int, 30int, 30int, 30int, 30int, 28int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int][v - 1] }
    else if l == 3 { seq![17int, 28int, 22int, 16int, 22int, 28int, 26int, 26int, 24int, 28int, 24int, 28int, 22int, 24int, 24int, 30int, 28int, 28int, 26int, 28int, 30int, 24int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int][v - 1] }
    else { 0 }
}
/// number of blocks
#[verifier::opaque]
pub open spec fn n_blocks(v: int, l: int) -> int {
    if l == 0 { seq![1int, 1int, 1int, 1int, 1int, 2int, 2int, 2int, 2int, 4int, 4int, 4int, 4int, 4int, 6int, 6int, 6int, 6int, 7int, 8int, 8int, 9int, 9int, 10int, 12int, 12int, 12int, 13int, 14int, 15int, 16int, 17int, 18int, 19int, 19int, 20int, 21int, 22int, 24int, 25int][v - 1] }
    else if l == 1 { seq![1int, 1int, 1int, 2int, 2int, 4int, 4int, 4int, 5int, 5int, 5int, 8int, 9int, 9int, 10int, 10int, 11int, 13int, 14int, 16int, 17int, 17int, 18int, 20int, 21int, 23int, 25int, 26int, 28int, 29int, 31int, 33int, 35int, 37int, 38int, 40int, 43int, 45int, 47int, 49int][v - 1] }
    else if l == 2 { seq![1int, 1int, 2int, 2int, 4int, 4int, 6int, 6int, 8int, 8int, 8int, 10int, 12int, 16int, 12int, 17int, 16int, 18int, 21int, 20int, 23int, 23int, 25int, 27int, 29int, 34int, 34int, 35int, 38int, 40int, 43int, 45int, 48int, 51int, 53int, 56int, 59int, 62int, 65int, 68int][v - 1] }
    else if l == 3 { seq![1int, 1int, 2int, 4int, 4int, 4int, 5int, 6int, 8int, 8int, 11int, 11int, 16int, 16int, 18int, 16int, 19int, 21int, 25int, 25int, 25int, 34int, 30int, 32int, 35int, 37int, 40int, 42int, 45int, 48int, 51int, 54int, 57int, 60int, 63int, 66int, 70int, 74int, 77int, 81int][v - 1] }
    else { 0 }
}
/// blocks differ in length by at most one, shorter blocks first
#[verifier::opaque]
pub open spec fn short_total(v: int, l: int) -> int { n_codewords(v) / n_blocks(v, l) }
#[verifier::opaque]
pub open spec fn n_long(v: int, l: int) -> int { n_codewords(v) % n_blocks(v, l) }
/// misdecode protection codewords
pub open spec fn n_protect(v: int, l: int) -> int {
    if v == 1 { if l == 0 { 3 } else if l == 1 { 2 } else { 1 } } else if v == 2 && l == 0 { 2 } else if v == 3 && l == 0 { 1 } else { 0 }
}
/// codewords that can be corrected in a block
#[verifier::opaque]
pub open spec fn capacity(v: int, l: int) -> int { (n_check(v, l) - n_protect(v, l)) / 2 }
pub open spec fn is_block(b: BlockInfo, v: int, l: int, i: int) -> bool {
    b.total_per == short_total(v, l) + (if i >= n_blocks(v, l) - n_long(v, l) { 1int } else { 0int })
    && b.data_per == b.total_per - n_check(v, l) && b.ec_cap == capacity(v, l)
}
/// the block list of version v and level l
pub open spec fn is_block_list(s: Seq<BlockInfo>, v: int, l: int) -> bool {
    1 <= v <= 40 && s.len() == n_blocks(v, l) && forall|i: int| 0 <= i < s.len() ==> is_block(#[trigger] s[i], v, l, i)
}
}
#end
