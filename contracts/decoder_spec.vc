#raw
verus! {
// ---------------------------------------------------------------- what decoding a symbol means
/// block j as it stands in the symbol
pub open spec fn received(q: &QRData, m: u8, l: int, j: int) -> Seq<u8> {
    let v = q.version as int;
    Seq::new((data_len(v, l, j) + n_check(v, l)) as nat, |i: int| codeword(q, m, number(v, l, j, i)) as u8)
}
/// cs are the blocks as they were written: codewords within the correctable distance
pub open spec fn repaired(q: &QRData, m: u8, l: int, cs: Seq<Seq<u8>>) -> bool {
    let v = q.version as int;
    cs.len() == n_blocks(v, l) && forall|j: int| 0 <= j < cs.len() ==> near_codeword(received(q, m, l, j), #[trigger] cs[j], n_check(v, l), capacity(v, l))
}
/// the data codewords of the first n blocks
pub open spec fn payload(v: int, l: int, cs: Seq<Seq<u8>>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { Seq::empty() } else { payload(v, l, cs, n - 1) + cs[n - 1].take(data_len(v, l, n - 1)) } }
/// number of bits the correction of the first n blocks changes
pub open spec fn changed(q: &QRData, m: u8, l: int, cs: Seq<Seq<u8>>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { changed(q, m, l, cs, n - 1) + bit_dist(received(q, m, l, n - 1), cs[n - 1]) } }
pub open spec fn mask_of(d: u16) -> u8 { (d % 8) as u8 }
pub open spec fn lev_of(d: u16) -> int { lev(&level_of(d)) }
/// number of data codewords of the first n blocks
pub open spec fn data_size(v: int, l: int, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { data_size(v, l, n - 1) + data_len(v, l, n - 1) } }
/// the symbol q has the format word d, its blocks come from the codewords cs and these denote the text s
pub open spec fn decodes(q: &QRData, d: u16, cs: Seq<Seq<u8>>, s: Seq<char>) -> bool {
    let v = q.version as int;
    1 <= v <= 40 && selected(q, d) && repaired(q, mask_of(d), lev_of(d), cs)
    && parse(bits_of(payload(v, lev_of(d), cs, n_blocks(v, lev_of(d)))), q.version) == Some(s)
}
pub open spec fn facts(q: &QRData, d: u16, cs: Seq<Seq<u8>>, i: &QRInfo) -> bool {
    let v = q.version as int; let l = lev_of(d);
    i.version == q.version && i.ec_level == level_of(d) && i.total_data == 8 * data_size(v, l, n_blocks(v, l)) && i.errors == changed(q, mask_of(d), l, cs, n_blocks(v, l))
}
/// what decode has to return: an error that comes in goes out; otherwise the text of the symbol, or an error if it has none
pub open spec fn decode_req(data: &Result<QRData, QRError>) -> bool { data matches Ok(q) ==> wf(&q) }
pub open spec fn decode_ens(data: &Result<QRData, QRError>, r: &Result<String, QRError>) -> bool {
    match data {
        Err(e) => *r == Err::<String, QRError>(*e),
        Ok(q) => match r {
            Ok(s) => (exists|d: u16, cs: Seq<Seq<u8>>| #[trigger] decodes(q, d, cs, s@)) && forall|d: u16, cs: Seq<Seq<u8>>, t: Seq<char>| #[trigger] decodes(q, d, cs, t) ==> t == s@,
            Err(_) => forall|d: u16, cs: Seq<Seq<u8>>, t: Seq<char>| !#[trigger] decodes(q, d, cs, t),
        },
    }
}
pub open spec fn decode_info_ens(data: &Result<QRData, QRError>, r: &Result<(String, QRInfo), QRError>) -> bool {
    match data {
        Err(e) => *r == Err::<(String, QRInfo), QRError>(*e),
        Ok(q) => match r {
            Ok(o) => (exists|d: u16, cs: Seq<Seq<u8>>| #[trigger] decodes(q, d, cs, o.0@) && facts(q, d, cs, &o.1)) && forall|d: u16, cs: Seq<Seq<u8>>, t: Seq<char>| #[trigger] decodes(q, d, cs, t) ==> t == o.0@ && facts(q, d, cs, &o.1),
            Err(_) => forall|d: u16, cs: Seq<Seq<u8>>, t: Seq<char>| !#[trigger] decodes(q, d, cs, t),
        },
    }
}
/// the text of the error (specified where the two decoders are compared)
pub open spec fn error_ens<R>(data: &Result<QRData, QRError>, r: &Result<R, QRError>) -> bool {
#ifdef ERRTEXT
    match data { Ok(q) => match r { Err(e) => err_is(q, e.msg@), Ok(_) => true }, Err(_) => true }
#else
    true
#endif
}
}
#end
