#include qrdata.vc
#include qrerror.vc
#raw
use vstd::std_specs::convert::*;
verus! {
#end
#struct src/util/point.rs Point
#struct src/util/qr.rs QRLocation
#struct src/util/qr.rs QRInfo
#struct src/detect/mod.rs Location
#raw
/// anyhow::Error: what it holds is the error it was made from
#[verifier::external_body]
pub struct Error { _e: usize }
pub uninterp spec fn wrapped(e: QRError) -> Error;
impl FromSpecImpl<QRError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: QRError) -> Error { wrapped(e) }
}
impl From<QRError> for Error {
    #[verifier::external_body]
    fn from(e: QRError) -> (r: Error) { unimplemented!() }
}
/// a decoder's result as the caller of the whole decoder sees it
pub open spec fn outcome<R>(r: Result<R, QRError>) -> Result<R, Error> {
    match r { Ok(x) => Ok(x), Err(e) => Err(wrapped(e)) }
}
#end
#trait src/prepare/mod.rs Prepare
@decl
    /// what the caller owes and is owed
    spec fn req(&self, source: &IMG) -> bool;
    spec fn ens(&self, source: &IMG, r: &PREPD) -> bool;
@method prepare r
        requires self.req(source),
        ensures self.ens(source, &r),
#trait src/detect/mod.rs Detect
@decl
    /// what the caller owes and is owed
    spec fn req(&self, prepared: &PREPD) -> bool;
    spec fn ens(&self, prepared: &PREPD, r: Seq<Location>) -> bool;
@method detect r
        requires self.req(prepared),
        ensures self.ens(prepared, r@),
#trait src/extract/mod.rs Extract
@decl
    /// what the caller owes and is owed
    spec fn req(&self, prepared: &PREPD, loc: LOC) -> bool;
    spec fn ens(&self, prepared: &PREPD, loc: LOC, r: &Result<DATA, ERROR>) -> bool;
@method extract r
        requires self.req(prepared, loc),
        ensures self.ens(prepared, loc, &r),
#trait src/decode/mod.rs Decode
@decl
    /// what the caller owes and is owed
    spec fn req(&self, data: &Result<DATA, ERROR>) -> bool;
    spec fn ens(&self, data: &Result<DATA, ERROR>, r: &Result<RESULT, ERROR>) -> bool;
@method decode r
        requires self.req(&data),
        ensures self.ens(&data, &r),
#struct src/decoder.rs ExtractDecode #[verifier::reject_recursive_types(PREPD)] #[verifier::reject_recursive_types(LOC)] #[verifier::reject_recursive_types(DATA)] #[verifier::reject_recursive_types(RESULT)] #[verifier::reject_recursive_types(ERROR)]
#struct src/decoder.rs Decoder #[verifier::reject_recursive_types(IMG)] #[verifier::reject_recursive_types(PREPD)] #[verifier::reject_recursive_types(RESULT)]
#struct src/decoder.rs DecoderBuilder #[verifier::reject_recursive_types(IMG)] #[verifier::reject_recursive_types(PREPD)] #[verifier::reject_recursive_types(RESULT)]
#raw
// ---------------------------------------------------------------- what decoding an image means
/// x is what the extract component may return for the location, o what the decode component may return for that
pub open spec fn via<I, P, R>(d: &Decoder<I, P, R>, p: P, l: Location, x: Result<QRData, QRError>, o: Result<R, QRError>) -> bool {
    d.qr.extract.ens(&p, l->QR_0, &x) && d.qr.decode.ens(&x, &o)
}
/// the entry e belongs to the location l of the prepared image p
pub open spec fn is_entry<I, P, R>(d: &Decoder<I, P, R>, p: P, l: Location, e: Result<R, Error>) -> bool {
    exists|x: Result<QRData, QRError>, o: Result<R, QRError>| #[trigger] via(d, p, l, x, o) && e == outcome(o)
}
/// one entry per location, in the order of the locations, each depending on its own location only
pub open spec fn entries<I, P, R>(d: &Decoder<I, P, R>, p: P, ls: Seq<Location>, es: Seq<Result<R, Error>>) -> bool {
    es.len() == ls.len() && forall|i: int| 0 <= i < es.len() ==> is_entry(d, p, ls[i], #[trigger] es[i])
}
/// the components fit together
pub open spec fn fits<I, P, R>(d: &Decoder<I, P, R>, s: &I) -> bool {
    d.prepare.req(s)
    && (forall|p: P| #[trigger] d.prepare.ens(s, &p) ==> d.detect.req(&p))
    && (forall|p: P, ls: Seq<Location>, i: int| d.prepare.ens(s, &p) && #[trigger] d.detect.ens(&p, ls) && 0 <= i < ls.len() ==> d.qr.extract.req(&p, (#[trigger] ls[i])->QR_0))
    && (forall|p: P, l: QRLocation, x: Result<QRData, QRError>| #[trigger] d.qr.extract.ens(&p, l, &x) ==> d.qr.decode.req(&x))
}
/// the result of decoding the image s
pub open spec fn decodes_image<I, P, R>(d: &Decoder<I, P, R>, s: &I, es: Seq<Result<R, Error>>) -> bool {
    exists|p: P, ls: Seq<Location>| d.prepare.ens(s, &p) && #[trigger] d.detect.ens(&p, ls) && entries(d, p, ls, es)
}
#end
#fn src/decoder.rs Decoder::decode
@ret r
@attr #[verifier::loop_isolation(false)]
@spec
    requires fits(self, source),
    ensures decodes_image(self, source, r@),
@afterlet locations
        let ghost ls = locations@;
@loop 1 it locs
            invariant locs.seq() == ls, entries(self, prepared, ls.take(locs.index@ as int), all_decoded@),
@loopstart 1
            let ghost i = locs.index@ as int;
            let ghost before = all_decoded@;
            proof { assert(location == ls[i]); assert(self.qr.extract.req(&prepared, ls[i]->QR_0)); }
@loopend 1
            proof {
                assert(all_decoded@.len() == before.len() + 1);
                assert(is_entry(self, prepared, ls[i], all_decoded@[i]));
                assert forall|k: int| 0 <= k < all_decoded@.len() implies is_entry(self, prepared, ls.take(i + 1)[k], #[trigger] all_decoded@[k]) by { if k < i { assert(all_decoded@[k] == before[k]); assert(is_entry(self, prepared, ls.take(i)[k], before[k])); } }
            }
@after "push"
                    proof { assert(via(self, prepared, ls[i], extracted, decoded)); }
@beforetail
        proof { assert(ls.take(ls.len() as int) =~= ls); }
#raw
/// what the builder has been given
pub open spec fn complete<I, P, R>(b: &DecoderBuilder<I, P, R>) -> bool { b.prepare is Some && b.detect is Some && b.qr is Some }
#end
#fn src/decoder.rs DecoderBuilder::new
@ret r
@spec
    ensures r.prepare is None, r.detect is None, r.qr is None,
#fn src/decoder.rs DecoderBuilder::prepare
@ret r
@spec
    ensures *final(self) == *final(r), r.prepare == Some(prepare), r.detect == old(self).detect, r.qr == old(self).qr,
#fn src/decoder.rs DecoderBuilder::detect
@ret r
@spec
    ensures *final(self) == *final(r), r.detect == Some(detect), r.prepare == old(self).prepare, r.qr == old(self).qr,
#fn src/decoder.rs DecoderBuilder::qr
@ret r
@spec
    ensures *final(self) == *final(r), r.qr is Some, r.qr->Some_0.extract == extract, r.qr->Some_0.decode == decode, r.prepare == old(self).prepare, r.detect == old(self).detect,
#fn src/decoder.rs DecoderBuilder::build
@ret r
@spec
    requires complete(&self),
    ensures Some(r.prepare) == self.prepare, Some(r.detect) == self.detect, Some(r.qr) == self.qr,
#raw
}
#end
