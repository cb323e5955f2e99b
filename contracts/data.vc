#include chomp.vc
#include data_spec.vc
#include qrerror.vc
#raw
verus! {
// ---------------------------------------------------------------- assumed: format! with a width, and String::from_utf8
#[verifier::external_body]
pub fn pad3(d: u16) -> (r: String) ensures d <= 999 ==> r@ == digits3(d as nat) { format!("{:03}", d) }
#[verifier::external_body]
pub fn pad2(d: u16) -> (r: String) ensures d <= 99 ==> r@ == digits2(d as nat) { format!("{:02}", d) }
#[verifier::external_body]
pub fn pad1(d: u16) -> (r: String) ensures d <= 9 ==> r@ == digits1(d as nat) { format!("{:01}", d) }
#[verifier::external_body]
pub fn from_utf8_or_error(v: Vec<u8>) -> (r: Result<String, QRError>)
    ensures match r { Ok(s) => utf8_ok(v@) && s@ == utf8_text(v@), Err(_) => !utf8_ok(v@) },
{ String::from_utf8(v).map_err(|_| QRError { msg: String::new() }) }

pub struct Lossy { s: String }
impl Lossy {
    pub closed spec fn text(self) -> Seq<char> { self.s@ }
    pub fn into_owned(self) -> (r: String) ensures r@ == self.text() { self.s }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { self.s.clone() }
}
#[verifier::external_body]
pub fn from_utf8_lossy(v: &Vec<u8>) -> (r: Lossy) ensures utf8_ok(v@) ==> r.text() == utf8_text(v@) { Lossy { s: String::from_utf8_lossy(v).into_owned() } }

pub open spec fn read_ok(before: Seq<bool>, n: int, r: Result<u8, QRError>, after: Seq<bool>) -> bool {
    match r { Ok(v) => chomp_ok(before, n, Some(v), after), Err(e) => chomp_ok(before, n, None, after) }
}
pub proof fn lemma_pre_step(s: Seq<char>, t: Seq<char>, r: Read)
    ensures pre(s, pre(t, r)) == pre(s + t, r),
{
    if let Some((u, b)) = r { assert(s + (t + u) =~= (s + t) + u); }
}
pub open spec fn plus_nothing() -> bool { forall|s: Seq<char>| #[trigger] (s + Seq::<char>::empty()) == s }
pub proof fn lemma_plus_nothing()
    ensures plus_nothing()
{
    assert forall|s: Seq<char>| #[trigger] (s + Seq::<char>::empty()) == s by { assert(s + Seq::<char>::empty() =~= s); }
}
#end
#sub `&format!("{:03}", ..)` => `pad3($ARGS).as_str()`
#sub `&format!("{:02}", ..)` => `pad2($ARGS).as_str()`
#sub `&format!("{:01}", ..)` => `pad1($ARGS).as_str()`
#sub `&format!("{}", ..)` => `pad1($ARGS).as_str()`
#sub `format!(..)` => `fmt_msg()`
#sub `String::from_utf8(..)` => `from_utf8_or_error($ARGS)`
#sub `String::from_utf8_lossy(..)` => `from_utf8_lossy($ARGS)`
#const src/decode/qr/data.rs ALPHANUMERIC
#fn src/decode/qr/data.rs read_bits
@ret r
@spec
    requires old(chomp).wf(),
    ensures final(chomp).wf(), read_ok(old(chomp)@, bits as int, r, final(chomp)@),

#fn src/decode/qr/data.rs read_bits_u16
@ret r
@spec
    requires old(chomp).wf(),
    ensures final(chomp).wf(), chomp_wide_ok(old(chomp)@, bits as int, r, final(chomp)@),

#fn src/decode/qr/data.rs numeric
@ret r
@spec
    requires old(chomp).wf(),
    ensures final(chomp).wf(),
        match r { Ok(s) => num_seg(old(chomp)@, version) == Some((s@, final(chomp)@)), Err(_) => num_seg(old(chomp)@, version) is None },
@entry
    proof { reveal(num_seg); }
    let ghost b0 = chomp@;
@beforeloop 1
    proof { lemma_plus_nothing(); match num_body(chomp@, length as nat) { Some((t, r)) => { assert(Seq::empty() + t =~= t); } None => {} } assert(result@ =~= Seq::<char>::empty()); }
    let ghost b1 = chomp@;
    let ghost n1 = length as nat;
@loop 1
        invariant_except_break num_body(b1, n1) == pre(result@, num_body(chomp@, length as nat)),
        invariant plus_nothing(), chomp.wf(), b0 == old(chomp)@, num_seg(b0, version) == num_body(b1, n1),
        ensures num_body(b1, n1) == Some((result@, chomp@)),
        decreases length
@loopstart 1
        let ghost c0 = chomp@;
        let ghost r0 = result@;
        proof { if length >= 3 && c0.len() >= 10 { lemma_pre_step(r0, digits3(val(c0.take(10))), num_body(c0.skip(10), (length - 3) as nat)); } }

#fn src/decode/qr/data.rs alphanumeric
@ret r
@spec
    requires old(chomp).wf(),
    ensures final(chomp).wf(),
        match r { Ok(s) => alnum_seg(old(chomp)@, version) == Some((s@, final(chomp)@)), Err(_) => alnum_seg(old(chomp)@, version) is None },
@entry
    proof { reveal(alnum_seg); }
    proof { reveal(num_seg); }
    let ghost b0 = chomp@;
@beforeloop 1
    proof { lemma_plus_nothing(); match alnum_body(chomp@, length as nat) { Some((t, r)) => { assert(Seq::empty() + t =~= t); } None => {} } assert(result@ =~= Seq::<char>::empty()); }
    let ghost b1 = chomp@;
    let ghost n1 = length as nat;
@loop 1
        invariant_except_break alnum_body(b1, n1) == pre(result@, alnum_body(chomp@, length as nat)),
        invariant plus_nothing(), chomp.wf(), b0 == old(chomp)@, alnum_seg(b0, version) == alnum_body(b1, n1),
        ensures alnum_body(b1, n1) == Some((result@, chomp@)),
        decreases length
@loopstart 1
        let ghost c0 = chomp@;
        let ghost r0 = result@;
        proof {
            if length >= 2 && c0.len() >= 11 {
                let v = val(c0.take(11));
                let t = seq![alnum_char(v / 45), alnum_char(v % 45)];
                lemma_pre_step(r0, t, alnum_body(c0.skip(11), (length - 2) as nat));
                assert(r0 + t =~= r0.push(alnum_char(v / 45)).push(alnum_char(v % 45)));
            }
            if length == 1 && c0.len() >= 6 {
                let t = seq![alnum_char(val(c0.take(6)))];
                assert(r0 + t =~= r0.push(alnum_char(val(c0.take(6)))));
            }
        }

#fn src/decode/qr/data.rs eight_bit
@ret r
@spec
    requires old(chomp).wf(),
    ensures final(chomp).wf(),
        match r { Ok(s) => byte_seg(old(chomp)@, version) == Some((s@, final(chomp)@)), Err(_) => byte_seg(old(chomp)@, version) is None },
@entry
    proof { reveal(byte_seg); }
    let ghost b0 = chomp@;
@beforeloop 1
    let ghost b1 = chomp@;
    let ghost n1 = length as nat;
    proof { assert(b1.skip(0) =~= b1); }
@loop 1 it it1
        invariant chomp.wf(), b0 == old(chomp)@, byte_seg(b0, version) == byte_body(b1, n1), n1 == length,
            it1.index@ <= n1, b1.len() >= 8 * it1.index@, chomp@ == b1.skip(8 * it1.index@),
            result@ == bytes_at(b1, it1.index@ as nat),
@loopstart 1
        let ghost c0 = chomp@;
        let ghost i0 = it1.index@;
        proof { if c0.len() >= 8 { assert(c0.take(8) =~= b1.subrange(8 * i0, 8 * i0 + 8)); assert(c0.skip(8) =~= b1.skip(8 * (i0 + 1))); lemma_val_bound(c0.take(8)); } }
@loopend 1
        proof { assert(result@ =~= bytes_at(b1, (i0 + 1) as nat)); }
@afterloop 1
    let ghost bytes = result@;
@loop 2 it it2
        invariant_except_break may_be_utf8 == (exists|i: int| 0 <= i < it2.index@ && bytes[i] == 0xC3u8),
        invariant it2.seq().len() == bytes.len(), forall|i: int| 0 <= i < bytes.len() ==> *#[trigger] it2.seq()[i] == bytes[i],
        ensures may_be_utf8 == bytes.contains(0xC3u8),
@loop 3 it it3
            invariant it3.seq() == bytes, iso88591@ =~= Seq::new(it3.index@ as nat, |i: int| bytes[i] as char),

#fn src/decode/qr/data.rs data
@ret r
@spec
    requires input@.len() * 8 <= usize::MAX,
    ensures match r { Ok(s) => parse(bits_of(input@), version) == Some(s@), Err(_) => parse(bits_of(input@), version) is None },
@entry
    let ghost b0 = bits_of(input@);
@beforeloop 1
    let ghost mut cur = chomp@;
    proof { lemma_plus_nothing(); if let Some(t) = parse(cur, version) { assert(Seq::empty() + t =~= t); } assert(result@ =~= Seq::<char>::empty()); }
    
@loop 1
        invariant_except_break cur == chomp@,
        invariant plus_nothing(), chomp.wf(), b0 == bits_of(input@),
            parse(b0, version) == (match parse(cur, version) { Some(t) => Some(result@ + t), None => None }),
        ensures parse(b0, version) == Some(result@),
        decreases chomp@.len()
@loopstart 1
        let ghost r0 = result@;
        let ghost c1 = chomp@;
        let ghost m = mode as nat;
        proof {
            if let Some((t, rest)) = segment(m, c1, version) { if let Some(u) = parse(rest, version) { assert(r0 + (t + u) =~= (r0 + t) + u); } }
            lemma_segment_shrinks(m, c1, version); assert(c1 == cur.skip(4) && m == val(cur.take(4))); }
@loopend 1
        proof {
            cur = chomp@;
        }
#raw
} // verus!
#end
