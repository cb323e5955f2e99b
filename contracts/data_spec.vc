#include bits.vc
#raw
verus! {
// ---------------------------------------------------------------- the bit stream grammar of ISO/IEC 18004, 7.4
pub open spec fn digit_char(d: nat) -> char { ((48 + d) as u8) as char }

/// the 45 characters of the alphanumeric mode, Table 5
pub open spec fn alnum_char(c: nat) -> char {
    if c < 10 { ((48 + c) as u8) as char } else if c < 36 { ((55 + c) as u8) as char }
    else if c == 36 { ' ' } else if c == 37 { '$' } else if c == 38 { '%' } else if c == 39 { '*' } else if c == 40 { '+' }
    else if c == 41 { '-' } else if c == 42 { '.' } else if c == 43 { '/' } else { ':' }
}

/// width of the character count, Table 3; None for versions that do not exist
pub open spec fn num_width(version: u32) -> Option<nat> {
    if 1 <= version <= 9 { Some(10) } else if 10 <= version <= 26 { Some(12) } else if 27 <= version <= 40 { Some(14) } else { None }
}
pub open spec fn alnum_width(version: u32) -> Option<nat> {
    if 1 <= version <= 9 { Some(9) } else if 10 <= version <= 26 { Some(11) } else if 27 <= version <= 40 { Some(13) } else { None }
}
pub open spec fn byte_width(version: u32) -> Option<nat> {
    if 1 <= version <= 9 { Some(8) } else if 10 <= version <= 40 { Some(16) } else { None }
}

/// text read and the bits after it; None: the payload is malformed
pub type Read = Option<(Seq<char>, Seq<bool>)>;

pub open spec fn pre(s: Seq<char>, r: Read) -> Read {
    match r { Some((t, b)) => Some((s + t, b)), None => None }
}

pub open spec fn digits1(v: nat) -> Seq<char> { seq![digit_char(v)] }
pub open spec fn digits2(v: nat) -> Seq<char> { seq![digit_char(v / 10), digit_char(v % 10)] }
pub open spec fn digits3(v: nat) -> Seq<char> { seq![digit_char(v / 100), digit_char((v / 10) % 10), digit_char(v % 10)] }

pub open spec fn num_body(b: Seq<bool>, n: nat) -> Read
    decreases n
{
    if n == 0 { Some((Seq::empty(), b)) }
    else if n >= 3 {
        if b.len() < 10 || val(b.take(10)) > 999 { None } else { pre(digits3(val(b.take(10))), num_body(b.skip(10), (n - 3) as nat)) }
    } else if n == 2 {
        if b.len() < 7 || val(b.take(7)) > 99 { None } else { Some((digits2(val(b.take(7))), b.skip(7))) }
    } else {
        if b.len() < 4 || val(b.take(4)) > 9 { None } else { Some((digits1(val(b.take(4))), b.skip(4))) }
    }
}

pub open spec fn alnum_body(b: Seq<bool>, n: nat) -> Read
    decreases n
{
    if n == 0 { Some((Seq::empty(), b)) }
    else if n >= 2 {
        let v = val(b.take(11));
        if b.len() < 11 || v > 44 * 45 + 44 { None } else { pre(seq![alnum_char(v / 45), alnum_char(v % 45)], alnum_body(b.skip(11), (n - 2) as nat)) }
    } else {
        if b.len() < 6 || val(b.take(6)) > 44 { None } else { Some((seq![alnum_char(val(b.take(6)))], b.skip(6))) }
    }
}

/// n bytes from the front of the bits (there must be enough)
pub open spec fn bytes_at(b: Seq<bool>, n: nat) -> Seq<u8> { Seq::new(n, |i: int| val(b.subrange(8 * i, 8 * i + 8)) as u8) }

/// what a byte segment denotes: UTF-8 if 0xC3 occurs, ISO 8859-1 otherwise
pub open spec fn byte_text(v: Seq<u8>) -> Option<Seq<char>> {
    if v.contains(0xC3u8) { if utf8_ok(v) { Some(utf8_text(v)) } else { None } }
    else { Some(Seq::new(v.len(), |i: int| v[i] as char)) }
}
pub open spec fn byte_body(b: Seq<bool>, n: nat) -> Read {
    if b.len() < 8 * n { None }
    else { match byte_text(bytes_at(b, n)) { Some(t) => Some((t, b.skip(8 * n as int))), None => None } }
}

#[verifier::opaque]
pub open spec fn num_seg(b: Seq<bool>, version: u32) -> Read {
    match num_width(version) { Some(w) => if b.len() < w { None } else { num_body(b.skip(w as int), val(b.take(w as int))) }, None => None }
}
#[verifier::opaque]
pub open spec fn alnum_seg(b: Seq<bool>, version: u32) -> Read {
    match alnum_width(version) { Some(w) => if b.len() < w { None } else { alnum_body(b.skip(w as int), val(b.take(w as int))) }, None => None }
}
#[verifier::opaque]
pub open spec fn byte_seg(b: Seq<bool>, version: u32) -> Read {
    match byte_width(version) { Some(w) => if b.len() < w { None } else { byte_body(b.skip(w as int), val(b.take(w as int))) }, None => None }
}
pub open spec fn segment(mode: nat, b: Seq<bool>, version: u32) -> Read {
    if mode == 1 { num_seg(b, version) } else if mode == 2 { alnum_seg(b, version) } else if mode == 4 { byte_seg(b, version) } else { None }
}

/// the text a whole payload denotes, None if it is malformed
pub open spec fn parse(b: Seq<bool>, version: u32) -> Option<Seq<char>>
    decreases b.len()
{
    if b.len() < 4 { Some(Seq::empty()) }
    else if val(b.take(4)) == 0 { Some(Seq::empty()) }
    else {
        match segment(val(b.take(4)), b.skip(4), version) {
            Some((t, rest)) => if rest.len() < b.len() { match parse(rest, version) { Some(u) => Some(t + u), None => None } } else { None },
            None => None,
        }
    }
}

pub proof fn lemma_num_shrinks(b: Seq<bool>, n: nat)
    ensures num_body(b, n) matches Some((t, r)) ==> r.len() <= b.len(),
    decreases n
{ if n >= 3 && b.len() >= 10 { lemma_num_shrinks(b.skip(10), (n - 3) as nat); } }
pub proof fn lemma_alnum_shrinks(b: Seq<bool>, n: nat)
    ensures alnum_body(b, n) matches Some((t, r)) ==> r.len() <= b.len(),
    decreases n
{ if n >= 2 && b.len() >= 11 { lemma_alnum_shrinks(b.skip(11), (n - 2) as nat); } }
pub proof fn lemma_segment_shrinks(m: nat, b: Seq<bool>, version: u32)
    ensures segment(m, b, version) matches Some((t, r)) ==> r.len() <= b.len(),
{
    reveal(num_seg); reveal(alnum_seg); reveal(byte_seg);
    if let Some(w) = num_width(version) { if b.len() >= w { lemma_num_shrinks(b.skip(w as int), val(b.take(w as int))); } }
    if let Some(w) = alnum_width(version) { if b.len() >= w { lemma_alnum_shrinks(b.skip(w as int), val(b.take(w as int))); } }
}

// ---------------------------------------------------------------- what an encoder writes, and that the grammar reads it back
pub enum Seg { Num(Seq<nat>), Alnum(Seq<nat>), Byte(Seq<u8>) }

pub open spec fn to_bits(v: nat, n: nat) -> Seq<bool>
    decreases n
{ if n == 0 { Seq::empty() } else { to_bits(v / 2, (n - 1) as nat).push(v % 2 == 1) } }

pub proof fn lemma_to_bits(v: nat, n: nat)
    requires v < p2(n as int),
    ensures to_bits(v, n).len() == n, val(to_bits(v, n)) == v,
    decreases n
{
    if n > 0 {
        lemma_to_bits(v / 2, (n - 1) as nat);
        assert(to_bits(v, n).drop_last() =~= to_bits(v / 2, (n - 1) as nat));
    }
}

pub open spec fn num_enc(d: Seq<nat>) -> Seq<bool>
    decreases d.len()
{
    if d.len() == 0 { Seq::empty() }
    else if d.len() == 1 { to_bits(d[0], 4) }
    else if d.len() == 2 { to_bits(10 * d[0] + d[1], 7) }
    else { to_bits(100 * d[0] + 10 * d[1] + d[2], 10) + num_enc(d.skip(3)) }
}
pub open spec fn alnum_enc(d: Seq<nat>) -> Seq<bool>
    decreases d.len()
{
    if d.len() == 0 { Seq::empty() }
    else if d.len() == 1 { to_bits(d[0], 6) }
    else { to_bits(45 * d[0] + d[1], 11) + alnum_enc(d.skip(2)) }
}
pub open spec fn byte_enc(d: Seq<u8>) -> Seq<bool> { bits_of(d) }

pub open spec fn seg_ok(s: Seg, version: u32) -> bool {
    match s {
        Seg::Num(d) => num_width(version) is Some && d.len() < p2(num_width(version).unwrap() as int) && forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] < 10,
        Seg::Alnum(d) => alnum_width(version) is Some && d.len() < p2(alnum_width(version).unwrap() as int) && forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] < 45,
        Seg::Byte(d) => byte_width(version) is Some && d.len() < p2(byte_width(version).unwrap() as int) && byte_text(d) is Some,
    }
}
pub open spec fn seg_bits(s: Seg, version: u32) -> Seq<bool> {
    match s {
        Seg::Num(d) => to_bits(1, 4) + (to_bits(d.len(), num_width(version).unwrap()) + num_enc(d)),
        Seg::Alnum(d) => to_bits(2, 4) + (to_bits(d.len(), alnum_width(version).unwrap()) + alnum_enc(d)),
        Seg::Byte(d) => to_bits(4, 4) + (to_bits(d.len(), byte_width(version).unwrap()) + byte_enc(d)),
    }
}
pub open spec fn seg_text(s: Seg) -> Seq<char> {
    match s {
        Seg::Num(d) => Seq::new(d.len(), |i: int| digit_char(d[i])),
        Seg::Alnum(d) => Seq::new(d.len(), |i: int| alnum_char(d[i])),
        Seg::Byte(d) => byte_text(d).unwrap(),
    }
}
pub open spec fn segs_bits(s: Seq<Seg>, version: u32) -> Seq<bool>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { seg_bits(s[0], version) + segs_bits(s.skip(1), version) } }
pub open spec fn segs_text(s: Seq<Seg>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { seg_text(s[0]) + segs_text(s.skip(1)) } }

pub proof fn lemma_divide(a: nat, b: nat, c: nat)
    requires a < 10, b < 10, c < 10,
    ensures (100 * a + 10 * b + c) / 100 == a, ((100 * a + 10 * b + c) / 10) % 10 == b, (100 * a + 10 * b + c) % 10 == c, (10 * b + c) / 10 == b, (10 * b + c) % 10 == c,
{
    assert((100 * a + 10 * b + c) / 10 == 10 * a + b);
}
pub proof fn lemma_num_rt(d: Seq<nat>, rest: Seq<bool>)
    requires forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] < 10,
    ensures num_body(num_enc(d) + rest, d.len()) == Some((Seq::new(d.len(), |i: int| digit_char(d[i])), rest)),
    decreases d.len()
{
    lemma_p2_values();
    let b = num_enc(d) + rest;
    let want = Seq::new(d.len(), |i: int| digit_char(d[i]));
    if d.len() == 0 { assert(b =~= rest); assert(want =~= Seq::<char>::empty()); }
    else if d.len() == 1 {
        lemma_to_bits(d[0], 4);
        assert(b.take(4) =~= to_bits(d[0], 4)); assert(b.skip(4) =~= rest);
        assert(want =~= digits1(d[0]));
    } else if d.len() == 2 {
        let v = 10 * d[0] + d[1];
        assert(d[0] < 10 && d[1] < 10);
        lemma_to_bits(v, 7);
        assert(b.take(7) =~= to_bits(v, 7)); assert(b.skip(7) =~= rest);
        lemma_divide(0, d[0], d[1]);
        assert(want =~= digits2(v));
    } else {
        let v = 100 * d[0] + 10 * d[1] + d[2];
        assert(d[0] < 10 && d[1] < 10 && d[2] < 10);
        assert(p2(10) == 4 * p2(8)) by { assert(p2(9) == 2 * p2(8)); }
        lemma_to_bits(v, 10);
        let t = d.skip(3);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < 10 by { assert(t[i] == d[i + 3]); }
        lemma_num_rt(t, rest);
        assert(b.take(10) =~= to_bits(v, 10)); assert(b.skip(10) =~= num_enc(t) + rest);
        lemma_divide(d[0], d[1], d[2]);
        assert(want =~= digits3(v) + Seq::new(t.len(), |i: int| digit_char(t[i])));
    }
}

pub proof fn lemma_alnum_rt(d: Seq<nat>, rest: Seq<bool>)
    requires forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] < 45,
    ensures alnum_body(alnum_enc(d) + rest, d.len()) == Some((Seq::new(d.len(), |i: int| alnum_char(d[i])), rest)),
    decreases d.len()
{
    lemma_p2_values();
    let b = alnum_enc(d) + rest;
    let want = Seq::new(d.len(), |i: int| alnum_char(d[i]));
    if d.len() == 0 { assert(b =~= rest); assert(want =~= Seq::<char>::empty()); }
    else if d.len() == 1 {
        lemma_to_bits(d[0], 6);
        assert(b.take(6) =~= to_bits(d[0], 6)); assert(b.skip(6) =~= rest);
        assert(want =~= seq![alnum_char(d[0])]);
    } else {
        let v = 45 * d[0] + d[1];
        assert(d[0] < 45 && d[1] < 45);
        assert(p2(11) == 8 * p2(8)) by { assert(p2(9) == 2 * p2(8)); assert(p2(10) == 2 * p2(9)); }
        lemma_to_bits(v, 11);
        let t = d.skip(2);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < 45 by { assert(t[i] == d[i + 2]); }
        lemma_alnum_rt(t, rest);
        assert(b.take(11) =~= to_bits(v, 11)); assert(b.skip(11) =~= alnum_enc(t) + rest);
        assert(v / 45 == d[0] && v % 45 == d[1]);
        assert(want =~= seq![alnum_char(d[0]), alnum_char(d[1])] + Seq::new(t.len(), |i: int| alnum_char(t[i])));
    }
}

pub proof fn lemma_byte_rt(d: Seq<u8>, rest: Seq<bool>)
    requires byte_text(d) is Some,
    ensures byte_body(byte_enc(d) + rest, d.len()) == Some((byte_text(d).unwrap(), rest)),
{
    let b = byte_enc(d) + rest;
    assert(b.skip(8 * d.len() as int) =~= rest);
    assert(bytes_at(b, d.len()) =~= d) by {
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] bytes_at(b, d.len())[i] == d[i] by {
            assert(b.subrange(8 * i, 8 * i + 8) =~= top(d[i], 8)) by {
                assert forall|k: int| 0 <= k < 8 implies #[trigger] top(d[i], 8)[k] == b[8 * i + k] by {
                    assert((8 * i + k) / 8 == i && (8 * i + k) % 8 == k);
                }
            }
            lemma_top(d[i], 8);
            let x = d[i];
            assert(x >> 0u8 == x) by (bit_vector);
        }
    }
}

pub proof fn lemma_num_seg_rt(d: Seq<nat>, rest: Seq<bool>, version: u32)
    requires seg_ok(Seg::Num(d), version),
    ensures ({
        let b = seg_bits(Seg::Num(d), version) + rest;
        &&& b.len() >= 4
        &&& val(b.take(4)) == 1
        &&& num_seg(b.skip(4), version) == Some((seg_text(Seg::Num(d)), rest))
    }),
{
    reveal(num_seg);
    let b = seg_bits(Seg::Num(d), version) + rest;
    assert(p2(4) == 16) by { lemma_p2_values(); }
    lemma_to_bits(1, 4);
    let w = num_width(version).unwrap();
    lemma_to_bits(d.len(), w);
    let c = b.skip(4);
    assert(b.take(4) =~= to_bits(1, 4));
    assert(c.take(w as int) =~= to_bits(d.len(), w));
    assert(c.skip(w as int) =~= num_enc(d) + rest);
    lemma_num_rt(d, rest);
}
pub proof fn lemma_alnum_seg_rt(d: Seq<nat>, rest: Seq<bool>, version: u32)
    requires seg_ok(Seg::Alnum(d), version),
    ensures ({
        let b = seg_bits(Seg::Alnum(d), version) + rest;
        &&& b.len() >= 4
        &&& val(b.take(4)) == 2
        &&& alnum_seg(b.skip(4), version) == Some((seg_text(Seg::Alnum(d)), rest))
    }),
{
    reveal(alnum_seg);
    let b = seg_bits(Seg::Alnum(d), version) + rest;
    assert(p2(4) == 16) by { lemma_p2_values(); }
    lemma_to_bits(2, 4);
    let w = alnum_width(version).unwrap();
    lemma_to_bits(d.len(), w);
    let c = b.skip(4);
    assert(b.take(4) =~= to_bits(2, 4));
    assert(c.take(w as int) =~= to_bits(d.len(), w));
    assert(c.skip(w as int) =~= alnum_enc(d) + rest);
    lemma_alnum_rt(d, rest);
}
pub proof fn lemma_byte_seg_rt(d: Seq<u8>, rest: Seq<bool>, version: u32)
    requires seg_ok(Seg::Byte(d), version),
    ensures ({
        let b = seg_bits(Seg::Byte(d), version) + rest;
        &&& b.len() >= 4
        &&& val(b.take(4)) == 4
        &&& byte_seg(b.skip(4), version) == Some((seg_text(Seg::Byte(d)), rest))
    }),
{
    reveal(byte_seg);
    let b = seg_bits(Seg::Byte(d), version) + rest;
    assert(p2(4) == 16) by { lemma_p2_values(); }
    lemma_to_bits(4, 4);
    let w = byte_width(version).unwrap();
    lemma_to_bits(d.len(), w);
    let c = b.skip(4);
    assert(b.take(4) =~= to_bits(4, 4));
    assert(c.take(w as int) =~= to_bits(d.len(), w));
    assert(c.skip(w as int) =~= byte_enc(d) + rest);
    lemma_byte_rt(d, rest);
}

/// one segment, whatever follows it
pub proof fn lemma_segment_rt(s: Seg, rest: Seq<bool>, version: u32)
    requires seg_ok(s, version),
    ensures ({
        let b = seg_bits(s, version) + rest;
        &&& b.len() >= 4
        &&& val(b.take(4)) != 0
        &&& segment(val(b.take(4)), b.skip(4), version) == Some((seg_text(s), rest))
    }),
{
    match s {
        Seg::Num(d) => { lemma_num_seg_rt(d, rest, version); }
        Seg::Alnum(d) => { lemma_alnum_seg_rt(d, rest, version); }
        Seg::Byte(d) => { lemma_byte_seg_rt(d, rest, version); }
    }
}

/// C06: any sequence of segments, followed by a terminator or by fewer than four bits, reads back as its characters
pub proof fn theorem_segments_read_back(s: Seq<Seg>, tail: Seq<bool>, version: u32)
    requires forall|i: int| 0 <= i < s.len() ==> seg_ok(#[trigger] s[i], version), tail.len() < 4 || val(tail.take(4)) == 0,
    ensures parse(segs_bits(s, version) + tail, version) == Some(segs_text(s)),
    decreases s.len()
{
    let b = segs_bits(s, version) + tail;
    if s.len() == 0 { assert(b =~= tail); }
    else {
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies seg_ok(#[trigger] t[i], version) by { assert(t[i] == s[i + 1]); }
        theorem_segments_read_back(t, tail, version);
        let r = segs_bits(t, version) + tail;
        assert(b =~= seg_bits(s[0], version) + r);
        lemma_segment_rt(s[0], r, version);
        lemma_segment_shrinks(val(b.take(4)), b.skip(4), version);
    }
}
// ---------------------------------------------------------------- assumed: std's UTF-8 decoder
pub uninterp spec fn utf8_ok(v: Seq<u8>) -> bool;
pub uninterp spec fn utf8_text(v: Seq<u8>) -> Seq<char>;
}
#end
