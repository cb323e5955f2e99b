#include chomp_spec.vc
#raw
verus! {
#end
#struct src/util/chomp.rs BitCount #[derive(Eq, PartialEq, PartialOrd, Copy, Clone)]
#struct src/util/chomp.rs Chomp
#raw
// ---------------------------------------------------------------- BitCount: derived comparisons and newtype_derive's expansions
impl PartialEqSpecImpl for BitCount {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, rhs: &BitCount) -> bool { *self == *rhs }
}
impl PartialOrdSpecImpl for BitCount {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, rhs: &BitCount) -> Option<Ordering> {
       if self.0 < rhs.0 { Some(Ordering::Less) } else if self.0 > rhs.0 { Some(Ordering::Greater) } else { Some(Ordering::Equal) }
    }
}
impl SubSpecImpl<BitCount> for BitCount {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: BitCount) -> bool { self.0 >= rhs.0 }
    open spec fn sub_spec(self, rhs: BitCount) -> BitCount { BitCount((self.0 - rhs.0) as usize) }
}
impl Sub<BitCount> for BitCount { type Output = BitCount; fn sub(self, rhs: BitCount) -> BitCount { BitCount(self.0 - rhs.0) } }
impl SubAssignSpecImpl<BitCount> for BitCount {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, rhs: BitCount) -> bool { self.0 >= rhs.0 }
    open spec fn sub_assign_spec(&self, rhs: BitCount) -> &BitCount { &BitCount((self.0 - rhs.0) as usize) }
}
impl SubAssign<BitCount> for BitCount { fn sub_assign(&mut self, rhs: BitCount) { self.0 -= rhs.0 } }

// ---------------------------------------------------------------- the abstract state: the bits still to be read
impl Chomp {
    pub open spec fn view(&self) -> Seq<bool> {
        (match self.current_byte { Some(b) => top(b, self.bits_left_in_byte.0 as int), None => Seq::<bool>::empty() }) + bits_of(pk(self.bytes))
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.bits_left.0 == self.view().len()
        &&& match self.current_byte {
            Some(_) => 1 <= self.bits_left_in_byte.0 <= 8,
            None => self.bits_left_in_byte.0 == 0 && pk(self.bytes).len() == 0,
        }
    }
}
/// the contract of a read of n bits, at most max
pub open spec fn chomp_ok(before: Seq<bool>, n: int, r: Option<u8>, after: Seq<bool>) -> bool {
    if 1 <= n <= 8 && n <= before.len() {
        r.is_some() && r.unwrap() as nat == val(before.take(n)) && after == before.skip(n)
    } else {
        r.is_none() && after == before
    }
}
pub open spec fn chomp_wide_ok<E>(before: Seq<bool>, n: int, r: Result<u16, E>, after: Seq<bool>) -> bool {
    if 1 <= n <= 16 && n <= before.len() {
        (r matches Ok(v) && v as nat == val(before.take(n))) && after == before.skip(n)
    } else {
        r.is_err() && (after == before || (n > 8 && before.len() >= 8 && after == before.skip(8)))
    }
}
#end
#sub "bytes.into_iter().peekable()" => "peekable_bytes(bytes)"
#sub ".ok_or_else(|| err.clone())" => ".ok_or(err.clone())"
#fn src/util/chomp.rs Chomp::new
@ret r
@spec
    requires bytes@.len() * 8 <= usize::MAX,
    ensures r.wf(), r@ == bits_of(bytes@),
@entry
        let ghost inp = bytes@;
@beforetail
        proof {
            if inp.len() > 0 { lemma_bits_of_step(inp); }
        }

#fn src/util/chomp.rs Chomp::chomp_or
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            Ok(v) => chomp_ok(old(self)@, nr_bits as int, Some(v), final(self)@),
            Err(e) => chomp_ok(old(self)@, nr_bits as int, None, final(self)@) && e == err,
        },

#fn src/util/chomp.rs Chomp::chomp_or_u16
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), chomp_wide_ok(old(self)@, nr_bits as int, r, final(self)@),
@entry
        let ghost b0 = self@;
@loop 1
            invariant
                self.wf(), b0 == old(self)@, nr_bits <= 16, bits <= nr_bits,
                bits == nr_bits ==> self@ == b0 && result == 0,
                bits < nr_bits ==> bits == nr_bits - 8 && b0.len() >= 8 && self@ == b0.skip(8) && result as nat == val(b0.take(8)) * p2(bits as int) && 1 <= bits && result + p2(bits as int) <= 65536,
            decreases bits
@loopend 1
            proof { lemma_wide(b0.take(8), bits); }
@afterloop 1
        proof { if bits <= self@.len() { lemma_val_bound(self@.take(bits as int)); } }
@beforetail
        proof {
            if nr_bits > 8 {
                assert(b0.skip(8).skip(bits as int) =~= b0.skip(nr_bits as int));
                assert(b0.take(nr_bits as int) =~= b0.take(8) + b0.skip(8).take(bits as int));
                lemma_val_concat(b0.take(8), b0.skip(8).take(bits as int));
            }
        }

#fn src/util/chomp.rs Chomp::chomp
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), chomp_ok(old(self)@, nr_bits as int, r, final(self)@),
@entry
        let ghost b0 = self@;
        let ghost have = self.bits_left_in_byte.0 as int;
        let ghost rest = pk(self.bytes);
        proof {
            if let Some(b) = self.current_byte {
                lemma_top(b, have as u8);
                lemma_val_bound(top(b, have));
                if rest.len() > 0 { lemma_bits_of_step(rest); }
                if have == nr_bits {
                    assert(b0.take(have) =~= top(b, have));
                    assert(b0.skip(have) =~= bits_of(rest));
                }
                if 1 <= nr_bits <= 8 && have < nr_bits && nr_bits <= b0.len() {
                    let g = nr_bits - have;
                    let m = top(b, have) + bits_of(rest);
                    assert(rest.len() > 0);
                    assert(b0.skip(nr_bits as int) =~= bits_of(rest).skip(g));
                    assert(b0.take(nr_bits as int) =~= top(b, have) + bits_of(rest).take(g));
                    lemma_val_concat(top(b, have), bits_of(rest).take(g));
                    lemma_val_bound(bits_of(rest).take(g));
                    lemma_shl_value((b >> ((8 - have) as u8)), g as u8, have as nat);
                }
            }
        }

#fn src/util/chomp.rs Chomp::nibble
@ret r
@spec
    requires old(self).wf(), 1 <= nr_bits.0 < old(self).bits_left_in_byte.0,
    ensures final(self).wf(), chomp_ok(old(self)@, nr_bits.0 as int, r, final(self)@),
@entry
        let ghost b0 = self@;
        let ghost byte0 = self.current_byte.unwrap();
        proof {
            lemma_shl_bits(byte0, nr_bits.0 as u8);
            lemma_top(byte0, nr_bits.0 as u8);
            let n = nr_bits.0 as int;
            assert(b0.take(n) =~= top(byte0, n));
            assert(b0.skip(n) =~= top(byte0 << (n as u8), self.bits_left_in_byte.0 - n) + bits_of(pk(self.bytes)));
        }
#raw
} // verus!
#end
