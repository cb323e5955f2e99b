#include bits.vc
#raw
verus! {
// ---------------------------------------------------------------- assumed: std's Peekable over a vector's IntoIter
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(I)]
pub struct ExPeekable<I: Iterator>(Peekable<I>);
/// items still to come
pub uninterp spec fn pk<I: Iterator>(p: Peekable<I>) -> Seq<I::Item>;
pub assume_specification<I: Iterator>[ Peekable::<I>::peek ](p: &mut Peekable<I>) -> (r: Option<&I::Item>)
    ensures pk(*final(p)) == pk(*old(p)), r.is_some() == (pk(*old(p)).len() > 0), r.is_some() ==> *r.unwrap() == pk(*old(p))[0];
pub assume_specification<I: Iterator>[ <Peekable<I> as Iterator>::next ](p: &mut Peekable<I>) -> (r: Option<I::Item>)
    ensures pk(*old(p)).len() > 0 ==> r == Some(pk(*old(p))[0]) && pk(*final(p)) == pk(*old(p)).skip(1),
        pk(*old(p)).len() == 0 ==> r.is_none() && pk(*final(p)) == pk(*old(p));
#[verifier::external_body]
pub fn peekable_bytes(v: Vec<u8>) -> (r: Peekable<IntoIter<u8>>)
    ensures pk(r) == v@
{ v.into_iter().peekable() }
}
#end
