#raw
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
verus! {
/// f64: the operators are defined for all operands and give the same number each time; which one is not said here
pub axiom fn f64_total()
    ensures <f64 as AddSpec<f64>>::obeys_add_spec(), forall|a: f64, b: f64| #[trigger] AddSpec::add_req(a, b),
        <f64 as SubSpec<f64>>::obeys_sub_spec(), forall|a: f64, b: f64| #[trigger] SubSpec::sub_req(a, b),
        <f64 as MulSpec<f64>>::obeys_mul_spec(), forall|a: f64, b: f64| #[trigger] MulSpec::mul_req(a, b),
        <f64 as DivSpec<f64>>::obeys_div_spec(), forall|a: f64, b: f64| #[trigger] DivSpec::div_req(a, b),
        <f64 as PartialOrdSpec<f64>>::obeys_partial_cmp_spec(),
        <f64 as FromSpec<u32>>::obeys_from_spec(),
        <f64 as FromSpec<i32>>::obeys_from_spec(),
        <f64 as FromSpec<u8>>::obeys_from_spec();
/// the same for two given numbers (a field of a structure needs it)
pub axiom fn f64_ops(a: f64, b: f64)
    ensures AddSpec::add_req(a, b), SubSpec::sub_req(a, b), MulSpec::<f64>::mul_req(a, b), DivSpec::div_req(a, b);
/// a > b
pub open spec fn above(a: f64, b: f64) -> bool { a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Greater) }
/// a < b
pub open spec fn below(a: f64, b: f64) -> bool { a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Less) }
}
#end
