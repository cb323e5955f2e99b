#raw
verus! {
#end
#struct src/util/qr.rs QRError #[derive(Clone)]
#raw
/// error texts are not specified: format!(..) of a message becomes this
#[verifier::external_body]
pub fn fmt_msg() -> String { String::new() }
}
#end
