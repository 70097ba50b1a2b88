// equality of strings
//@path String String
/// TRUSTED: equality of strings is equality of their characters
#[verifier::external_body]
pub broadcast proof fn axiom_eq1(p: String, n: &str) ensures #[trigger] <String as PartialEqSpec<&str>>::eq_spec(&p, &n) == (p@ == n@), { }
#[verifier::external_body]
pub broadcast proof fn axiom_eq1o() ensures #[trigger] <String as PartialEqSpec<&str>>::obeys_eq_spec() { }
#[verifier::external_body]
pub broadcast proof fn axiom_eq2(p: String, n: &str) ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(&p, n) == (p@ == n@) { }
#[verifier::external_body]
pub broadcast proof fn axiom_eq2o() ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec() { }
#[verifier::external_body]
pub broadcast proof fn axiom_eq3(p: String, n: String) ensures #[trigger] <String as PartialEqSpec<String>>::eq_spec(&p, &n) == (p@ == n@) { }
#[verifier::external_body]
pub broadcast proof fn axiom_eq3o() ensures #[trigger] <String as PartialEqSpec<String>>::obeys_eq_spec() { }
pub broadcast group str_eq { axiom_eq1, axiom_eq2, axiom_eq3, axiom_eq1o, axiom_eq2o, axiom_eq3o }
pub open spec fn vx_chars_of<T: View<V = Seq<char>>>(x: T) -> Seq<char> { x@ }
