// Rules, as derived by pest3_derive from the grammar of /verif/rules: the code emitted for a rule of
// each shape, in particular `rof(e) = e`, whose content is an arbitrary expression.
//@link rules core
//@modules pest3 pest3_core rules generics wrapper
type R = Rule;
//@item rules Rule
// TRUSTED: the derived equality and order of the rule enum (no contract uses the order)
#[verifier::external] impl Clone for Rule { fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external] impl Copy for Rule {}
#[verifier::external] impl PartialEq for Rule { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
#[verifier::external] impl Eq for Rule {}
#[verifier::external] impl PartialOrd for Rule { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
#[verifier::external] impl Ord for Rule { fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }
//@open rules impl RuleType for Rule
//@close
//@item rules rof
