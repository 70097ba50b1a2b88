// pest3_meta: the expressions of a grammar
//@path String String
//@rename clone 0 vx_clone
//@path Range PRange
//@ident Range PRange
/// TRUSTED: file paths; only compared and copied here
#[verifier::external_body]
pub struct PathBuf { p: std::path::PathBuf }
//@item meta Span
//@item meta Range
//@item meta Trivia
//@item meta ParseNode
//@item meta PathArgs
//@item meta ParseExpr
impl ParseExpr {
    /// TRUSTED: the derived `Clone` copies
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: ParseExpr)
        ensures r == *self,
    { unimplemented!() }
}
