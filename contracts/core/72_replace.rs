// pest3_meta: substituting an expression for a rule parameter
/// the expression is a use of the parameter
pub open spec fn is_param(e: ParseExpr, name: Seq<char>) -> bool {
    match e { ParseExpr::Path(p, None) => p@.len() == 1 && p@[0]@ == name, _ => false }
}
/// `r` is `e` with `by` in place of every use of the parameter, at any depth, and otherwise equal to `e`
pub open spec fn subst(e: ParseExpr, name: Seq<char>, by: ParseExpr, r: ParseExpr) -> bool
    decreases e,
{
    if is_param(e, name) { r == by } else {
        match e {
            ParseExpr::Str(_) | ParseExpr::Insens(_) | ParseExpr::Range(_, _) | ParseExpr::Path(_, None) | ParseExpr::Path(_, Some(PathArgs::Slice(_))) => r == e,
            ParseExpr::Path(p, Some(PathArgs::Call(a))) => match r {
                ParseExpr::Path(q, Some(PathArgs::Call(b))) => p == q && b@.len() == a@.len() && forall |i: int| 0 <= i < a@.len() ==> #[trigger] substn(a@[i], name, by, b@[i]),
                _ => false,
            },
            ParseExpr::PosPred(x) => match r { ParseExpr::PosPred(y) => substn(*x, name, by, *y), _ => false },
            ParseExpr::NegPred(x) => match r { ParseExpr::NegPred(y) => substn(*x, name, by, *y), _ => false },
            ParseExpr::Opt(x) => match r { ParseExpr::Opt(y) => substn(*x, name, by, *y), _ => false },
            ParseExpr::Rep(x) => match r { ParseExpr::Rep(y) => substn(*x, name, by, *y), _ => false },
            ParseExpr::RepOnce(x) => match r { ParseExpr::RepOnce(y) => substn(*x, name, by, *y), _ => false },
            ParseExpr::RepRange(x, n) => match r { ParseExpr::RepRange(y, m) => n == m && substn(*x, name, by, *y), _ => false },
            ParseExpr::Separated(x, n) => match r { ParseExpr::Separated(y, m) => n == m && substn(*x, name, by, *y), _ => false },
            ParseExpr::Choice(x, u) => match r { ParseExpr::Choice(y, v) => substn(*x, name, by, *y) && substn(*u, name, by, *v), _ => false },
            ParseExpr::Seq(x, u, n) => match r { ParseExpr::Seq(y, v, m) => n == m && substn(*x, name, by, *y) && substn(*u, name, by, *v), _ => false },
        }
    }
}
pub open spec fn substn(e: ParseNode, name: Seq<char>, by: ParseExpr, r: ParseNode) -> bool
    decreases e,
{ r.span == e.span && subst(e.expr, name, by, r.expr) }
/// some use of the parameter
pub open spec fn uses(e: ParseExpr, name: Seq<char>) -> bool
    decreases e,
{
    is_param(e, name) || match e {
        ParseExpr::Path(p, Some(PathArgs::Call(a))) => exists |i: int| 0 <= i < a@.len() && uses((#[trigger] a@[i]).expr, name),
        ParseExpr::PosPred(x) => uses(x.expr, name), ParseExpr::NegPred(x) => uses(x.expr, name), ParseExpr::Opt(x) => uses(x.expr, name), ParseExpr::Rep(x) => uses(x.expr, name),
        ParseExpr::RepOnce(x) => uses(x.expr, name), ParseExpr::RepRange(x, _) => uses(x.expr, name), ParseExpr::Separated(x, _) => uses(x.expr, name),
        ParseExpr::Choice(x, u) => uses(x.expr, name) || uses(u.expr, name), ParseExpr::Seq(x, u, _) => uses(x.expr, name) || uses(u.expr, name),
        _ => false,
    }
}
pub open spec fn call_args(e: ParseExpr) -> Seq<ParseNode> { match e { ParseExpr::Path(_, Some(PathArgs::Call(a))) => a@, _ => seq![] } }
//@open meta impl ParseExpr
//@fn replace
    ensures
        subst(*old(self), arg_name@, *new_expr, *final(self)),
        r == uses(*old(self), arg_name@),
    decreases *old(self),
//@noiso
//@start
broadcast use str_eq;
let ghost e0 = *self;
let ghost a0 = call_args(e0);
//@loop 0
    invariant
        it0.seq().len() == a0.len(), forall |i: int| 0 <= i < a0.len() ==> *(#[trigger] it0.seq()[i]) == a0[i],
        forall |i: int| 0 <= i < it0.index@ ==> substn(a0[i], arg_name@, *new_expr, *final(#[trigger] it0.seq()[i])),
        replaced == exists |i: int| 0 <= i < it0.index@ && uses((#[trigger] a0[i]).expr, arg_name@),
//@loopstart 0
let ghost _a = a0[it0.index@ as int];
//@end
//@close
