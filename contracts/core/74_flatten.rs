// pest3_generator: flattening of sequences and choices
//@rename clone 0 vx_clone
impl Trivia {
    /// TRUSTED: the derived `Clone` copies
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: Trivia)
        ensures r == *self,
    { unimplemented!() }
}
/// the operands of nested sequences from left to right, each with the trivia written before it
/// (`t` is what is written before the whole)
pub open spec fn operands(e: ParseExpr, t: Trivia) -> Seq<(Trivia, ParseExpr)>
    decreases e,
{
    match e {
        ParseExpr::Seq(l, r, u) => operands_n(*l, t) + operands_n(*r, u),
        _ => seq![(t, e)],
    }
}
pub open spec fn operands_n(e: ParseNode, t: Trivia) -> Seq<(Trivia, ParseExpr)>
    decreases e,
{ operands(e.expr, t) }
/// all operands of a list of operands
pub open spec fn all_operands(l: Seq<(Trivia, &ParseExpr)>) -> Seq<(Trivia, ParseExpr)>
    decreases l.len(),
{ if l.len() == 0 { seq![] } else { all_operands(l.drop_last()) + operands(*l.last().1, l.last().0) } }
/// the alternatives of nested choices from left to right
pub open spec fn alternatives(e: ParseExpr) -> Seq<ParseExpr>
    decreases e,
{
    match e {
        ParseExpr::Choice(l, r) => alternatives_n(*l) + alternatives_n(*r),
        _ => seq![e],
    }
}
pub open spec fn alternatives_n(e: ParseNode) -> Seq<ParseExpr>
    decreases e,
{ alternatives(e.expr) }
pub open spec fn all_alternatives(l: Seq<&ParseExpr>) -> Seq<ParseExpr>
    decreases l.len(),
{ if l.len() == 0 { seq![] } else { all_alternatives(l.drop_last()) + alternatives(*l.last()) } }
/// `a` is `b` or inside it
pub open spec fn below(a: ParseExpr, b: ParseExpr) -> bool { a == b || decreases_to!(b => a) }
pub open spec fn is_seq(e: ParseExpr) -> bool { e is Seq }
pub open spec fn is_choice(e: ParseExpr) -> bool { e is Choice }
//@free generator collect_sequence
    ensures
        r@[0].0 == Trivia::None,
        all_operands(r@) =~= operands(*left, Trivia::None) + operands(*right, trivia),
        forall |i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).1 == *left || below(*r@[i].1, *right),
        r@.len() > 1, !is_seq(*r@.last().1),
//@start
broadcast use seqs::lemma_push_drop;
reveal_with_fuel(operands, 2); reveal_with_fuel(operands_n, 2); reveal_with_fuel(all_operands, 3);
let ghost all = operands(*left, Trivia::None) + operands(*right, trivia);
let ghost right0 = right; let ghost left0 = left;
let ghost _v = Seq::<(Trivia, &ParseExpr)>::empty().push((Trivia::None, left));
//@loop 0
    invariant
        res@.len() > 0, res@[0].0 == Trivia::None,
        all_operands(res@) + operands(*node, trivia) =~= all, below(*node, *right0),
        forall |i: int| 0 <= i < res@.len() ==> *(#[trigger] res@[i]).1 == *left0 || below(*res@[i].1, *right0),
    decreases *node,
//@noiso
//@end
//@free generator collect_choices
    ensures
        all_alternatives(r@) =~= alternatives(*left) + alternatives(*right),
        forall |i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == *left || below(*r@[i], *right),
        r@.len() > 1, !is_choice(*r@.last()),
//@start
broadcast use seqs::lemma_push_drop;
reveal_with_fuel(alternatives, 2); reveal_with_fuel(alternatives_n, 2); reveal_with_fuel(all_alternatives, 3);
let ghost right0 = right; let ghost left0 = left;
let ghost all = alternatives(*left) + alternatives(*right);
//@loop 0
    invariant
        res@.len() > 0,
        all_alternatives(res@) + alternatives(*node) =~= all, below(*node, *right0),
        forall |i: int| 0 <= i < res@.len() ==> *(#[trigger] res@[i]) == *left0 || below(*res@[i], *right0),
    decreases *node,
//@noiso
//@end
