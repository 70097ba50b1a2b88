// generated by tools/gen_arity.py
// ---------------------------------------------------------------- sequences
/// one more element (or trivia) after a partial match
pub open spec fn step<'i, R: RuleType, T: TypedNode<'i, R>>(s: Sem<'i>) -> Sem<'i> {
    match s.0 { Some(p) => T::sem(p, s.1), None => s }
}
pub open spec fn step_trk<'i, R: RuleType, T: TypedNode<'i, R>>(s: Sem<'i>, t: TV<'i, R>) -> TV<'i, R> {
    match s.0 { Some(p) => T::trk(p, s.1, t), None => t }
}
/// the field describes the match that starts where `s` ends
pub open spec fn field_ok<'i, R: RuleType, T: TypedNode<'i, R>>(f: T, s: Sem<'i>) -> bool {
    match s.0 { Some(p) => f.node_ok(p, s.1), None => false }
}
