// generated by tools/gen_arity.py
//@item core Choice2
//@open core impl TypedNode for Choice2
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); chosen(d1, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let t0 = T0::trk(input, st, t); let t1 = alt_trk::<R, T1>(d0, input, st, t0); t1 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); match self { Choice2::Choice0(c) =>  T0::sem(input, st).0 is Some && c.node_ok(input, st), Choice2::Choice1(c) => d0 is None && T1::sem(input, st).0 is Some && c.node_ok(input, st), } }
//@close
//@open core impl Choice2
//@fn choice_0
    ensures match self { Choice2::Choice0(c) => r == Some(c), _ => r is None },
//@fn choice_1
    ensures match self { Choice2::Choice1(c) => r == Some(c), _ => r is None },
//@close
//@item core Choice3
//@open core impl TypedNode for Choice3
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); chosen(d2, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let t0 = T0::trk(input, st, t); let t1 = alt_trk::<R, T1>(d0, input, st, t0); let t2 = alt_trk::<R, T2>(d1, input, st, t1); t2 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); match self { Choice3::Choice0(c) =>  T0::sem(input, st).0 is Some && c.node_ok(input, st), Choice3::Choice1(c) => d0 is None && T1::sem(input, st).0 is Some && c.node_ok(input, st), Choice3::Choice2(c) => d1 is None && T2::sem(input, st).0 is Some && c.node_ok(input, st), } }
//@close
//@open core impl Choice3
//@fn choice_0
    ensures match self { Choice3::Choice0(c) => r == Some(c), _ => r is None },
//@fn choice_1
    ensures match self { Choice3::Choice1(c) => r == Some(c), _ => r is None },
//@fn choice_2
    ensures match self { Choice3::Choice2(c) => r == Some(c), _ => r is None },
//@close
//@item core Choice4
//@open core impl TypedNode for Choice4
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); chosen(d3, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let t0 = T0::trk(input, st, t); let t1 = alt_trk::<R, T1>(d0, input, st, t0); let t2 = alt_trk::<R, T2>(d1, input, st, t1); let t3 = alt_trk::<R, T3>(d2, input, st, t2); t3 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); match self { Choice4::Choice0(c) =>  T0::sem(input, st).0 is Some && c.node_ok(input, st), Choice4::Choice1(c) => d0 is None && T1::sem(input, st).0 is Some && c.node_ok(input, st), Choice4::Choice2(c) => d1 is None && T2::sem(input, st).0 is Some && c.node_ok(input, st), Choice4::Choice3(c) => d2 is None && T3::sem(input, st).0 is Some && c.node_ok(input, st), } }
//@close
//@open core impl Choice4
//@fn choice_0
    ensures match self { Choice4::Choice0(c) => r == Some(c), _ => r is None },
//@fn choice_1
    ensures match self { Choice4::Choice1(c) => r == Some(c), _ => r is None },
//@fn choice_2
    ensures match self { Choice4::Choice2(c) => r == Some(c), _ => r is None },
//@fn choice_3
    ensures match self { Choice4::Choice3(c) => r == Some(c), _ => r is None },
//@close
//@item core Choice5
//@open core impl TypedNode for Choice5
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); chosen(d4, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let t0 = T0::trk(input, st, t); let t1 = alt_trk::<R, T1>(d0, input, st, t0); let t2 = alt_trk::<R, T2>(d1, input, st, t1); let t3 = alt_trk::<R, T3>(d2, input, st, t2); let t4 = alt_trk::<R, T4>(d3, input, st, t3); t4 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); match self { Choice5::Choice0(c) =>  T0::sem(input, st).0 is Some && c.node_ok(input, st), Choice5::Choice1(c) => d0 is None && T1::sem(input, st).0 is Some && c.node_ok(input, st), Choice5::Choice2(c) => d1 is None && T2::sem(input, st).0 is Some && c.node_ok(input, st), Choice5::Choice3(c) => d2 is None && T3::sem(input, st).0 is Some && c.node_ok(input, st), Choice5::Choice4(c) => d3 is None && T4::sem(input, st).0 is Some && c.node_ok(input, st), } }
//@close
//@open core impl Choice5
//@fn choice_0
    ensures match self { Choice5::Choice0(c) => r == Some(c), _ => r is None },
//@fn choice_1
    ensures match self { Choice5::Choice1(c) => r == Some(c), _ => r is None },
//@fn choice_2
    ensures match self { Choice5::Choice2(c) => r == Some(c), _ => r is None },
//@fn choice_3
    ensures match self { Choice5::Choice3(c) => r == Some(c), _ => r is None },
//@fn choice_4
    ensures match self { Choice5::Choice4(c) => r == Some(c), _ => r is None },
//@close
//@item core Choice6
//@open core impl TypedNode for Choice6
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); chosen(d5, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let t0 = T0::trk(input, st, t); let t1 = alt_trk::<R, T1>(d0, input, st, t0); let t2 = alt_trk::<R, T2>(d1, input, st, t1); let t3 = alt_trk::<R, T3>(d2, input, st, t2); let t4 = alt_trk::<R, T4>(d3, input, st, t3); let t5 = alt_trk::<R, T5>(d4, input, st, t4); t5 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); match self { Choice6::Choice0(c) =>  T0::sem(input, st).0 is Some && c.node_ok(input, st), Choice6::Choice1(c) => d0 is None && T1::sem(input, st).0 is Some && c.node_ok(input, st), Choice6::Choice2(c) => d1 is None && T2::sem(input, st).0 is Some && c.node_ok(input, st), Choice6::Choice3(c) => d2 is None && T3::sem(input, st).0 is Some && c.node_ok(input, st), Choice6::Choice4(c) => d3 is None && T4::sem(input, st).0 is Some && c.node_ok(input, st), Choice6::Choice5(c) => d4 is None && T5::sem(input, st).0 is Some && c.node_ok(input, st), } }
//@close
//@open core impl Choice6
//@fn choice_0
    ensures match self { Choice6::Choice0(c) => r == Some(c), _ => r is None },
//@fn choice_1
    ensures match self { Choice6::Choice1(c) => r == Some(c), _ => r is None },
//@fn choice_2
    ensures match self { Choice6::Choice2(c) => r == Some(c), _ => r is None },
//@fn choice_3
    ensures match self { Choice6::Choice3(c) => r == Some(c), _ => r is None },
//@fn choice_4
    ensures match self { Choice6::Choice4(c) => r == Some(c), _ => r is None },
//@fn choice_5
    ensures match self { Choice6::Choice5(c) => r == Some(c), _ => r is None },
//@close
//@item core Choice7
//@open core impl TypedNode for Choice7
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); chosen(d6, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let t0 = T0::trk(input, st, t); let t1 = alt_trk::<R, T1>(d0, input, st, t0); let t2 = alt_trk::<R, T2>(d1, input, st, t1); let t3 = alt_trk::<R, T3>(d2, input, st, t2); let t4 = alt_trk::<R, T4>(d3, input, st, t3); let t5 = alt_trk::<R, T5>(d4, input, st, t4); let t6 = alt_trk::<R, T6>(d5, input, st, t5); t6 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); match self { Choice7::Choice0(c) =>  T0::sem(input, st).0 is Some && c.node_ok(input, st), Choice7::Choice1(c) => d0 is None && T1::sem(input, st).0 is Some && c.node_ok(input, st), Choice7::Choice2(c) => d1 is None && T2::sem(input, st).0 is Some && c.node_ok(input, st), Choice7::Choice3(c) => d2 is None && T3::sem(input, st).0 is Some && c.node_ok(input, st), Choice7::Choice4(c) => d3 is None && T4::sem(input, st).0 is Some && c.node_ok(input, st), Choice7::Choice5(c) => d4 is None && T5::sem(input, st).0 is Some && c.node_ok(input, st), Choice7::Choice6(c) => d5 is None && T6::sem(input, st).0 is Some && c.node_ok(input, st), } }
//@close
//@open core impl Choice7
//@fn choice_0
    ensures match self { Choice7::Choice0(c) => r == Some(c), _ => r is None },
//@fn choice_1
    ensures match self { Choice7::Choice1(c) => r == Some(c), _ => r is None },
//@fn choice_2
    ensures match self { Choice7::Choice2(c) => r == Some(c), _ => r is None },
//@fn choice_3
    ensures match self { Choice7::Choice3(c) => r == Some(c), _ => r is None },
//@fn choice_4
    ensures match self { Choice7::Choice4(c) => r == Some(c), _ => r is None },
//@fn choice_5
    ensures match self { Choice7::Choice5(c) => r == Some(c), _ => r is None },
//@fn choice_6
    ensures match self { Choice7::Choice6(c) => r == Some(c), _ => r is None },
//@close
//@item core Choice8
//@open core impl TypedNode for Choice8
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); chosen(d7, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let t0 = T0::trk(input, st, t); let t1 = alt_trk::<R, T1>(d0, input, st, t0); let t2 = alt_trk::<R, T2>(d1, input, st, t1); let t3 = alt_trk::<R, T3>(d2, input, st, t2); let t4 = alt_trk::<R, T4>(d3, input, st, t3); let t5 = alt_trk::<R, T5>(d4, input, st, t4); let t6 = alt_trk::<R, T6>(d5, input, st, t5); let t7 = alt_trk::<R, T7>(d6, input, st, t6); t7 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); match self { Choice8::Choice0(c) =>  T0::sem(input, st).0 is Some && c.node_ok(input, st), Choice8::Choice1(c) => d0 is None && T1::sem(input, st).0 is Some && c.node_ok(input, st), Choice8::Choice2(c) => d1 is None && T2::sem(input, st).0 is Some && c.node_ok(input, st), Choice8::Choice3(c) => d2 is None && T3::sem(input, st).0 is Some && c.node_ok(input, st), Choice8::Choice4(c) => d3 is None && T4::sem(input, st).0 is Some && c.node_ok(input, st), Choice8::Choice5(c) => d4 is None && T5::sem(input, st).0 is Some && c.node_ok(input, st), Choice8::Choice6(c) => d5 is None && T6::sem(input, st).0 is Some && c.node_ok(input, st), Choice8::Choice7(c) => d6 is None && T7::sem(input, st).0 is Some && c.node_ok(input, st), } }
//@close
//@open core impl Choice8
//@fn choice_0
    ensures match self { Choice8::Choice0(c) => r == Some(c), _ => r is None },
//@fn choice_1
    ensures match self { Choice8::Choice1(c) => r == Some(c), _ => r is None },
//@fn choice_2
    ensures match self { Choice8::Choice2(c) => r == Some(c), _ => r is None },
//@fn choice_3
    ensures match self { Choice8::Choice3(c) => r == Some(c), _ => r is None },
//@fn choice_4
    ensures match self { Choice8::Choice4(c) => r == Some(c), _ => r is None },
//@fn choice_5
    ensures match self { Choice8::Choice5(c) => r == Some(c), _ => r is None },
//@fn choice_6
    ensures match self { Choice8::Choice6(c) => r == Some(c), _ => r is None },
//@fn choice_7
    ensures match self { Choice8::Choice7(c) => r == Some(c), _ => r is None },
//@close
//@item core Choice9
//@open core impl TypedNode for Choice9
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); chosen(d8, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let t0 = T0::trk(input, st, t); let t1 = alt_trk::<R, T1>(d0, input, st, t0); let t2 = alt_trk::<R, T2>(d1, input, st, t1); let t3 = alt_trk::<R, T3>(d2, input, st, t2); let t4 = alt_trk::<R, T4>(d3, input, st, t3); let t5 = alt_trk::<R, T5>(d4, input, st, t4); let t6 = alt_trk::<R, T6>(d5, input, st, t5); let t7 = alt_trk::<R, T7>(d6, input, st, t6); let t8 = alt_trk::<R, T8>(d7, input, st, t7); t8 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); match self { Choice9::Choice0(c) =>  T0::sem(input, st).0 is Some && c.node_ok(input, st), Choice9::Choice1(c) => d0 is None && T1::sem(input, st).0 is Some && c.node_ok(input, st), Choice9::Choice2(c) => d1 is None && T2::sem(input, st).0 is Some && c.node_ok(input, st), Choice9::Choice3(c) => d2 is None && T3::sem(input, st).0 is Some && c.node_ok(input, st), Choice9::Choice4(c) => d3 is None && T4::sem(input, st).0 is Some && c.node_ok(input, st), Choice9::Choice5(c) => d4 is None && T5::sem(input, st).0 is Some && c.node_ok(input, st), Choice9::Choice6(c) => d5 is None && T6::sem(input, st).0 is Some && c.node_ok(input, st), Choice9::Choice7(c) => d6 is None && T7::sem(input, st).0 is Some && c.node_ok(input, st), Choice9::Choice8(c) => d7 is None && T8::sem(input, st).0 is Some && c.node_ok(input, st), } }
//@close
//@open core impl Choice9
//@fn choice_0
    ensures match self { Choice9::Choice0(c) => r == Some(c), _ => r is None },
//@fn choice_1
    ensures match self { Choice9::Choice1(c) => r == Some(c), _ => r is None },
//@fn choice_2
    ensures match self { Choice9::Choice2(c) => r == Some(c), _ => r is None },
//@fn choice_3
    ensures match self { Choice9::Choice3(c) => r == Some(c), _ => r is None },
//@fn choice_4
    ensures match self { Choice9::Choice4(c) => r == Some(c), _ => r is None },
//@fn choice_5
    ensures match self { Choice9::Choice5(c) => r == Some(c), _ => r is None },
//@fn choice_6
    ensures match self { Choice9::Choice6(c) => r == Some(c), _ => r is None },
//@fn choice_7
    ensures match self { Choice9::Choice7(c) => r == Some(c), _ => r is None },
//@fn choice_8
    ensures match self { Choice9::Choice8(c) => r == Some(c), _ => r is None },
//@close
//@item core Choice10
//@open core impl TypedNode for Choice10
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); chosen(d9, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); let t0 = T0::trk(input, st, t); let t1 = alt_trk::<R, T1>(d0, input, st, t0); let t2 = alt_trk::<R, T2>(d1, input, st, t1); let t3 = alt_trk::<R, T3>(d2, input, st, t2); let t4 = alt_trk::<R, T4>(d3, input, st, t3); let t5 = alt_trk::<R, T5>(d4, input, st, t4); let t6 = alt_trk::<R, T6>(d5, input, st, t5); let t7 = alt_trk::<R, T7>(d6, input, st, t6); let t8 = alt_trk::<R, T8>(d7, input, st, t7); let t9 = alt_trk::<R, T9>(d8, input, st, t8); t9 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); match self { Choice10::Choice0(c) =>  T0::sem(input, st).0 is Some && c.node_ok(input, st), Choice10::Choice1(c) => d0 is None && T1::sem(input, st).0 is Some && c.node_ok(input, st), Choice10::Choice2(c) => d1 is None && T2::sem(input, st).0 is Some && c.node_ok(input, st), Choice10::Choice3(c) => d2 is None && T3::sem(input, st).0 is Some && c.node_ok(input, st), Choice10::Choice4(c) => d3 is None && T4::sem(input, st).0 is Some && c.node_ok(input, st), Choice10::Choice5(c) => d4 is None && T5::sem(input, st).0 is Some && c.node_ok(input, st), Choice10::Choice6(c) => d5 is None && T6::sem(input, st).0 is Some && c.node_ok(input, st), Choice10::Choice7(c) => d6 is None && T7::sem(input, st).0 is Some && c.node_ok(input, st), Choice10::Choice8(c) => d7 is None && T8::sem(input, st).0 is Some && c.node_ok(input, st), Choice10::Choice9(c) => d8 is None && T9::sem(input, st).0 is Some && c.node_ok(input, st), } }
//@close
//@open core impl Choice10
//@fn choice_0
    ensures match self { Choice10::Choice0(c) => r == Some(c), _ => r is None },
//@fn choice_1
    ensures match self { Choice10::Choice1(c) => r == Some(c), _ => r is None },
//@fn choice_2
    ensures match self { Choice10::Choice2(c) => r == Some(c), _ => r is None },
//@fn choice_3
    ensures match self { Choice10::Choice3(c) => r == Some(c), _ => r is None },
//@fn choice_4
    ensures match self { Choice10::Choice4(c) => r == Some(c), _ => r is None },
//@fn choice_5
    ensures match self { Choice10::Choice5(c) => r == Some(c), _ => r is None },
//@fn choice_6
    ensures match self { Choice10::Choice6(c) => r == Some(c), _ => r is None },
//@fn choice_7
    ensures match self { Choice10::Choice7(c) => r == Some(c), _ => r is None },
//@fn choice_8
    ensures match self { Choice10::Choice8(c) => r == Some(c), _ => r is None },
//@fn choice_9
    ensures match self { Choice10::Choice9(c) => r == Some(c), _ => r is None },
//@close
//@item core Choice11
//@open core impl TypedNode for Choice11
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); let d10 = alt::<R, T10>(d9, input, st); chosen(d10, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); let d10 = alt::<R, T10>(d9, input, st); let t0 = T0::trk(input, st, t); let t1 = alt_trk::<R, T1>(d0, input, st, t0); let t2 = alt_trk::<R, T2>(d1, input, st, t1); let t3 = alt_trk::<R, T3>(d2, input, st, t2); let t4 = alt_trk::<R, T4>(d3, input, st, t3); let t5 = alt_trk::<R, T5>(d4, input, st, t4); let t6 = alt_trk::<R, T6>(d5, input, st, t5); let t7 = alt_trk::<R, T7>(d6, input, st, t6); let t8 = alt_trk::<R, T8>(d7, input, st, t7); let t9 = alt_trk::<R, T9>(d8, input, st, t8); let t10 = alt_trk::<R, T10>(d9, input, st, t9); t10 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); let d10 = alt::<R, T10>(d9, input, st); match self { Choice11::Choice0(c) =>  T0::sem(input, st).0 is Some && c.node_ok(input, st), Choice11::Choice1(c) => d0 is None && T1::sem(input, st).0 is Some && c.node_ok(input, st), Choice11::Choice2(c) => d1 is None && T2::sem(input, st).0 is Some && c.node_ok(input, st), Choice11::Choice3(c) => d2 is None && T3::sem(input, st).0 is Some && c.node_ok(input, st), Choice11::Choice4(c) => d3 is None && T4::sem(input, st).0 is Some && c.node_ok(input, st), Choice11::Choice5(c) => d4 is None && T5::sem(input, st).0 is Some && c.node_ok(input, st), Choice11::Choice6(c) => d5 is None && T6::sem(input, st).0 is Some && c.node_ok(input, st), Choice11::Choice7(c) => d6 is None && T7::sem(input, st).0 is Some && c.node_ok(input, st), Choice11::Choice8(c) => d7 is None && T8::sem(input, st).0 is Some && c.node_ok(input, st), Choice11::Choice9(c) => d8 is None && T9::sem(input, st).0 is Some && c.node_ok(input, st), Choice11::Choice10(c) => d9 is None && T10::sem(input, st).0 is Some && c.node_ok(input, st), } }
//@close
//@open core impl Choice11
//@fn choice_0
    ensures match self { Choice11::Choice0(c) => r == Some(c), _ => r is None },
//@fn choice_1
    ensures match self { Choice11::Choice1(c) => r == Some(c), _ => r is None },
//@fn choice_2
    ensures match self { Choice11::Choice2(c) => r == Some(c), _ => r is None },
//@fn choice_3
    ensures match self { Choice11::Choice3(c) => r == Some(c), _ => r is None },
//@fn choice_4
    ensures match self { Choice11::Choice4(c) => r == Some(c), _ => r is None },
//@fn choice_5
    ensures match self { Choice11::Choice5(c) => r == Some(c), _ => r is None },
//@fn choice_6
    ensures match self { Choice11::Choice6(c) => r == Some(c), _ => r is None },
//@fn choice_7
    ensures match self { Choice11::Choice7(c) => r == Some(c), _ => r is None },
//@fn choice_8
    ensures match self { Choice11::Choice8(c) => r == Some(c), _ => r is None },
//@fn choice_9
    ensures match self { Choice11::Choice9(c) => r == Some(c), _ => r is None },
//@fn choice_10
    ensures match self { Choice11::Choice10(c) => r == Some(c), _ => r is None },
//@close
