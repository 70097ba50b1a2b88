// generated by tools/gen_arity.py
//@item core Choice12
//@open core impl TypedNode for Choice12
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); let d10 = alt::<R, T10>(d9, input, st); let d11 = alt::<R, T11>(d10, input, st); chosen(d11, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); let d10 = alt::<R, T10>(d9, input, st); let d11 = alt::<R, T11>(d10, input, st); let t0 = T0::trk(input, st, t); let t1 = alt_trk::<R, T1>(d0, input, st, t0); let t2 = alt_trk::<R, T2>(d1, input, st, t1); let t3 = alt_trk::<R, T3>(d2, input, st, t2); let t4 = alt_trk::<R, T4>(d3, input, st, t3); let t5 = alt_trk::<R, T5>(d4, input, st, t4); let t6 = alt_trk::<R, T6>(d5, input, st, t5); let t7 = alt_trk::<R, T7>(d6, input, st, t6); let t8 = alt_trk::<R, T8>(d7, input, st, t7); let t9 = alt_trk::<R, T9>(d8, input, st, t8); let t10 = alt_trk::<R, T10>(d9, input, st, t9); let t11 = alt_trk::<R, T11>(d10, input, st, t10); t11 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); let d10 = alt::<R, T10>(d9, input, st); let d11 = alt::<R, T11>(d10, input, st); match self { Choice12::Choice0(c) =>  T0::sem(input, st).0 is Some && c.node_ok(input, st), Choice12::Choice1(c) => d0 is None && T1::sem(input, st).0 is Some && c.node_ok(input, st), Choice12::Choice2(c) => d1 is None && T2::sem(input, st).0 is Some && c.node_ok(input, st), Choice12::Choice3(c) => d2 is None && T3::sem(input, st).0 is Some && c.node_ok(input, st), Choice12::Choice4(c) => d3 is None && T4::sem(input, st).0 is Some && c.node_ok(input, st), Choice12::Choice5(c) => d4 is None && T5::sem(input, st).0 is Some && c.node_ok(input, st), Choice12::Choice6(c) => d5 is None && T6::sem(input, st).0 is Some && c.node_ok(input, st), Choice12::Choice7(c) => d6 is None && T7::sem(input, st).0 is Some && c.node_ok(input, st), Choice12::Choice8(c) => d7 is None && T8::sem(input, st).0 is Some && c.node_ok(input, st), Choice12::Choice9(c) => d8 is None && T9::sem(input, st).0 is Some && c.node_ok(input, st), Choice12::Choice10(c) => d9 is None && T10::sem(input, st).0 is Some && c.node_ok(input, st), Choice12::Choice11(c) => d10 is None && T11::sem(input, st).0 is Some && c.node_ok(input, st), } }
//@close
//@open core impl Choice12
//@fn choice_0
    ensures match self { Choice12::Choice0(c) => r == Some(c), _ => r is None },
//@fn choice_1
    ensures match self { Choice12::Choice1(c) => r == Some(c), _ => r is None },
//@fn choice_2
    ensures match self { Choice12::Choice2(c) => r == Some(c), _ => r is None },
//@fn choice_3
    ensures match self { Choice12::Choice3(c) => r == Some(c), _ => r is None },
//@fn choice_4
    ensures match self { Choice12::Choice4(c) => r == Some(c), _ => r is None },
//@fn choice_5
    ensures match self { Choice12::Choice5(c) => r == Some(c), _ => r is None },
//@fn choice_6
    ensures match self { Choice12::Choice6(c) => r == Some(c), _ => r is None },
//@fn choice_7
    ensures match self { Choice12::Choice7(c) => r == Some(c), _ => r is None },
//@fn choice_8
    ensures match self { Choice12::Choice8(c) => r == Some(c), _ => r is None },
//@fn choice_9
    ensures match self { Choice12::Choice9(c) => r == Some(c), _ => r is None },
//@fn choice_10
    ensures match self { Choice12::Choice10(c) => r == Some(c), _ => r is None },
//@fn choice_11
    ensures match self { Choice12::Choice11(c) => r == Some(c), _ => r is None },
//@close
//@item core Choice13
//@open core impl TypedNode for Choice13
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); let d10 = alt::<R, T10>(d9, input, st); let d11 = alt::<R, T11>(d10, input, st); let d12 = alt::<R, T12>(d11, input, st); chosen(d12, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); let d10 = alt::<R, T10>(d9, input, st); let d11 = alt::<R, T11>(d10, input, st); let d12 = alt::<R, T12>(d11, input, st); let t0 = T0::trk(input, st, t); let t1 = alt_trk::<R, T1>(d0, input, st, t0); let t2 = alt_trk::<R, T2>(d1, input, st, t1); let t3 = alt_trk::<R, T3>(d2, input, st, t2); let t4 = alt_trk::<R, T4>(d3, input, st, t3); let t5 = alt_trk::<R, T5>(d4, input, st, t4); let t6 = alt_trk::<R, T6>(d5, input, st, t5); let t7 = alt_trk::<R, T7>(d6, input, st, t6); let t8 = alt_trk::<R, T8>(d7, input, st, t7); let t9 = alt_trk::<R, T9>(d8, input, st, t8); let t10 = alt_trk::<R, T10>(d9, input, st, t9); let t11 = alt_trk::<R, T11>(d10, input, st, t10); let t12 = alt_trk::<R, T12>(d11, input, st, t11); t12 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); let d10 = alt::<R, T10>(d9, input, st); let d11 = alt::<R, T11>(d10, input, st); let d12 = alt::<R, T12>(d11, input, st); match self { Choice13::Choice0(c) =>  T0::sem(input, st).0 is Some && c.node_ok(input, st), Choice13::Choice1(c) => d0 is None && T1::sem(input, st).0 is Some && c.node_ok(input, st), Choice13::Choice2(c) => d1 is None && T2::sem(input, st).0 is Some && c.node_ok(input, st), Choice13::Choice3(c) => d2 is None && T3::sem(input, st).0 is Some && c.node_ok(input, st), Choice13::Choice4(c) => d3 is None && T4::sem(input, st).0 is Some && c.node_ok(input, st), Choice13::Choice5(c) => d4 is None && T5::sem(input, st).0 is Some && c.node_ok(input, st), Choice13::Choice6(c) => d5 is None && T6::sem(input, st).0 is Some && c.node_ok(input, st), Choice13::Choice7(c) => d6 is None && T7::sem(input, st).0 is Some && c.node_ok(input, st), Choice13::Choice8(c) => d7 is None && T8::sem(input, st).0 is Some && c.node_ok(input, st), Choice13::Choice9(c) => d8 is None && T9::sem(input, st).0 is Some && c.node_ok(input, st), Choice13::Choice10(c) => d9 is None && T10::sem(input, st).0 is Some && c.node_ok(input, st), Choice13::Choice11(c) => d10 is None && T11::sem(input, st).0 is Some && c.node_ok(input, st), Choice13::Choice12(c) => d11 is None && T12::sem(input, st).0 is Some && c.node_ok(input, st), } }
//@close
//@open core impl Choice13
//@fn choice_0
    ensures match self { Choice13::Choice0(c) => r == Some(c), _ => r is None },
//@fn choice_1
    ensures match self { Choice13::Choice1(c) => r == Some(c), _ => r is None },
//@fn choice_2
    ensures match self { Choice13::Choice2(c) => r == Some(c), _ => r is None },
//@fn choice_3
    ensures match self { Choice13::Choice3(c) => r == Some(c), _ => r is None },
//@fn choice_4
    ensures match self { Choice13::Choice4(c) => r == Some(c), _ => r is None },
//@fn choice_5
    ensures match self { Choice13::Choice5(c) => r == Some(c), _ => r is None },
//@fn choice_6
    ensures match self { Choice13::Choice6(c) => r == Some(c), _ => r is None },
//@fn choice_7
    ensures match self { Choice13::Choice7(c) => r == Some(c), _ => r is None },
//@fn choice_8
    ensures match self { Choice13::Choice8(c) => r == Some(c), _ => r is None },
//@fn choice_9
    ensures match self { Choice13::Choice9(c) => r == Some(c), _ => r is None },
//@fn choice_10
    ensures match self { Choice13::Choice10(c) => r == Some(c), _ => r is None },
//@fn choice_11
    ensures match self { Choice13::Choice11(c) => r == Some(c), _ => r is None },
//@fn choice_12
    ensures match self { Choice13::Choice12(c) => r == Some(c), _ => r is None },
//@close
//@item core Choice14
//@open core impl TypedNode for Choice14
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); let d10 = alt::<R, T10>(d9, input, st); let d11 = alt::<R, T11>(d10, input, st); let d12 = alt::<R, T12>(d11, input, st); let d13 = alt::<R, T13>(d12, input, st); chosen(d13, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); let d10 = alt::<R, T10>(d9, input, st); let d11 = alt::<R, T11>(d10, input, st); let d12 = alt::<R, T12>(d11, input, st); let d13 = alt::<R, T13>(d12, input, st); let t0 = T0::trk(input, st, t); let t1 = alt_trk::<R, T1>(d0, input, st, t0); let t2 = alt_trk::<R, T2>(d1, input, st, t1); let t3 = alt_trk::<R, T3>(d2, input, st, t2); let t4 = alt_trk::<R, T4>(d3, input, st, t3); let t5 = alt_trk::<R, T5>(d4, input, st, t4); let t6 = alt_trk::<R, T6>(d5, input, st, t5); let t7 = alt_trk::<R, T7>(d6, input, st, t6); let t8 = alt_trk::<R, T8>(d7, input, st, t7); let t9 = alt_trk::<R, T9>(d8, input, st, t8); let t10 = alt_trk::<R, T10>(d9, input, st, t9); let t11 = alt_trk::<R, T11>(d10, input, st, t10); let t12 = alt_trk::<R, T12>(d11, input, st, t11); let t13 = alt_trk::<R, T13>(d12, input, st, t12); t13 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); let d10 = alt::<R, T10>(d9, input, st); let d11 = alt::<R, T11>(d10, input, st); let d12 = alt::<R, T12>(d11, input, st); let d13 = alt::<R, T13>(d12, input, st); match self { Choice14::Choice0(c) =>  T0::sem(input, st).0 is Some && c.node_ok(input, st), Choice14::Choice1(c) => d0 is None && T1::sem(input, st).0 is Some && c.node_ok(input, st), Choice14::Choice2(c) => d1 is None && T2::sem(input, st).0 is Some && c.node_ok(input, st), Choice14::Choice3(c) => d2 is None && T3::sem(input, st).0 is Some && c.node_ok(input, st), Choice14::Choice4(c) => d3 is None && T4::sem(input, st).0 is Some && c.node_ok(input, st), Choice14::Choice5(c) => d4 is None && T5::sem(input, st).0 is Some && c.node_ok(input, st), Choice14::Choice6(c) => d5 is None && T6::sem(input, st).0 is Some && c.node_ok(input, st), Choice14::Choice7(c) => d6 is None && T7::sem(input, st).0 is Some && c.node_ok(input, st), Choice14::Choice8(c) => d7 is None && T8::sem(input, st).0 is Some && c.node_ok(input, st), Choice14::Choice9(c) => d8 is None && T9::sem(input, st).0 is Some && c.node_ok(input, st), Choice14::Choice10(c) => d9 is None && T10::sem(input, st).0 is Some && c.node_ok(input, st), Choice14::Choice11(c) => d10 is None && T11::sem(input, st).0 is Some && c.node_ok(input, st), Choice14::Choice12(c) => d11 is None && T12::sem(input, st).0 is Some && c.node_ok(input, st), Choice14::Choice13(c) => d12 is None && T13::sem(input, st).0 is Some && c.node_ok(input, st), } }
//@close
//@open core impl Choice14
//@fn choice_0
    ensures match self { Choice14::Choice0(c) => r == Some(c), _ => r is None },
//@fn choice_1
    ensures match self { Choice14::Choice1(c) => r == Some(c), _ => r is None },
//@fn choice_2
    ensures match self { Choice14::Choice2(c) => r == Some(c), _ => r is None },
//@fn choice_3
    ensures match self { Choice14::Choice3(c) => r == Some(c), _ => r is None },
//@fn choice_4
    ensures match self { Choice14::Choice4(c) => r == Some(c), _ => r is None },
//@fn choice_5
    ensures match self { Choice14::Choice5(c) => r == Some(c), _ => r is None },
//@fn choice_6
    ensures match self { Choice14::Choice6(c) => r == Some(c), _ => r is None },
//@fn choice_7
    ensures match self { Choice14::Choice7(c) => r == Some(c), _ => r is None },
//@fn choice_8
    ensures match self { Choice14::Choice8(c) => r == Some(c), _ => r is None },
//@fn choice_9
    ensures match self { Choice14::Choice9(c) => r == Some(c), _ => r is None },
//@fn choice_10
    ensures match self { Choice14::Choice10(c) => r == Some(c), _ => r is None },
//@fn choice_11
    ensures match self { Choice14::Choice11(c) => r == Some(c), _ => r is None },
//@fn choice_12
    ensures match self { Choice14::Choice12(c) => r == Some(c), _ => r is None },
//@fn choice_13
    ensures match self { Choice14::Choice13(c) => r == Some(c), _ => r is None },
//@close
