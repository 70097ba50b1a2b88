// generated by tools/gen_arity.py
//@item core Choice15
//@open core impl TypedNode for Choice15
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); let d10 = alt::<R, T10>(d9, input, st); let d11 = alt::<R, T11>(d10, input, st); let d12 = alt::<R, T12>(d11, input, st); let d13 = alt::<R, T13>(d12, input, st); let d14 = alt::<R, T14>(d13, input, st); chosen(d14, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); let d10 = alt::<R, T10>(d9, input, st); let d11 = alt::<R, T11>(d10, input, st); let d12 = alt::<R, T12>(d11, input, st); let d13 = alt::<R, T13>(d12, input, st); let d14 = alt::<R, T14>(d13, input, st); let t0 = T0::trk(input, st, t); let t1 = alt_trk::<R, T1>(d0, input, st, t0); let t2 = alt_trk::<R, T2>(d1, input, st, t1); let t3 = alt_trk::<R, T3>(d2, input, st, t2); let t4 = alt_trk::<R, T4>(d3, input, st, t3); let t5 = alt_trk::<R, T5>(d4, input, st, t4); let t6 = alt_trk::<R, T6>(d5, input, st, t5); let t7 = alt_trk::<R, T7>(d6, input, st, t6); let t8 = alt_trk::<R, T8>(d7, input, st, t7); let t9 = alt_trk::<R, T9>(d8, input, st, t8); let t10 = alt_trk::<R, T10>(d9, input, st, t9); let t11 = alt_trk::<R, T11>(d10, input, st, t10); let t12 = alt_trk::<R, T12>(d11, input, st, t11); let t13 = alt_trk::<R, T13>(d12, input, st, t12); let t14 = alt_trk::<R, T14>(d13, input, st, t13); t14 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); let d10 = alt::<R, T10>(d9, input, st); let d11 = alt::<R, T11>(d10, input, st); let d12 = alt::<R, T12>(d11, input, st); let d13 = alt::<R, T13>(d12, input, st); let d14 = alt::<R, T14>(d13, input, st); match self { Choice15::Choice0(c) =>  T0::sem(input, st).0 is Some && c.node_ok(input, st), Choice15::Choice1(c) => d0 is None && T1::sem(input, st).0 is Some && c.node_ok(input, st), Choice15::Choice2(c) => d1 is None && T2::sem(input, st).0 is Some && c.node_ok(input, st), Choice15::Choice3(c) => d2 is None && T3::sem(input, st).0 is Some && c.node_ok(input, st), Choice15::Choice4(c) => d3 is None && T4::sem(input, st).0 is Some && c.node_ok(input, st), Choice15::Choice5(c) => d4 is None && T5::sem(input, st).0 is Some && c.node_ok(input, st), Choice15::Choice6(c) => d5 is None && T6::sem(input, st).0 is Some && c.node_ok(input, st), Choice15::Choice7(c) => d6 is None && T7::sem(input, st).0 is Some && c.node_ok(input, st), Choice15::Choice8(c) => d7 is None && T8::sem(input, st).0 is Some && c.node_ok(input, st), Choice15::Choice9(c) => d8 is None && T9::sem(input, st).0 is Some && c.node_ok(input, st), Choice15::Choice10(c) => d9 is None && T10::sem(input, st).0 is Some && c.node_ok(input, st), Choice15::Choice11(c) => d10 is None && T11::sem(input, st).0 is Some && c.node_ok(input, st), Choice15::Choice12(c) => d11 is None && T12::sem(input, st).0 is Some && c.node_ok(input, st), Choice15::Choice13(c) => d12 is None && T13::sem(input, st).0 is Some && c.node_ok(input, st), Choice15::Choice14(c) => d13 is None && T14::sem(input, st).0 is Some && c.node_ok(input, st), } }
//@close
//@open core impl Choice15
//@fn choice_0
    ensures match self { Choice15::Choice0(c) => r == Some(c), _ => r is None },
//@fn choice_1
    ensures match self { Choice15::Choice1(c) => r == Some(c), _ => r is None },
//@fn choice_2
    ensures match self { Choice15::Choice2(c) => r == Some(c), _ => r is None },
//@fn choice_3
    ensures match self { Choice15::Choice3(c) => r == Some(c), _ => r is None },
//@fn choice_4
    ensures match self { Choice15::Choice4(c) => r == Some(c), _ => r is None },
//@fn choice_5
    ensures match self { Choice15::Choice5(c) => r == Some(c), _ => r is None },
//@fn choice_6
    ensures match self { Choice15::Choice6(c) => r == Some(c), _ => r is None },
//@fn choice_7
    ensures match self { Choice15::Choice7(c) => r == Some(c), _ => r is None },
//@fn choice_8
    ensures match self { Choice15::Choice8(c) => r == Some(c), _ => r is None },
//@fn choice_9
    ensures match self { Choice15::Choice9(c) => r == Some(c), _ => r is None },
//@fn choice_10
    ensures match self { Choice15::Choice10(c) => r == Some(c), _ => r is None },
//@fn choice_11
    ensures match self { Choice15::Choice11(c) => r == Some(c), _ => r is None },
//@fn choice_12
    ensures match self { Choice15::Choice12(c) => r == Some(c), _ => r is None },
//@fn choice_13
    ensures match self { Choice15::Choice13(c) => r == Some(c), _ => r is None },
//@fn choice_14
    ensures match self { Choice15::Choice14(c) => r == Some(c), _ => r is None },
//@close
//@item core Choice16
//@open core impl TypedNode for Choice16
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); let d10 = alt::<R, T10>(d9, input, st); let d11 = alt::<R, T11>(d10, input, st); let d12 = alt::<R, T12>(d11, input, st); let d13 = alt::<R, T13>(d12, input, st); let d14 = alt::<R, T14>(d13, input, st); let d15 = alt::<R, T15>(d14, input, st); chosen(d15, st) }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); let d10 = alt::<R, T10>(d9, input, st); let d11 = alt::<R, T11>(d10, input, st); let d12 = alt::<R, T12>(d11, input, st); let d13 = alt::<R, T13>(d12, input, st); let d14 = alt::<R, T14>(d13, input, st); let d15 = alt::<R, T15>(d14, input, st); let t0 = T0::trk(input, st, t); let t1 = alt_trk::<R, T1>(d0, input, st, t0); let t2 = alt_trk::<R, T2>(d1, input, st, t1); let t3 = alt_trk::<R, T3>(d2, input, st, t2); let t4 = alt_trk::<R, T4>(d3, input, st, t3); let t5 = alt_trk::<R, T5>(d4, input, st, t4); let t6 = alt_trk::<R, T6>(d5, input, st, t5); let t7 = alt_trk::<R, T7>(d6, input, st, t6); let t8 = alt_trk::<R, T8>(d7, input, st, t7); let t9 = alt_trk::<R, T9>(d8, input, st, t8); let t10 = alt_trk::<R, T10>(d9, input, st, t9); let t11 = alt_trk::<R, T11>(d10, input, st, t10); let t12 = alt_trk::<R, T12>(d11, input, st, t11); let t13 = alt_trk::<R, T13>(d12, input, st, t12); let t14 = alt_trk::<R, T14>(d13, input, st, t13); let t15 = alt_trk::<R, T15>(d14, input, st, t14); t15 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let d0 = alt::<R, T0>(None, input, st); let d1 = alt::<R, T1>(d0, input, st); let d2 = alt::<R, T2>(d1, input, st); let d3 = alt::<R, T3>(d2, input, st); let d4 = alt::<R, T4>(d3, input, st); let d5 = alt::<R, T5>(d4, input, st); let d6 = alt::<R, T6>(d5, input, st); let d7 = alt::<R, T7>(d6, input, st); let d8 = alt::<R, T8>(d7, input, st); let d9 = alt::<R, T9>(d8, input, st); let d10 = alt::<R, T10>(d9, input, st); let d11 = alt::<R, T11>(d10, input, st); let d12 = alt::<R, T12>(d11, input, st); let d13 = alt::<R, T13>(d12, input, st); let d14 = alt::<R, T14>(d13, input, st); let d15 = alt::<R, T15>(d14, input, st); match self { Choice16::Choice0(c) =>  T0::sem(input, st).0 is Some && c.node_ok(input, st), Choice16::Choice1(c) => d0 is None && T1::sem(input, st).0 is Some && c.node_ok(input, st), Choice16::Choice2(c) => d1 is None && T2::sem(input, st).0 is Some && c.node_ok(input, st), Choice16::Choice3(c) => d2 is None && T3::sem(input, st).0 is Some && c.node_ok(input, st), Choice16::Choice4(c) => d3 is None && T4::sem(input, st).0 is Some && c.node_ok(input, st), Choice16::Choice5(c) => d4 is None && T5::sem(input, st).0 is Some && c.node_ok(input, st), Choice16::Choice6(c) => d5 is None && T6::sem(input, st).0 is Some && c.node_ok(input, st), Choice16::Choice7(c) => d6 is None && T7::sem(input, st).0 is Some && c.node_ok(input, st), Choice16::Choice8(c) => d7 is None && T8::sem(input, st).0 is Some && c.node_ok(input, st), Choice16::Choice9(c) => d8 is None && T9::sem(input, st).0 is Some && c.node_ok(input, st), Choice16::Choice10(c) => d9 is None && T10::sem(input, st).0 is Some && c.node_ok(input, st), Choice16::Choice11(c) => d10 is None && T11::sem(input, st).0 is Some && c.node_ok(input, st), Choice16::Choice12(c) => d11 is None && T12::sem(input, st).0 is Some && c.node_ok(input, st), Choice16::Choice13(c) => d12 is None && T13::sem(input, st).0 is Some && c.node_ok(input, st), Choice16::Choice14(c) => d13 is None && T14::sem(input, st).0 is Some && c.node_ok(input, st), Choice16::Choice15(c) => d14 is None && T15::sem(input, st).0 is Some && c.node_ok(input, st), } }
//@close
//@open core impl Choice16
//@fn choice_0
    ensures match self { Choice16::Choice0(c) => r == Some(c), _ => r is None },
//@fn choice_1
    ensures match self { Choice16::Choice1(c) => r == Some(c), _ => r is None },
//@fn choice_2
    ensures match self { Choice16::Choice2(c) => r == Some(c), _ => r is None },
//@fn choice_3
    ensures match self { Choice16::Choice3(c) => r == Some(c), _ => r is None },
//@fn choice_4
    ensures match self { Choice16::Choice4(c) => r == Some(c), _ => r is None },
//@fn choice_5
    ensures match self { Choice16::Choice5(c) => r == Some(c), _ => r is None },
//@fn choice_6
    ensures match self { Choice16::Choice6(c) => r == Some(c), _ => r is None },
//@fn choice_7
    ensures match self { Choice16::Choice7(c) => r == Some(c), _ => r is None },
//@fn choice_8
    ensures match self { Choice16::Choice8(c) => r == Some(c), _ => r is None },
//@fn choice_9
    ensures match self { Choice16::Choice9(c) => r == Some(c), _ => r is None },
//@fn choice_10
    ensures match self { Choice16::Choice10(c) => r == Some(c), _ => r is None },
//@fn choice_11
    ensures match self { Choice16::Choice11(c) => r == Some(c), _ => r is None },
//@fn choice_12
    ensures match self { Choice16::Choice12(c) => r == Some(c), _ => r is None },
//@fn choice_13
    ensures match self { Choice16::Choice13(c) => r == Some(c), _ => r is None },
//@fn choice_14
    ensures match self { Choice16::Choice14(c) => r == Some(c), _ => r is None },
//@fn choice_15
    ensures match self { Choice16::Choice15(c) => r == Some(c), _ => r is None },
//@close
