// generated by tools/gen_arity.py
//@item core Sequence2
//@open core impl TypedNode for Sequence2
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); s1 }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let t0 = T0::trk(input, st, t); let u1 = step_trk::<R, TR1>(s0, t0); let t1 = step_trk::<R, T1>(r1, u1); t1 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); self.field_0.node_ok(input, st) && field_ok::<R, T1>(self.field_1, r1) }
//@close
//@open core impl Sequence2
//@fn as_tuple
    ensures *r.0 == self.field_0, *r.1 == self.field_1,
//@fn into_tuple
    ensures r.0 == self.field_0, r.1 == self.field_1,
//@close
//@item core Sequence3
//@open core impl TypedNode for Sequence3
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); s2 }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let t0 = T0::trk(input, st, t); let u1 = step_trk::<R, TR1>(s0, t0); let t1 = step_trk::<R, T1>(r1, u1); let u2 = step_trk::<R, TR2>(s1, t1); let t2 = step_trk::<R, T2>(r2, u2); t2 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); self.field_0.node_ok(input, st) && field_ok::<R, T1>(self.field_1, r1) && field_ok::<R, T2>(self.field_2, r2) }
//@close
//@open core impl Sequence3
//@fn as_tuple
    ensures *r.0 == self.field_0, *r.1 == self.field_1, *r.2 == self.field_2,
//@fn into_tuple
    ensures r.0 == self.field_0, r.1 == self.field_1, r.2 == self.field_2,
//@close
//@item core Sequence4
//@open core impl TypedNode for Sequence4
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); s3 }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); let t0 = T0::trk(input, st, t); let u1 = step_trk::<R, TR1>(s0, t0); let t1 = step_trk::<R, T1>(r1, u1); let u2 = step_trk::<R, TR2>(s1, t1); let t2 = step_trk::<R, T2>(r2, u2); let u3 = step_trk::<R, TR3>(s2, t2); let t3 = step_trk::<R, T3>(r3, u3); t3 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); self.field_0.node_ok(input, st) && field_ok::<R, T1>(self.field_1, r1) && field_ok::<R, T2>(self.field_2, r2) && field_ok::<R, T3>(self.field_3, r3) }
//@close
//@open core impl Sequence4
//@fn as_tuple
    ensures *r.0 == self.field_0, *r.1 == self.field_1, *r.2 == self.field_2, *r.3 == self.field_3,
//@fn into_tuple
    ensures r.0 == self.field_0, r.1 == self.field_1, r.2 == self.field_2, r.3 == self.field_3,
//@close
//@item core Sequence5
//@open core impl TypedNode for Sequence5
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); let r4 = step::<R, TR4>(s3); let s4 = step::<R, T4>(r4); s4 }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); let r4 = step::<R, TR4>(s3); let s4 = step::<R, T4>(r4); let t0 = T0::trk(input, st, t); let u1 = step_trk::<R, TR1>(s0, t0); let t1 = step_trk::<R, T1>(r1, u1); let u2 = step_trk::<R, TR2>(s1, t1); let t2 = step_trk::<R, T2>(r2, u2); let u3 = step_trk::<R, TR3>(s2, t2); let t3 = step_trk::<R, T3>(r3, u3); let u4 = step_trk::<R, TR4>(s3, t3); let t4 = step_trk::<R, T4>(r4, u4); t4 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); let r4 = step::<R, TR4>(s3); let s4 = step::<R, T4>(r4); self.field_0.node_ok(input, st) && field_ok::<R, T1>(self.field_1, r1) && field_ok::<R, T2>(self.field_2, r2) && field_ok::<R, T3>(self.field_3, r3) && field_ok::<R, T4>(self.field_4, r4) }
//@close
//@open core impl Sequence5
//@fn as_tuple
    ensures *r.0 == self.field_0, *r.1 == self.field_1, *r.2 == self.field_2, *r.3 == self.field_3, *r.4 == self.field_4,
//@fn into_tuple
    ensures r.0 == self.field_0, r.1 == self.field_1, r.2 == self.field_2, r.3 == self.field_3, r.4 == self.field_4,
//@close
//@item core Sequence6
//@open core impl TypedNode for Sequence6
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); let r4 = step::<R, TR4>(s3); let s4 = step::<R, T4>(r4); let r5 = step::<R, TR5>(s4); let s5 = step::<R, T5>(r5); s5 }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); let r4 = step::<R, TR4>(s3); let s4 = step::<R, T4>(r4); let r5 = step::<R, TR5>(s4); let s5 = step::<R, T5>(r5); let t0 = T0::trk(input, st, t); let u1 = step_trk::<R, TR1>(s0, t0); let t1 = step_trk::<R, T1>(r1, u1); let u2 = step_trk::<R, TR2>(s1, t1); let t2 = step_trk::<R, T2>(r2, u2); let u3 = step_trk::<R, TR3>(s2, t2); let t3 = step_trk::<R, T3>(r3, u3); let u4 = step_trk::<R, TR4>(s3, t3); let t4 = step_trk::<R, T4>(r4, u4); let u5 = step_trk::<R, TR5>(s4, t4); let t5 = step_trk::<R, T5>(r5, u5); t5 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); let r4 = step::<R, TR4>(s3); let s4 = step::<R, T4>(r4); let r5 = step::<R, TR5>(s4); let s5 = step::<R, T5>(r5); self.field_0.node_ok(input, st) && field_ok::<R, T1>(self.field_1, r1) && field_ok::<R, T2>(self.field_2, r2) && field_ok::<R, T3>(self.field_3, r3) && field_ok::<R, T4>(self.field_4, r4) && field_ok::<R, T5>(self.field_5, r5) }
//@close
//@open core impl Sequence6
//@fn as_tuple
    ensures *r.0 == self.field_0, *r.1 == self.field_1, *r.2 == self.field_2, *r.3 == self.field_3, *r.4 == self.field_4, *r.5 == self.field_5,
//@fn into_tuple
    ensures r.0 == self.field_0, r.1 == self.field_1, r.2 == self.field_2, r.3 == self.field_3, r.4 == self.field_4, r.5 == self.field_5,
//@close
//@item core Sequence7
//@open core impl TypedNode for Sequence7
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); let r4 = step::<R, TR4>(s3); let s4 = step::<R, T4>(r4); let r5 = step::<R, TR5>(s4); let s5 = step::<R, T5>(r5); let r6 = step::<R, TR6>(s5); let s6 = step::<R, T6>(r6); s6 }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); let r4 = step::<R, TR4>(s3); let s4 = step::<R, T4>(r4); let r5 = step::<R, TR5>(s4); let s5 = step::<R, T5>(r5); let r6 = step::<R, TR6>(s5); let s6 = step::<R, T6>(r6); let t0 = T0::trk(input, st, t); let u1 = step_trk::<R, TR1>(s0, t0); let t1 = step_trk::<R, T1>(r1, u1); let u2 = step_trk::<R, TR2>(s1, t1); let t2 = step_trk::<R, T2>(r2, u2); let u3 = step_trk::<R, TR3>(s2, t2); let t3 = step_trk::<R, T3>(r3, u3); let u4 = step_trk::<R, TR4>(s3, t3); let t4 = step_trk::<R, T4>(r4, u4); let u5 = step_trk::<R, TR5>(s4, t4); let t5 = step_trk::<R, T5>(r5, u5); let u6 = step_trk::<R, TR6>(s5, t5); let t6 = step_trk::<R, T6>(r6, u6); t6 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); let r4 = step::<R, TR4>(s3); let s4 = step::<R, T4>(r4); let r5 = step::<R, TR5>(s4); let s5 = step::<R, T5>(r5); let r6 = step::<R, TR6>(s5); let s6 = step::<R, T6>(r6); self.field_0.node_ok(input, st) && field_ok::<R, T1>(self.field_1, r1) && field_ok::<R, T2>(self.field_2, r2) && field_ok::<R, T3>(self.field_3, r3) && field_ok::<R, T4>(self.field_4, r4) && field_ok::<R, T5>(self.field_5, r5) && field_ok::<R, T6>(self.field_6, r6) }
//@close
//@open core impl Sequence7
//@fn as_tuple
    ensures *r.0 == self.field_0, *r.1 == self.field_1, *r.2 == self.field_2, *r.3 == self.field_3, *r.4 == self.field_4, *r.5 == self.field_5, *r.6 == self.field_6,
//@fn into_tuple
    ensures r.0 == self.field_0, r.1 == self.field_1, r.2 == self.field_2, r.3 == self.field_3, r.4 == self.field_4, r.5 == self.field_5, r.6 == self.field_6,
//@close
//@item core Sequence8
//@open core impl TypedNode for Sequence8
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); let r4 = step::<R, TR4>(s3); let s4 = step::<R, T4>(r4); let r5 = step::<R, TR5>(s4); let s5 = step::<R, T5>(r5); let r6 = step::<R, TR6>(s5); let s6 = step::<R, T6>(r6); let r7 = step::<R, TR7>(s6); let s7 = step::<R, T7>(r7); s7 }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); let r4 = step::<R, TR4>(s3); let s4 = step::<R, T4>(r4); let r5 = step::<R, TR5>(s4); let s5 = step::<R, T5>(r5); let r6 = step::<R, TR6>(s5); let s6 = step::<R, T6>(r6); let r7 = step::<R, TR7>(s6); let s7 = step::<R, T7>(r7); let t0 = T0::trk(input, st, t); let u1 = step_trk::<R, TR1>(s0, t0); let t1 = step_trk::<R, T1>(r1, u1); let u2 = step_trk::<R, TR2>(s1, t1); let t2 = step_trk::<R, T2>(r2, u2); let u3 = step_trk::<R, TR3>(s2, t2); let t3 = step_trk::<R, T3>(r3, u3); let u4 = step_trk::<R, TR4>(s3, t3); let t4 = step_trk::<R, T4>(r4, u4); let u5 = step_trk::<R, TR5>(s4, t4); let t5 = step_trk::<R, T5>(r5, u5); let u6 = step_trk::<R, TR6>(s5, t5); let t6 = step_trk::<R, T6>(r6, u6); let u7 = step_trk::<R, TR7>(s6, t6); let t7 = step_trk::<R, T7>(r7, u7); t7 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); let r4 = step::<R, TR4>(s3); let s4 = step::<R, T4>(r4); let r5 = step::<R, TR5>(s4); let s5 = step::<R, T5>(r5); let r6 = step::<R, TR6>(s5); let s6 = step::<R, T6>(r6); let r7 = step::<R, TR7>(s6); let s7 = step::<R, T7>(r7); self.field_0.node_ok(input, st) && field_ok::<R, T1>(self.field_1, r1) && field_ok::<R, T2>(self.field_2, r2) && field_ok::<R, T3>(self.field_3, r3) && field_ok::<R, T4>(self.field_4, r4) && field_ok::<R, T5>(self.field_5, r5) && field_ok::<R, T6>(self.field_6, r6) && field_ok::<R, T7>(self.field_7, r7) }
//@close
//@open core impl Sequence8
//@fn as_tuple
    ensures *r.0 == self.field_0, *r.1 == self.field_1, *r.2 == self.field_2, *r.3 == self.field_3, *r.4 == self.field_4, *r.5 == self.field_5, *r.6 == self.field_6, *r.7 == self.field_7,
//@fn into_tuple
    ensures r.0 == self.field_0, r.1 == self.field_1, r.2 == self.field_2, r.3 == self.field_3, r.4 == self.field_4, r.5 == self.field_5, r.6 == self.field_6, r.7 == self.field_7,
//@close
//@item core Sequence9
//@open core impl TypedNode for Sequence9
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); let r4 = step::<R, TR4>(s3); let s4 = step::<R, T4>(r4); let r5 = step::<R, TR5>(s4); let s5 = step::<R, T5>(r5); let r6 = step::<R, TR6>(s5); let s6 = step::<R, T6>(r6); let r7 = step::<R, TR7>(s6); let s7 = step::<R, T7>(r7); let r8 = step::<R, TR8>(s7); let s8 = step::<R, T8>(r8); s8 }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); let r4 = step::<R, TR4>(s3); let s4 = step::<R, T4>(r4); let r5 = step::<R, TR5>(s4); let s5 = step::<R, T5>(r5); let r6 = step::<R, TR6>(s5); let s6 = step::<R, T6>(r6); let r7 = step::<R, TR7>(s6); let s7 = step::<R, T7>(r7); let r8 = step::<R, TR8>(s7); let s8 = step::<R, T8>(r8); let t0 = T0::trk(input, st, t); let u1 = step_trk::<R, TR1>(s0, t0); let t1 = step_trk::<R, T1>(r1, u1); let u2 = step_trk::<R, TR2>(s1, t1); let t2 = step_trk::<R, T2>(r2, u2); let u3 = step_trk::<R, TR3>(s2, t2); let t3 = step_trk::<R, T3>(r3, u3); let u4 = step_trk::<R, TR4>(s3, t3); let t4 = step_trk::<R, T4>(r4, u4); let u5 = step_trk::<R, TR5>(s4, t4); let t5 = step_trk::<R, T5>(r5, u5); let u6 = step_trk::<R, TR6>(s5, t5); let t6 = step_trk::<R, T6>(r6, u6); let u7 = step_trk::<R, TR7>(s6, t6); let t7 = step_trk::<R, T7>(r7, u7); let u8 = step_trk::<R, TR8>(s7, t7); let t8 = step_trk::<R, T8>(r8, u8); t8 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); let r4 = step::<R, TR4>(s3); let s4 = step::<R, T4>(r4); let r5 = step::<R, TR5>(s4); let s5 = step::<R, T5>(r5); let r6 = step::<R, TR6>(s5); let s6 = step::<R, T6>(r6); let r7 = step::<R, TR7>(s6); let s7 = step::<R, T7>(r7); let r8 = step::<R, TR8>(s7); let s8 = step::<R, T8>(r8); self.field_0.node_ok(input, st) && field_ok::<R, T1>(self.field_1, r1) && field_ok::<R, T2>(self.field_2, r2) && field_ok::<R, T3>(self.field_3, r3) && field_ok::<R, T4>(self.field_4, r4) && field_ok::<R, T5>(self.field_5, r5) && field_ok::<R, T6>(self.field_6, r6) && field_ok::<R, T7>(self.field_7, r7) && field_ok::<R, T8>(self.field_8, r8) }
//@close
//@open core impl Sequence9
//@fn as_tuple
    ensures *r.0 == self.field_0, *r.1 == self.field_1, *r.2 == self.field_2, *r.3 == self.field_3, *r.4 == self.field_4, *r.5 == self.field_5, *r.6 == self.field_6, *r.7 == self.field_7, *r.8 == self.field_8,
//@fn into_tuple
    ensures r.0 == self.field_0, r.1 == self.field_1, r.2 == self.field_2, r.3 == self.field_3, r.4 == self.field_4, r.5 == self.field_5, r.6 == self.field_6, r.7 == self.field_7, r.8 == self.field_8,
//@close
