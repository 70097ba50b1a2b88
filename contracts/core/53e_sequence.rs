// generated by tools/gen_arity.py
//@item core Sequence15
//@open core impl TypedNode for Sequence15
    open spec fn sem(input: Position<'i>, st: St<'i>) -> Sem<'i> { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); let r4 = step::<R, TR4>(s3); let s4 = step::<R, T4>(r4); let r5 = step::<R, TR5>(s4); let s5 = step::<R, T5>(r5); let r6 = step::<R, TR6>(s5); let s6 = step::<R, T6>(r6); let r7 = step::<R, TR7>(s6); let s7 = step::<R, T7>(r7); let r8 = step::<R, TR8>(s7); let s8 = step::<R, T8>(r8); let r9 = step::<R, TR9>(s8); let s9 = step::<R, T9>(r9); let r10 = step::<R, TR10>(s9); let s10 = step::<R, T10>(r10); let r11 = step::<R, TR11>(s10); let s11 = step::<R, T11>(r11); let r12 = step::<R, TR12>(s11); let s12 = step::<R, T12>(r12); let r13 = step::<R, TR13>(s12); let s13 = step::<R, T13>(r13); let r14 = step::<R, TR14>(s13); let s14 = step::<R, T14>(r14); s14 }
    open spec fn trk(input: Position<'i>, st: St<'i>, t: TV<'i, R>) -> TV<'i, R> { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); let r4 = step::<R, TR4>(s3); let s4 = step::<R, T4>(r4); let r5 = step::<R, TR5>(s4); let s5 = step::<R, T5>(r5); let r6 = step::<R, TR6>(s5); let s6 = step::<R, T6>(r6); let r7 = step::<R, TR7>(s6); let s7 = step::<R, T7>(r7); let r8 = step::<R, TR8>(s7); let s8 = step::<R, T8>(r8); let r9 = step::<R, TR9>(s8); let s9 = step::<R, T9>(r9); let r10 = step::<R, TR10>(s9); let s10 = step::<R, T10>(r10); let r11 = step::<R, TR11>(s10); let s11 = step::<R, T11>(r11); let r12 = step::<R, TR12>(s11); let s12 = step::<R, T12>(r12); let r13 = step::<R, TR13>(s12); let s13 = step::<R, T13>(r13); let r14 = step::<R, TR14>(s13); let s14 = step::<R, T14>(r14); let t0 = T0::trk(input, st, t); let u1 = step_trk::<R, TR1>(s0, t0); let t1 = step_trk::<R, T1>(r1, u1); let u2 = step_trk::<R, TR2>(s1, t1); let t2 = step_trk::<R, T2>(r2, u2); let u3 = step_trk::<R, TR3>(s2, t2); let t3 = step_trk::<R, T3>(r3, u3); let u4 = step_trk::<R, TR4>(s3, t3); let t4 = step_trk::<R, T4>(r4, u4); let u5 = step_trk::<R, TR5>(s4, t4); let t5 = step_trk::<R, T5>(r5, u5); let u6 = step_trk::<R, TR6>(s5, t5); let t6 = step_trk::<R, T6>(r6, u6); let u7 = step_trk::<R, TR7>(s6, t6); let t7 = step_trk::<R, T7>(r7, u7); let u8 = step_trk::<R, TR8>(s7, t7); let t8 = step_trk::<R, T8>(r8, u8); let u9 = step_trk::<R, TR9>(s8, t8); let t9 = step_trk::<R, T9>(r9, u9); let u10 = step_trk::<R, TR10>(s9, t9); let t10 = step_trk::<R, T10>(r10, u10); let u11 = step_trk::<R, TR11>(s10, t10); let t11 = step_trk::<R, T11>(r11, u11); let u12 = step_trk::<R, TR12>(s11, t11); let t12 = step_trk::<R, T12>(r12, u12); let u13 = step_trk::<R, TR13>(s12, t12); let t13 = step_trk::<R, T13>(r13, u13); let u14 = step_trk::<R, TR14>(s13, t13); let t14 = step_trk::<R, T14>(r14, u14); t14 }
    open spec fn node_ok(&self, input: Position<'i>, st: St<'i>) -> bool { let s0 = T0::sem(input, st); let r1 = step::<R, TR1>(s0); let s1 = step::<R, T1>(r1); let r2 = step::<R, TR2>(s1); let s2 = step::<R, T2>(r2); let r3 = step::<R, TR3>(s2); let s3 = step::<R, T3>(r3); let r4 = step::<R, TR4>(s3); let s4 = step::<R, T4>(r4); let r5 = step::<R, TR5>(s4); let s5 = step::<R, T5>(r5); let r6 = step::<R, TR6>(s5); let s6 = step::<R, T6>(r6); let r7 = step::<R, TR7>(s6); let s7 = step::<R, T7>(r7); let r8 = step::<R, TR8>(s7); let s8 = step::<R, T8>(r8); let r9 = step::<R, TR9>(s8); let s9 = step::<R, T9>(r9); let r10 = step::<R, TR10>(s9); let s10 = step::<R, T10>(r10); let r11 = step::<R, TR11>(s10); let s11 = step::<R, T11>(r11); let r12 = step::<R, TR12>(s11); let s12 = step::<R, T12>(r12); let r13 = step::<R, TR13>(s12); let s13 = step::<R, T13>(r13); let r14 = step::<R, TR14>(s13); let s14 = step::<R, T14>(r14); self.field_0.node_ok(input, st) && field_ok::<R, T1>(self.field_1, r1) && field_ok::<R, T2>(self.field_2, r2) && field_ok::<R, T3>(self.field_3, r3) && field_ok::<R, T4>(self.field_4, r4) && field_ok::<R, T5>(self.field_5, r5) && field_ok::<R, T6>(self.field_6, r6) && field_ok::<R, T7>(self.field_7, r7) && field_ok::<R, T8>(self.field_8, r8) && field_ok::<R, T9>(self.field_9, r9) && field_ok::<R, T10>(self.field_10, r10) && field_ok::<R, T11>(self.field_11, r11) && field_ok::<R, T12>(self.field_12, r12) && field_ok::<R, T13>(self.field_13, r13) && field_ok::<R, T14>(self.field_14, r14) }
//@close
//@open core impl Sequence15
//@fn as_tuple
    ensures *r.0 == self.field_0, *r.1 == self.field_1, *r.2 == self.field_2, *r.3 == self.field_3, *r.4 == self.field_4, *r.5 == self.field_5, *r.6 == self.field_6, *r.7 == self.field_7, *r.8 == self.field_8, *r.9 == self.field_9, *r.10 == self.field_10, *r.11 == self.field_11, *r.12 == self.field_12, *r.13 == self.field_13, *r.14 == self.field_14,
//@fn into_tuple
    ensures r.0 == self.field_0, r.1 == self.field_1, r.2 == self.field_2, r.3 == self.field_3, r.4 == self.field_4, r.5 == self.field_5, r.6 == self.field_6, r.7 == self.field_7, r.8 == self.field_8, r.9 == self.field_9, r.10 == self.field_10, r.11 == self.field_11, r.12 == self.field_12, r.13 == self.field_13, r.14 == self.field_14,
//@close
