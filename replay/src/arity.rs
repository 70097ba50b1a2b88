seq!(Sequence2, (field_0, T0, TR0), (field_1, T1, TR1));
cho!(Choice2, (Choice0, T0, 0), (Choice1, T1, 1));
seq!(Sequence3, (field_0, T0, TR0), (field_1, T1, TR1), (field_2, T2, TR2));
cho!(Choice3, (Choice0, T0, 0), (Choice1, T1, 1), (Choice2, T2, 2));
seq!(Sequence4, (field_0, T0, TR0), (field_1, T1, TR1), (field_2, T2, TR2), (field_3, T3, TR3));
cho!(Choice4, (Choice0, T0, 0), (Choice1, T1, 1), (Choice2, T2, 2), (Choice3, T3, 3));
seq!(Sequence5, (field_0, T0, TR0), (field_1, T1, TR1), (field_2, T2, TR2), (field_3, T3, TR3), (field_4, T4, TR4));
cho!(Choice5, (Choice0, T0, 0), (Choice1, T1, 1), (Choice2, T2, 2), (Choice3, T3, 3), (Choice4, T4, 4));
seq!(Sequence6, (field_0, T0, TR0), (field_1, T1, TR1), (field_2, T2, TR2), (field_3, T3, TR3), (field_4, T4, TR4), (field_5, T5, TR5));
cho!(Choice6, (Choice0, T0, 0), (Choice1, T1, 1), (Choice2, T2, 2), (Choice3, T3, 3), (Choice4, T4, 4), (Choice5, T5, 5));
seq!(Sequence7, (field_0, T0, TR0), (field_1, T1, TR1), (field_2, T2, TR2), (field_3, T3, TR3), (field_4, T4, TR4), (field_5, T5, TR5), (field_6, T6, TR6));
cho!(Choice7, (Choice0, T0, 0), (Choice1, T1, 1), (Choice2, T2, 2), (Choice3, T3, 3), (Choice4, T4, 4), (Choice5, T5, 5), (Choice6, T6, 6));
seq!(Sequence8, (field_0, T0, TR0), (field_1, T1, TR1), (field_2, T2, TR2), (field_3, T3, TR3), (field_4, T4, TR4), (field_5, T5, TR5), (field_6, T6, TR6), (field_7, T7, TR7));
cho!(Choice8, (Choice0, T0, 0), (Choice1, T1, 1), (Choice2, T2, 2), (Choice3, T3, 3), (Choice4, T4, 4), (Choice5, T5, 5), (Choice6, T6, 6), (Choice7, T7, 7));
seq!(Sequence9, (field_0, T0, TR0), (field_1, T1, TR1), (field_2, T2, TR2), (field_3, T3, TR3), (field_4, T4, TR4), (field_5, T5, TR5), (field_6, T6, TR6), (field_7, T7, TR7), (field_8, T8, TR8));
cho!(Choice9, (Choice0, T0, 0), (Choice1, T1, 1), (Choice2, T2, 2), (Choice3, T3, 3), (Choice4, T4, 4), (Choice5, T5, 5), (Choice6, T6, 6), (Choice7, T7, 7), (Choice8, T8, 8));
seq!(Sequence10, (field_0, T0, TR0), (field_1, T1, TR1), (field_2, T2, TR2), (field_3, T3, TR3), (field_4, T4, TR4), (field_5, T5, TR5), (field_6, T6, TR6), (field_7, T7, TR7), (field_8, T8, TR8), (field_9, T9, TR9));
cho!(Choice10, (Choice0, T0, 0), (Choice1, T1, 1), (Choice2, T2, 2), (Choice3, T3, 3), (Choice4, T4, 4), (Choice5, T5, 5), (Choice6, T6, 6), (Choice7, T7, 7), (Choice8, T8, 8), (Choice9, T9, 9));
seq!(Sequence11, (field_0, T0, TR0), (field_1, T1, TR1), (field_2, T2, TR2), (field_3, T3, TR3), (field_4, T4, TR4), (field_5, T5, TR5), (field_6, T6, TR6), (field_7, T7, TR7), (field_8, T8, TR8), (field_9, T9, TR9), (field_10, T10, TR10));
cho!(Choice11, (Choice0, T0, 0), (Choice1, T1, 1), (Choice2, T2, 2), (Choice3, T3, 3), (Choice4, T4, 4), (Choice5, T5, 5), (Choice6, T6, 6), (Choice7, T7, 7), (Choice8, T8, 8), (Choice9, T9, 9), (Choice10, T10, 10));
seq!(Sequence12, (field_0, T0, TR0), (field_1, T1, TR1), (field_2, T2, TR2), (field_3, T3, TR3), (field_4, T4, TR4), (field_5, T5, TR5), (field_6, T6, TR6), (field_7, T7, TR7), (field_8, T8, TR8), (field_9, T9, TR9), (field_10, T10, TR10), (field_11, T11, TR11));
cho!(Choice12, (Choice0, T0, 0), (Choice1, T1, 1), (Choice2, T2, 2), (Choice3, T3, 3), (Choice4, T4, 4), (Choice5, T5, 5), (Choice6, T6, 6), (Choice7, T7, 7), (Choice8, T8, 8), (Choice9, T9, 9), (Choice10, T10, 10), (Choice11, T11, 11));
seq!(Sequence13, (field_0, T0, TR0), (field_1, T1, TR1), (field_2, T2, TR2), (field_3, T3, TR3), (field_4, T4, TR4), (field_5, T5, TR5), (field_6, T6, TR6), (field_7, T7, TR7), (field_8, T8, TR8), (field_9, T9, TR9), (field_10, T10, TR10), (field_11, T11, TR11), (field_12, T12, TR12));
cho!(Choice13, (Choice0, T0, 0), (Choice1, T1, 1), (Choice2, T2, 2), (Choice3, T3, 3), (Choice4, T4, 4), (Choice5, T5, 5), (Choice6, T6, 6), (Choice7, T7, 7), (Choice8, T8, 8), (Choice9, T9, 9), (Choice10, T10, 10), (Choice11, T11, 11), (Choice12, T12, 12));
seq!(Sequence14, (field_0, T0, TR0), (field_1, T1, TR1), (field_2, T2, TR2), (field_3, T3, TR3), (field_4, T4, TR4), (field_5, T5, TR5), (field_6, T6, TR6), (field_7, T7, TR7), (field_8, T8, TR8), (field_9, T9, TR9), (field_10, T10, TR10), (field_11, T11, TR11), (field_12, T12, TR12), (field_13, T13, TR13));
cho!(Choice14, (Choice0, T0, 0), (Choice1, T1, 1), (Choice2, T2, 2), (Choice3, T3, 3), (Choice4, T4, 4), (Choice5, T5, 5), (Choice6, T6, 6), (Choice7, T7, 7), (Choice8, T8, 8), (Choice9, T9, 9), (Choice10, T10, 10), (Choice11, T11, 11), (Choice12, T12, 12), (Choice13, T13, 13));
seq!(Sequence15, (field_0, T0, TR0), (field_1, T1, TR1), (field_2, T2, TR2), (field_3, T3, TR3), (field_4, T4, TR4), (field_5, T5, TR5), (field_6, T6, TR6), (field_7, T7, TR7), (field_8, T8, TR8), (field_9, T9, TR9), (field_10, T10, TR10), (field_11, T11, TR11), (field_12, T12, TR12), (field_13, T13, TR13), (field_14, T14, TR14));
cho!(Choice15, (Choice0, T0, 0), (Choice1, T1, 1), (Choice2, T2, 2), (Choice3, T3, 3), (Choice4, T4, 4), (Choice5, T5, 5), (Choice6, T6, 6), (Choice7, T7, 7), (Choice8, T8, 8), (Choice9, T9, 9), (Choice10, T10, 10), (Choice11, T11, 11), (Choice12, T12, 12), (Choice13, T13, 13), (Choice14, T14, 14));
seq!(Sequence16, (field_0, T0, TR0), (field_1, T1, TR1), (field_2, T2, TR2), (field_3, T3, TR3), (field_4, T4, TR4), (field_5, T5, TR5), (field_6, T6, TR6), (field_7, T7, TR7), (field_8, T8, TR8), (field_9, T9, TR9), (field_10, T10, TR10), (field_11, T11, TR11), (field_12, T12, TR12), (field_13, T13, TR13), (field_14, T14, TR14), (field_15, T15, TR15));
cho!(Choice16, (Choice0, T0, 0), (Choice1, T1, 1), (Choice2, T2, 2), (Choice3, T3, 3), (Choice4, T4, 4), (Choice5, T5, 5), (Choice6, T6, 6), (Choice7, T7, 7), (Choice8, T8, 8), (Choice9, T9, 9), (Choice10, T10, 10), (Choice11, T11, 11), (Choice12, T12, 12), (Choice13, T13, 13), (Choice14, T14, 14), (Choice15, T15, 15));
