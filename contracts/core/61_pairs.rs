// generated by tools/gen_arity.py
pub mod cat {
    use super::*;
    pub broadcast proof fn lemma_assoc<X>(a: Seq<X>, b: Seq<X>, c: Seq<X>)
        ensures #[trigger] (a + (b + c)) == (a + b) + c,
    { assert(a + (b + c) =~= (a + b) + c); }
}
//@item core Sequence2
//@open core impl PairContainer for Sequence2 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { self.field_0.self_or_kids() + self.field_1.self_or_kids() }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@fn for_each_child_pair
//@start
    broadcast use cat::lemma_assoc;
//@close
//@item core Choice2
//@open core impl PairContainer for Choice2 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { match self { Choice2::Choice0(c) => c.self_or_kids(), Choice2::Choice1(c) => c.self_or_kids(), } }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@close
//@item core Sequence3
//@open core impl PairContainer for Sequence3 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { self.field_0.self_or_kids() + self.field_1.self_or_kids() + self.field_2.self_or_kids() }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@fn for_each_child_pair
//@start
    broadcast use cat::lemma_assoc;
//@close
//@item core Choice3
//@open core impl PairContainer for Choice3 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { match self { Choice3::Choice0(c) => c.self_or_kids(), Choice3::Choice1(c) => c.self_or_kids(), Choice3::Choice2(c) => c.self_or_kids(), } }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@close
//@item core Sequence4
//@open core impl PairContainer for Sequence4 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { self.field_0.self_or_kids() + self.field_1.self_or_kids() + self.field_2.self_or_kids() + self.field_3.self_or_kids() }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@fn for_each_child_pair
//@start
    broadcast use cat::lemma_assoc;
//@close
//@item core Choice4
//@open core impl PairContainer for Choice4 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { match self { Choice4::Choice0(c) => c.self_or_kids(), Choice4::Choice1(c) => c.self_or_kids(), Choice4::Choice2(c) => c.self_or_kids(), Choice4::Choice3(c) => c.self_or_kids(), } }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@close
//@item core Sequence5
//@open core impl PairContainer for Sequence5 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { self.field_0.self_or_kids() + self.field_1.self_or_kids() + self.field_2.self_or_kids() + self.field_3.self_or_kids() + self.field_4.self_or_kids() }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@fn for_each_child_pair
//@start
    broadcast use cat::lemma_assoc;
//@close
//@item core Choice5
//@open core impl PairContainer for Choice5 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { match self { Choice5::Choice0(c) => c.self_or_kids(), Choice5::Choice1(c) => c.self_or_kids(), Choice5::Choice2(c) => c.self_or_kids(), Choice5::Choice3(c) => c.self_or_kids(), Choice5::Choice4(c) => c.self_or_kids(), } }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@close
//@item core Sequence6
//@open core impl PairContainer for Sequence6 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { self.field_0.self_or_kids() + self.field_1.self_or_kids() + self.field_2.self_or_kids() + self.field_3.self_or_kids() + self.field_4.self_or_kids() + self.field_5.self_or_kids() }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@fn for_each_child_pair
//@start
    broadcast use cat::lemma_assoc;
//@close
//@item core Choice6
//@open core impl PairContainer for Choice6 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { match self { Choice6::Choice0(c) => c.self_or_kids(), Choice6::Choice1(c) => c.self_or_kids(), Choice6::Choice2(c) => c.self_or_kids(), Choice6::Choice3(c) => c.self_or_kids(), Choice6::Choice4(c) => c.self_or_kids(), Choice6::Choice5(c) => c.self_or_kids(), } }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@close
//@item core Sequence7
//@open core impl PairContainer for Sequence7 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { self.field_0.self_or_kids() + self.field_1.self_or_kids() + self.field_2.self_or_kids() + self.field_3.self_or_kids() + self.field_4.self_or_kids() + self.field_5.self_or_kids() + self.field_6.self_or_kids() }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@fn for_each_child_pair
//@start
    broadcast use cat::lemma_assoc;
//@close
//@item core Choice7
//@open core impl PairContainer for Choice7 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { match self { Choice7::Choice0(c) => c.self_or_kids(), Choice7::Choice1(c) => c.self_or_kids(), Choice7::Choice2(c) => c.self_or_kids(), Choice7::Choice3(c) => c.self_or_kids(), Choice7::Choice4(c) => c.self_or_kids(), Choice7::Choice5(c) => c.self_or_kids(), Choice7::Choice6(c) => c.self_or_kids(), } }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@close
//@item core Sequence8
//@open core impl PairContainer for Sequence8 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { self.field_0.self_or_kids() + self.field_1.self_or_kids() + self.field_2.self_or_kids() + self.field_3.self_or_kids() + self.field_4.self_or_kids() + self.field_5.self_or_kids() + self.field_6.self_or_kids() + self.field_7.self_or_kids() }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@fn for_each_child_pair
//@start
    broadcast use cat::lemma_assoc;
//@close
//@item core Choice8
//@open core impl PairContainer for Choice8 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { match self { Choice8::Choice0(c) => c.self_or_kids(), Choice8::Choice1(c) => c.self_or_kids(), Choice8::Choice2(c) => c.self_or_kids(), Choice8::Choice3(c) => c.self_or_kids(), Choice8::Choice4(c) => c.self_or_kids(), Choice8::Choice5(c) => c.self_or_kids(), Choice8::Choice6(c) => c.self_or_kids(), Choice8::Choice7(c) => c.self_or_kids(), } }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@close
//@item core Sequence9
//@open core impl PairContainer for Sequence9 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { self.field_0.self_or_kids() + self.field_1.self_or_kids() + self.field_2.self_or_kids() + self.field_3.self_or_kids() + self.field_4.self_or_kids() + self.field_5.self_or_kids() + self.field_6.self_or_kids() + self.field_7.self_or_kids() + self.field_8.self_or_kids() }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@fn for_each_child_pair
//@start
    broadcast use cat::lemma_assoc;
//@close
//@item core Choice9
//@open core impl PairContainer for Choice9 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { match self { Choice9::Choice0(c) => c.self_or_kids(), Choice9::Choice1(c) => c.self_or_kids(), Choice9::Choice2(c) => c.self_or_kids(), Choice9::Choice3(c) => c.self_or_kids(), Choice9::Choice4(c) => c.self_or_kids(), Choice9::Choice5(c) => c.self_or_kids(), Choice9::Choice6(c) => c.self_or_kids(), Choice9::Choice7(c) => c.self_or_kids(), Choice9::Choice8(c) => c.self_or_kids(), } }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@close
//@item core Sequence10
//@open core impl PairContainer for Sequence10 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { self.field_0.self_or_kids() + self.field_1.self_or_kids() + self.field_2.self_or_kids() + self.field_3.self_or_kids() + self.field_4.self_or_kids() + self.field_5.self_or_kids() + self.field_6.self_or_kids() + self.field_7.self_or_kids() + self.field_8.self_or_kids() + self.field_9.self_or_kids() }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@fn for_each_child_pair
//@start
    broadcast use cat::lemma_assoc;
//@close
//@item core Choice10
//@open core impl PairContainer for Choice10 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { match self { Choice10::Choice0(c) => c.self_or_kids(), Choice10::Choice1(c) => c.self_or_kids(), Choice10::Choice2(c) => c.self_or_kids(), Choice10::Choice3(c) => c.self_or_kids(), Choice10::Choice4(c) => c.self_or_kids(), Choice10::Choice5(c) => c.self_or_kids(), Choice10::Choice6(c) => c.self_or_kids(), Choice10::Choice7(c) => c.self_or_kids(), Choice10::Choice8(c) => c.self_or_kids(), Choice10::Choice9(c) => c.self_or_kids(), } }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@close
//@item core Sequence11
//@open core impl PairContainer for Sequence11 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { self.field_0.self_or_kids() + self.field_1.self_or_kids() + self.field_2.self_or_kids() + self.field_3.self_or_kids() + self.field_4.self_or_kids() + self.field_5.self_or_kids() + self.field_6.self_or_kids() + self.field_7.self_or_kids() + self.field_8.self_or_kids() + self.field_9.self_or_kids() + self.field_10.self_or_kids() }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@fn for_each_child_pair
//@start
    broadcast use cat::lemma_assoc;
//@close
//@item core Choice11
//@open core impl PairContainer for Choice11 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { match self { Choice11::Choice0(c) => c.self_or_kids(), Choice11::Choice1(c) => c.self_or_kids(), Choice11::Choice2(c) => c.self_or_kids(), Choice11::Choice3(c) => c.self_or_kids(), Choice11::Choice4(c) => c.self_or_kids(), Choice11::Choice5(c) => c.self_or_kids(), Choice11::Choice6(c) => c.self_or_kids(), Choice11::Choice7(c) => c.self_or_kids(), Choice11::Choice8(c) => c.self_or_kids(), Choice11::Choice9(c) => c.self_or_kids(), Choice11::Choice10(c) => c.self_or_kids(), } }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@close
//@item core Sequence12
//@open core impl PairContainer for Sequence12 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { self.field_0.self_or_kids() + self.field_1.self_or_kids() + self.field_2.self_or_kids() + self.field_3.self_or_kids() + self.field_4.self_or_kids() + self.field_5.self_or_kids() + self.field_6.self_or_kids() + self.field_7.self_or_kids() + self.field_8.self_or_kids() + self.field_9.self_or_kids() + self.field_10.self_or_kids() + self.field_11.self_or_kids() }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@fn for_each_child_pair
//@start
    broadcast use cat::lemma_assoc;
//@close
//@item core Choice12
//@open core impl PairContainer for Choice12 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { match self { Choice12::Choice0(c) => c.self_or_kids(), Choice12::Choice1(c) => c.self_or_kids(), Choice12::Choice2(c) => c.self_or_kids(), Choice12::Choice3(c) => c.self_or_kids(), Choice12::Choice4(c) => c.self_or_kids(), Choice12::Choice5(c) => c.self_or_kids(), Choice12::Choice6(c) => c.self_or_kids(), Choice12::Choice7(c) => c.self_or_kids(), Choice12::Choice8(c) => c.self_or_kids(), Choice12::Choice9(c) => c.self_or_kids(), Choice12::Choice10(c) => c.self_or_kids(), Choice12::Choice11(c) => c.self_or_kids(), } }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@close
//@item core Sequence13
//@open core impl PairContainer for Sequence13 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { self.field_0.self_or_kids() + self.field_1.self_or_kids() + self.field_2.self_or_kids() + self.field_3.self_or_kids() + self.field_4.self_or_kids() + self.field_5.self_or_kids() + self.field_6.self_or_kids() + self.field_7.self_or_kids() + self.field_8.self_or_kids() + self.field_9.self_or_kids() + self.field_10.self_or_kids() + self.field_11.self_or_kids() + self.field_12.self_or_kids() }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@fn for_each_child_pair
//@start
    broadcast use cat::lemma_assoc;
//@close
//@item core Choice13
//@open core impl PairContainer for Choice13 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { match self { Choice13::Choice0(c) => c.self_or_kids(), Choice13::Choice1(c) => c.self_or_kids(), Choice13::Choice2(c) => c.self_or_kids(), Choice13::Choice3(c) => c.self_or_kids(), Choice13::Choice4(c) => c.self_or_kids(), Choice13::Choice5(c) => c.self_or_kids(), Choice13::Choice6(c) => c.self_or_kids(), Choice13::Choice7(c) => c.self_or_kids(), Choice13::Choice8(c) => c.self_or_kids(), Choice13::Choice9(c) => c.self_or_kids(), Choice13::Choice10(c) => c.self_or_kids(), Choice13::Choice11(c) => c.self_or_kids(), Choice13::Choice12(c) => c.self_or_kids(), } }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@close
//@item core Sequence14
//@open core impl PairContainer for Sequence14 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { self.field_0.self_or_kids() + self.field_1.self_or_kids() + self.field_2.self_or_kids() + self.field_3.self_or_kids() + self.field_4.self_or_kids() + self.field_5.self_or_kids() + self.field_6.self_or_kids() + self.field_7.self_or_kids() + self.field_8.self_or_kids() + self.field_9.self_or_kids() + self.field_10.self_or_kids() + self.field_11.self_or_kids() + self.field_12.self_or_kids() + self.field_13.self_or_kids() }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@fn for_each_child_pair
//@start
    broadcast use cat::lemma_assoc;
//@close
//@item core Choice14
//@open core impl PairContainer for Choice14 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { match self { Choice14::Choice0(c) => c.self_or_kids(), Choice14::Choice1(c) => c.self_or_kids(), Choice14::Choice2(c) => c.self_or_kids(), Choice14::Choice3(c) => c.self_or_kids(), Choice14::Choice4(c) => c.self_or_kids(), Choice14::Choice5(c) => c.self_or_kids(), Choice14::Choice6(c) => c.self_or_kids(), Choice14::Choice7(c) => c.self_or_kids(), Choice14::Choice8(c) => c.self_or_kids(), Choice14::Choice9(c) => c.self_or_kids(), Choice14::Choice10(c) => c.self_or_kids(), Choice14::Choice11(c) => c.self_or_kids(), Choice14::Choice12(c) => c.self_or_kids(), Choice14::Choice13(c) => c.self_or_kids(), } }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@close
//@item core Sequence15
//@open core impl PairContainer for Sequence15 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { self.field_0.self_or_kids() + self.field_1.self_or_kids() + self.field_2.self_or_kids() + self.field_3.self_or_kids() + self.field_4.self_or_kids() + self.field_5.self_or_kids() + self.field_6.self_or_kids() + self.field_7.self_or_kids() + self.field_8.self_or_kids() + self.field_9.self_or_kids() + self.field_10.self_or_kids() + self.field_11.self_or_kids() + self.field_12.self_or_kids() + self.field_13.self_or_kids() + self.field_14.self_or_kids() }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@fn for_each_child_pair
//@start
    broadcast use cat::lemma_assoc;
//@close
//@item core Choice15
//@open core impl PairContainer for Choice15 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { match self { Choice15::Choice0(c) => c.self_or_kids(), Choice15::Choice1(c) => c.self_or_kids(), Choice15::Choice2(c) => c.self_or_kids(), Choice15::Choice3(c) => c.self_or_kids(), Choice15::Choice4(c) => c.self_or_kids(), Choice15::Choice5(c) => c.self_or_kids(), Choice15::Choice6(c) => c.self_or_kids(), Choice15::Choice7(c) => c.self_or_kids(), Choice15::Choice8(c) => c.self_or_kids(), Choice15::Choice9(c) => c.self_or_kids(), Choice15::Choice10(c) => c.self_or_kids(), Choice15::Choice11(c) => c.self_or_kids(), Choice15::Choice12(c) => c.self_or_kids(), Choice15::Choice13(c) => c.self_or_kids(), Choice15::Choice14(c) => c.self_or_kids(), } }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@close
//@item core Sequence16
//@open core impl PairContainer for Sequence16 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { self.field_0.self_or_kids() + self.field_1.self_or_kids() + self.field_2.self_or_kids() + self.field_3.self_or_kids() + self.field_4.self_or_kids() + self.field_5.self_or_kids() + self.field_6.self_or_kids() + self.field_7.self_or_kids() + self.field_8.self_or_kids() + self.field_9.self_or_kids() + self.field_10.self_or_kids() + self.field_11.self_or_kids() + self.field_12.self_or_kids() + self.field_13.self_or_kids() + self.field_14.self_or_kids() + self.field_15.self_or_kids() }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@fn for_each_child_pair
//@start
    broadcast use cat::lemma_assoc;
//@close
//@item core Choice16
//@open core impl PairContainer for Choice16 provided=core
    open spec fn kids(&self) -> Seq<PT<R>> { match self { Choice16::Choice0(c) => c.self_or_kids(), Choice16::Choice1(c) => c.self_or_kids(), Choice16::Choice2(c) => c.self_or_kids(), Choice16::Choice3(c) => c.self_or_kids(), Choice16::Choice4(c) => c.self_or_kids(), Choice16::Choice5(c) => c.self_or_kids(), Choice16::Choice6(c) => c.self_or_kids(), Choice16::Choice7(c) => c.self_or_kids(), Choice16::Choice8(c) => c.self_or_kids(), Choice16::Choice9(c) => c.self_or_kids(), Choice16::Choice10(c) => c.self_or_kids(), Choice16::Choice11(c) => c.self_or_kids(), Choice16::Choice12(c) => c.self_or_kids(), Choice16::Choice13(c) => c.self_or_kids(), Choice16::Choice14(c) => c.self_or_kids(), Choice16::Choice15(c) => c.self_or_kids(), } }
    open spec fn self_or_kids(&self) -> Seq<PT<R>> { self.kids() }
//@close
