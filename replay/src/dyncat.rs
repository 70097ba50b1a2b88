dyncases! {
    1, Option<D<0>>;
    1, Positive<D<0>>;
    1, Negative<D<0>>;
    1, push<D<0>>;
    2, Sequence2<D<0>, Empty, D<1>, Empty>;
    2, Choice2<D<0>, D<1>>;
    1, Rep<D<0>, Empty>;
    1, RepOnce<D<0>, Empty>;
    1, RepMax<D<0>, Empty, 2>;
    1, RepMin<D<0>, Empty, 2>;
    1, RepMinMax<D<0>, Empty, 1, 2>;
    2, Rep<D<0>, D<1>>;
    2, RepOnce<D<0>, D<1>>;
    2, RepMax<D<0>, D<1>, 3>;
    2, RepMinMax<D<0>, D<1>, 2, 3>;
    2, RepMinMax<D<0>, D<1>, 0, 1>;
    2, RepMinMax<D<0>, D<1>, 2, 2>;
    3, Rep<Choice2<D<0>, D<1>>, D<2>>;
    4, RepMinMax<Sequence2<D<0>, Empty, D<1>, D<2>>, D<3>, 1, 3>;
    3, Option<Sequence2<D<0>, Empty, D<1>, D<2>>>;
    3, Positive<Sequence2<D<0>, D<2>, D<1>, Empty>>;
    3, Negative<Sequence2<D<0>, Empty, D<1>, D<2>>>;
    4, Choice2<Sequence2<D<0>, Empty, D<1>, D<2>>, D<3>>;
    5, Choice3<Sequence2<D<0>, Empty, D<1>, Empty>, Sequence2<D<2>, Empty, D<3>, Empty>, D<4>>;
    4, Sequence2<Option<Sequence2<D<0>, Empty, D<1>, Empty>>, Empty, D<2>, D<3>>;
    3, Sequence2<Positive<D<0>>, Empty, D<1>, D<2>>;
    3, Sequence2<Negative<D<0>>, Empty, D<1>, D<2>>;
    3, Choice2<Choice2<D<0>, D<1>>, D<2>>;
    1, Option<Option<D<0>>>;
    1, Positive<Negative<D<0>>>;
    1, Negative<Positive<D<0>>>;
    1, Negative<Option<D<0>>>;
    1, Option<Negative<D<0>>>;
    3, push<Sequence2<D<0>, Empty, D<1>, D<2>>>;
    3, Rep<Option<Sequence2<D<0>, Empty, D<1>, Empty>>, D<2>>;
    1, RX<'static, D<0>>;
    2, RX<'static, Choice2<RY<'static, D<0>>, RY<'static, D<1>>>>;
    3, RX<'static, Sequence2<D<0>, Empty, RY<'static, D<1>>, D<2>>>;
    3, RX<'static, Positive<Sequence2<RY<'static, D<0>>, Empty, Negative<RY<'static, D<1>>>, D<2>>>>;
    3, RX<'static, Negative<Sequence2<RY<'static, D<0>>, Empty, Positive<RY<'static, D<1>>>, D<2>>>>;
    1, Negative<RX<'static, RY<'static, D<0>>>>;
    2, Rep<RX<'static, D<0>>, RY<'static, D<1>>>;
    1, Option<RX<'static, push<D<0>>>>;
    5, Sequence3<D<0>, Empty, D<1>, D<3>, D<2>, D<4>>;
    3, Choice3<D<0>, D<1>, D<2>>;
    7, Sequence4<D<0>, Empty, D<1>, D<4>, D<2>, D<5>, D<3>, D<6>>;
    4, Choice4<D<0>, D<1>, D<2>, D<3>>;
    9, Sequence5<D<0>, Empty, D<1>, D<5>, D<2>, D<6>, D<3>, D<7>, D<4>, D<8>>;
    5, Choice5<D<0>, D<1>, D<2>, D<3>, D<4>>;
    11, Sequence6<D<0>, Empty, D<1>, D<6>, D<2>, D<7>, D<3>, D<8>, D<4>, D<9>, D<5>, D<10>>;
    6, Choice6<D<0>, D<1>, D<2>, D<3>, D<4>, D<5>>;
    13, Sequence7<D<0>, Empty, D<1>, D<7>, D<2>, D<8>, D<3>, D<9>, D<4>, D<10>, D<5>, D<11>, D<6>, D<12>>;
    7, Choice7<D<0>, D<1>, D<2>, D<3>, D<4>, D<5>, D<6>>;
    15, Sequence8<D<0>, Empty, D<1>, D<8>, D<2>, D<9>, D<3>, D<10>, D<4>, D<11>, D<5>, D<12>, D<6>, D<13>, D<7>, D<14>>;
    8, Choice8<D<0>, D<1>, D<2>, D<3>, D<4>, D<5>, D<6>, D<7>>;
    17, Sequence9<D<0>, Empty, D<1>, D<9>, D<2>, D<10>, D<3>, D<11>, D<4>, D<12>, D<5>, D<13>, D<6>, D<14>, D<7>, D<15>, D<8>, D<16>>;
    9, Choice9<D<0>, D<1>, D<2>, D<3>, D<4>, D<5>, D<6>, D<7>, D<8>>;
    19, Sequence10<D<0>, Empty, D<1>, D<10>, D<2>, D<11>, D<3>, D<12>, D<4>, D<13>, D<5>, D<14>, D<6>, D<15>, D<7>, D<16>, D<8>, D<17>, D<9>, D<18>>;
    10, Choice10<D<0>, D<1>, D<2>, D<3>, D<4>, D<5>, D<6>, D<7>, D<8>, D<9>>;
    21, Sequence11<D<0>, Empty, D<1>, D<11>, D<2>, D<12>, D<3>, D<13>, D<4>, D<14>, D<5>, D<15>, D<6>, D<16>, D<7>, D<17>, D<8>, D<18>, D<9>, D<19>, D<10>, D<20>>;
    11, Choice11<D<0>, D<1>, D<2>, D<3>, D<4>, D<5>, D<6>, D<7>, D<8>, D<9>, D<10>>;
    23, Sequence12<D<0>, Empty, D<1>, D<12>, D<2>, D<13>, D<3>, D<14>, D<4>, D<15>, D<5>, D<16>, D<6>, D<17>, D<7>, D<18>, D<8>, D<19>, D<9>, D<20>, D<10>, D<21>, D<11>, D<22>>;
    12, Choice12<D<0>, D<1>, D<2>, D<3>, D<4>, D<5>, D<6>, D<7>, D<8>, D<9>, D<10>, D<11>>;
    25, Sequence13<D<0>, Empty, D<1>, D<13>, D<2>, D<14>, D<3>, D<15>, D<4>, D<16>, D<5>, D<17>, D<6>, D<18>, D<7>, D<19>, D<8>, D<20>, D<9>, D<21>, D<10>, D<22>, D<11>, D<23>, D<12>, D<24>>;
    13, Choice13<D<0>, D<1>, D<2>, D<3>, D<4>, D<5>, D<6>, D<7>, D<8>, D<9>, D<10>, D<11>, D<12>>;
    27, Sequence14<D<0>, Empty, D<1>, D<14>, D<2>, D<15>, D<3>, D<16>, D<4>, D<17>, D<5>, D<18>, D<6>, D<19>, D<7>, D<20>, D<8>, D<21>, D<9>, D<22>, D<10>, D<23>, D<11>, D<24>, D<12>, D<25>, D<13>, D<26>>;
    14, Choice14<D<0>, D<1>, D<2>, D<3>, D<4>, D<5>, D<6>, D<7>, D<8>, D<9>, D<10>, D<11>, D<12>, D<13>>;
    29, Sequence15<D<0>, Empty, D<1>, D<15>, D<2>, D<16>, D<3>, D<17>, D<4>, D<18>, D<5>, D<19>, D<6>, D<20>, D<7>, D<21>, D<8>, D<22>, D<9>, D<23>, D<10>, D<24>, D<11>, D<25>, D<12>, D<26>, D<13>, D<27>, D<14>, D<28>>;
    15, Choice15<D<0>, D<1>, D<2>, D<3>, D<4>, D<5>, D<6>, D<7>, D<8>, D<9>, D<10>, D<11>, D<12>, D<13>, D<14>>;
    31, Sequence16<D<0>, Empty, D<1>, D<16>, D<2>, D<17>, D<3>, D<18>, D<4>, D<19>, D<5>, D<20>, D<6>, D<21>, D<7>, D<22>, D<8>, D<23>, D<9>, D<24>, D<10>, D<25>, D<11>, D<26>, D<12>, D<27>, D<13>, D<28>, D<14>, D<29>, D<15>, D<30>>;
    16, Choice16<D<0>, D<1>, D<2>, D<3>, D<4>, D<5>, D<6>, D<7>, D<8>, D<9>, D<10>, D<11>, D<12>, D<13>, D<14>, D<15>>;
}
