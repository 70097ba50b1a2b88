cases! {
    S<Wa>;
    S<Wab>;
    S<We>;
    S<Wae>;
    S<Wempty>;
    S<Wmix>;
    N<Wa>;
    N<Wab>;
    N<Wmix>;
    N<We>;
    N<Wempty>;
    N<Wlong>;
    N<Wup>;
    N<Wkw>;
    N<Wpu>;
    N<Wdig>;
    S<Wup>;
    S<Wkw>;
    S<Wnl>;
    S<Wpu>;
    SkipChar<'static, 0>;
    SkipChar<'static, 1>;
    SkipChar<'static, 2>;
    SkipChar<'static, 5>;
    CharRange<'a','c'>;
    CharRange<'é','ﬀ'>;
    CharRange<'c','a'>;
    CharRange<'b','b'>;
    Char<'a'>;
    Char<'é'>;
    any;
    NONE;
    Empty;
    newline;
    soi;
    eoi;
    ascii_digit;
    ascii_nonzero_digit;
    ascii_bin_digit;
    ascii_oct_digit;
    ascii_hex_digit;
    ascii_alpha_lower;
    ascii_alpha_upper;
    ascii_alpha;
    ascii_alphanumeric;
    ascii;
    peek_all<'static>;
    peek<'static>;
    pop<'static>;
    pop_all<'static>;
    drop;
    PeekSlice1<0>;
    PeekSlice1<1>;
    PeekSlice1<-1>;
    PeekSlice1<5>;
    PeekSlice1<-3>;
    PeekSlice1<{isize::MIN}>;
    PeekSlice2<0,0>;
    PeekSlice2<0,1>;
    PeekSlice2<1,2>;
    PeekSlice2<0,-1>;
    PeekSlice2<-2,-1>;
    PeekSlice2<-1,0>;
    PeekSlice2<2,1>;
    PeekSlice2<1,3>;
    PeekSlice2<-3,2>;
    PeekSlice2<{isize::MIN},{isize::MAX}>;
    PeekSlice2<-4,3>;
    PeekSlice2<0,4>;
    push<S<Wa>>;
    push<S<Wempty>>;
    push<Choice2<S<Wab>, S<Wa>>>;
    push<push<S<Wa>>>;
    push<NONE>;
    Positive<S<Wa>>;
    Negative<S<Wa>>;
    Option<S<Wa>>;
    Positive<push<S<Wa>>>;
    Negative<push<S<Wa>>>;
    Option<push<S<Wab>>>;
    Positive<pop<'static>>;
    Negative<pop<'static>>;
    Option<pop<'static>>;
    Option<pop_all<'static>>;
    Positive<drop>;
    Negative<drop>;
    Option<drop>;
    Positive<Negative<S<Wa>>>;
    Negative<Positive<S<Wa>>>;
    Negative<Negative<S<Wa>>>;
    Option<Option<S<Wa>>>;
    Positive<Option<pop<'static>>>;
    Negative<Sequence2<pop<'static>, Empty, NONE, Empty>>;
    Option<Sequence2<pop<'static>, Empty, S<Wx>, Empty>>;
    Option<Sequence3<drop, Empty, drop, Empty, S<Wx>, Empty>>;
    Option<Sequence2<push<S<Wa>>, Empty, S<Wx>, Empty>>;
    Option<Sequence3<pop<'static>, Empty, push<S<Wa>>, Empty, S<Wx>, Empty>>;
    Option<Sequence3<Option<drop>, Empty, push<any>, Empty, S<Wx>, Empty>>;
    Sequence2<S<Wa>, NONE, S<Wb>, Empty>;
    Sequence2<S<Wa>, Empty, S<Wb>, NONE>;
    Sequence2<S<Wa>, S<Wb>, S<Wb>, S<Wa>>;
    Sequence3<S<Wa>, S<Wx>, S<Wb>, S<Wb>, S<Wa>, S<Wa>>;
    Sequence2<S<Wa>, Rep<S<Wsp>, Empty>, S<Wb>, RepOnce<S<Wsp>, Empty>>;
    Sequence3<any, Empty, any, Rep<S<Wsp>, Empty>, any, RepOnce<S<Wsp>, Empty>>;
    Sequence2<push<any>, Empty, peek<'static>, Empty>;
    Sequence3<push<any>, Empty, any, Empty, pop<'static>, Empty>;
    Sequence3<push<any>, Empty, push<any>, Empty, peek_all<'static>, Empty>;
    Sequence4<push<any>, Empty, push<any>, Empty, drop, Empty, pop<'static>, Empty>;
    Sequence3<push<any>, Empty, push<any>, Empty, pop_all<'static>, Empty>;
    Sequence3<push<any>, push<S<Wb>>, push<any>, Empty, PeekSlice1<0>, Empty>;
    Choice2<S<Wa>, S<Wab>>;
    Choice2<S<Wab>, S<Wa>>;
    Choice2<Empty, S<Wa>>;
    Choice2<NONE, S<Wa>>;
    Choice3<S<Wab>, S<Wa>, S<Wb>>;
    Choice3<NONE, NONE, NONE>;
    Choice2<Sequence2<push<S<Wa>>, Empty, S<Wx>, Empty>, push<S<Wa>>>;
    Choice2<Sequence2<pop<'static>, Empty, S<Wx>, Empty>, peek<'static>>;
    Choice3<Sequence3<drop, Empty, drop, Empty, S<Wx>, Empty>, Sequence2<push<any>, Empty, S<Wx>, Empty>, peek_all<'static>>;
    Choice2<Sequence2<Choice2<Sequence2<drop, Empty, NONE, Empty>, drop>, Empty, S<Wx>, Empty>, peek<'static>>;
    Choice2<Sequence2<Positive<pop<'static>>, Empty, S<Wx>, Empty>, pop<'static>>;
    Choice2<Sequence3<Option<pop<'static>>, Empty, Option<pop<'static>>, Empty, S<Wx>, Empty>, peek_all<'static>>;
    Rep<S<Wa>, Empty>;
    RepOnce<S<Wa>, Empty>;
    RepMax<S<Wa>, Empty, 0>;
    RepMax<S<Wa>, Empty, 1>;
    RepMax<S<Wa>, Empty, 2>;
    RepMin<S<Wa>, Empty, 2>;
    RepMinMax<S<Wa>, Empty, 0, 0>;
    RepMinMax<S<Wa>, Empty, 1, 1>;
    RepMinMax<S<Wa>, Empty, 1, 2>;
    RepMinMax<S<Wa>, Empty, 2, 2>;
    RepMinMax<S<Wa>, Empty, 2, 3>;
    RepMinMax<S<Wa>, Empty, 3, 4>;
    RepMinMax<Empty, Empty, 0, 3>;
    RepMinMax<Empty, S<Wa>, 1, 3>;
    RepMinMax<Option<S<Wa>>, S<Wb>, 0, 3>;
    RepMinMax<NONE, Empty, 0, 3>;
    RepMinMax<NONE, Empty, 1, 3>;
    Rep<S<Wa>, S<Wb>>;
    RepOnce<S<Wa>, S<Wb>>;
    RepMinMax<S<Wa>, S<Wb>, 2, 3>;
    Rep<S<Wa>, Rep<S<Wsp>, Empty>>;
    Rep<S<Wa>, push<S<Wb>>>;
    Rep<push<S<Wa>>, push<S<Wb>>>;
    RepMinMax<push<any>, Empty, 1, 2>;
    Rep<pop<'static>, S<Wb>>;
    RepMax<pop<'static>, Empty, 3>;
    RepMax<drop, Empty, 3>;
    RepMin<pop<'static>, Empty, 2>;
    Rep<Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Empty>;
    Rep<Sequence2<S<Wa>, Empty, S<Wb>, Empty>, Empty>;
    RepMinMax<Sequence2<pop<'static>, Empty, S<Wb>, Empty>, Empty, 0, 3>;
    Rep<S<Wab>, S<Wa>>;
    RepMinMax<Choice2<S<Wab>, S<Wa>>, S<Wb>, 1, 3>;
    RepMinMax<drop, pop<'static>, 1, 4>;
    RepMinMax<peek<'static>, drop, 0, 4>;
    RepMinMax<push<S<Wa>>, Empty, 0, 300>;
    Rep<RepOnce<S<Wa>, Empty>, S<Wb>>;
    RA<'static>;
    RB<'static>;
    RC<'static>;
    RD<'static>;
    RR<'static>;
    RG<'static, RA<'static>>;
    RG<'static, S<Wa>>;
    RP<'static>;
    RE<'static>;
    Rep<RA<'static>, Empty>;
    Rep<RC<'static>, RA<'static>>;
    Choice2<RD<'static>, RC<'static>>;
    Sequence2<RA<'static>, RB<'static>, RA<'static>, RB<'static>>;
    Sequence3<RA<'static>, Empty, RB<'static>, RA<'static>, RC<'static>, Empty>;
    Positive<RA<'static>>;
    Negative<RA<'static>>;
    Positive<RD<'static>>;
    Negative<RD<'static>>;
    Option<RA<'static>>;
    Option<RR<'static>>;
    Negative<Negative<RA<'static>>>;
    Sequence2<Positive<RA<'static>>, Empty, any, Empty>;
    Sequence2<Negative<RB<'static>>, Empty, RC<'static>, Empty>;
    Sequence2<Negative<RD<'static>>, Empty, RA<'static>, Empty>;
    push<RA<'static>>;
    push<RD<'static>>;
    Rep<push<RC<'static>>, Empty>;
    Sequence2<RP<'static>, Empty, RQ<'static>, Empty>;
    Sequence2<push<RA<'static>>, Empty, pop<'static>, Empty>;
    Choice2<Sequence2<RP<'static>, Empty, RQ<'static>, Empty>, RA<'static>>;
    RepMinMax<RG<'static, RC<'static>>, RB<'static>, 1, 3>;
    Sequence2<Rep<RA<'static>, Empty>, Empty, Option<RB<'static>>, Empty>;
    RG<'static, RG<'static, RA<'static>>>;
    Sequence2<RE<'static>, Empty, RA<'static>, Empty>;
    Choice3<Sequence2<RA<'static>, Empty, RB<'static>, Empty>, Sequence2<RA<'static>, Empty, RA<'static>, Empty>, RA<'static>>;
    Sequence2<RQ<'static>, Empty, RA<'static>, Empty>;
    Choice2<PeekSlice2<0,4>, RA<'static>>;
    Sequence2<RA<'static>, Empty, Choice2<RQ<'static>, RD<'static>>, Empty>;
    Positive<Sequence2<RA<'static>, Empty, RQ<'static>, Empty>>;
    Negative<Sequence2<RA<'static>, Empty, Negative<RB<'static>>, Empty>>;
    Negative<Choice2<RD<'static>, RG<'static, RB<'static>>>>;
    Sequence3<any, Empty, RA<'static>, Option<S<Wx>>, S<Wa>, Empty>;
    Choice3<Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, S<Wab>>;
    Choice3<Char<'a'>, Char<'b'>, Char<'c'>>;
    Sequence3<Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>>;
    Sequence3<Char<'a'>, Option<Char<'_'>>, Char<'b'>, Option<Char<'_'>>, Char<'c'>, Option<Char<'_'>>>;
    Sequence4<Option<S<Wb>>, Empty, any, Option<S<Wx>>, S<Wa>, Option<S<Wx>>, S<Wb>, Empty>;
    Choice4<Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, S<Wab>>;
    Choice4<Char<'a'>, Char<'b'>, Char<'c'>, Char<'d'>>;
    Sequence4<Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>>;
    Sequence4<Char<'a'>, Option<Char<'_'>>, Char<'b'>, Option<Char<'_'>>, Char<'c'>, Option<Char<'_'>>, Char<'d'>, Option<Char<'_'>>>;
    Sequence5<S<Wa>, Empty, RA<'static>, Empty, S<Wb>, Empty, Option<S<Wb>>, Empty, S<Wa>, Option<S<Wx>>>;
    Choice5<Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wx>, Empty>, S<Wab>>;
    Choice5<Char<'a'>, Char<'b'>, Char<'c'>, Char<'d'>, Char<'e'>>;
    Sequence5<Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>, Option<Char<'b'>>, Option<Char<'x'>>>;
    Sequence5<Char<'a'>, Option<Char<'_'>>, Char<'b'>, Option<Char<'_'>>, Char<'c'>, Option<Char<'_'>>, Char<'d'>, Option<Char<'_'>>, Char<'e'>, Option<Char<'_'>>>;
    Sequence6<S<Wa>, Empty, Option<S<Wb>>, Empty, Option<S<Wb>>, Option<S<Wx>>, RA<'static>, Empty, S<Wb>, Empty, Option<S<Wb>>, Empty>;
    Choice6<Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wx>, Empty>, Sequence2<pop<'static>, Empty, S<Wb>, Empty>, S<Wab>>;
    Choice6<Char<'a'>, Char<'b'>, Char<'c'>, Char<'d'>, Char<'e'>, Char<'f'>>;
    Sequence6<Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>, Option<Char<'b'>>, Option<Char<'x'>>, Option<Char<'c'>>, Option<Char<'y'>>>;
    Sequence6<Char<'a'>, Option<Char<'_'>>, Char<'b'>, Option<Char<'_'>>, Char<'c'>, Option<Char<'_'>>, Char<'d'>, Option<Char<'_'>>, Char<'e'>, Option<Char<'_'>>, Char<'f'>, Option<Char<'_'>>>;
    Sequence7<any, Empty, S<Wb>, Option<S<Wx>>, S<Wa>, Option<S<Wx>>, any, Option<S<Wx>>, S<Wb>, Empty, Option<S<Wb>>, Option<S<Wx>>, S<Wb>, Empty>;
    Choice7<Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wx>, Empty>, Sequence2<pop<'static>, Empty, S<Wb>, Empty>, Sequence2<push<S<Wa>>, Empty, S<We>, Empty>, S<Wab>>;
    Choice7<Char<'a'>, Char<'b'>, Char<'c'>, Char<'d'>, Char<'e'>, Char<'f'>, Char<'g'>>;
    Sequence7<Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>, Option<Char<'b'>>, Option<Char<'x'>>, Option<Char<'c'>>, Option<Char<'y'>>, Option<Char<'a'>>, Option<Char<'x'>>>;
    Sequence7<Char<'a'>, Option<Char<'_'>>, Char<'b'>, Option<Char<'_'>>, Char<'c'>, Option<Char<'_'>>, Char<'d'>, Option<Char<'_'>>, Char<'e'>, Option<Char<'_'>>, Char<'f'>, Option<Char<'_'>>, Char<'g'>, Option<Char<'_'>>>;
    Sequence8<S<Wa>, Option<S<Wx>>, S<Wa>, Option<S<Wx>>, S<Wa>, Option<S<Wx>>, S<Wb>, Empty, Option<S<Wb>>, Empty, any, Empty, Option<S<Wb>>, Empty, any, Empty>;
    Choice8<Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wx>, Empty>, Sequence2<pop<'static>, Empty, S<Wb>, Empty>, Sequence2<push<S<Wa>>, Empty, S<We>, Empty>, Sequence2<pop<'static>, Empty, S<Wx>, Empty>, S<Wab>>;
    Choice8<Char<'a'>, Char<'b'>, Char<'c'>, Char<'d'>, Char<'e'>, Char<'f'>, Char<'g'>, Char<'h'>>;
    Sequence8<Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>, Option<Char<'b'>>, Option<Char<'x'>>, Option<Char<'c'>>, Option<Char<'y'>>, Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>>;
    Sequence8<Char<'a'>, Option<Char<'_'>>, Char<'b'>, Option<Char<'_'>>, Char<'c'>, Option<Char<'_'>>, Char<'d'>, Option<Char<'_'>>, Char<'e'>, Option<Char<'_'>>, Char<'f'>, Option<Char<'_'>>, Char<'g'>, Option<Char<'_'>>, Char<'h'>, Option<Char<'_'>>>;
    Sequence9<S<Wb>, Empty, S<Wb>, Empty, Option<S<Wb>>, Empty, Option<S<Wb>>, Empty, any, Option<S<Wx>>, RA<'static>, Empty, Option<S<Wb>>, Empty, S<Wa>, Option<S<Wx>>, RA<'static>, Empty>;
    Choice9<Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wx>, Empty>, Sequence2<pop<'static>, Empty, S<Wb>, Empty>, Sequence2<push<S<Wa>>, Empty, S<We>, Empty>, Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, S<Wab>>;
    Choice9<Char<'a'>, Char<'b'>, Char<'c'>, Char<'d'>, Char<'e'>, Char<'f'>, Char<'g'>, Char<'h'>, Char<'i'>>;
    Sequence9<Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>, Option<Char<'b'>>, Option<Char<'x'>>, Option<Char<'c'>>, Option<Char<'y'>>, Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>>;
    Sequence9<Char<'a'>, Option<Char<'_'>>, Char<'b'>, Option<Char<'_'>>, Char<'c'>, Option<Char<'_'>>, Char<'d'>, Option<Char<'_'>>, Char<'e'>, Option<Char<'_'>>, Char<'f'>, Option<Char<'_'>>, Char<'g'>, Option<Char<'_'>>, Char<'h'>, Option<Char<'_'>>, Char<'i'>, Option<Char<'_'>>>;
    Sequence10<any, Empty, RA<'static>, Empty, S<Wa>, Option<S<Wx>>, S<Wa>, Option<S<Wx>>, Option<S<Wb>>, Empty, any, Option<S<Wx>>, any, Option<S<Wx>>, RA<'static>, Option<S<Wx>>, RA<'static>, Empty, S<Wa>, Empty>;
    Choice10<Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wx>, Empty>, Sequence2<pop<'static>, Empty, S<Wb>, Empty>, Sequence2<push<S<Wa>>, Empty, S<We>, Empty>, Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, S<Wab>>;
    Choice10<Char<'a'>, Char<'b'>, Char<'c'>, Char<'d'>, Char<'e'>, Char<'f'>, Char<'g'>, Char<'h'>, Char<'i'>, Char<'j'>>;
    Sequence10<Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>, Option<Char<'b'>>, Option<Char<'x'>>, Option<Char<'c'>>, Option<Char<'y'>>, Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>>;
    Sequence10<Char<'a'>, Option<Char<'_'>>, Char<'b'>, Option<Char<'_'>>, Char<'c'>, Option<Char<'_'>>, Char<'d'>, Option<Char<'_'>>, Char<'e'>, Option<Char<'_'>>, Char<'f'>, Option<Char<'_'>>, Char<'g'>, Option<Char<'_'>>, Char<'h'>, Option<Char<'_'>>, Char<'i'>, Option<Char<'_'>>, Char<'j'>, Option<Char<'_'>>>;
    Sequence11<RA<'static>, Option<S<Wx>>, S<Wa>, Empty, any, Option<S<Wx>>, Option<S<Wb>>, Option<S<Wx>>, RA<'static>, Empty, RA<'static>, Option<S<Wx>>, any, Empty, RA<'static>, Empty, S<Wb>, Option<S<Wx>>, S<Wa>, Empty, S<Wa>, Empty>;
    Choice11<Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wx>, Empty>, Sequence2<pop<'static>, Empty, S<Wb>, Empty>, Sequence2<push<S<Wa>>, Empty, S<We>, Empty>, Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wx>, Empty>, S<Wab>>;
    Choice11<Char<'a'>, Char<'b'>, Char<'c'>, Char<'d'>, Char<'e'>, Char<'f'>, Char<'g'>, Char<'h'>, Char<'i'>, Char<'j'>, Char<'k'>>;
    Sequence11<Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>, Option<Char<'b'>>, Option<Char<'x'>>, Option<Char<'c'>>, Option<Char<'y'>>, Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>, Option<Char<'b'>>, Option<Char<'x'>>>;
    Sequence11<Char<'a'>, Option<Char<'_'>>, Char<'b'>, Option<Char<'_'>>, Char<'c'>, Option<Char<'_'>>, Char<'d'>, Option<Char<'_'>>, Char<'e'>, Option<Char<'_'>>, Char<'f'>, Option<Char<'_'>>, Char<'g'>, Option<Char<'_'>>, Char<'h'>, Option<Char<'_'>>, Char<'i'>, Option<Char<'_'>>, Char<'j'>, Option<Char<'_'>>, Char<'k'>, Option<Char<'_'>>>;
    Sequence12<any, Empty, S<Wb>, Empty, RA<'static>, Empty, S<Wa>, Empty, RA<'static>, Empty, Option<S<Wb>>, Empty, S<Wb>, Empty, Option<S<Wb>>, Empty, RA<'static>, Empty, RA<'static>, Empty, S<Wb>, Empty, S<Wb>, Empty>;
    Choice12<Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wx>, Empty>, Sequence2<pop<'static>, Empty, S<Wb>, Empty>, Sequence2<push<S<Wa>>, Empty, S<We>, Empty>, Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wx>, Empty>, Sequence2<pop<'static>, Empty, S<Wb>, Empty>, S<Wab>>;
    Choice12<Char<'a'>, Char<'b'>, Char<'c'>, Char<'d'>, Char<'e'>, Char<'f'>, Char<'g'>, Char<'h'>, Char<'i'>, Char<'j'>, Char<'k'>, Char<'l'>>;
    Sequence12<Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>, Option<Char<'b'>>, Option<Char<'x'>>, Option<Char<'c'>>, Option<Char<'y'>>, Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>, Option<Char<'b'>>, Option<Char<'x'>>, Option<Char<'c'>>, Option<Char<'y'>>>;
    Sequence12<Char<'a'>, Option<Char<'_'>>, Char<'b'>, Option<Char<'_'>>, Char<'c'>, Option<Char<'_'>>, Char<'d'>, Option<Char<'_'>>, Char<'e'>, Option<Char<'_'>>, Char<'f'>, Option<Char<'_'>>, Char<'g'>, Option<Char<'_'>>, Char<'h'>, Option<Char<'_'>>, Char<'i'>, Option<Char<'_'>>, Char<'j'>, Option<Char<'_'>>, Char<'k'>, Option<Char<'_'>>, Char<'l'>, Option<Char<'_'>>>;
    Sequence13<S<Wb>, Option<S<Wx>>, S<Wb>, Empty, RA<'static>, Option<S<Wx>>, S<Wb>, Empty, any, Empty, S<Wb>, Empty, Option<S<Wb>>, Empty, Option<S<Wb>>, Option<S<Wx>>, any, Empty, Option<S<Wb>>, Option<S<Wx>>, S<Wa>, Empty, Option<S<Wb>>, Empty, RA<'static>, Empty>;
    Choice13<Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wx>, Empty>, Sequence2<pop<'static>, Empty, S<Wb>, Empty>, Sequence2<push<S<Wa>>, Empty, S<We>, Empty>, Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wx>, Empty>, Sequence2<pop<'static>, Empty, S<Wb>, Empty>, Sequence2<push<S<Wa>>, Empty, S<We>, Empty>, S<Wab>>;
    Choice13<Char<'a'>, Char<'b'>, Char<'c'>, Char<'d'>, Char<'e'>, Char<'f'>, Char<'g'>, Char<'h'>, Char<'i'>, Char<'j'>, Char<'k'>, Char<'l'>, Char<'m'>>;
    Sequence13<Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>, Option<Char<'b'>>, Option<Char<'x'>>, Option<Char<'c'>>, Option<Char<'y'>>, Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>, Option<Char<'b'>>, Option<Char<'x'>>, Option<Char<'c'>>, Option<Char<'y'>>, Option<Char<'a'>>, Option<Char<'x'>>>;
    Sequence13<Char<'a'>, Option<Char<'_'>>, Char<'b'>, Option<Char<'_'>>, Char<'c'>, Option<Char<'_'>>, Char<'d'>, Option<Char<'_'>>, Char<'e'>, Option<Char<'_'>>, Char<'f'>, Option<Char<'_'>>, Char<'g'>, Option<Char<'_'>>, Char<'h'>, Option<Char<'_'>>, Char<'i'>, Option<Char<'_'>>, Char<'j'>, Option<Char<'_'>>, Char<'k'>, Option<Char<'_'>>, Char<'l'>, Option<Char<'_'>>, Char<'m'>, Option<Char<'_'>>>;
    Sequence14<RA<'static>, Empty, RA<'static>, Option<S<Wx>>, RA<'static>, Empty, S<Wb>, Empty, S<Wb>, Empty, S<Wb>, Empty, any, Option<S<Wx>>, S<Wa>, Empty, S<Wa>, Option<S<Wx>>, S<Wb>, Option<S<Wx>>, S<Wa>, Empty, Option<S<Wb>>, Empty, S<Wa>, Empty, Option<S<Wb>>, Empty>;
    Choice14<Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wx>, Empty>, Sequence2<pop<'static>, Empty, S<Wb>, Empty>, Sequence2<push<S<Wa>>, Empty, S<We>, Empty>, Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wx>, Empty>, Sequence2<pop<'static>, Empty, S<Wb>, Empty>, Sequence2<push<S<Wa>>, Empty, S<We>, Empty>, Sequence2<pop<'static>, Empty, S<Wx>, Empty>, S<Wab>>;
    Choice14<Char<'a'>, Char<'b'>, Char<'c'>, Char<'d'>, Char<'e'>, Char<'f'>, Char<'g'>, Char<'h'>, Char<'i'>, Char<'j'>, Char<'k'>, Char<'l'>, Char<'m'>, Char<'n'>>;
    Sequence14<Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>, Option<Char<'b'>>, Option<Char<'x'>>, Option<Char<'c'>>, Option<Char<'y'>>, Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>, Option<Char<'b'>>, Option<Char<'x'>>, Option<Char<'c'>>, Option<Char<'y'>>, Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>>;
    Sequence14<Char<'a'>, Option<Char<'_'>>, Char<'b'>, Option<Char<'_'>>, Char<'c'>, Option<Char<'_'>>, Char<'d'>, Option<Char<'_'>>, Char<'e'>, Option<Char<'_'>>, Char<'f'>, Option<Char<'_'>>, Char<'g'>, Option<Char<'_'>>, Char<'h'>, Option<Char<'_'>>, Char<'i'>, Option<Char<'_'>>, Char<'j'>, Option<Char<'_'>>, Char<'k'>, Option<Char<'_'>>, Char<'l'>, Option<Char<'_'>>, Char<'m'>, Option<Char<'_'>>, Char<'n'>, Option<Char<'_'>>>;
    Sequence15<S<Wb>, Option<S<Wx>>, any, Empty, Option<S<Wb>>, Empty, RA<'static>, Empty, S<Wa>, Empty, RA<'static>, Empty, RA<'static>, Empty, S<Wa>, Empty, S<Wa>, Option<S<Wx>>, any, Option<S<Wx>>, any, Empty, S<Wb>, Option<S<Wx>>, S<Wa>, Empty, Option<S<Wb>>, Empty, S<Wb>, Option<S<Wx>>>;
    Choice15<Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wx>, Empty>, Sequence2<pop<'static>, Empty, S<Wb>, Empty>, Sequence2<push<S<Wa>>, Empty, S<We>, Empty>, Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wx>, Empty>, Sequence2<pop<'static>, Empty, S<Wb>, Empty>, Sequence2<push<S<Wa>>, Empty, S<We>, Empty>, Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, S<Wab>>;
    Choice15<Char<'a'>, Char<'b'>, Char<'c'>, Char<'d'>, Char<'e'>, Char<'f'>, Char<'g'>, Char<'h'>, Char<'i'>, Char<'j'>, Char<'k'>, Char<'l'>, Char<'m'>, Char<'n'>, Char<'o'>>;
    Sequence15<Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>, Option<Char<'b'>>, Option<Char<'x'>>, Option<Char<'c'>>, Option<Char<'y'>>, Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>, Option<Char<'b'>>, Option<Char<'x'>>, Option<Char<'c'>>, Option<Char<'y'>>, Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>>;
    Sequence15<Char<'a'>, Option<Char<'_'>>, Char<'b'>, Option<Char<'_'>>, Char<'c'>, Option<Char<'_'>>, Char<'d'>, Option<Char<'_'>>, Char<'e'>, Option<Char<'_'>>, Char<'f'>, Option<Char<'_'>>, Char<'g'>, Option<Char<'_'>>, Char<'h'>, Option<Char<'_'>>, Char<'i'>, Option<Char<'_'>>, Char<'j'>, Option<Char<'_'>>, Char<'k'>, Option<Char<'_'>>, Char<'l'>, Option<Char<'_'>>, Char<'m'>, Option<Char<'_'>>, Char<'n'>, Option<Char<'_'>>, Char<'o'>, Option<Char<'_'>>>;
    Sequence16<Option<S<Wb>>, Empty, Option<S<Wb>>, Empty, S<Wa>, Option<S<Wx>>, any, Option<S<Wx>>, any, Empty, any, Empty, Option<S<Wb>>, Option<S<Wx>>, Option<S<Wb>>, Empty, S<Wb>, Option<S<Wx>>, S<Wb>, Empty, RA<'static>, Option<S<Wx>>, S<Wb>, Empty, Option<S<Wb>>, Empty, any, Option<S<Wx>>, S<Wa>, Empty, any, Empty>;
    Choice16<Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wx>, Empty>, Sequence2<pop<'static>, Empty, S<Wb>, Empty>, Sequence2<push<S<Wa>>, Empty, S<We>, Empty>, Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wx>, Empty>, Sequence2<pop<'static>, Empty, S<Wb>, Empty>, Sequence2<push<S<Wa>>, Empty, S<We>, Empty>, Sequence2<pop<'static>, Empty, S<Wx>, Empty>, Sequence2<push<S<Wa>>, Empty, S<Wb>, Empty>, Sequence2<pop<'static>, Empty, S<We>, Empty>, S<Wab>>;
    Choice16<Char<'a'>, Char<'b'>, Char<'c'>, Char<'d'>, Char<'e'>, Char<'f'>, Char<'g'>, Char<'h'>, Char<'i'>, Char<'j'>, Char<'k'>, Char<'l'>, Char<'m'>, Char<'n'>, Char<'o'>, Char<'p'>>;
    Sequence16<Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>, Option<Char<'b'>>, Option<Char<'x'>>, Option<Char<'c'>>, Option<Char<'y'>>, Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>, Option<Char<'b'>>, Option<Char<'x'>>, Option<Char<'c'>>, Option<Char<'y'>>, Option<Char<'a'>>, Option<Char<'x'>>, Option<Char<'b'>>, Option<Char<'y'>>, Option<Char<'c'>>, Option<Char<'x'>>, Option<Char<'a'>>, Option<Char<'y'>>>;
    Sequence16<Char<'a'>, Option<Char<'_'>>, Char<'b'>, Option<Char<'_'>>, Char<'c'>, Option<Char<'_'>>, Char<'d'>, Option<Char<'_'>>, Char<'e'>, Option<Char<'_'>>, Char<'f'>, Option<Char<'_'>>, Char<'g'>, Option<Char<'_'>>, Char<'h'>, Option<Char<'_'>>, Char<'i'>, Option<Char<'_'>>, Char<'j'>, Option<Char<'_'>>, Char<'k'>, Option<Char<'_'>>, Char<'l'>, Option<Char<'_'>>, Char<'m'>, Option<Char<'_'>>, Char<'n'>, Option<Char<'_'>>, Char<'o'>, Option<Char<'_'>>, Char<'p'>, Option<Char<'_'>>>;
    RepMinMax<Sequence3<Option<S<Wab>>, Empty, RA<'static>, Empty, Sequence3<eoi, Empty, RA<'static>, Option<pop<'static>>, pop_all<'static>, Option<pop<'static>>>, Empty>, Option<pop<'static>>, 2, 2>;
    push<Negative<Negative<PeekSlice1<-1>>>>;
    Option<peek_all<'static>>;
    RepMinMax<Negative<Positive<S<Wx>>>, push<S<Wb>>, 0, 1>;
    Negative<Choice2<Option<S<Wx>>, Negative<S<Wa>>>>;
    S<Wx>;
    push<peek<'static>>;
    Negative<Option<Sequence2<S<Wb>, Option<pop<'static>>, pop_all<'static>, Option<S<Wx>>>>>;
    push<Sequence3<S<Wx>, push<S<Wb>>, push<Empty>, Empty, push<S<Wx>>, Empty>>;
    Choice2<Choice3<push<any>, Positive<pop<'static>>, S<Wb>>, Choice2<push<S<Wab>>, Choice3<eoi, RC<'static>, peek<'static>>>>;
    Sequence3<Sequence3<RepMinMax<drop, push<S<Wb>>, 2, 2>, Option<S<Wx>>, any, Option<S<Wx>>, Positive<pop<'static>>, Option<S<Wx>>>, Empty, Option<push<S<Wx>>>, Option<pop<'static>>, Option<S<Wx>>, Option<S<Wx>>>;
    Positive<Sequence2<push<pop<'static>>, Empty, Choice2<push<any>, PeekSlice1<-1>>, Empty>>;
    Positive<Positive<Sequence2<S<Wa>, Option<S<Wx>>, push<any>, push<S<Wb>>>>>;
    Choice2<pop<'static>, Positive<drop>>;
    CharRange<'a','b'>;
    Negative<push<push<drop>>>;
    Choice3<RepMinMax<S<Wb>, Option<pop<'static>>, 1, 1>, Positive<Positive<N<Wa>>>, drop>;
    Option<Sequence2<Positive<RC<'static>>, Option<pop<'static>>, Positive<CharRange<'a','b'>>, Empty>>;
    RepMinMax<Negative<Choice3<CharRange<'a','b'>, drop, pop_all<'static>>>, Empty, 1, 2>;
    Choice2<Negative<Positive<N<Wa>>>, Sequence3<Sequence3<push<S<Wa>>, Option<pop<'static>>, peek<'static>, Empty, push<any>, Empty>, Option<pop<'static>>, Negative<peek_all<'static>>, Empty, push<S<Wx>>, Empty>>;
    Positive<peek_all<'static>>;
    RepMinMax<RepMinMax<CharRange<'a','b'>, Empty, 1, 2>, Option<S<Wx>>, 1, 1>;
    Option<Choice2<Option<peek<'static>>, Positive<push<any>>>>;
    Sequence2<Negative<push<S<Wa>>>, Empty, Positive<RQ<'static>>, Empty>;
    Option<Negative<RC<'static>>>;
    Negative<RepMinMax<Option<RA<'static>>, Empty, 2, 3>>;
    RepMinMax<RC<'static>, Option<pop<'static>>, 0, 1>;
    push<Choice3<push<S<Wa>>, Choice3<N<Wa>, pop<'static>, S<Wab>>, S<Wx>>>;
    Positive<Sequence3<S<Wa>, Option<pop<'static>>, Negative<RA<'static>>, Empty, S<Wab>, Option<pop<'static>>>>;
    Choice2<Positive<Sequence2<S<Wab>, Empty, pop<'static>, Option<pop<'static>>>>, Negative<Sequence2<peek_all<'static>, Empty, RA<'static>, Option<pop<'static>>>>>;
    Positive<RepMinMax<S<Wx>, Empty, 0, 1>>;
    RepMinMax<Negative<S<Wb>>, Option<S<Wx>>, 1, 2>;
    Positive<RepMinMax<Choice2<Empty, Empty>, Option<S<Wx>>, 1, 1>>;
    Choice2<Positive<Positive<push<S<Wa>>>>, push<Sequence2<peek_all<'static>, Empty, peek<'static>, Empty>>>;
    Negative<Option<Negative<eoi>>>;
    Choice2<RepMinMax<Sequence2<S<Wa>, Empty, S<Wa>, Option<S<Wx>>>, Option<pop<'static>>, 1, 2>, RepMinMax<Sequence2<any, Empty, S<Wa>, Empty>, Empty, 0, 1>>;
    RepMinMax<Positive<push<RQ<'static>>>, Empty, 1, 2>;
    push<Positive<Positive<push<S<Wa>>>>>;
    Negative<Option<Option<peek<'static>>>>;
    push<Positive<RepMinMax<RP<'static>, push<S<Wb>>, 1, 1>>>;
    Positive<Sequence2<Negative<N<Wa>>, Empty, Choice2<CharRange<'a','b'>, RA<'static>>, Option<S<Wx>>>>;
    Option<RepMinMax<RepMinMax<push<S<Wa>>, Option<S<Wx>>, 0, 2>, Option<pop<'static>>, 2, 3>>;
    push<Negative<Option<Empty>>>;
    Choice2<Negative<Positive<push<any>>>, Option<Negative<S<Wa>>>>;
    Sequence2<Choice2<Option<S<Wb>>, Choice2<S<Wx>, RC<'static>>>, push<S<Wb>>, push<Positive<drop>>, Empty>;
    RepMinMax<Option<push<S<Wa>>>, Empty, 1, 1>;
    push<Sequence3<Positive<peek_all<'static>>, push<S<Wb>>, Sequence2<any, Empty, S<Wx>, Empty>, push<S<Wb>>, Positive<N<Wa>>, Option<S<Wx>>>>;
    S<Wb>;
    Positive<Option<RepMinMax<RC<'static>, Option<pop<'static>>, 1, 2>>>;
    Choice2<Negative<Positive<S<Wa>>>, Sequence2<RepMinMax<RA<'static>, push<S<Wb>>, 0, 0>, push<S<Wb>>, Sequence3<N<Wa>, Empty, S<Wb>, Empty, peek<'static>, Option<S<Wx>>>, Option<pop<'static>>>>;
    Positive<RepMinMax<Negative<RA<'static>>, Empty, 1, 3>>;
    Sequence2<Negative<push<S<Wa>>>, Option<pop<'static>>, Positive<Negative<push<S<Wa>>>>, Empty>;
    Negative<Option<eoi>>;
    Negative<Sequence2<Positive<eoi>, Empty, Positive<peek<'static>>, Empty>>;
    Negative<RepMinMax<Empty, Option<pop<'static>>, 0, 1>>;
    Positive<Option<N<Wa>>>;
    RepMinMax<peek_all<'static>, Empty, 1, 2>;
    Positive<push<Option<push<S<Wa>>>>>;
    Sequence2<RA<'static>, Empty, Sequence2<RepMinMax<S<Wa>, Option<pop<'static>>, 1, 2>, Empty, push<peek_all<'static>>, Empty>, Option<S<Wx>>>;
    Positive<RepMinMax<Option<pop_all<'static>>, Empty, 0, 1>>;
    Choice2<RepMinMax<Option<push<S<Wa>>>, Empty, 2, 4>, push<Positive<S<Wa>>>>;
    Positive<Sequence2<Sequence2<S<Wx>, Option<S<Wx>>, CharRange<'a','b'>, Empty>, Option<pop<'static>>, RepMinMax<eoi, Empty, 0, 1>, Empty>>;
    push<Positive<Sequence2<pop<'static>, Option<S<Wx>>, S<Wab>, Option<pop<'static>>>>>;
    Negative<Positive<Option<eoi>>>;
    RepMinMax<S<Wx>, Option<S<Wx>>, 1, 2>;
    RepMinMax<push<push<any>>, Empty, 0, 1>;
    Option<RepMinMax<pop<'static>, Empty, 1, 1>>;
    Option<Choice2<Sequence2<pop<'static>, push<S<Wb>>, RC<'static>, Empty>, Positive<N<Wa>>>>;
}
