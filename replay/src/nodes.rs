w! { Wa = "a"; Wb = "b"; Wab = "ab"; Wba = "ba"; We = "é"; Wae = "aé"; Waa = "aa"; Wx = "x"; Wmix = "aB-É"; Wempty = ""; Wlong = "select"; Wsp = " "; Wup = "AB"; Wkw = "Select"; Wnl = "\r\n"; Wpu = "=>["; Wdig = "10"; }
// rules: leaf, nested, recursive (boxed), generic
rule!(RA, R::A, Str<Wa>, Str<Wa>, Str<Wa>);
rule!(RB, R::B, Str<Wb>, Str<Wb>, Str<Wb>);
rule!(RC, R::C, Choice2<RA<'i>, RB<'i>>, Choice2<RA<'i>, RB<'i>>, Choice2<RA<'static>, RB<'static>>);
rule!(RD, R::D, Sequence2<RA<'i>, Empty, RC<'i>, Empty>, Box<Sequence2<RA<'i>, Empty, RC<'i>, Empty>>, Sequence2<RA<'static>, Empty, RC<'static>, Empty>);
rule!(RG, R::D, Sequence2<T, Empty, RB<'i>, Empty>, Sequence2<T, Empty, RB<'i>, Empty>, Sequence2<T, Empty, RB<'static>, Empty>, T);
// D = { A ~ (D | B)? }
rule!(RR, R::D, Sequence2<RA<'i>, Empty, Option<Choice2<RR<'i>, RB<'i>>>, Empty>, Box<Sequence2<RA<'i>, Empty, Option<Choice2<RR<'i>, RB<'i>>>, Empty>>, Sequence2<RA<'static>, Empty, Option<Choice2<RR<'static>, RB<'static>>>, Empty>);
rule!(RP, R::C, push<RA<'i>>, push<RA<'i>>, push<RA<'static>>);
rule!(RQ, R::B, pop<'i>, pop<'i>, pop<'static>);
rule!(RE, R::A, Empty, Empty, Empty);


// rules around any content
rule!(RX, R::C, T, T, T, T);
rule!(RY, R::D, T, T, T, T);
