// pest3_meta: from a module path in a grammar to the file it names
//@path String String
//@path AsRef VxAsRef
//@path PathBuf PathBuf
//@path Path Path
//@rename to_owned 0 vx_to_owned
/// TRUSTED: a file path is the sequence of its components (no `.` component, no root: the model is
/// of relative paths; an absolute one differs by a prefix that nothing here touches)
#[verifier::external_body]
pub struct Path { p: std::path::PathBuf }
impl View for Path { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
#[verifier::external_body]
pub struct PathBuf { p: std::path::PathBuf }
impl View for PathBuf { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
pub trait VxAsRef<T> {
    spec fn refd(&self) -> T;
    fn as_ref(&self) -> (r: &T)
        ensures *r == self.refd();
}
/// what `Path::with_extension` makes of a file name: the stem (up to the last dot, if that is not the first character), a dot, the extension
pub uninterp spec fn stem(name: Seq<char>) -> Seq<char>;
pub open spec fn up() -> Seq<char> { seq!['.', '.'] }
/// one component: no separator, not empty, no dot in it
pub open spec fn plain(s: Seq<char>) -> bool { s.len() > 0 && !s.contains('.') && !s.contains('/') && !s.contains('\\') && !s.contains(':') }
#[verifier::external_body]
pub broadcast proof fn axiom_stem(s: Seq<char>)
    requires plain(s),
    ensures #[trigger] stem(s) == s,
{ }
impl Path {
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>)
        ensures self@.len() > 0 && self@.last() != up() ==> r is Some && r->0@ == self@.drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_to_owned(&self) -> (r: PathBuf)
        ensures r@ == self@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf)
        ensures r@ == self@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_extension(&self, e: &str) -> (r: PathBuf)
        ensures
            self@.len() == 0 || self@.last() == up() ==> r@ == self@,
            self@.len() > 0 && self@.last() != up() ==> r@ == self@.drop_last().push(stem(self@.last()) + (seq!['.'] + e@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: PathBuf)
        ensures plain(s@) || s@ == up() ==> r@ == self@.push(s@),
    { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    pub fn push(&mut self, s: &str)
        ensures plain(s@) || s@ == up() ==> final(self)@ == old(self)@.push(s@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: bool)
        ensures old(self)@.len() > 0 ==> r && final(self)@ == old(self)@.drop_last(), old(self)@.len() == 0 ==> !r && final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_extension(&mut self, e: &str) -> (r: bool)
        ensures
            old(self)@.len() == 0 || old(self)@.last() == up() ==> !r && final(self)@ == old(self)@,
            old(self)@.len() > 0 && old(self)@.last() != up() ==> r && final(self)@ == old(self)@.drop_last().push(stem(old(self)@.last()) + (seq!['.'] + e@)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_extension(&self, e: &str) -> (r: PathBuf)
        ensures
            self@.len() == 0 || self@.last() == up() ==> r@ == self@,
            self@.len() > 0 && self@.last() != up() ==> r@ == self@.drop_last().push(stem(self@.last()) + (seq!['.'] + e@)),
    { unimplemented!() }
}
/// the directory or file a component of a module path names
pub open spec fn comp(s: Seq<char>) -> Seq<char> { if s == "super"@ { up() } else { s } }
pub open spec fn comps(p: Seq<String>, n: int) -> Seq<Seq<char>> { Seq::new(n as nat, |i: int| comp(p[i]@)) }
/// components of which the last names a file
pub open spec fn resolvable(p: Seq<String>) -> bool { p.len() > 0 && p.last()@ != "super"@ && forall |i: int| 0 <= i < p.len() ==> plain(#[trigger] p[i]@) }
//@free meta mod_path_to_fs_path
    requires root.refd()@.len() > 0, root.refd()@.last() != up(),
    ensures
        resolvable(mod_path@) ==> r@ =~= root.refd()@.drop_last() + comps(mod_path@, mod_path@.len() - 1) + seq![mod_path@.last()@ + ".pest"@],
//@start
broadcast use str_eq; broadcast use axiom_stem;
proof { reveal_strlit(".."); reveal_strlit("super"); reveal_strlit("pest"); reveal_strlit(".pest"); assert(".pest"@ =~= seq!['.'] + "pest"@); assert(".."@ =~= up()); assert("super"@[0] == 's'); }
//@noiso
//@loop 0
    invariant
        it0.seq().len() == mod_path@.len(), forall |i: int| 0 <= i < mod_path@.len() ==> *(#[trigger] it0.seq()[i]) == mod_path@[i],
        resolvable(mod_path@) ==> path@ =~= root.refd()@.drop_last() + comps(mod_path@, it0.index@ as int),
//@end
