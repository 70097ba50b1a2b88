// ---------------------------------------------------------------- match stack (pest::Stack)
// The contract of pest's Stack is assumed here and discharged separately against its source
// (contracts/stack, same text).
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Stack<T: Clone> { cache: Vec<T> }
impl<T: Clone> Stack<T> {
    /// contents, bottom first
    pub uninterp spec fn view(&self) -> Seq<T>;
    /// contents at each live snapshot, oldest first
    pub uninterp spec fn snaps(&self) -> Seq<Seq<T>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Seq::<T>::empty(), r.snaps() == Seq::<Seq<T>>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(), r <= isize::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => self@.len() > 0 && *x == self@.last(), None => self@.len() == 0 },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, elem: T)
        ensures final(self)@ == old(self)@.push(elem), final(self).snaps() == old(self).snaps(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<T>)
        ensures
            final(self).snaps() == old(self).snaps(),
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn snapshot(&mut self)
        ensures final(self)@ == old(self)@, final(self).snaps() == old(self).snaps().push(old(self)@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear_snapshot(&mut self)
        ensures final(self)@ == old(self)@,
            final(self).snaps() == (if old(self).snaps().len() > 0 { old(self).snaps().drop_last() } else { old(self).snaps() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn restore(&mut self)
        ensures
            old(self).snaps().len() > 0 ==> final(self)@ == old(self).snaps().last() && final(self).snaps() == old(self).snaps().drop_last(),
            old(self).snaps().len() == 0 ==> final(self)@ == Seq::<T>::empty() && final(self).snaps() == old(self).snaps(),
    { unimplemented!() }
}
impl<T: Clone> VxGet<Range<usize>> for Stack<T> {
    type Out = [T];
    open spec fn get_post(&self, i: Range<usize>, r: Option<&[T]>) -> bool {
        &&& r is Some <==> i.start <= i.end <= self@.len()
        &&& r is Some ==> r->0@ == self@.subrange(i.start as int, i.end as int)
    }
    #[verifier::external_body]
    fn vx_get(&self, i: Range<usize>) -> (r: Option<&[T]>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_index(&self, i: Range<usize>) -> (r: &[T]) { unimplemented!() }
}
pub type St<'i> = Seq<Span<'i>>;
/// every recorded span is a valid span of its input
pub open spec fn st_wf<'i>(s: St<'i>) -> bool { forall |i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() }
