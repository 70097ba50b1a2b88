// pest::Stack, the match stack: the contract that 40_stack.rs assumes, discharged on pest's own source
// (the version that /repo's Cargo.lock names). Here the two abstract functions are defined.
//@modules stack
//@rename drain 1 vx_drain
//@rename extend 1 vx_extend
/// TRUSTED: `Vec::drain` over two kinds of range, whose result is dropped or reversed and appended.
pub struct Drained<T> { pub rest: Vec<T> }
pub trait VxDrain<T, Q>: Sized {
    spec fn in_range(&self, q: Q) -> bool;
    fn vx_drain(&mut self, q: Q) -> (r: Drained<T>)
        requires old(self).in_range(q);
}
impl<T> VxDrain<T, Range<usize>> for Vec<T> {
    open spec fn in_range(&self, q: Range<usize>) -> bool { q.start <= q.end <= self@.len() }
    #[verifier::external_body]
    fn vx_drain(&mut self, q: Range<usize>) -> (r: Drained<T>)
        ensures final(self)@ == old(self)@.take(q.start as int) + old(self)@.skip(q.end as int), r.rest@ == old(self)@.subrange(q.start as int, q.end as int),
    { Drained { rest: self.drain(q).collect() } }
}
impl<T> VxDrain<T, RangeFrom<usize>> for Vec<T> {
    open spec fn in_range(&self, q: RangeFrom<usize>) -> bool { q.start <= self@.len() }
    #[verifier::external_body]
    fn vx_drain(&mut self, q: RangeFrom<usize>) -> (r: Drained<T>)
        ensures final(self)@ == old(self)@.take(q.start as int), r.rest@ == old(self)@.skip(q.start as int),
    { Drained { rest: self.drain(q).collect() } }
}
impl<T> VxRev for Drained<T> {
    type Out = Vec<T>;
    #[verifier::external_body]
    fn vx_rev(self) -> (r: Vec<T>)
        ensures r@ == self.rest@.reverse(),
    { self.rest.into_iter().rev().collect() }
}
pub trait VxExtend<T> { fn vx_extend(&mut self, more: Vec<T>); }
impl<T> VxExtend<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_extend(&mut self, more: Vec<T>)
        ensures final(self)@ == old(self)@ + more@,
    { self.extend(more) }
}
pub trait VxMinU: Sized { fn vx_min(self, o: usize) -> (r: usize); }
impl VxMinU for usize {
    #[verifier::external_body]
    fn vx_min(self, o: usize) -> (r: usize)
        ensures r == (if self <= o { self } else { o }),
    { self.min(o) }
}
/// TRUSTED: dropping the drained elements has no further effect
#[verifier::external_body]
pub fn drop<T>(x: T) { }
/// TRUSTED: `clone` gives an equal value (for the spans that are pushed: a derived Clone of a Copy type)
#[verifier::external_body]
pub proof fn axiom_clone<T: Clone>(a: T, b: T)
    requires call_ensures(T::clone, (&a,), b), ensures a == b,
{ }
pub open spec fn remade<T>(cache: Seq<T>, popped: Seq<T>, top: (usize, usize)) -> Seq<T> {
    cache.take(top.1 as int) + popped.skip(popped.len() - (top.0 - top.1)).reverse()
}
/// contents at each live snapshot, oldest first
pub open spec fn snaps_of<T>(cache: Seq<T>, popped: Seq<T>, lengths: Seq<(usize, usize)>) -> Seq<Seq<T>>
    decreases lengths.len()
{
    if lengths.len() == 0 { Seq::empty() } else {
        let top = lengths.last();
        let c = remade(cache, popped, top);
        snaps_of(c, popped.take(popped.len() - (top.0 - top.1)), lengths.drop_last()).push(c)
    }
}
pub open spec fn stack_inv<T>(cache: Seq<T>, popped: Seq<T>, lengths: Seq<(usize, usize)>) -> bool
    decreases lengths.len()
{
    if lengths.len() == 0 { popped.len() == 0 } else {
        let top = lengths.last();
        &&& top.1 <= top.0 && top.1 <= cache.len() && top.0 - top.1 <= popped.len()
        &&& stack_inv(remade(cache, popped, top), popped.take(popped.len() - (top.0 - top.1)), lengths.drop_last())
    }
}
pub proof fn lemma_same<T>(c: Seq<T>, c2: Seq<T>, popped: Seq<T>, lengths: Seq<(usize, usize)>)
    requires stack_inv(c, popped, lengths), lengths.len() > 0, lengths.last().1 <= c2.len(), c2.take(lengths.last().1 as int) == c.take(lengths.last().1 as int),
    ensures stack_inv(c2, popped, lengths), snaps_of(c2, popped, lengths) == snaps_of(c, popped, lengths),
{}
/// popping an element that belongs to the newest snapshot
pub proof fn lemma_pop<T>(c: Seq<T>, popped: Seq<T>, lengths: Seq<(usize, usize)>, l2: Seq<(usize, usize)>)
    requires stack_inv(c, popped, lengths), lengths.len() > 0, c.len() > 0, lengths.last().1 == c.len(),
        l2 == lengths.update(lengths.len() - 1, (lengths.last().0, (lengths.last().1 - 1) as usize)),
    ensures stack_inv(c.drop_last(), popped.push(c.last()), l2), snaps_of(c.drop_last(), popped.push(c.last()), l2) == snaps_of(c, popped, lengths),
{
    let p2 = popped.push(c.last());
    let (t, t2) = (lengths.last(), l2.last());
    assert(l2.drop_last() =~= lengths.drop_last());
    assert(p2.take(p2.len() - (t2.0 - t2.1)) =~= popped.take(popped.len() - (t.0 - t.1)));
    assert(remade(c.drop_last(), p2, t2) =~= remade(c, popped, t));
}
pub proof fn lemma_clear<T>(c: Seq<T>, popped: Seq<T>, lengths: Seq<(usize, usize)>, p2: Seq<T>, l2: Seq<(usize, usize)>)
    requires stack_inv(c, popped, lengths), lengths.len() > 1,
        ({
            let n = lengths.len() as int; let (top, par) = (lengths[n - 1], lengths[n - 2]);
            let m = if par.1 <= top.1 { par.1 } else { top.1 };
            let start = popped.len() - (top.0 - top.1);
            let keep = par.1 - m;
            &&& l2 == lengths.drop_last().update(n - 2, (par.0, m))
            &&& p2 == popped.take(start) + popped.skip(start + (top.0 - top.1) - keep)
        }),
    ensures stack_inv(c, p2, l2), snaps_of(c, p2, l2) == snaps_of(c, popped, lengths).drop_last(),
{
    let n = lengths.len() as int; let (top, par) = (lengths[n - 1], lengths[n - 2]);
    let d = lengths.drop_last();
    let start = popped.len() - (top.0 - top.1);
    let (r1, q1) = (remade(c, popped, top), popped.take(start));
    assert(d.last() == par);
    assert(stack_inv(r1, q1, d));
    assert(par.1 <= r1.len());
    let t2 = l2.last();
    assert(l2.drop_last() =~= d.drop_last());
    assert(p2.take(p2.len() - (t2.0 - t2.1)) =~= q1.take(q1.len() - (par.0 - par.1)));
    assert(remade(c, p2, t2) =~= remade(r1, q1, par));
    let s = snaps_of(r1, q1, d);
    assert(s.push(r1).drop_last() =~= s);
}
pub mod step {
    use super::*;
    pub open spec fn upd(l: Seq<(usize, usize)>, l2: Seq<(usize, usize)>, top: (int, int)) -> bool {
        &&& l.len() == l2.len() > 0 && l2.last().0 == top.0 && l2.last().1 == top.1
        &&& forall |i: int| 0 <= i < l.len() - 1 ==> l2[i] == #[trigger] l[i]
    }
    pub broadcast proof fn pop<T>(c: Seq<T>, p: Seq<T>, l: Seq<(usize, usize)>, c2: Seq<T>, p2: Seq<T>, l2: Seq<(usize, usize)>)
        requires #[trigger] stack_inv(c, p, l), c.len() > 0, l.len() > 0, l.last().1 == c.len(), c2 =~= c.drop_last(), p2 =~= p.push(c.last()), upd(l, l2, (l.last().0 as int, l.last().1 - 1)),
        ensures #[trigger] stack_inv(c2, p2, l2), snaps_of(c2, p2, l2) == snaps_of(c, p, l),
    { assert(l2 =~= l.update(l.len() - 1, (l.last().0, (l.last().1 - 1) as usize))); lemma_pop(c, p, l, l2); }
    pub broadcast proof fn same<T>(c: Seq<T>, p: Seq<T>, l: Seq<(usize, usize)>, c2: Seq<T>, p2: Seq<T>, l2: Seq<(usize, usize)>)
        requires c =~= c2, p =~= p2, l =~= l2,
        ensures #[trigger] snaps_of(c2, p2, l2) == #[trigger] snaps_of(c, p, l),
    { }
    pub broadcast proof fn same_inv<T>(c: Seq<T>, p: Seq<T>, l: Seq<(usize, usize)>, c2: Seq<T>, p2: Seq<T>, l2: Seq<(usize, usize)>)
        requires c =~= c2, p =~= p2, l =~= l2,
        ensures #[trigger] stack_inv(c2, p2, l2) == #[trigger] stack_inv(c, p, l),
    { }
    /// popping an element pushed after the newest snapshot
    pub broadcast proof fn own<T>(c: Seq<T>, p: Seq<T>, l: Seq<(usize, usize)>, c2: Seq<T>, p2: Seq<T>, l2: Seq<(usize, usize)>)
        requires #[trigger] stack_inv(c, p, l), l.len() > 0, c2.len() < c.len(), l.last().1 < c.len(), c2 =~= c.drop_last(), p2 =~= p, l2 =~= l,
        ensures #[trigger] stack_inv(c2, p2, l2), snaps_of(c2, p2, l2) == snaps_of(c, p, l),
    { let k = l.last().1 as int; assert(c2.take(k) =~= c.take(k)); lemma_same(c, c2, p, l); }
    pub broadcast proof fn clear<T>(c: Seq<T>, p: Seq<T>, l: Seq<(usize, usize)>, c2: Seq<T>, p2: Seq<T>, l2: Seq<(usize, usize)>)
        requires #[trigger] stack_inv(c, p, l), c2 == c, l.len() > 1,
            ({ let n = l.len() as int; let (top, par) = (l[n - 1], l[n - 2]); let m = if par.1 <= top.1 { par.1 } else { top.1 };
               let start = p.len() - (top.0 - top.1); let keep = par.1 - m;
               upd(l.drop_last(), l2, (par.0 as int, m as int)) && p2 =~= p.take(start) + p.skip(start + (top.0 - top.1) - keep) }),
        ensures #[trigger] stack_inv(c2, p2, l2), snaps_of(c2, p2, l2) == snaps_of(c, p, l).drop_last(),
    {
        let n = l.len() as int; let (top, par) = (l[n - 1], l[n - 2]); let m = if par.1 <= top.1 { par.1 } else { top.1 };
        assert(l2 =~= l.drop_last().update(n - 2, (par.0, m)));
        lemma_clear(c, p, l, p2, l2);
    }
    pub broadcast proof fn snap<T>(c: Seq<T>, p: Seq<T>, l: Seq<(usize, usize)>, c2: Seq<T>, p2: Seq<T>, l2: Seq<(usize, usize)>)
        requires #[trigger] stack_inv(c, p, l), c2 == c, p2 == p, l2.len() > 0, l2.drop_last() =~= l, l2.last().0 == c.len(), l2.last().1 == c.len(),
        ensures #[trigger] stack_inv(c2, p2, l2), snaps_of(c2, p2, l2) == snaps_of(c, p, l).push(c),
    { assert(l2.drop_last() =~= l); assert(remade(c, p, l2.last()) =~= c); assert(p.take(p.len() as int) =~= p); }
    pub broadcast proof fn restore<T>(c: Seq<T>, p: Seq<T>, l: Seq<(usize, usize)>, c2: Seq<T>, p2: Seq<T>, l2: Seq<(usize, usize)>)
        requires #[trigger] stack_inv(c, p, l), l.len() > 0, c2 =~= remade(c, p, l.last()), p2 =~= p.take(p.len() - (l.last().0 - l.last().1)), l2 =~= l.drop_last(),
        ensures #[trigger] stack_inv(c2, p2, l2), snaps_of(c, p, l).last() == c2, snaps_of(c, p, l).drop_last() == snaps_of(c2, p2, l2),
    { assert(snaps_of(c2, p2, l2).push(c2).drop_last() =~= snaps_of(c2, p2, l2)); }
    pub proof fn one<T>(c: Seq<T>, p: Seq<T>, l: Seq<(usize, usize)>)
        requires stack_inv(c, p, l), l.len() == 1,
        ensures p.len() == l.last().0 - l.last().1, snaps_of(c, p, l).drop_last() == Seq::<Seq<T>>::empty(),
    { let d = l.drop_last(); let (r, q) = (remade(c, p, l.last()), p.take(p.len() - (l.last().0 - l.last().1))); assert(d.len() == 0); assert(stack_inv(r, q, d)); assert(snaps_of(r, q, d).len() == 0); assert(snaps_of(c, p, l).drop_last() =~= Seq::<Seq<T>>::empty()); }
    /// what an invariant says about the newest two snapshots
    pub proof fn top<T>(c: Seq<T>, p: Seq<T>, l: Seq<(usize, usize)>)
        requires stack_inv(c, p, l), l.len() > 1,
        ensures l[l.len() - 2].1 <= l.last().0, l[l.len() - 2].1 <= l[l.len() - 2].0,
    { let d = l.drop_last(); let r = remade(c, p, l.last()); assert(stack_inv(r, p.take(p.len() - (l.last().0 - l.last().1)), d)); assert(d.last() == l[l.len() - 2]); }
}
//@item pest Stack
impl<T: Clone> Stack<T> {
    pub closed spec fn inv(&self) -> bool { stack_inv(self.cache@, self.popped@, self.lengths@) }
    pub closed spec fn view(&self) -> Seq<T> { self.cache@ }
    pub closed spec fn snaps(&self) -> Seq<Seq<T>> { snaps_of(self.cache@, self.popped@, self.lengths@) }
}
//@open pest impl Stack
//@fn new
    ensures r.inv(), r@ == Seq::<T>::empty(), r.snaps() == Seq::<Seq<T>>::empty(),
//@fn is_empty
    requires self.inv(),
    ensures r == (self@.len() == 0),
//@fn len
    requires self.inv(),
    ensures r == self@.len(),
//@fn peek
    requires self.inv(),
    ensures match r { Some(x) => self@.len() > 0 && *x == self@.last(), None => self@.len() == 0 },
//@fn push
    requires old(self).inv(),
    ensures final(self).inv(), final(self)@ == old(self)@.push(elem), final(self).snaps() == old(self).snaps(),
//@start
    let ghost c0 = self.cache@;
    proof { if self.lengths@.len() > 0 { let k = self.lengths@.last().1 as int; assert(c0.push(elem).take(k) =~= c0.take(k)); lemma_same(c0, c0.push(elem), self.popped@, self.lengths@); } }
//@fn pop
    requires old(self).inv(),
    ensures final(self).inv(),
        final(self).snaps() == old(self).snaps(),
        old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
        old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
//@start
    broadcast use step::same; broadcast use step::same_inv;
    let ghost (c0, p0, l0) = (self.cache@, self.popped@, self.lengths@);
    proof { if l0.len() > 0 && c0.len() > 0 {
        let t = l0.last();
        if t.1 == c0.len() {
            lemma_pop(c0, p0, l0, l0.update(l0.len() - 1, (t.0, (t.1 - 1) as usize)));
            assert forall |b: T| #[trigger] call_ensures(T::clone, (&c0.last(),), b) implies b == c0.last() by { axiom_clone(c0.last(), b); }
        } else { step::own(c0, p0, l0, c0.drop_last(), p0, l0); }
    } }
//@fn snapshot
    requires old(self).inv(),
    ensures final(self).inv(), final(self)@ == old(self)@, final(self).snaps() == old(self).snaps().push(old(self)@),
//@start
    broadcast use step::snap;
//@fn clear_snapshot
    requires old(self).inv(),
    ensures final(self).inv(), final(self)@ == old(self)@,
        final(self).snaps() == (if old(self).snaps().len() > 0 { old(self).snaps().drop_last() } else { old(self).snaps() }),
//@start
    broadcast use step::clear;
    let ghost (c0, p0, l0) = (self.cache@, self.popped@, self.lengths@);
    proof { if l0.len() > 1 { step::top(c0, p0, l0); } if l0.len() == 1 { step::one(c0, p0, l0); } }
//@fn restore
    requires old(self).inv(),
    ensures final(self).inv(),
        old(self).snaps().len() > 0 ==> final(self)@ =~= old(self).snaps().last(),
        old(self).snaps().len() > 0 ==> final(self).snaps() == old(self).snaps().drop_last(),
        old(self).snaps().len() == 0 ==> final(self)@ == Seq::<T>::empty() && final(self).snaps() == old(self).snaps(),
//@start
    broadcast use step::same; broadcast use step::same_inv;
    let ghost (c0, p0, l0) = (self.cache@, self.popped@, self.lengths@);
    proof { if l0.len() > 0 {
        let (c1, p1) = (remade(c0, p0, l0.last()), p0.take(p0.len() - (l0.last().0 - l0.last().1)));
        step::restore(c0, p0, l0, c1, p1, l0.drop_last());
    } }
//@close
