//@known Tracker::collect
// ---------------------------------------------------------------- failure tracker
pub use rules::RuleType;
pub mod rules {
    use super::*;
//@open core trait RuleType
//@close
    /// TRUSTED: equality of rules is structural (rule enums derive `Eq`).
    pub broadcast axiom fn axiom_rule_eq<R: RuleType>(a: R, b: R)
        ensures #[trigger] a.eq_spec(&b) == (a == b),
    ;
    pub broadcast axiom fn axiom_rule_obeys<R: RuleType>()
        ensures #[trigger] <R as PartialEqSpec>::obeys_eq_spec(),
    ;
}
/// TRUSTED: `alloc::collections::BTreeMap` as a finite map.
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { m: std::collections::BTreeMap<K, V> }
impl<K, V> BTreeMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<K, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == Map::<K, V>::empty(),
    { unimplemented!() }
    /// `entry(k).or_default()`
    #[verifier::external_body]
    pub fn vx_entry_or_default<'a>(&'a mut self, k: K) -> (r: &'a mut V) where V: Default
        ensures
            old(self)@.dom().contains(k) ==> *r == old(self)@[k],
            !old(self)@.dom().contains(k) ==> call_ensures(V::default, (), *r),
            final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
}
//@item core SpecialError
//@item core Tracked
//@item core Tracker
/// attempts recorded under one upper rule: expected, unexpected, special
#[verifier::ext_equal]
pub ghost struct Att<R> { pub exp: Seq<R>, pub unexp: Seq<R>, pub spec: Seq<SpecialError> }
pub open spec fn att<R>(t: Tracked<R>) -> Att<R> { Att { exp: t.0@, unexp: t.1@, spec: t.2@ } }
pub open spec fn att0<R>() -> Att<R> { Att { exp: seq![], unexp: seq![], spec: seq![] } }
/// abstract state of a tracker
#[verifier::ext_equal]
pub ghost struct TV<'i, R> {
    /// furthest position recorded at
    pub position: Position<'i>,
    /// lookahead polarity
    pub positive: bool,
    /// enclosing rules, innermost last: rule, start, has a nested rule attempt
    pub stack: Seq<(R, Position<'i>, bool)>,
    /// attempts made at `position`, by upper rule
    pub attempts: Map<Option<R>, Att<R>>,
}
pub open spec fn amap<R>(m: Map<Option<R>, Tracked<R>>) -> Map<Option<R>, Att<R>> { m.map_values(|t: Tracked<R>| att(t)) }
impl<'i, R: RuleType> Tracker<'i, R> {
    pub open spec fn view(&self) -> TV<'i, R> {
        TV { position: self.position, positive: self.positive, stack: self.stack@, attempts: amap(self.attempts@) }
    }
}
impl<'i, R> TV<'i, R> {
    /// tracker about `input`, whose positions are valid
    pub open spec fn wf(self, input: &'i str) -> bool { self.position.wf() && self.position.input == input }
    pub open spec fn start(pos: Position<'i>) -> TV<'i, R> {
        TV { position: pos, positive: true, stack: seq![], attempts: Map::empty() }
    }
    /// move to `pos` if it is further, forgetting attempts made before
    pub open spec fn at(self, pos: Position<'i>) -> TV<'i, R> {
        if pos.pos > self.position.pos { TV { position: pos, attempts: Map::empty(), ..self } } else { self }
    }
    /// nearest enclosing rule that started elsewhere
    pub open spec fn upper(self, pos: Position<'i>) -> Option<R> { upper_of(self.stack, pos) }
    pub open spec fn entry(self, k: Option<R>) -> Att<R> { if self.attempts.dom().contains(k) { self.attempts[k] } else { att0() } }
    pub open spec fn put(self, k: Option<R>, a: Att<R>) -> TV<'i, R> { TV { attempts: self.attempts.insert(k, a), ..self } }
    /// a special failure at `pos`
    pub open spec fn special(self, pos: Position<'i>, e: SpecialError) -> TV<'i, R> {
        if pos.pos < self.position.pos { self } else {
            let t = self.at(pos);
            let k = t.upper(pos);
            t.put(k, Att { spec: t.entry(k).spec.push(e), ..t.entry(k) })
        }
    }
    /// outcome of a childless rule attempt at `pos`
    pub open spec fn record(self, rule: R, pos: Position<'i>, succeeded: bool) -> TV<'i, R> {
        if pos.pos < self.position.pos { self } else {
            let t = self.at(pos);
            if succeeded == t.positive { t } else {
                let k = t.upper(pos);
                let a = t.entry(k);
                t.put(k, if t.positive { Att { exp: add_new(a.exp, rule), ..a } } else { Att { unexp: add_new(a.unexp, rule), ..a } })
            }
        }
    }
    /// start of an attempt of `rule` at `pos`
    pub open spec fn enter(self, rule: R, pos: Position<'i>) -> TV<'i, R> {
        TV { stack: mark_last(self.stack).push((rule, pos, false)), ..self }
    }
    /// end of the innermost rule attempt
    pub open spec fn leave(self, rule: R, pos: Position<'i>, succeeded: bool) -> TV<'i, R> {
        let t = TV { stack: self.stack.drop_last(), ..self };
        if self.stack.last().2 { t } else { t.record(rule, pos, succeeded) }
    }
    pub open spec fn polarity(self, b: bool) -> TV<'i, R> { TV { positive: b, ..self } }
    /// what every parse leaves alone: polarity and the enclosing rules (up to the innermost one's
    /// "has nested attempt" mark); and the position only moves forward
    pub open spec fn le(self, o: TV<'i, R>) -> bool {
        &&& o.positive == self.positive
        &&& same_frames(self.stack, o.stack)
        &&& o.position.pos >= self.position.pos
        &&& o.position.pos == self.position.pos ==> o.position == self.position
    }
}
pub open spec fn same_frames<'i, R>(a: Seq<(R, Position<'i>, bool)>, b: Seq<(R, Position<'i>, bool)>) -> bool {
    a == b || b == mark_last(a)
}
pub open spec fn mark_last<'i, R>(s: Seq<(R, Position<'i>, bool)>) -> Seq<(R, Position<'i>, bool)> {
    if s.len() == 0 { s } else { s.update(s.len() - 1, (s.last().0, s.last().1, true)) }
}
pub mod frames {
    use super::*;
    pub broadcast proof fn lemma_mark_mark<'i, R>(s: Seq<(R, Position<'i>, bool)>)
        ensures #[trigger] mark_last(mark_last(s)) == mark_last(s),
    { if s.len() > 0 { assert(mark_last(mark_last(s)) =~= mark_last(s)); } }
}
/// append unless already the last one
pub open spec fn add_new<R>(s: Seq<R>, r: R) -> Seq<R> { if s.len() > 0 && s.last() == r { s } else { s.push(r) } }
pub open spec fn upper_of<'i, R>(s: Seq<(R, Position<'i>, bool)>, pos: Position<'i>) -> Option<R>
    decreases s.len()
{
    if s.len() == 0 { None } else if s.last().1 != pos { Some(s.last().0) } else { upper_of(s.drop_last(), pos) }
}
pub broadcast proof fn lemma_att_default<R>(t: Tracked<R>)
    requires t.0@.len() == 0, t.1@.len() == 0, t.2@.len() == 0,
    ensures #[trigger] att(t) == att0::<R>(),
{ assert(t.0@ =~= seq![]); assert(t.1@ =~= seq![]); assert(t.2@ =~= seq![]); }
pub broadcast proof fn lemma_amap_insert<R>(m: Map<Option<R>, Tracked<R>>, k: Option<R>, v: Tracked<R>)
    ensures #[trigger] amap(m.insert(k, v)) == amap(m).insert(k, att(v))
{ assert(amap(m.insert(k, v)) =~= amap(m).insert(k, att(v))); }
pub proof fn lemma_amap_empty<R>()
    ensures amap(Map::<Option<R>, Tracked<R>>::empty()) == Map::<Option<R>, Att<R>>::empty()
{ assert(amap(Map::<Option<R>, Tracked<R>>::empty()) =~= Map::<Option<R>, Att<R>>::empty()); }
//@open core impl Tracker
//@fn new
    ensures r@ == TV::<R>::start(pos),
//@start
    proof { lemma_amap_empty::<R>(); }
//@fn prepare
    requires pos.input == old(self).position.input,
    ensures r == (pos.pos >= old(self).position.pos), final(self)@ == old(self)@.at(pos),
        r ==> final(self).position == pos || (final(self).position == old(self).position && pos.pos == old(self).position.pos),
//@start
    proof { lemma_amap_empty::<R>(); }
//@fn get_entry
    ensures
        ({ let k = old(self)@.upper(*pos);
           &&& att(*r) == old(self)@.entry(k)
           &&& final(self)@ == old(self)@.put(k, att(*final(r)))
        }),
//@start
    let ghost fr = self.stack@;
    proof { assert(fr.take(fr.len() as int) =~= fr); }
    broadcast use {lemma_amap_insert, lemma_att_default};
//@loop 0
    invariant_except_break
        upper is None, upper_of(fr, *pos) == upper_of(fr.take(fr.len() - it0.index@), *pos),
    invariant
        it0.index@ <= fr.len(), fr == self.stack@, *self == *old(self),
    ensures upper == upper_of(fr, *pos),
//@loopstart 0
    proof {
        let n = fr.len() - it0.index@;
        assert(fr.take(n).drop_last() =~= fr.take(n - 1));
        assert(fr.take(n).last() == fr[n - 1]);
    }
//@fn repeat_too_many_times
    requires pos.input == old(self).position.input,
    ensures final(self)@ == old(self)@.special(pos, SpecialError::RepeatTooManyTimes),
//@fn out_of_bound
    requires pos.input == old(self).position.input,
    ensures final(self)@ == old(self)@.special(pos, SpecialError::SliceOutOfBound(start, end)),
//@fn empty_stack
    requires pos.input == old(self).position.input,
    ensures final(self)@ == old(self)@.special(pos, SpecialError::EmptyStack),
//@fn same_with_last
    ensures r == (vec@.len() > 0 && vec@.last() == rule),
//@fn record
    requires pos.input == old(self).position.input,
    ensures final(self)@ == old(self)@.record(rule, pos, succeeded),
//@fn finish
    ensures r.0 == self@.position, amap(r.1@) == self@.attempts,
//@close
