// Contracts for pest3_core. Text outside `//@` directives is specification, lemma or (where
// marked TRUSTED) an assumed contract on the standard library. Bodies of the functions named by
// `//@fn` / `//@free` / `//@close` are taken from the compiler's expansion of /repo on every run.
//@modules position span typed template tracker traits wrapper choice sequence token formatter unicode error repetition
//@ident NeverFailedTypedNode NeverFailedTypedNode
//@rename get 1 vx_get
//@rename starts_with 1 vx_starts_with
//@rename ends_with 1 vx_ends_with
//@rename strip_prefix 1 vx_strip_prefix
//@rename is_char_boundary 1 vx_is_char_boundary
//@rename eq_ignore_ascii_case 1 vx_eq_ignore_ascii_case
//@rename char_indices 0 vx_char_indices
//@rename rev 0 vx_rev
//@rename peekable 0 vx_peekable
//@rename encode_utf8 1 vx_encode_utf8
//@rename cmp 1 vx_cmp
//@path ptr::eq vx_ptr_eq
//@path core::ptr::eq vx_ptr_eq
//@path std::ptr::eq vx_ptr_eq
//@path core::cmp::min vx_min
//@path core::cmp::max vx_max
//@path std::cmp::min vx_min
//@path std::cmp::max vx_max
//@path cmp::min vx_min
//@path cmp::max vx_max
//@rename start_bound 0 vx_start_bound
//@rename end_bound 0 vx_end_bound
//@rename min 1 vx_min
//@rename max 1 vx_max
//@path String StringWrapper
//@path Bound Bound
// Names the implementing type's own specification functions inside each trait method, so that the
// verifier sees their definitions before the method (it orders definitions by static references).
//@prologue TypedNode broadcast use frames::lemma_mark_mark; let ghost _vx0 = |i: Position<'i>, s: St<'i>, t: TV<'i, R>, n: Self| (<Self as TypedNode<'i, R>>::sem(i, s), <Self as TypedNode<'i, R>>::trk(i, s, t), <Self as TypedNode<'i, R>>::node_ok(&n, i, s));
//@prologue NeverFailedTypedNode let ghost _vx0 = |i: Position<'i>, s: St<'i>, n: Self| (<Self as NeverFailedTypedNode<'i, R>>::nf_sem(i, s), <Self as NeverFailedTypedNode<'i, R>>::nf_ok(&n, i, s));
//@prologue Ord let ghost _vx0 = |a: Self, b: Self| (<Self as VxCmp>::cmp_req(&a, &b), <Self as VxCmp>::cmp_spec(&a, &b));
//@prologue Iterator let ghost _vx0 = |a: Self, b: Self, r: Option<Self::Item>| (<Self as VxIterator>::inv(&a), <Self as VxIterator>::step(&a, &b, r));
#![allow(unused_imports, unused_mut, unused_variables, dead_code, non_camel_case_types, unused_parens, unused_braces, unused_unsafe, unused_assignments)]
#![allow(private_interfaces)]
#![feature(sized_hierarchy)]
use core::cmp::Ordering;
use core::marker::PhantomData;
use core::ops::{RangeBounds, Range, RangeFrom, RangeTo, RangeInclusive, Bound, Index};
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {

// ---------------------------------------------------------------- TRUSTED: panics
/// Any panic of the real code is an obligation that it is unreachable.
#[verifier::external_body]
pub fn vx_panic() -> !
    requires false,
{
    panic!()
}

/// Pointer identity of two string slices. Assumed: identical pointers imply equal strings, and
/// (modelling decision) equal ghost values are the same slice.
#[verifier::external_body]
pub fn vx_ptr_eq(a: &str, b: &str) -> (r: bool)
    ensures r == (a == b),
{
    core::ptr::eq(a, b)
}
/// TRUSTED: `rev` on slice iterators (vstd's own assumed contract, restated so that the verifier orders it before its users).
pub trait VxRev: Sized {
    type Out;
    fn vx_rev(self) -> (r: Self::Out);
}
impl<'a, T> VxRev for core::slice::Iter<'a, T> {
    type Out = core::iter::Rev<core::slice::Iter<'a, T>>;
    #[verifier::external_body]
    fn vx_rev(self) -> (r: Self::Out)
        ensures
            vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&self) ==> vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r),
            vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&self) && vstd::std_specs::iter::IteratorSpec::decrease(&self) is Some ==> vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some
                && vstd::std_specs::iter::IteratorSpec::remaining(&r) =~= vstd::std_specs::iter::IteratorSpec::remaining(&self).reverse(),
    { self.rev() }
}
pub mod seqs {
    use super::*;
pub broadcast proof fn lemma_push_drop<T>(s: Seq<T>, x: T)
    ensures #[trigger] s.push(x).drop_last() == s, s.push(x).last() == x,
{ assert(s.push(x).drop_last() =~= s); }
}
