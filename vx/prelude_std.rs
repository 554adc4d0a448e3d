pub mod vx_std {
use super::*;
verus! {
// ---------- trusted: standard library functions without a vstd specification
pub assume_specification<T, const N: usize, F: FnMut(T) -> U, U>[ <[T; N]>::map::<F, U> ](a: [T; N], f: F) -> (r: [U; N])
    requires forall|i: int| 0 <= i < N ==> call_requires(f, (#[trigger] a@[i],)),
    ensures forall|i: int| 0 <= i < N ==> call_ensures(f, (a@[i],), #[trigger] r@[i]);
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct ExIntoIter<T, const N: usize>(IntoIter<T, N>);
pub assume_specification<T, const N: usize>[ <[T; N] as IntoIterator>::into_iter ](a: [T; N]) -> (r: <[T; N] as IntoIterator>::IntoIter)
    ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.remaining() == a@, r.decrease() is Some;
pub assume_specification<'a, T>[ <&'a mut [T] as IntoIterator>::into_iter ](s: &'a mut [T]) -> (r: core::slice::IterMut<'a, T>)
    ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some, r.remaining().len() == old(s)@.len(),
        forall|i: int| 0 <= i < old(s)@.len() ==> *(#[trigger] r.remaining()[i]) == old(s)@[i],
        final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < old(s)@.len() ==> #[trigger] final(s)@[i] == *final(r.remaining()[i]);
pub broadcast axiom fn iter_wrn<'a, T>(i: core::slice::Iter<'a, T>) ensures #[trigger] i.will_return_none();
pub broadcast axiom fn iter_mut_wrn<'a, T>(i: core::slice::IterMut<'a, T>) ensures #[trigger] i.will_return_none();
pub assume_specification<T> [core::mem::replace] (a: &mut T, b: T) -> (r: T) ensures *final(a) == b, r == *old(a);
pub assume_specification<T> [core::mem::forget] (a: T);

// an array is its sequence of elements
pub uninterp spec fn mk_arr<T, const N: usize>(f: spec_fn(int) -> T) -> [T; N];
pub broadcast axiom fn mk_arr_ax<T, const N: usize>(f: spec_fn(int) -> T) ensures (#[trigger] mk_arr::<T, N>(f))@ == Seq::new(N as nat, f);
// terms for the two sides of a Zip
pub open spec fn vx_term<A>(a: A) -> bool { true }
pub broadcast proof fn zip_term<A: Iterator, B: Iterator>(z: core::iter::Zip<A, B>, i: int)
    ensures #![trigger vstd::std_specs::iter::zip_iter_fst(z).remaining()[i]] vx_term(z.remaining()[i]) {}
pub assume_specification [<i8>::abs] (a: i8) -> (r: i8) requires a != i8::MIN ensures r == (if a < 0 { -a } else { a as int });
pub assume_specification [<i16>::abs] (a: i16) -> (r: i16) requires a != i16::MIN ensures r == (if a < 0 { -a } else { a as int });
pub assume_specification [<i32>::abs] (a: i32) -> (r: i32) requires a != i32::MIN ensures r == (if a < 0 { -a } else { a as int });
pub assume_specification [<i64>::abs] (a: i64) -> (r: i64) requires a != i64::MIN ensures r == (if a < 0 { -a } else { a as int });
pub assume_specification [<isize>::abs] (a: isize) -> (r: isize) requires a != isize::MIN ensures r == (if a < 0 { -a } else { a as int });

#[verifier::external_trait_specification]
#[verifier::external_trait_extension(VxSumSpec via VxSumSpecImpl)]
pub trait ExSum<A = Self>: Sized { type ExternalTraitSpecificationFor: core::iter::Sum<A>; spec fn sum_req() -> bool;
    fn sum<I: Iterator<Item = A>>(iter: I) -> (r: Self) requires iter.obeys_prophetic_iter_laws(), Self::sum_req(); }
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(VxProductSpec via VxProductSpecImpl)]
pub trait ExProduct<A = Self>: Sized { type ExternalTraitSpecificationFor: core::iter::Product<A>; spec fn product_req() -> bool;
    fn product<I: Iterator<Item = A>>(iter: I) -> (r: Self) requires iter.obeys_prophetic_iter_laws(), Self::product_req(); }

pub fn vx_assert(b: bool) requires b { }

// reading one value through a pointer to another type of the same layout
pub trait VxCast<B> : Sized { spec fn cast_ok(self, b: B) -> bool; }
#[verifier::external_body]
pub fn vx_ptr_read<A: VxCast<B>, B>(a: &A) -> (r: B) ensures a.cast_ok(r) { unsafe { core::ptr::read(a as *const _ as *const B) } }

// Iterator's provided methods (definitions of the same name are renamed along with their calls)
pub open spec fn chain_ok<S, X, F: FnMut(S, X) -> S>(f: F, s: S, xs: Seq<X>, t: Seq<S>) -> bool {
    t.len() == xs.len() + 1 && t[0] == s && forall|k: int| 0 <= k < xs.len() ==> call_ensures(f, (t[k], xs[k]), #[trigger] t[k + 1])
}
pub open spec fn vfold<S, X>(s: S, xs: Seq<X>, g: spec_fn(S, X) -> S) -> S decreases xs.len() { if xs.len() == 0 { s } else { g(vfold(s, xs.drop_last(), g), xs.last()) } }
pub proof fn chain_vfold<S, X, F: FnMut(S, X) -> S>(f: F, s: S, xs: Seq<X>, t: Seq<S>, g: spec_fn(S, X) -> S)
    requires chain_ok(f, s, xs, t), forall|a: S, i: int, r: S| 0 <= i < xs.len() && #[trigger] call_ensures(f, (a, xs[i]), r) ==> r == g(a, xs[i]),
    ensures t[xs.len() as int] == vfold(s, xs, g),
    decreases xs.len(),
{
    if xs.len() > 0 {
        let ys = xs.drop_last(); let u = t.drop_last();
        assert forall|k: int| 0 <= k < ys.len() implies call_ensures(f, (u[k], ys[k]), #[trigger] u[k + 1]) by { assert(t[k + 1] == u[k + 1]); }
        assert forall|a: S, i: int, r: S| 0 <= i < ys.len() && #[trigger] call_ensures(f, (a, ys[i]), r) implies r == g(a, ys[i]) by { assert(ys[i] == xs[i]); }
        chain_vfold(f, s, ys, u, g);
        let n = xs.len() - 1;
        assert(call_ensures(f, (t[n as int], xs[n as int]), t[n + 1]));
    }
}
// a chain of component-wise steps is a component-wise fold
pub open spec fn cchain<T>(t: Seq<Seq<T>>, n: int, xs: Seq<Seq<T>>, g: spec_fn(T, T) -> T) -> bool {
    t.len() == xs.len() + 1 && forall|k: int, i: int| 0 <= k < xs.len() && 0 <= i < n ==> #[trigger] t[k + 1][i] == g(t[k][i], xs[k][i])
}
pub proof fn cchain_vfold<T>(t: Seq<Seq<T>>, n: int, xs: Seq<Seq<T>>, g: spec_fn(T, T) -> T, i: int)
    requires cchain(t, n, xs, g), 0 <= i < n,
    ensures t[xs.len() as int][i] == vfold(t[0][i], xs.map_values(|x: Seq<T>| x[i]), g),
    decreases xs.len(),
{
    let h = |x: Seq<T>| x[i];
    if xs.len() > 0 {
        cchain_vfold(t.drop_last(), n, xs.drop_last(), g, i);
        assert(xs.map_values(h).drop_last() =~= xs.drop_last().map_values(h));
        let k = xs.len() - 1;
        assert(t[k + 1][i] == g(t[k][i], xs[k][i]));
    }
}
pub trait VxIter: Iterator + Sized {
    fn vx_for_each<F: FnMut(Self::Item)>(self, f: F)
        requires self.obeys_prophetic_iter_laws(), forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[k],)),
        ensures forall|k: int| 0 <= k < self.remaining().len() ==> call_ensures(f, (#[trigger] self.remaining()[k],), ());
    fn vx_fold<S, F: FnMut(S, Self::Item) -> S>(self, s: S, f: F) -> (r: S)
        requires self.obeys_prophetic_iter_laws(), forall|s: S, k: int| 0 <= k < self.remaining().len() ==> #[trigger] call_requires(f, (s, self.remaining()[k])),
        ensures exists|t: Seq<S>| #[trigger] chain_ok(f, s, self.remaining(), t) && r == t[self.remaining().len() as int];
    fn vx_all<F: FnMut(Self::Item) -> bool>(self, f: F) -> (r: bool)
        requires self.obeys_prophetic_iter_laws(), forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[k],)),
        ensures r ==> (forall|k: int| 0 <= k < self.remaining().len() ==> call_ensures(f, (#[trigger] self.remaining()[k],), true)),
            !r ==> (exists|k: int| 0 <= k < self.remaining().len() && call_ensures(f, (#[trigger] self.remaining()[k],), false));
    fn vx_any<F: FnMut(Self::Item) -> bool>(self, f: F) -> (r: bool)
        requires self.obeys_prophetic_iter_laws(), forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[k],)),
        ensures r ==> (exists|k: int| 0 <= k < self.remaining().len() && call_ensures(f, (#[trigger] self.remaining()[k],), true)),
            !r ==> (forall|k: int| 0 <= k < self.remaining().len() ==> call_ensures(f, (#[trigger] self.remaining()[k],), false));
}
pub trait VxIterMap: Iterator + Sized {
    fn vx_map<B, F: FnMut(Self::Item) -> B>(self, f: F) -> (r: core::iter::Map<Self, F>)
        requires self.obeys_prophetic_iter_laws(), forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[k],)),
        ensures r.obeys_prophetic_iter_laws(), self.will_return_none() ==> r.will_return_none(), r.remaining().len() == self.remaining().len(),
            forall|k: int| 0 <= k < self.remaining().len() ==> call_ensures(f, (self.remaining()[k],), #[trigger] r.remaining()[k]);
}
impl<I: Iterator> VxIterMap for I {
    #[verifier::external_body]
    fn vx_map<B, F: FnMut(Self::Item) -> B>(self, f: F) -> (r: core::iter::Map<Self, F>) { self.map(f) }
}
// an iterator over references to a Copy type, by value
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(I)]
pub struct ExCloned<I>(core::iter::Cloned<I>);
pub trait VxIterCloned<'a, T: Copy + 'a>: Iterator<Item = &'a T> + Sized {
    fn vx_cloned(self) -> (r: core::iter::Cloned<Self>)
        requires self.obeys_prophetic_iter_laws(),
        ensures r.obeys_prophetic_iter_laws(), self.will_return_none() ==> r.will_return_none(), r.remaining() == self.remaining().map_values(|x: &'a T| *x);
}
impl<'a, T: Copy + 'a, I: Iterator<Item = &'a T>> VxIterCloned<'a, T> for I {
    #[verifier::external_body]
    fn vx_cloned(self) -> (r: core::iter::Cloned<Self>) { self.cloned() }
}
pub trait VxSlice<'a, T> { fn vx_try_into<const N: usize>(self) -> (r: Result<[T; N], core::array::TryFromSliceError>) where T: Copy ensures r is Ok <==> self.vx_seq().len() == N, r is Ok ==> r->Ok_0@ == self.vx_seq(); spec fn vx_seq(&self) -> Seq<T>; }
impl<'a, T> VxSlice<'a, T> for &'a [T] {
    open spec fn vx_seq(&self) -> Seq<T> { (*self)@ }
    #[verifier::external_body]
    fn vx_try_into<const N: usize>(self) -> (r: Result<[T; N], core::array::TryFromSliceError>) where T: Copy { core::convert::TryInto::try_into(self) }
}
impl<I: Iterator> VxIter for I {
    #[verifier::external_body]
    fn vx_for_each<F: FnMut(Self::Item)>(self, f: F) { self.for_each(f) }
    #[verifier::external_body]
    fn vx_fold<S, F: FnMut(S, Self::Item) -> S>(self, s: S, f: F) -> (r: S) { self.fold(s, f) }
    #[verifier::external_body]
    fn vx_all<F: FnMut(Self::Item) -> bool>(self, f: F) -> (r: bool) { let mut i = self; i.all(f) }
    #[verifier::external_body]
    fn vx_any<F: FnMut(Self::Item) -> bool>(self, f: F) -> (r: bool) { let mut i = self; i.any(f) }
}

pub uninterp spec fn gu<T, I: core::slice::SliceIndex<[T]>>(s: &[T], i: I, r: &I::Output) -> bool;
pub uninterp spec fn gu_ok<T, I: core::slice::SliceIndex<[T]>>(s: &[T], i: I) -> bool;
#[verifier::prophetic]
pub uninterp spec fn gum<T, I: core::slice::SliceIndex<[T]>>(s: &mut [T], i: I, r: &mut I::Output) -> bool;
pub broadcast axiom fn gu_usize<T>(s: &[T], i: usize, r: &T) ensures #[trigger] gu::<T, usize>(s, i, r) ==> *r == s@[i as int];
pub broadcast axiom fn gu_range<T>(s: &[T], i: Range<usize>, r: &[T]) ensures #[trigger] gu::<T, Range<usize>>(s, i, r) ==> r@ == s@.subrange(i.start as int, i.end as int);
pub broadcast axiom fn gu_ok_usize<T>(s: &[T], i: usize) ensures #[trigger] gu_ok::<T, usize>(s, i) <==> i < s@.len();
pub broadcast axiom fn gu_ok_range<T>(s: &[T], i: Range<usize>) ensures #[trigger] gu_ok::<T, Range<usize>>(s, i) <==> i.start <= i.end <= s@.len();
#[verifier::prophetic]
pub open spec fn gum_u<T>(s: &mut [T], i: int, r: &mut T) -> bool { *r == s@[i] && final(s)@ == s@.update(i, *final(r)) }
#[verifier::prophetic]
pub open spec fn gum_r<T>(s: &mut [T], a: int, b: int, r: &mut [T]) -> bool { r@ == s@.subrange(a, b) && final(r)@.len() == r@.len() && final(s)@ == s@.subrange(0, a) + final(r)@ + s@.subrange(b, s@.len() as int) }
pub broadcast axiom fn gum_usize<T>(s: &mut [T], i: usize, r: &mut T) ensures #[trigger] gum::<T, usize>(s, i, r) ==> gum_u(s, i as int, r);
pub broadcast axiom fn gum_range<T>(s: &mut [T], i: Range<usize>, r: &mut [T]) ensures #[trigger] gum::<T, Range<usize>>(s, i, r) ==> gum_r(s, i.start as int, i.end as int, r);
pub broadcast group vx_group { mk_arr_ax, zip_term, iter_wrn, iter_mut_wrn, gu_usize, gu_range, gu_ok_usize, gu_ok_range, gum_usize, gum_range }
pub assume_specification<T, I: core::slice::SliceIndex<[T]>>[ <[T]>::get_unchecked::<I> ](s: &[T], i: I) -> (r: &I::Output) requires gu_ok(s, i) ensures gu(s, i, r);
pub assume_specification<T, I: core::slice::SliceIndex<[T]>>[ <[T]>::get_unchecked_mut::<I> ](s: &mut [T], i: I) -> (r: &mut I::Output) requires gu_ok(&*s, i) ensures gum(s, i, r);

#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExTryFromSliceError(core::array::TryFromSliceError);
}
}
pub use vx_std::*;
