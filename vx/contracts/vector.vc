### verbatim
// a name for an index: proof text asserts it to make the facts about that index known
pub open spec fn vx_at(i: int) -> bool { true }
pub open spec fn vx_at2(i: int, j: int) -> bool { true }
// layout: Vector is repr(transparent) over [T; N]; an array of MaybeUninit has the layout of a MaybeUninit array
impl<T, const N: usize> VxCast<Vector<MaybeUninit<T>, N>> for MaybeUninit<Vector<T, N>> {
    open spec fn cast_ok(self, b: Vector<MaybeUninit<T>, N>) -> bool {
        match self.mem_contents() { MemContents::Init(v) => forall|i: int| 0 <= i < N ==> #[trigger] b@[i].mem_contents() == MemContents::Init(v@[i]), MemContents::Uninit => true }
    }
}
impl<T, const N: usize> VxCast<MaybeUninit<Vector<T, N>>> for Vector<MaybeUninit<T>, N> {
    open spec fn cast_ok(self, b: MaybeUninit<Vector<T, N>>) -> bool {
        (forall|i: int| 0 <= i < N ==> (#[trigger] self@[i].mem_contents()) is Init) ==> (b.mem_contents() is Init && forall|i: int| 0 <= i < N ==> #[trigger] b.mem_contents()->Init_0@[i] == self@[i].mem_contents()->Init_0)
    }
}
impl<T, const N: usize> View for Vector<T, N> {
    type V = Seq<T>;
    open spec fn view(&self) -> Seq<T> { self.data@ }
}
impl<T, const N: usize> vstd::std_specs::convert::FromSpecImpl<[T; N]> for Vector<T, N> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: [T; N]) -> Self { Vector { data: a } }
}
impl<T: Copy, const N: usize> vstd::std_specs::convert::FromSpecImpl<&[T; N]> for Vector<T, N> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: &[T; N]) -> Self { Vector { data: *a } }
}
impl<T, const N: usize> vstd::std_specs::convert::FromSpecImpl<Vector<T, N>> for [T; N] {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: Vector<T, N>) -> Self { a.data }
}
impl<'a, T, const N: usize> vstd::std_specs::convert::FromSpecImpl<&'a Vector<T, N>> for &'a [T; N] {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: &'a Vector<T, N>) -> Self { &a.data }
}
impl<'a, T, const N: usize> vstd::std_specs::convert::FromSpecImpl<&'a mut Vector<T, N>> for &'a mut [T; N] {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(a: &'a mut Vector<T, N>) -> Self { arbitrary() }
}
impl<'a, T: Copy, const N: usize> vstd::std_specs::convert::TryFromSpecImpl<&'a [T]> for Vector<T, N> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(a: &'a [T]) -> Result<Self, ()> { arbitrary() }
}
impl<T, const N: usize> vstd::std_specs::core::IndexSpecImpl<usize> for Vector<T, N> {
    open spec fn index_req(&self, i: &usize) -> bool { *i < N }
}
// ------------------------------------------------ construction and access
### Vector<MaybeUninit<T>,N>::from_uninit
props C06 C09
ens uninit.cast_ok(r)
### Vector<MaybeUninit<T>,N>::into_uninit
props C06 C09
ens self.cast_ok(r)
### Vector<T,N>::uninit
props C06 C09
### Vector<MaybeUninit<T>,N>::assume_init
props C06 C09
req forall|i: int| 0 <= i < N ==> (#[trigger] self@[i].mem_contents()) is Init
ens forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == self@[i].mem_contents()->Init_0
### Vector<T,N>::init
props C06 C09
req call_requires(f, ())
ens forall|i: int| 0 <= i < N ==> call_ensures(f, (), #[trigger] r@[i])
pre let ghost f0 = f;
loop 0 `x in a.data.iter_mut()`
iter it
inv f == f0
inv call_requires(f, ())
inv it.seq().len() == N
inv forall|i: int| 0 <= i < it.index@ ==> (#[trigger] final(it.seq()[i]).mem_contents()) is Init && call_ensures(f, (), final(it.seq()[i]).mem_contents()->Init_0)
### <Vector<T,N> as Default>::default
props C06
ens forall|i: int| 0 <= i < N ==> call_ensures(T::default, (), #[trigger] r@[i])
### Vector<T,N>::new
props C06
ens forall|i: int| 0 <= i < N ==> call_ensures(T::default, (), #[trigger] r@[i])
### Vector<T,N>::fill
props C06
ens forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == v
### Vector<T,N>::from_array
props C06
ens r@ == array@
ens r.data == array
### Vector<T,N>::into_array
props C06
ens r@ == self@
ens r == self.data
### Vector<T,N>::as_array
props C06
ens r@ == self@
### Vector<T,N>::as_mut_array
props C06
ens r@ == old(self)@
ens final(r)@ == final(self)@
### <Vector<T,N> as From<[T;N]>>::from
props C06
ens r@ == a@
### <Vector<T,N> as From<&[T;N]>>::from
props C06
ens r@ == ar@
### <[T;N] as From<Vector<T,N>>>::from
props C06
ens r@ == vec@
### <&'a [T;N] as From<&'a Vector<T,N>>>::from
props C06
ens r@ == vr@
### <&'a mut[T;N] as From<&'a mut Vector<T,N>>>::from
props C06
ens r@ == old(vr)@
ens final(r)@ == final(vr)@
### <Vector<T,N> as AsRef<[T;N]>>::as_ref
props C06
ens r@ == self@
### <Vector<T,N> as AsMut<[T;N]>>::as_mut
props C06
ens r@ == old(self)@
ens final(r)@ == final(self)@
### <Vector<T,N> as Index<usize>>::index
props C06
ens *r == self@[i as int]
### <Vector<T,N> as IndexMut<usize>>::index_mut
props C06
ens *r == old(self)@[i as int]
ens final(self)@ == old(self)@.update(i as int, *final(r))
### Vector<T,N>::as_ptr
drop raw pointers are outside Verus's reach here
### Vector<T,N>::as_mut_ptr
drop raw pointers are outside Verus's reach here
### Vector<T,N>::get_unchecked
props C06 C09
req i < N
ens *r == self@[i as int]
### Vector<T,N>::get_unchecked_mut
props C06 C09
req i < N
ens *r == old(self)@[i as int]
ens final(self)@ == old(self)@.update(i as int, *final(r))
### verbatim
#[verifier::prophetic]
pub open spec fn vec_iter<I: Iterator>(it: I, s: Seq<I::Item>) -> bool { it.obeys_prophetic_iter_laws() && it.will_return_none() && it.remaining() == s && it.decrease() is Some }
#[verifier::prophetic]
pub open spec fn uz2<A, B, C>(z: core::iter::Zip<A, core::iter::Zip<B, C>>) -> core::iter::Zip<B, C> { vstd::std_specs::iter::zip_iter_snd(z) }
#[verifier::prophetic]
pub open spec fn uza<A, B, C>(z: core::iter::Zip<A, core::iter::Zip<B, C>>) -> B { vstd::std_specs::iter::zip_iter_fst(vstd::std_specs::iter::zip_iter_snd(z)) }
#[verifier::prophetic]
pub open spec fn uzb<A, B, C>(z: core::iter::Zip<A, core::iter::Zip<B, C>>) -> C { vstd::std_specs::iter::zip_iter_snd(vstd::std_specs::iter::zip_iter_snd(z)) }
### Vector<T,N>::iter
props C06 C10
ens r.obeys_prophetic_iter_laws() && r.will_return_none() && r.decrease() is Some && r.remaining().len() == N
ens forall|i: int| #![trigger r.remaining()[i]] #![trigger self@[i]] 0 <= i < N ==> *(r.remaining()[i]) == self@[i]
### Vector<T,N>::iter_mut
props C06 C10
ens r.obeys_prophetic_iter_laws() && r.will_return_none() && r.decrease() is Some && r.remaining().len() == N
ens forall|i: int| 0 <= i < N ==> *(#[trigger] r.remaining()[i]) == old(self)@[i]
ens forall|i: int| 0 <= i < N ==> #[trigger] final(self)@[i] == *final(r.remaining()[i])
### <Vector<T,N> as IntoIterator>::into_iter
props C10
ens vec_iter(r, self@)
### <&'a Vector<T,N> as IntoIterator>::into_iter
props C10
ens r.obeys_prophetic_iter_laws() && r.will_return_none() && r.decrease() is Some && r.remaining().len() == N
ens forall|i: int| #![trigger r.remaining()[i]] #![trigger self@[i]] 0 <= i < N ==> *(r.remaining()[i]) == self@[i]
### <&'a mut Vector<T,N> as IntoIterator>::into_iter
props C10
ens r.obeys_prophetic_iter_laws() && r.will_return_none() && r.decrease() is Some && r.remaining().len() == N
ens forall|i: int| 0 <= i < N ==> *(#[trigger] r.remaining()[i]) == old(self)@[i]
ens forall|i: int| 0 <= i < N ==> #[trigger] final(self)@[i] == *final(r.remaining()[i])
### <Vector<T,N> as TryFrom<&'a[T]>>::try_from
props C06
ens r is Ok <==> s@.len() == N
ens r is Ok ==> r->Ok_0@ == s@
### Vector<T,N>::try_from_iter
props C08 C09
req iter.obeys_prophetic_iter_laws()
ens r is Some <==> iter.remaining().len() >= N
ens r is Some ==> r->0@ == iter.remaining().take(N as int)
loop 0 `(x, y) in a.iter_mut().zip(iter)`
iter it
inv it.iter.obeys_prophetic_iter_laws()
inv pos == it.index@
inv it.seq().len() <= N
inv it.seq().len() == N || it.seq().len() == iter.remaining().len()
inv forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).1 == iter.remaining()[i] && it.seq()[i].0 == vstd::std_specs::iter::zip_iter_fst(it.snapshot@).remaining()[i]
inv forall|i: int| 0 <= i < it.index@ ==> #[trigger] final(vstd::std_specs::iter::zip_iter_fst(it.snapshot@).remaining()[i]).mem_contents() == MemContents::Init(iter.remaining()[i])
loop 1 `x in a.as_mut().get_unchecked_mut(0..pos)`
iter it2
inv it2.seq().len() == pos
inv forall|i: int| 0 <= i < pos ==> (#[trigger] (*it2.seq()[i]).mem_contents()) is Init
### Vector<usize,N>::indices
props C06 C10
ens forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == i
### Vector<T,N>::for_each
props C10
req forall|i: int| 0 <= i < N ==> call_requires(f, (#[trigger] self@[i],))
ens forall|i: int| 0 <= i < N ==> call_ensures(f, (#[trigger] self@[i],), ())
### Vector<T,N>::map
props C10
req forall|i: int| 0 <= i < N ==> call_requires(f, (#[trigger] self@[i],))
ens r@.len() == N
ens forall|i: int| 0 <= i < N ==> call_ensures(f, (self@[i],), #[trigger] r@[i])
### Vector<T,N>::zip
props C10
ens r@.len() == N
ens forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == (self@[i], other@[i])
### Vector<T,N>::enumerate
props C10
ens forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == (i as usize, self@[i])
### Vector<(T,U),N>::unzip
props C10 C09
ens forall|i: int| 0 <= i < N ==> #[trigger] r.0@[i] == self@[i].0
ens forall|i: int| 0 <= i < N ==> #[trigger] r.1@[i] == self@[i].1
loop 0 `((x, y), (u, v)) in self.into_iter().zip(a.iter_mut().zip(b.iter_mut()))`
iter it
inv it.iter.obeys_prophetic_iter_laws()
inv it.seq().len() == N
inv forall|i: int| 0 <= i < N ==> (#[trigger] it.seq()[i]).0 == self@[i] && it.seq()[i].1 == uz2(it.snapshot@).remaining()[i] && uz2(it.snapshot@).remaining()[i].0 == uza(it.snapshot@).remaining()[i] && uz2(it.snapshot@).remaining()[i].1 == uzb(it.snapshot@).remaining()[i]
inv forall|i: int| 0 <= i < it.index@ ==> #[trigger] final(uza(it.snapshot@).remaining()[i]).mem_contents() == MemContents::Init(self@[i].0)
inv forall|i: int| 0 <= i < it.index@ ==> #[trigger] final(uzb(it.snapshot@).remaining()[i]).mem_contents() == MemContents::Init(self@[i].1)
### Vector<T,N>::fold
props C10
req forall|s: S, i: int| 0 <= i < N ==> #[trigger] call_requires(f, (s, self@[i]))
ens exists|t: Seq<S>| #[trigger] chain_ok(f, s, self@, t) && r == t[N as int]
ens forall|g: spec_fn(S, T) -> S| (forall|a: S, i: int, q: S| 0 <= i < N && #[trigger] call_ensures(f, (a, self@[i]), q) ==> q == g(a, self@[i])) ==> r == #[trigger] vfold(s, self@, g)
pre let ghost f0 = f; let ghost s0 = s; let ghost v0 = self@;
postr proof { let t = choose|t: Seq<S>| #[trigger] chain_ok(f0, s0, v0, t) && vx_res == t[N as int]; assert forall|g: spec_fn(S, T) -> S| (forall|a: S, i: int, q: S| 0 <= i < N && #[trigger] call_ensures(f0, (a, v0[i]), q) ==> q == g(a, v0[i])) implies vx_res == #[trigger] vfold(s0, v0, g) by { chain_vfold(f0, s0, v0, t, g); } }
### Vector<T,N>::fold_first
props C10
req N >= 1
req forall|s: T, i: int| 0 <= i < N ==> #[trigger] call_requires(f, (s, self@[i]))
ens exists|t: Seq<T>| #[trigger] chain_ok(f, self@[0], self@.subrange(1, N as int), t) && r == t[N - 1]
ens forall|g: spec_fn(T, T) -> T| (forall|a: T, i: int, q: T| 0 <= i < N && #[trigger] call_ensures(f, (a, self@[i]), q) ==> q == g(a, self@[i])) ==> r == #[trigger] vfold(self@[0], self@.subrange(1, N as int), g)
pre let ghost f0 = f; let ghost v0 = self@;
postr proof { let xs = v0.subrange(1, N as int); let t = choose|t: Seq<T>| #[trigger] chain_ok(f0, v0[0], xs, t) && vx_res == t[N - 1]; assert forall|g: spec_fn(T, T) -> T| (forall|a: T, i: int, q: T| 0 <= i < N && #[trigger] call_ensures(f0, (a, v0[i]), q) ==> q == g(a, v0[i])) implies vx_res == #[trigger] vfold(v0[0], xs, g) by { assert forall|a: T, i: int, q: T| 0 <= i < xs.len() && #[trigger] call_ensures(f0, (a, xs[i]), q) implies q == g(a, xs[i]) by { assert(xs[i] == v0[i + 1]); } chain_vfold(f0, v0[0], xs, t, g); } }
### Vector<T,N>::scan
drop verified in state-passing form only (`st Vector<T,N>::scan`)
### GroupIter<I,N>::new
props C08
ens r.iter == iter
