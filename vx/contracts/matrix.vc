### verbatim
// layout: Matrix is repr(transparent) over Vector<Vector<T, N>, M>, which is M * N elements in row-major order
impl<T, const M: usize, const N: usize> VxCast<Matrix<MaybeUninit<T>, M, N>> for MaybeUninit<Matrix<T, M, N>> {
    open spec fn cast_ok(self, b: Matrix<MaybeUninit<T>, M, N>) -> bool {
        match self.mem_contents() { MemContents::Init(v) => forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] b.data@[i]@[j].mem_contents() == MemContents::Init(v.data@[i]@[j]), MemContents::Uninit => true }
    }
}
impl<T, const M: usize, const N: usize> VxCast<MaybeUninit<Matrix<T, M, N>>> for Matrix<MaybeUninit<T>, M, N> {
    open spec fn cast_ok(self, b: MaybeUninit<Matrix<T, M, N>>) -> bool {
        (forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> (#[trigger] self.data@[i]@[j].mem_contents()) is Init) ==> (b.mem_contents() is Init && forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] b.mem_contents()->Init_0.data@[i]@[j] == self.data@[i]@[j].mem_contents()->Init_0)
    }
}
impl<T, const M: usize, const N: usize> VxCast<Matrix<MaybeUninit<T>, M, N>> for Matrix<T, M, N> {
    open spec fn cast_ok(self, b: Matrix<MaybeUninit<T>, M, N>) -> bool {
        forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] b.data@[i]@[j].mem_contents() == MemContents::Init(self.data@[i]@[j])
    }
}
pub open spec fn fe_ens<T, F: Fn(T), const N: usize>(f: F, a: Vector<T, N>) -> bool { forall|j: int| 0 <= j < N ==> call_ensures(f, (#[trigger] a@[j],), ()) }
pub open spec fn mk_vec<T, const N: usize>(f: spec_fn(int) -> T) -> Vector<T, N> { Vector { data: mk_arr::<T, N>(f) } }
pub open spec fn mk_mat<T, const M: usize, const N: usize>(f: spec_fn(int, int) -> T) -> Matrix<T, M, N> { Matrix { data: mk_vec::<Vector<T, N>, M>(|i: int| mk_vec::<T, N>(|j: int| f(i, j))) } }
pub proof fn vec_ext<T, const N: usize>(a: Vector<T, N>, b: Vector<T, N>) requires forall|i: int| 0 <= i < N ==> #[trigger] a@[i] == b@[i] ensures a == b { assert forall|i: int| 0 <= i < N implies a.data@[i] == b.data@[i] by { assert(a@[i] == b@[i]); } assert(a.data@ =~= b.data@); assert(a.data =~= b.data); }
pub proof fn mat_ext<T, const M: usize, const N: usize>(a: Matrix<T, M, N>, b: Matrix<T, M, N>) requires forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] a.data@[i]@[j] == b.data@[i]@[j] ensures a == b
{ assert forall|i: int| 0 <= i < M implies #[trigger] a.data@[i] == b.data@[i] by { vec_ext(a.data@[i], b.data@[i]); } vec_ext(a.data, b.data); }
// entries in row-major order
pub open spec fn rows<T, const M: usize, const N: usize>(m: Matrix<T, M, N>) -> Seq<Seq<T>> { m.data@.map_values(|v: Vector<T, N>| v@) }
pub open spec fn flat<T, const M: usize, const N: usize>(m: Matrix<T, M, N>) -> Seq<T> { rows(m).flatten() }
impl<T, const M: usize, const N: usize> vstd::std_specs::convert::FromSpecImpl<Vector<Vector<T, N>, M>> for Matrix<T, M, N> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: Vector<Vector<T, N>, M>) -> Self { Matrix { data: a } }
}
impl<T, const M: usize, const N: usize> vstd::std_specs::convert::FromSpecImpl<[Vector<T, N>; M]> for Matrix<T, M, N> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: [Vector<T, N>; M]) -> Self { Matrix { data: Vector { data: a } } }
}
impl<T, const M: usize, const N: usize> vstd::std_specs::convert::FromSpecImpl<[[T; N]; M]> for Matrix<T, M, N> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: [[T; N]; M]) -> Self { mk_mat::<T, M, N>(|i: int, j: int| a@[i]@[j]) }
}
impl<T: Copy, const M: usize, const N: usize> vstd::std_specs::convert::FromSpecImpl<&Vector<Vector<T, N>, M>> for Matrix<T, M, N> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: &Vector<Vector<T, N>, M>) -> Self { Matrix { data: *a } }
}
impl<T: Copy, const M: usize, const N: usize> vstd::std_specs::convert::FromSpecImpl<&[Vector<T, N>; M]> for Matrix<T, M, N> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: &[Vector<T, N>; M]) -> Self { Matrix { data: Vector { data: *a } } }
}
impl<T: Copy, const M: usize, const N: usize> vstd::std_specs::convert::FromSpecImpl<&[[T; N]; M]> for Matrix<T, M, N> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: &[[T; N]; M]) -> Self { mk_mat::<T, M, N>(|i: int, j: int| a@[i]@[j]) }
}
impl<T, const M: usize, const N: usize> vstd::std_specs::convert::FromSpecImpl<Matrix<T, M, N>> for Vector<Vector<T, N>, M> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: Matrix<T, M, N>) -> Self { a.data }
}
impl<T, const M: usize, const N: usize> vstd::std_specs::convert::FromSpecImpl<Matrix<T, M, N>> for [Vector<T, N>; M] {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: Matrix<T, M, N>) -> Self { a.data.data }
}
impl<T, const M: usize, const N: usize> vstd::std_specs::convert::FromSpecImpl<Matrix<T, M, N>> for [[T; N]; M] {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(a: Matrix<T, M, N>) -> Self { arbitrary() }
}
impl<'a, T, const M: usize, const N: usize> vstd::std_specs::convert::FromSpecImpl<&'a Matrix<T, M, N>> for &'a Vector<Vector<T, N>, M> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: &'a Matrix<T, M, N>) -> Self { &a.data }
}
impl<'a, T, const M: usize, const N: usize> vstd::std_specs::convert::FromSpecImpl<&'a mut Matrix<T, M, N>> for &'a mut Vector<Vector<T, N>, M> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(a: &'a mut Matrix<T, M, N>) -> Self { arbitrary() }
}
impl<'a, T, const M: usize, const N: usize> vstd::std_specs::convert::FromSpecImpl<&'a Matrix<T, M, N>> for &'a [[T; N]; M] {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(a: &'a Matrix<T, M, N>) -> Self { arbitrary() }
}
impl<'a, T, const M: usize, const N: usize> vstd::std_specs::convert::FromSpecImpl<&'a mut Matrix<T, M, N>> for &'a mut [[T; N]; M] {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(a: &'a mut Matrix<T, M, N>) -> Self { arbitrary() }
}
impl<'a, T: Copy, const M: usize, const N: usize> vstd::std_specs::convert::TryFromSpecImpl<&'a [Vector<T, N>]> for Matrix<T, M, N> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(a: &'a [Vector<T, N>]) -> Result<Self, ()> { arbitrary() }
}
impl<'a, T: Copy, const M: usize, const N: usize> vstd::std_specs::convert::TryFromSpecImpl<&'a [T]> for Matrix<T, M, N> {
    open spec fn obeys_try_from_spec() -> bool { false }
    open spec fn try_from_spec(a: &'a [T]) -> Result<Self, ()> { arbitrary() }
}
impl<T, const M: usize, const N: usize> vstd::std_specs::core::IndexSpecImpl<(usize, usize)> for Matrix<T, M, N> {
    open spec fn index_req(&self, i: &(usize, usize)) -> bool { i.0 < M && i.1 < N }
}
// ------------------------------------------------ construction
### Matrix<MaybeUninit<T>,M,N>::from_uninit
props C07 C09
ens uninit.cast_ok(r)
### Matrix<MaybeUninit<T>,M,N>::into_uninit
props C07 C09
ens self.cast_ok(r)
### Matrix<T,M,N>::uninit
props C07 C09
### Matrix<MaybeUninit<T>,M,N>::assume_init
props C07 C09
req forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> (#[trigger] self.data@[i]@[j].mem_contents()) is Init
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r.data@[i]@[j] == self.data@[i]@[j].mem_contents()->Init_0
### Matrix<T,M,N>::init
props C07 C09
req call_requires(f, ())
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> call_ensures(f, (), #[trigger] r.data@[i]@[j])
byref
closure 0
cret Vector<T, N>
creq call_requires(f, ())
cens forall|j: int| 0 <= j < N ==> call_ensures(f, (), #[trigger] vx_r@[j])
### <Matrix<T,M,N> as Default>::default ;; Matrix<T,M,N>::new
props C07
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> call_ensures(T::default, (), #[trigger] r.data@[i]@[j])
### Matrix<T,M,N>::fill
props C07
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r.data@[i]@[j] == $1
### Matrix<T,M,N>::fill_ref
props C07
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r.data@[i]@[j] == *$1
// ------------------------------------------------ access
### <Matrix<T,M,N> as Index<(usize,usize)>>::index
props C07
ens *r == self.data@[vx_a1.0 as int]@[vx_a1.1 as int]
### <Matrix<T,M,N> as IndexMut<(usize,usize)>>::index_mut
props C07
ens *r == old(self).data@[vx_a1.0 as int]@[vx_a1.1 as int]
ens final(self).data@ == old(self).data@.update(vx_a1.0 as int, final(self).data@[vx_a1.0 as int])
ens final(self).data@[vx_a1.0 as int]@ == old(self).data@[vx_a1.0 as int]@.update(vx_a1.1 as int, *final(r))
### Matrix<T,M,N>::row_ref
props C07
req $1 < M
ens *r == self.data@[$1 as int]
### Matrix<T,M,N>::row_mut
props C07
req $1 < M
ens *r == old(self).data@[$1 as int]
ens final(self).data@ == old(self).data@.update($1 as int, *final(r))
### Matrix<T,M,N>::row
props C07 C14
req $1 < M
ens r == self.data@[$1 as int]
### Matrix<T,M,N>::col
props C07 C14
req $1 < N
ens forall|i: int| 0 <= i < M ==> #[trigger] r@[i] == self.data@[i]@[$1 as int]
closure 0
ctypes usize
cret T
creq i < M
cens vx_r == self.data@[i as int]@[$1 as int]
### Matrix<T,M,N>::as_ptr ;; Matrix<T,M,N>::as_mut_ptr
drop raw pointers are outside Verus's reach here
### Matrix<T,M,N>::get_unchecked
props C07 C09
req $1 < M && $2 < N
ens *r == self.data@[$1 as int]@[$2 as int]
### Matrix<T,M,N>::get_unchecked_mut
props C07 C09
req $1 < M && $2 < N
ens *r == old(self).data@[$1 as int]@[$2 as int]
ens final(self).data@ == old(self).data@.update($1 as int, final(self).data@[$1 as int])
ens final(self).data@[$1 as int]@ == old(self).data@[$1 as int]@.update($2 as int, *final(r))
// ------------------------------------------------ conversions
### Matrix<T,M,N>::from_vector_of_vectors
props C07
ens r.data == $1
### Matrix<T,M,N>::from_array_of_vectors
props C07
ens r.data.data == $1
### Matrix<T,M,N>::from_array_of_arrays
props C07
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r.data@[i]@[j] == $1@[i]@[j]
### Matrix<T,M,N>::into_vector_of_vectors
props C07
ens r == self.data
### Matrix<T,M,N>::into_array_of_vectors
props C07
ens r == self.data.data
### Matrix<T,M,N>::into_array_of_arrays
props C07
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r@[i]@[j] == self.data@[i]@[j]
closure 0
ctypes Vector<T, N>
cret [T; N]
cens vx_r == a.data
### <Matrix<T,M,N> as From<Vector<Vector<T,N>,M>>>::from
props C07
ens r.data == $1
### <Matrix<T,M,N> as From<[Vector<T,N>;M]>>::from
props C07
ens r.data.data == $1
### <Matrix<T,M,N> as From<[[T;N];M]>>::from ;; <Matrix<T,M,N> as From<&[[T;N];M]>>::from
props C07
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r.data@[i]@[j] == $1@[i]@[j]
postr proof { mat_ext(vx_res, mk_mat::<T, M, N>(|i: int, j: int| $1@[i]@[j])); }
### <Vector<Vector<T,N>,M> as From<Matrix<T,M,N>>>::from
props C07
ens r == $1.data
### <[Vector<T,N>;M] as From<Matrix<T,M,N>>>::from
props C07
ens r == $1.data.data
### <[[T;N];M] as From<Matrix<T,M,N>>>::from
props C07
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r@[i]@[j] == $1.data@[i]@[j]
### <Matrix<T,M,N> as From<&Vector<Vector<T,N>,M>>>::from
props C07
ens r.data == *$1
### <Matrix<T,M,N> as From<&[Vector<T,N>;M]>>::from
props C07
ens r.data.data == *$1
### Matrix<T,M,N>::as_vector_of_vectors
props C07
ens *r == self.data
### Matrix<T,M,N>::as_mut_vector_of_vectors
props C07
ens *r == old(self).data
ens final(self).data == *final(r)
### Matrix<T,M,N>::as_array_of_vectors
props C07
ens r@ == self.data@
### Matrix<T,M,N>::as_mut_array_of_vectors
props C07
ens r@ == old(self).data@
ens final(self).data@ == final(r)@
### Matrix<T,M,N>::as_array_of_arrays
props C07
skip casts a reference through a raw pointer; the entry-by-entry reading is the layout assumption
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r@[i]@[j] == self.data@[i]@[j]
### Matrix<T,M,N>::as_mut_array_of_arrays
props C07
skip casts a reference through a raw pointer; the entry-by-entry reading is the layout assumption
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r@[i]@[j] == old(self).data@[i]@[j]
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] final(self).data@[i]@[j] == final(r)@[i]@[j]
### <Matrix<T,M,N> as AsRef<Vector<Vector<T,N>,M>>>::as_ref
props C07
ens *r == self.data
### <Matrix<T,M,N> as AsMut<Vector<Vector<T,N>,M>>>::as_mut
props C07
ens *r == old(self).data
ens final(self).data == *final(r)
### <&'a Vector<Vector<T,N>,M> as From<&'a Matrix<T,M,N>>>::from
props C07
ens *r == $1.data
### <&'a mut Vector<Vector<T,N>,M> as From<&'a mut Matrix<T,M,N>>>::from
props C07
ens *r == old($1).data
ens final($1).data == *final(r)
### <&'a [[T;N];M] as From<&'a Matrix<T,M,N>>>::from
props C07
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r@[i]@[j] == $1.data@[i]@[j]
### <&'a mut[[T;N];M] as From<&'a mut Matrix<T,M,N>>>::from
props C07
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r@[i]@[j] == old($1).data@[i]@[j]
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] final($1).data@[i]@[j] == final(r)@[i]@[j]
### Matrix<T,M,N>::try_from_iter_of_vectors
props C08
req $1.obeys_prophetic_iter_laws()
ens r is Some <==> $1.remaining().len() >= M
ens r is Some ==> r->0.data@ == $1.remaining().take(M as int)
### Matrix<T,M,N>::for_each
props C10
byref
postr proof { assert forall|i: int| 0 <= i < M implies fe_ens(f, #[trigger] self.data@[i]) by { } }
req forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> call_requires(f, (#[trigger] self.data@[i]@[j],))
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> call_ensures(f, (#[trigger] self.data@[i]@[j],), ())
closure 0
ctypes Vector<T, N>
cret ()
creq forall|j: int| 0 <= j < N ==> call_requires(f, (#[trigger] a@[j],))
cens fe_ens(f, a)
### Matrix<T,M,N>::map
props C10
byref
req forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> call_requires(f, (#[trigger] self.data@[i]@[j],))
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> call_ensures(f, (self.data@[i]@[j],), #[trigger] r.data@[i]@[j])
closure 0
ctypes Vector<T, N>
cret Vector<U, N>
creq forall|j: int| 0 <= j < N ==> call_requires(f, (#[trigger] a@[j],))
cens forall|j: int| 0 <= j < N ==> call_ensures(f, (a@[j],), #[trigger] vx_r@[j])
### Matrix<T,M,N>::zip
props C10
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r.data@[i]@[j] == (self.data@[i]@[j], $1.data@[i]@[j])
closure 0
ctypes (Vector<T, N>, Vector<U, N>)
cret Vector<(T, U), N>
cens forall|j: int| 0 <= j < N ==> #[trigger] vx_r@[j] == (a@[j], b@[j])
### Matrix<(T,U),M,N>::unzip
props C10
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r.0.data@[i]@[j] == self.data@[i]@[j].0
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r.1.data@[i]@[j] == self.data@[i]@[j].1
closure 0
ctypes Vector<(T, U), N>
cret (Vector<T, N>, Vector<U, N>)
cens forall|j: int| 0 <= j < N ==> #[trigger] vx_r.0@[j] == a@[j].0
cens forall|j: int| 0 <= j < N ==> #[trigger] vx_r.1@[j] == a@[j].1
### Matrix<T,M,N>::scan
drop verified in state-passing form only (`st Matrix<T,M,N>::scan`)
### Matrix<T,M,N>::transpose
props C15 C09
ens forall|i: int, j: int| 0 <= i < N && 0 <= j < M ==> #[trigger] r.data@[i]@[j] == self.data@[j]@[i]
loop 0
inv forall|a: int, b: int| 0 <= a < N && 0 <= b < i ==> #[trigger] d.data@[a]@[b].mem_contents() == MemContents::Init(self.data@[b]@[a])
inv forall|a: int, b: int| i <= a < M && 0 <= b < N ==> #[trigger] s.data@[a]@[b].mem_contents() == MemContents::Init(self.data@[a]@[b])
loop 1
inv 0 <= i < M
inv forall|a: int, b: int| 0 <= a < N && 0 <= b < M && (b < i || (b == i && a < j)) ==> #[trigger] d.data@[a]@[b].mem_contents() == MemContents::Init(self.data@[b]@[a])
inv forall|a: int, b: int| 0 <= a < M && 0 <= b < N && (i < a || (i == a && j <= b)) ==> #[trigger] s.data@[a]@[b].mem_contents() == MemContents::Init(self.data@[a]@[b])
// ------------------------------------------------ row-major iteration
### struct FlatIter
attr #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(IT)] #[verifier::reject_recursive_types(II)]
### verbatim
pub open spec fn fi(i: int, j: int, n: int) -> int { i * n + j }
pub proof fn flatten_index<T>(r: Seq<Seq<T>>, n: int, i: int, j: int)
    requires 0 <= i < r.len(), 0 <= j < n, forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).len() == n,
    ensures 0 <= fi(i, j, n) < r.flatten().len(), r.flatten()[fi(i, j, n)] == r[i][j], r.flatten().len() == r.len() * n,
    decreases r.len(),
{
    reveal(Seq::flatten);
    let t = r.drop_first();
    flatten_len(t, n);
    assert(r.flatten() == r.first() + t.flatten());
    assert(r.len() * n == n + t.len() * n) by(nonlinear_arith) requires r.len() == t.len() + 1;
    if i == 0 { assert(0 * n == 0) by(nonlinear_arith); assert(i * n == 0); assert(fi(i, j, n) == j); assert(t.len() * n >= 0) by(nonlinear_arith) requires n >= 0; }
    else {
        assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).len() == n by { assert(t[k] == r[k + 1]); }
        flatten_index(t, n, i - 1, j);
        assert(fi(i, j, n) == n + fi(i - 1, j, n)) by(nonlinear_arith);
    }
}
pub proof fn flatten_len<T>(r: Seq<Seq<T>>, n: int)
    requires forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).len() == n,
    ensures r.flatten().len() == r.len() * n,
    decreases r.len(),
{
    reveal(Seq::flatten);
    if r.len() > 0 {
        let t = r.drop_first();
        assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).len() == n by { assert(t[k] == r[k + 1]); }
        flatten_len(t, n);
        assert(r.flatten() == r.first() + t.flatten());
        assert(r.len() * n == n + t.len() * n) by(nonlinear_arith) requires r.len() == t.len() + 1;
    }
}
pub broadcast proof fn flat_idx<T, const M: usize, const N: usize>(m: Matrix<T, M, N>, i: int, j: int)
    requires 0 <= i < M, 0 <= j < N,
    ensures #![trigger flat(m), m.data@[i]@[j]] 0 <= fi(i, j, N as int) < flat(m).len() && flat(m)[fi(i, j, N as int)] == m.data@[i]@[j],
{ assert(rows(m).len() == M); flatten_index(rows(m), N as int, i, j); }
pub broadcast proof fn flat_len<T, const M: usize, const N: usize>(m: Matrix<T, M, N>) ensures (#[trigger] flat(m)).len() == M * N { flatten_len(rows(m), N as int); }
pub proof fn split_index(m: int, n: int, k: int) -> (r: (int, int)) requires 0 <= k < m * n, 0 <= m, 0 <= n ensures 0 <= r.0 < m, 0 <= r.1 < n, k == fi(r.0, r.1, n)
{ assert(n > 0) by(nonlinear_arith) requires 0 <= k < m * n, 0 <= n; assert(0 <= k / n < m && 0 <= k % n < n && k == (k / n) * n + k % n) by(nonlinear_arith) requires 0 <= k < m * n, n > 0; (k / n, k % n) }
pub broadcast proof fn flat_rev<T, const M: usize, const N: usize>(m: Matrix<T, M, N>, k: int)
    requires 0 <= k < flat(m).len(),
    ensures exists|i: int, j: int| 0 <= i < M && 0 <= j < N && k == #[trigger] fi(i, j, N as int) && #[trigger] flat(m)[k] == m.data@[i]@[j],
{ flat_len(m); let r = split_index(M as int, N as int, k); flat_idx(m, r.0, r.1); }
pub broadcast group flat_group { flat_idx, flat_len, flat_rev }

#[verifier::prophetic]
pub uninterp spec fn fl_rem<I, IT, II>(f: FlatIter<I, IT, II>) -> Seq<II::Item> where I: Iterator<Item = IT>, IT: IntoIterator<IntoIter = II, Item = II::Item>, II: Iterator;
pub uninterp spec fn fl_dec<I, IT, II>(f: FlatIter<I, IT, II>) -> nat where I: Iterator<Item = IT>, IT: IntoIterator<IntoIter = II, Item = II::Item>, II: Iterator;
// trusted: FlatIter yields the items of its inner iterators one after another (its next() is decided by the bounded layer, C11)
impl<I, IT, II> vstd::std_specs::iter::IteratorSpecImpl for FlatIter<I, IT, II> where I: Iterator<Item = IT>, IT: IntoIterator<IntoIter = II, Item = II::Item>, II: Iterator {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<II::Item> { fl_rem(*self) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(fl_dec(*self)) }
    open spec fn peek(&self, i: int) -> Option<II::Item> { None }
}
pub axiom fn fl_own<T, const M: usize, const N: usize>(f: FlatIter<IntoIter<Vector<T, N>, M>, Vector<T, N>, IntoIter<T, N>>)
    ensures f.subiter is None && f.iter.will_return_none() ==> fl_rem(f) == f.iter.remaining().map_values(|v: Vector<T, N>| v@).flatten();
pub axiom fn fl_ref<'a, T, const N: usize>(f: FlatIter<slice::Iter<'a, Vector<T, N>>, &'a Vector<T, N>, slice::Iter<'a, T>>)
    ensures f.subiter is None ==> fl_rem(f).map_values(|x: &T| *x) == f.iter.remaining().map_values(|v: &Vector<T, N>| v@).flatten();
pub axiom fn fl_mut<'a, T, const N: usize>(f: FlatIter<slice::IterMut<'a, Vector<T, N>>, &'a mut Vector<T, N>, slice::IterMut<'a, T>>)
    ensures f.subiter is None ==> fl_rem(f).len() == f.iter.remaining().len() * N
        && forall|i: int, j: int| #![trigger fl_rem(f)[fi(i, j, N as int)]] 0 <= i < f.iter.remaining().len() && 0 <= j < N ==> *fl_rem(f)[fi(i, j, N as int)] == (*f.iter.remaining()[i])@[j] && *final(fl_rem(f)[fi(i, j, N as int)]) == final(f.iter.remaining()[i])@[j];
### verbatim
#[verifier::prophetic]
pub open spec fn fl_sub<II: Iterator>(s: Option<II>) -> Seq<II::Item> { if s is Some { s->0.remaining() } else { Seq::empty() } }
// the inner iterator made from this item has nothing to give
#[verifier::prophetic]
pub open spec fn fl_empty<IT: IntoIterator>(x: IT) -> bool { exists|it: IT::IntoIter| #[trigger] call_ensures(IT::into_iter, (x,), it) && it.remaining().len() == 0 }
pub open spec fn fl_into<IT: IntoIterator>() -> bool { (forall|x: IT| #[trigger] call_requires(IT::into_iter, (x,))) && forall|x: IT, it: IT::IntoIter| #[trigger] call_ensures(IT::into_iter, (x,), it) ==> it.obeys_prophetic_iter_laws() }
// one step of the row-major iteration: the next item of the inner iterator at hand, else of the first inner iterator made from the outer items that has one
### twin <FlatIter<I,IT,II> as Iterator>::next
props C11
attr #[verifier::exec_allows_no_decreases_clause]
req fl_into::<IT>() && old(self).iter.obeys_prophetic_iter_laws() && ((*old(self)).subiter is Some ==> (*old(self)).subiter->0.obeys_prophetic_iter_laws())
ens (*final(self)).iter.obeys_prophetic_iter_laws() && ((*final(self)).subiter is Some ==> (*final(self)).subiter->0.obeys_prophetic_iter_laws())
ens fl_sub((*old(self)).subiter).len() > 0 ==> r == Some(fl_sub((*old(self)).subiter)[0]) && (*final(self)).iter == (*old(self)).iter && fl_sub((*final(self)).subiter) == fl_sub((*old(self)).subiter).drop_first()
ens fl_sub((*old(self)).subiter).len() == 0 && r is Some ==> exists|k: int, it: II| 0 <= k < (*old(self)).iter.remaining().len() && #[trigger] call_ensures(IT::into_iter, (#[trigger] (*old(self)).iter.remaining()[k],), it) && it.remaining().len() > 0 && r == Some(it.remaining()[0]) && fl_sub((*final(self)).subiter) == it.remaining().drop_first() && (*final(self)).iter.remaining() == (*old(self)).iter.remaining().skip(k + 1) && forall|m: int| 0 <= m < k ==> fl_empty(#[trigger] (*old(self)).iter.remaining()[m])
ens r is None ==> fl_sub((*old(self)).subiter).len() == 0 && (*final(self)).iter.remaining().len() == 0 && forall|m: int| 0 <= m < (*old(self)).iter.remaining().len() ==> fl_empty(#[trigger] (*old(self)).iter.remaining()[m])
pre let ghost xs = self.iter.remaining(); let ghost sub0 = self.subiter; let ghost mut vx_k: int = 0; let ghost it0 = self.iter;
loop 0
inv fl_into::<IT>() && self.iter.obeys_prophetic_iter_laws() && (self.subiter is Some ==> self.subiter->0.obeys_prophetic_iter_laws())
inv 0 <= vx_k <= xs.len() && self.iter.remaining() == xs.skip(vx_k) && xs == it0.remaining()
inv sub0 == (*old(self)).subiter && it0 == (*old(self)).iter
inv vx_k == 0 ==> self.subiter == sub0 && self.iter == it0
inv vx_k > 0 ==> fl_sub(sub0).len() == 0 && self.subiter is Some && call_ensures(IT::into_iter, (xs[vx_k - 1],), self.subiter->0)
inv forall|m: int| 0 <= m < vx_k - 1 ==> fl_empty(#[trigger] xs[m])
lpre let ghost s1 = self.subiter; 
lpost proof { assert(fl_sub(s1).len() == 0); if vx_k > 0 { assert(fl_empty(xs[vx_k - 1])); } vx_k = vx_k + 1; }
closure 0
ctypes move &mut II
cret Option<II::Item>
creq (*old(vx_p0_0)).obeys_prophetic_iter_laws()
cens (*final(vx_p0_0)).obeys_prophetic_iter_laws()
cens (*old(vx_p0_0)).remaining().len() > 0 ==> vx_r == Some((*old(vx_p0_0)).remaining()[0]) && (*final(vx_p0_0)).remaining() == (*old(vx_p0_0)).remaining().drop_first()
cens (*old(vx_p0_0)).remaining().len() == 0 ==> vx_r is None
### FlatIter<I,IT,II>::new
props C11
req fl_into::<IT>() && $1.obeys_prophetic_iter_laws()
ens r is None <==> $1.remaining().len() == 0
ens r is Some ==> r->0.iter.remaining() == $1.remaining().drop_first() && r->0.subiter is Some && call_ensures(IT::into_iter, ($1.remaining()[0],), r->0.subiter->0)
closure 0
ctypes IT
cret Self
creq fl_into::<IT>()
cens vx_r.iter == iter && vx_r.subiter is Some && call_ensures(IT::into_iter, (a,), vx_r.subiter->0)
### FlatIter<I,IT,II>::from_outer
props C11
ens r.iter == $1
ens r.subiter is None
### <Matrix<T,M,N> as IntoIterator>::into_iter
props C11
ens r.remaining() == flat(self)
postr proof { fl_own(vx_res); assert(vx_res.iter.remaining().map_values(|v: Vector<T, N>| v@) =~= rows(self)); }
### <&'a Matrix<T,M,N> as IntoIterator>::into_iter ;; Matrix<T,M,N>::iter
props C11
ens r.obeys_prophetic_iter_laws() && r.will_return_none() && r.remaining().len() == M * N
ens forall|k: int| #![trigger r.remaining()[k]] #![trigger flat(*self)[k]] 0 <= k < M * N ==> *(r.remaining()[k]) == flat(*self)[k]
postr proof { fl_ref(vx_res); assert(vx_res.iter.remaining().map_values(|v: &Vector<T, N>| v@) =~= rows(*self)); flat_len(*self); let s = fl_rem(vx_res).map_values(|x: &T| *x); assert forall|k: int| 0 <= k < M * N implies *(#[trigger] vx_res.remaining()[k]) == flat(*self)[k] by { assert(s[k] == flat(*self)[k]); } }
### <&'a mut Matrix<T,M,N> as IntoIterator>::into_iter ;; Matrix<T,M,N>::iter_mut
props C11
pre broadcast use flat_group; let ghost s0 = *self;
ens r.obeys_prophetic_iter_laws() && r.will_return_none() && r.remaining().len() == M * N
ens forall|i: int, j: int| #![trigger r.remaining()[fi(i, j, N as int)]] #![trigger final(self).data@[i]@[j]] 0 <= i < M && 0 <= j < N ==> *r.remaining()[fi(i, j, N as int)] == old(self).data@[i]@[j] && *final(r.remaining()[fi(i, j, N as int)]) == final(self).data@[i]@[j] && 0 <= fi(i, j, N as int) < M * N
ens forall|k: int| 0 <= k < M * N ==> *(#[trigger] r.remaining()[k]) == flat(*old(self))[k]
postr proof { fl_mut(vx_res); assert forall|i: int, j: int| 0 <= i < M && 0 <= j < N implies #[trigger] vx_term(fi(i, j, N as int)) && 0 <= fi(i, j, N as int) < M * N by { flat_idx(s0, i, j); flat_len(s0); } assert forall|k: int| 0 <= k < M * N implies *(#[trigger] vx_res.remaining()[k]) == flat(s0)[k] by { flat_len(s0); flat_rev(s0, k); } }
