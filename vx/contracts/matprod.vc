### struct GroupIter
attr #[verifier::reject_recursive_types(I)]
### verbatim
// trusted: GroupIter yields consecutive groups of N items (its next() is decided by the bounded layer, C08)
impl<I: Iterator, const N: usize> vstd::std_specs::iter::IteratorSpecImpl for GroupIter<I, N> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { N >= 1 && self.iter.obeys_prophetic_iter_laws() }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Vector<I::Item, N>> { Seq::new((self.iter.remaining().len() / (N as nat)) as nat, |k: int| mk_vec::<I::Item, N>(|j: int| self.iter.remaining()[fi(k, j, N as int)])) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { self.iter.will_return_none() }
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, i: int) -> Option<Vector<I::Item, N>> { None }
}
pub proof fn group_count(l: nat, n: nat, m: nat) requires n >= 1 ensures l / n >= m <==> l >= m * n
{ assert(l / n >= m <==> l >= m * n) by(nonlinear_arith) requires n >= 1; }
### twin <GroupIter<I,N> as Iterator>::next
props C08
req old(self).iter.obeys_prophetic_iter_laws()
ens r is Some <==> (*old(self)).iter.remaining().len() >= N
ens r is Some ==> forall|j: int| 0 <= j < N ==> #[trigger] r->0@[j] == (*old(self)).iter.remaining()[j]
### Matrix<T,M,N>::try_from_iter
props C08 C07
req N >= 1
req $1.obeys_prophetic_iter_laws()
ens r is Some <==> $1.remaining().len() >= M * N
ens r is Some ==> forall|a: int, b: int| 0 <= a < M && 0 <= b < N ==> #[trigger] r->0.data@[a]@[b] == $1.remaining()[fi(a, b, N as int)]
pre let ghost i0 = $1; proof { group_count(i0.remaining().len(), N as nat, M as nat); }
### <Matrix<T,M,N> as TryFrom<&'a[Vector<T,N>]>>::try_from
props C08 C07
ens r is Ok <==> $1@.len() == M
ens r is Ok ==> r->Ok_0.data@ == $1@
### <Matrix<T,M,N> as TryFrom<&'a[T]>>::try_from
skip verified as the twin function with the precondition N >= 1 and no overflow of M * N, which a trait implementation cannot require
props C08 C07
ens N >= 1 && M * N <= usize::MAX ==> (r is Ok <==> $1@.len() == M * N)
ens N >= 1 && M * N <= usize::MAX && r is Ok ==> forall|a: int, b: int| 0 <= a < M && 0 <= b < N ==> #[trigger] r->Ok_0.data@[a]@[b] == $1@[fi(a, b, N as int)]
### twin <Matrix<T,M,N> as TryFrom<&'a[T]>>::try_from
props C08 C07
req N >= 1 && M * N <= usize::MAX
ens r is Ok <==> $1@.len() == M * N
ens r is Ok ==> forall|a: int, b: int| 0 <= a < M && 0 <= b < N ==> #[trigger] r->Ok_0.data@[a]@[b] == $1@[fi(a, b, N as int)]
pre proof { assert forall|a: int, b: int| 0 <= a < M && 0 <= b < N implies 0 <= #[trigger] fi(a, b, N as int) < M * N by { fi_split(a, b, M as int, N as int); } }
### Matrix<(usize,usize),M,N>::indices
props C07 C10
rename map=vx_map
req N >= 1 && M * N <= usize::MAX
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r.data@[i]@[j] == (i as usize, j as usize)
closure 0
ctypes usize
cret (usize, usize)
creq N >= 1
cens vx_r.0 == x / N && vx_r.1 == x % N
postr proof { assert forall|i: int, j: int| 0 <= i < M && 0 <= j < N implies #[trigger] vx_res.data@[i]@[j] == (i as usize, j as usize) by { fi_split(i, j, M as int, N as int); } }
### verbatim
pub proof fn fi_split(i: int, j: int, m: int, n: int) requires 0 <= i < m, 0 <= j < n ensures 0 <= fi(i, j, n) < m * n, fi(i, j, n) / n == i, fi(i, j, n) % n == j
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i * n + j, n, i, j); assert(0 <= i * n) by(nonlinear_arith) requires 0 <= i, 0 < n; assert(i * n + n <= m * n) by(nonlinear_arith) requires i + 1 <= m, 0 < n; }
pub open spec fn colq<T, const M: usize, const N: usize>(m: Matrix<T, M, N>, j: int) -> Seq<T> { Seq::new(M as nat, |i: int| m.data@[i]@[j]) }
// ------------------------------------------------ sums of sequences of matrices, norms
### for S,s,Z,A,a,z,q in Sum/sum/Zero/Add/add/zero/true,Product/product/One/Mul/mul/one/T::one_req(): verbatim
impl<T: $Z + $A, const M: usize, const N: usize> Vx$SSpecImpl<Matrix<T, M, N>> for Matrix<T, M, N> { open spec fn $s_req() -> bool { tot_$a::<T, T>() && T::obeys_$z() && $q } }
pub open spec fn mtrace_$s<T: $Z + $A<Output = T>, const M: usize, const N: usize>(t: Seq<Matrix<T, M, N>>, xs: Seq<Matrix<T, M, N>>, r: Matrix<T, M, N>) -> bool {
    t.len() == xs.len() + 1 && r == t[xs.len() as int] && (forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] t[0].data@[i]@[j] == T::$z_spec())
    && forall|k: int, i: int, j: int| 0 <= k < xs.len() && 0 <= i < M && 0 <= j < N ==> #[trigger] t[k + 1].data@[i]@[j] == sp_$a(t[k].data@[i]@[j], xs[k].data@[i]@[j])
}
pub proof fn mtrace_$s_lemma<T: $Z + $A<Output = T>, const M: usize, const N: usize>(t: Seq<Matrix<T, M, N>>, xs: Seq<Matrix<T, M, N>>, r: Matrix<T, M, N>, i: int, j: int)
    requires mtrace_$s(t, xs, r), 0 <= i < M, 0 <= j < N,
    ensures r.data@[i]@[j] == vfold(T::$z_spec(), xs.map_values(|x: Matrix<T, M, N>| x.data@[i]@[j]), |a: T, b: T| sp_$a(a, b)),
{
    let tv = t.map_values(|x: Matrix<T, M, N>| x.data@[i]@); let xv = xs.map_values(|x: Matrix<T, M, N>| x.data@[i]@);
    cchain_vfold(tv, N as int, xv, |a: T, b: T| sp_$a(a, b), j);
    assert(xv.map_values(|x: Seq<T>| x[j]) =~= xs.map_values(|x: Matrix<T, M, N>| x.data@[i]@[j]));
}
### for S,s,a,z in Sum/sum/add/zero,Product/product/mul/one: <Matrix<T,M,N> as $S>::$s
props C12
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r.data@[i]@[j] == vfold(T::$z_spec(), iter.remaining().map_values(|x: Self| x.data@[i]@[j]), |a: T, b: T| sp_$a(a, b))
pre let ghost xs = iter.remaining();
postr proof { assert(exists|t: Seq<Self>| #[trigger] t.len() == xs.len() + 1 && mtrace_$s(t, xs, vx_res)); let t = choose|t: Seq<Self>| #[trigger] mtrace_$s(t, xs, vx_res); assert forall|i: int, j: int| 0 <= i < M && 0 <= j < N implies #[trigger] vx_res.data@[i]@[j] == vfold(T::$z_spec(), xs.map_values(|x: Self| x.data@[i]@[j]), |a: T, b: T| sp_$a(a, b)) by { mtrace_$s_lemma(t, xs, vx_res, i, j); } }
### impl NormL1 for Matrix<T,M,N>
ghost     open spec fn norm_l1_req(self) -> bool { M >= 1 && N >= 1 && tot_add::<T, T>() && forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> (#[trigger] self.data@[i]@[j]).norm_l1_req() }
    open spec fn norm_l1_r(self, r: Self::Output) -> bool { exists|n: Matrix<T, M, N>| r == #[trigger] vsum(flat(n)) && forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> (self.data@[i]@[j]).norm_l1_r(#[trigger] n.data@[i]@[j]) }
### <Matrix<T,M,N> as NormL1>::norm_l1
props C12
ens exists|n: Matrix<T, M, N>| r == #[trigger] vsum(flat(n)) && forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> call_ensures(T::norm_l1, (self.data@[i]@[j],), #[trigger] n.data@[i]@[j])
### impl NormLInf for Matrix<T,M,N>
ghost     open spec fn norm_l_inf_req(self) -> bool { M >= 1 && N >= 1 && T::obeys_partial_cmp_spec() && forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> (#[trigger] self.data@[i]@[j]).norm_l_inf_req() }
### <Matrix<T,M,N> as NormLInf>::norm_l_inf
props C12
ens exists|n: Matrix<T, M, N>| r == #[trigger] vmax(flat(n)) && forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> call_ensures(T::norm_l_inf, (self.data@[i]@[j],), #[trigger] n.data@[i]@[j])
### impl NormL2 for Matrix<T,M,N>
ghost     open spec fn norm_l2_req(self) -> bool { M >= 1 && N >= 1 && tot_vec::<T>() }
### <Matrix<T,M,N> as NormL2>::norm_l2_sqr
props C12
ens r == vdot(flat(self), flat(self))
pre broadcast use flat_group; let ghost vx_q = mk_mat::<T, M, N>(|i: int, j: int| sp_mul(self.data@[i]@[j], self.data@[i]@[j])); proof { assert forall|p: Matrix<T, M, N>| (forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] p.data@[i]@[j] == vx_q.data@[i]@[j]) implies #[trigger] flat(p) == flat(vx_q) by { mat_ext(p, vx_q); } assert forall|k: int| 0 <= k < M * N implies #[trigger] flat(vx_q)[k] == sp_mul(flat(self)[k], flat(self)[k]) by { flat_len(self); flat_rev(self, k); let (i, j) = choose|i: int, j: int| 0 <= i < M && 0 <= j < N && k == #[trigger] fi(i, j, N as int); flat_idx(self, i, j); flat_idx(vx_q, i, j); } assert(flat(vx_q) =~= Seq::new(flat(self).len(), |k: int| sp_mul(flat(self)[k], flat(self)[k]))); }
### <Matrix<T,M,N> as NormL2>::norm_l2
props C12
ens T::sqrt_r(vdot(flat(self), flat(self)), r)
// ------------------------------------------------ products
### impl Outer<Vector<T,N>> for Vector<T,M>
ghost     open spec fn outer_req(self, other: Vector<T, N>) -> bool { N >= 1 && M * N <= usize::MAX && tot_mul::<T, T>() }
### <Vector<T,M> as Outer<Vector<T,N>>>::outer
props C13
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r.data@[i]@[j] == sp_mul(self@[i], $1@[j])
closure 0
ctypes (usize, usize)
cret T
creq i < M && j < N && tot_mul::<T, T>()
cens vx_r == sp_mul(self@[i as int], $1@[j as int])
### impl Dot<Vector<T,N>> for Matrix<T,M,N>
ghost     open spec fn dot_req(self, other: Vector<T, N>) -> bool { N >= 1 && tot_vec::<T>() }
### <Matrix<T,M,N> as Dot<Vector<T,N>>>::dot
props C14
ens forall|i: int| 0 <= i < M ==> #[trigger] r@[i] == vdot(self.data@[i]@, $1@)
closure 0
ctypes usize
cret T
creq i < M && N >= 1 && tot_vec::<T>()
cens vx_r == vdot(self.data@[i as int]@, $1@)
### impl Dot<Matrix<T,M,N>> for Vector<T,M>
ghost     open spec fn dot_req(self, other: Matrix<T, M, N>) -> bool { M >= 1 && tot_vec::<T>() }
### <Vector<T,M> as Dot<Matrix<T,M,N>>>::dot
props C14
ens forall|j: int| 0 <= j < N ==> #[trigger] r@[j] == vdot(self@, colq($1, j))
closure 0
ctypes usize
cret T
creq j < N && M >= 1 && tot_vec::<T>()
cens vx_r == vdot(self@, colq($1, j as int))
cpre proof { assert forall|v: Vector<T, M>| (forall|i: int| 0 <= i < M ==> #[trigger] v@[i] == $1.data@[i]@[j as int]) implies #[trigger] v@ == colq($1, j as int) by { assert(v@ =~= colq($1, j as int)); } }
### impl Dot<Matrix<T,M,N>> for Matrix<T,L,M>
ghost     open spec fn dot_req(self, other: Matrix<T, M, N>) -> bool { M >= 1 && N >= 1 && L * N <= usize::MAX && tot_vec::<T>() }
### <Matrix<T,L,M> as Dot<Matrix<T,M,N>>>::dot
props C14
ens forall|i: int, j: int| 0 <= i < L && 0 <= j < N ==> #[trigger] r.data@[i]@[j] == vdot(self.data@[i]@, colq($1, j))
closure 0
ctypes (usize, usize)
cret T
creq i < L && j < N && M >= 1 && tot_vec::<T>()
cens vx_r == vdot(self.data@[i as int]@, colq($1, j as int))
cpre proof { assert forall|v: Vector<T, M>| (forall|i: int| 0 <= i < M ==> #[trigger] v@[i] == $1.data@[i]@[j as int]) implies #[trigger] v@ == colq($1, j as int) by { assert(v@ =~= colq($1, j as int)); } }
### impl One for Matrix<T,N,N>
ghost     open spec fn obeys_one() -> bool { T::obeys_one() && T::obeys_zero() }
    open spec fn one_req() -> bool { N >= 1 && N * N <= usize::MAX && T::one_req() }
    open spec fn one_spec() -> Self { mk_mat::<T, N, N>(|i: int, j: int| if i == j { T::one_spec() } else { T::zero_spec() }) }
### <Matrix<T,N,N> as One>::one
props C14
ens forall|i: int, j: int| 0 <= i < N && 0 <= j < N && i == j ==> call_ensures(T::one, (), #[trigger] r.data@[i]@[j])
ens forall|i: int, j: int| 0 <= i < N && 0 <= j < N && i != j ==> call_ensures(T::zero, (), #[trigger] r.data@[i]@[j])
closure 0
ctypes (usize, usize)
cret T
creq T::one_req()
cens i == j ==> call_ensures(T::one, (), vx_r)
cens i != j ==> call_ensures(T::zero, (), vx_r)
postr proof { if T::obeys_one() && T::obeys_zero() { mat_ext(vx_res, Self::one_spec()); } }
### Matrix<T,N,N>::diagonal
drop verified in state-passing form only (`st Matrix<T,N,N>::diagonal`)
// ------------------------------------------------ float functions
### impl Broadcast<Matrix<T,M,N>> for Matrix<T,M,N>
ghost     open spec fn broadcast_ok(self, v: Matrix<T, M, N>) -> bool { v == self }
### <Matrix<T,M,N> as Broadcast<Matrix<T,M,N>>>::broadcast
props C05
### impl Broadcast<Matrix<T,M,N>> for Vector<T,N>
ghost     open spec fn broadcast_ok(self, v: Matrix<T, M, N>) -> bool { forall|i: int| 0 <= i < M ==> #[trigger] v.data@[i] == self }
### <Vector<T,N> as Broadcast<Matrix<T,M,N>>>::broadcast
props C05
### impl Broadcast<Matrix<T,M,N>> for T
ghost     open spec fn broadcast_ok(self, v: Matrix<T, M, N>) -> bool { forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] v.data@[i]@[j] == self }
### <T as Broadcast<Matrix<T,M,N>>>::broadcast
props C05
### for f in floor,ceil,round,trunc,fract,abs,signum,recip,sqrt,exp,exp2,ln,log2,log10,cbrt,sin,cos,tan,asin,acos,atan,exp_m1,ln_1p,sinh,cosh,tanh,asinh,acosh,atanh: Matrix<T,M,N>::$f
props C05
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> call_ensures(T::$f, (self.data@[i]@[j],), #[trigger] r.data@[i]@[j])
### for f,g in abs_sub/abs_sub,vmin/min,vmax/max,atan2/atan2,hypot/hypot,powf/powf,log/log: Matrix<T,M,N>::$f
props C05
ens exists|o: Matrix<T, M, N>| #[trigger] $1.broadcast_ok(o) && forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> call_ensures(T::$g, (self.data@[i]@[j], o.data@[i]@[j]), #[trigger] r.data@[i]@[j])
### Matrix<T,M,N>::powi
props C05
ens exists|o: Matrix<i32, M, N>| #[trigger] $1.broadcast_ok(o) && forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> call_ensures(T::powi, (self.data@[i]@[j], o.data@[i]@[j]), #[trigger] r.data@[i]@[j])
### Matrix<T,M,N>::mul_add
props C05
ens exists|o: Matrix<T, M, N>, p: Matrix<T, M, N>| #[trigger] $1.broadcast_ok(o) && #[trigger] $2.broadcast_ok(p) && forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> call_ensures(T::mul_add, (self.data@[i]@[j], o.data@[i]@[j], p.data@[i]@[j]), #[trigger] r.data@[i]@[j])
### Matrix<T,M,N>::clamp
props C05
ens exists|o: Matrix<T, M, N>, p: Matrix<T, M, N>| #[trigger] $1.broadcast_ok(o) && #[trigger] $2.broadcast_ok(p) && forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] clamped(self.data@[i]@[j], o.data@[i]@[j], p.data@[i]@[j], r.data@[i]@[j])
### Matrix<T,M,N>::sin_cos
props C05
ens forall|i: int, j: int| #![trigger r.0.data@[i]@[j]] #![trigger r.1.data@[i]@[j]] 0 <= i < M && 0 <= j < N ==> call_ensures(T::sin_cos, (self.data@[i]@[j],), (r.0.data@[i]@[j], r.1.data@[i]@[j]))
