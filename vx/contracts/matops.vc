// entrywise operators of matrices
### for Op,f in Add/add,Sub/sub,Mul/mul,Div/div,Rem/rem,BitAnd/bitand,BitOr/bitor,BitXor/bitxor: verbatim
impl<T: $Op<Output = T>, const M: usize, const N: usize> vstd::std_specs::ops::$OpSpecImpl<Matrix<T, M, N>> for Matrix<T, M, N> {
    open spec fn obeys_$f_spec() -> bool { T::obeys_$f_spec() }
    open spec fn $f_req(self, b: Matrix<T, M, N>) -> bool { forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> rq_$f(#[trigger] self.data@[i]@[j], b.data@[i]@[j]) }
    open spec fn $f_spec(self, b: Matrix<T, M, N>) -> Matrix<T, M, N> { mk_mat::<T, M, N>(|i: int, j: int| sp_$f(self.data@[i]@[j], b.data@[i]@[j])) }
}
impl<T: $OpAssign, const M: usize, const N: usize> vstd::std_specs::ops::$OpAssignSpecImpl<Matrix<T, M, N>> for Matrix<T, M, N> {
    open spec fn obeys_$f_assign_spec() -> bool { T::obeys_$f_assign_spec() }
    open spec fn $f_assign_req(&self, b: Matrix<T, M, N>) -> bool { forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> (#[trigger] self.data@[i]@[j]).$f_assign_req(b.data@[i]@[j]) }
    open spec fn $f_assign_spec(&self, b: Matrix<T, M, N>) -> &Matrix<T, M, N> { &mk_mat::<T, M, N>(|i: int, j: int| *self.data@[i]@[j].$f_assign_spec(b.data@[i]@[j])) }
}
### for Op,f in Neg/neg,Not/not: verbatim
impl<T: $Op<Output = T>, const M: usize, const N: usize> vstd::std_specs::ops::$OpSpecImpl for Matrix<T, M, N> {
    open spec fn obeys_$f_spec() -> bool { T::obeys_$f_spec() }
    open spec fn $f_req(self) -> bool { forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> rq_$f(#[trigger] self.data@[i]@[j]) }
    open spec fn $f_spec(self) -> Matrix<T, M, N> { mk_mat::<T, M, N>(|i: int, j: int| sp_$f(self.data@[i]@[j])) }
}
### for Op,f in Mul/mul,Div/div,Rem/rem: verbatim
impl<T: $Op<Output = T> + Copy, const M: usize, const N: usize> vstd::std_specs::ops::$OpSpecImpl<T> for Matrix<T, M, N> {
    open spec fn obeys_$f_spec() -> bool { T::obeys_$f_spec() }
    open spec fn $f_req(self, b: T) -> bool { forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> rq_$f(#[trigger] self.data@[i]@[j], b) }
    open spec fn $f_spec(self, b: T) -> Matrix<T, M, N> { mk_mat::<T, M, N>(|i: int, j: int| sp_$f(self.data@[i]@[j], b)) }
}
impl<T: $OpAssign + Copy, const M: usize, const N: usize> vstd::std_specs::ops::$OpAssignSpecImpl<T> for Matrix<T, M, N> {
    open spec fn obeys_$f_assign_spec() -> bool { T::obeys_$f_assign_spec() }
    open spec fn $f_assign_req(&self, b: T) -> bool { forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> (#[trigger] self.data@[i]@[j]).$f_assign_req(b) }
    open spec fn $f_assign_spec(&self, b: T) -> &Matrix<T, M, N> { &mk_mat::<T, M, N>(|i: int, j: int| *self.data@[i]@[j].$f_assign_spec(b)) }
}

### for Op,f in Neg/neg: <Matrix<T,M,N> as $Op>::$f
props C02
ens T::obeys_$f_spec() ==> forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r.data@[i]@[j] == sp_$f(self.data@[i]@[j])
postr proof { if T::obeys_$f_spec() { mat_ext(vx_res, mk_mat::<T, M, N>(|i: int, j: int| sp_$f(self.data@[i]@[j]))); } }
### for Op,f in Not/not: <Matrix<T,M,N> as $Op>::$f
props C03
ens T::obeys_$f_spec() ==> forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r.data@[i]@[j] == sp_$f(self.data@[i]@[j])
postr proof { if T::obeys_$f_spec() { mat_ext(vx_res, mk_mat::<T, M, N>(|i: int, j: int| sp_$f(self.data@[i]@[j]))); } }
### for Op,f in Add/add,Sub/sub,Mul/mul,Div/div,Rem/rem: <Matrix<T,M,N> as $Op>::$f
props C02
ens T::obeys_$f_spec() ==> forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r.data@[i]@[j] == sp_$f(self.data@[i]@[j], $1.data@[i]@[j])
postr proof { if T::obeys_$f_spec() { mat_ext(vx_res, mk_mat::<T, M, N>(|i: int, j: int| sp_$f(self.data@[i]@[j], $1.data@[i]@[j]))); } }
### for Op,f in BitAnd/bitand,BitOr/bitor,BitXor/bitxor: <Matrix<T,M,N> as $Op>::$f
props C03
ens T::obeys_$f_spec() ==> forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r.data@[i]@[j] == sp_$f(self.data@[i]@[j], $1.data@[i]@[j])
postr proof { if T::obeys_$f_spec() { mat_ext(vx_res, mk_mat::<T, M, N>(|i: int, j: int| sp_$f(self.data@[i]@[j], $1.data@[i]@[j]))); } }
### for Op,f in Mul/mul,Div/div,Rem/rem: <Matrix<T,M,N> as $Op<T>>::$f
props C02
ens T::obeys_$f_spec() ==> forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r.data@[i]@[j] == sp_$f(self.data@[i]@[j], $1)
postr proof { if T::obeys_$f_spec() { mat_ext(vx_res, mk_mat::<T, M, N>(|i: int, j: int| sp_$f(self.data@[i]@[j], $1))); } }
### for Op,f in AddAssign/add_assign,SubAssign/sub_assign,MulAssign/mul_assign,DivAssign/div_assign,RemAssign/rem_assign: <Matrix<T,M,N> as $Op>::$f
props C02
ens T::obeys_$f_spec() ==> forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] final(self).data@[i]@[j] == *old(self).data@[i]@[j].$f_spec($1.data@[i]@[j])
pre broadcast use flat_group; let ghost s0 = *self; let ghost b0 = $1;
postr proof { if T::obeys_$f_spec() { let vx_m = mk_mat::<T, M, N>(|i: int, j: int| *s0.data@[i]@[j].$f_spec(b0.data@[i]@[j])); assert forall|i: int, j: int| 0 <= i < M && 0 <= j < N implies #[trigger] self.data@[i]@[j] == *s0.data@[i]@[j].$f_spec(b0.data@[i]@[j]) by { assert(vx_term(b0)); let q = b0.data@[i]@[j]; } mat_ext(*self, vx_m); } }
### for Op,f in BitAndAssign/bitand_assign,BitOrAssign/bitor_assign,BitXorAssign/bitxor_assign: <Matrix<T,M,N> as $Op>::$f
props C03
ens T::obeys_$f_spec() ==> forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] final(self).data@[i]@[j] == *old(self).data@[i]@[j].$f_spec($1.data@[i]@[j])
pre broadcast use flat_group; let ghost s0 = *self; let ghost b0 = $1;
postr proof { if T::obeys_$f_spec() { let vx_m = mk_mat::<T, M, N>(|i: int, j: int| *s0.data@[i]@[j].$f_spec(b0.data@[i]@[j])); assert forall|i: int, j: int| 0 <= i < M && 0 <= j < N implies #[trigger] self.data@[i]@[j] == *s0.data@[i]@[j].$f_spec(b0.data@[i]@[j]) by { assert(vx_term(b0)); let q = b0.data@[i]@[j]; } mat_ext(*self, vx_m); } }
### for Op,f in MulAssign/mul_assign,DivAssign/div_assign,RemAssign/rem_assign: <Matrix<T,M,N> as $Op<T>>::$f
props C02
ens T::obeys_$f_spec() ==> forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] final(self).data@[i]@[j] == *old(self).data@[i]@[j].$f_spec($1)
pre broadcast use flat_group; let ghost s0 = *self; let ghost b0 = $1;
postr proof { if T::obeys_$f_spec() { let vx_m = mk_mat::<T, M, N>(|i: int, j: int| *s0.data@[i]@[j].$f_spec(b0)); assert forall|i: int, j: int| 0 <= i < M && 0 <= j < N implies #[trigger] self.data@[i]@[j] == *s0.data@[i]@[j].$f_spec(b0) by { assert(vx_term(b0));  } mat_ext(*self, vx_m); } }
// masks
### for f,s in veq/eq,vne/ne: Matrix<T,M,N>::$f
props C03
ens T::obeys_eq_spec() ==> forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r.data@[i]@[j] == sp_$s(self.data@[i]@[j], $1.data@[i]@[j])
### for f,s in vlt/lt,vle/le,vgt/gt,vge/ge: Matrix<T,M,N>::$f
props C03
ens T::obeys_partial_cmp_spec() ==> forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r.data@[i]@[j] == sp_$s(self.data@[i]@[j], $1.data@[i]@[j])
### Matrix<bool,M,N>::any
props C03
pre broadcast use flat_group;
ens r <==> exists|i: int, j: int| 0 <= i < M && 0 <= j < N && #[trigger] self.data@[i]@[j]
### Matrix<bool,M,N>::all
props C03
pre broadcast use flat_group;
ens r <==> forall|i: int, j: int| #![trigger self.data@[i]@[j]] #![trigger vx_at2(i, j)] 0 <= i < M && 0 <= j < N ==> self.data@[i]@[j]
// integers
### for f in div_floor,mod_floor: Matrix<T,M,N>::$f
props C04
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> call_ensures(T::$f, (&self.data@[i]@[j], &$1.data@[i]@[j]), #[trigger] r.data@[i]@[j])
### Matrix<T,M,N>::div_mod_floor
props C04
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> call_ensures(T::div_mod_floor, (&self.data@[i]@[j], &$1.data@[i]@[j]), (#[trigger] r.0.data@[i]@[j], r.1.data@[i]@[j]))
// zero, sums, extrema, norms
### impl Zero for Matrix<T,M,N>
ghost     open spec fn obeys_zero() -> bool { T::obeys_zero() }
    open spec fn zero_spec() -> Self { mk_mat::<T, M, N>(|i: int, j: int| T::zero_spec()) }
    open spec fn is_zero_spec(&self) -> bool { forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> (#[trigger] self.data@[i]@[j]).is_zero_spec() }
### <Matrix<T,M,N> as Zero>::zero
props C02
ens forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> call_ensures(T::zero, (), #[trigger] r.data@[i]@[j])
ens T::obeys_zero() ==> forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r.data@[i]@[j] == T::zero_spec()
postr proof { if T::obeys_zero() { mat_ext(vx_res, mk_mat::<T, M, N>(|i: int, j: int| T::zero_spec())); } }
### <Matrix<T,M,N> as Zero>::is_zero
props C02
pre broadcast use flat_group; let ghost vx_fl = flat(*self);
ens T::obeys_zero() ==> (r <==> forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> (#[trigger] self.data@[i]@[j]).is_zero_spec())
### verbatim
pub open spec fn row_ok<S, X, F: FnMut(S, X) -> S>(f: F, s: S, xs: Seq<X>, r: S) -> bool { exists|t: Seq<S>| #[trigger] chain_ok(f, s, xs, t) && r == t[xs.len() as int] }
pub proof fn row_cat<S, X, F: FnMut(S, X) -> S>(f: F, a: S, xs: Seq<X>, b: S, ys: Seq<X>, c: S)
    requires row_ok(f, a, xs, b), row_ok(f, b, ys, c),
    ensures row_ok(f, a, xs + ys, c),
{
    let t = choose|t: Seq<S>| #[trigger] chain_ok(f, a, xs, t) && b == t[xs.len() as int]; let u = choose|u: Seq<S>| #[trigger] chain_ok(f, b, ys, u) && c == u[ys.len() as int];
    let z = xs + ys; let w = t + u.subrange(1, u.len() as int);
    assert forall|k: int| 0 <= k < z.len() implies call_ensures(f, (w[k], z[k]), #[trigger] w[k + 1]) by {
        if k < xs.len() { assert(call_ensures(f, (t[k], xs[k]), t[k + 1])); }
        else { let m = k - xs.len(); assert(w[k] == u[m]); assert(w[k + 1] == u[m + 1]); assert(call_ensures(f, (u[m], ys[m]), u[m + 1])); }
    }
    assert(chain_ok(f, a, z, w));
}
pub proof fn rows_ok<S, X, F: FnMut(S, X) -> S>(f: F, xs: Seq<Seq<X>>, t: Seq<S>)
    requires t.len() == xs.len() + 1, forall|k: int| 0 <= k < xs.len() ==> row_ok(f, t[k], #[trigger] xs[k], t[k + 1]),
    ensures row_ok(f, t[0], xs.flatten(), t[xs.len() as int]),
    decreases xs.len(),
{
    reveal(Seq::flatten);
    if xs.len() == 0 { let u = Seq::new(1, |k: int| t[0]); assert(chain_ok(f, t[0], xs.flatten(), u)); }
    else {
        let ys = xs.drop_first(); let u = t.drop_first();
        assert forall|k: int| 0 <= k < ys.len() implies row_ok(f, u[k], #[trigger] ys[k], u[k + 1]) by { assert(ys[k] == xs[k + 1]); }
        rows_ok(f, ys, u); assert(row_ok(f, t[0], xs[0], t[1])); row_cat(f, t[0], xs[0], u[0], ys.flatten(), u[ys.len() as int]);
        assert(xs.flatten() == xs[0] + ys.flatten());
    }
}
pub proof fn row_fold<S, X, F: FnMut(S, X) -> S>(f: F, s: S, xs: Seq<X>, r: S, g: spec_fn(S, X) -> S)
    requires row_ok(f, s, xs, r), forall|a: S, i: int, q: S| 0 <= i < xs.len() && #[trigger] call_ensures(f, (a, xs[i]), q) ==> q == g(a, xs[i]),
    ensures r == vfold(s, xs, g),
{ let t = choose|t: Seq<S>| #[trigger] chain_ok(f, s, xs, t) && r == t[xs.len() as int]; chain_vfold(f, s, xs, t, g); }
### Matrix<T,M,N>::fold
props C10
byref
req forall|s: S, i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] call_requires(f, (s, self.data@[i]@[j]))
ens row_ok(f, $1, flat(self), r)
ens forall|g: spec_fn(S, T) -> S| (forall|a: S, k: int, q: S| 0 <= k < M * N && #[trigger] call_ensures(f, (a, flat(self)[k]), q) ==> q == g(a, flat(self)[k])) ==> r == #[trigger] vfold($1, flat(self), g)
closure 0
ctypes S ; Vector<T, N>
cret S
creq forall|s: S, j: int| 0 <= j < N ==> #[trigger] call_requires(f, (s, a@[j]))
cens row_ok(f, t, a@, vx_r)
cpre let ghost t0 = t; let ghost a0 = a@;
cwrap proof { let c = choose|c: Seq<S>| #[trigger] chain_ok(&f, t0, a0, c) && vx_cr == c[N as int]; assert forall|k: int| 0 <= k < N implies call_ensures(f, (c[k], a0[k]), #[trigger] c[k + 1]) by { assert(call_ensures(&f, (c[k], a0[k]), c[k + 1])); } assert(chain_ok(f, t0, a0, c)); }
pre broadcast use flat_group; let ghost f0 = f; let ghost s0 = $1; let ghost v0 = self;
postr proof { fold_flat(f0, s0, v0, vx_res); }
### verbatim
pub open spec fn vrows_ok<S, T, F: Fn(S, T) -> S, const M: usize, const N: usize>(f: F, s: S, m: Seq<Vector<T, N>>, r: S) -> bool { exists|t: Seq<S>| #![trigger t.len()] t.len() == m.len() + 1 && t[0] == s && r == t[m.len() as int] && forall|k: int| 0 <= k < m.len() ==> row_ok(f, t[k], m[k]@, #[trigger] t[k + 1]) }
pub proof fn fold_flat<S, T, F: Fn(S, T) -> S, const M: usize, const N: usize>(f: F, s: S, m: Matrix<T, M, N>, r: S)
    requires vrows_ok::<S, T, F, M, N>(f, s, m.data@, r),
    ensures row_ok(f, s, flat(m), r),
        forall|g: spec_fn(S, T) -> S| (forall|a: S, k: int, q: S| 0 <= k < M * N && #[trigger] call_ensures(f, (a, flat(m)[k]), q) ==> q == g(a, flat(m)[k])) ==> r == #[trigger] vfold(s, flat(m), g),
{
    let t = choose|t: Seq<S>| #![trigger t.len()] t.len() == m.data@.len() + 1 && t[0] == s && r == t[m.data@.len() as int] && forall|k: int| 0 <= k < m.data@.len() ==> row_ok(f, t[k], m.data@[k]@, #[trigger] t[k + 1]);
    let rs = rows(m);
    assert forall|k: int| 0 <= k < rs.len() implies row_ok(f, t[k], #[trigger] rs[k], t[k + 1]) by { assert(rs[k] == m.data@[k]@); }
    rows_ok(f, rs, t); flat_len(m);
    assert forall|g: spec_fn(S, T) -> S| (forall|a: S, k: int, q: S| 0 <= k < M * N && #[trigger] call_ensures(f, (a, flat(m)[k]), q) ==> q == g(a, flat(m)[k])) implies r == #[trigger] vfold(s, flat(m), g) by { row_fold(f, s, flat(m), r, g); }
}

### Matrix<T,M,N>::fold_first
props C10
byref
req M >= 1 && N >= 1
req forall|s: T, i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] call_requires(f, (s, self.data@[i]@[j]))
ens row_ok(f, self.data@[0]@[0], flat(self).subrange(1, M * N), r)
ens forall|g: spec_fn(T, T) -> T| (forall|a: T, k: int, q: T| 0 <= k < M * N && #[trigger] call_ensures(f, (a, flat(self)[k]), q) ==> q == g(a, flat(self)[k])) ==> r == #[trigger] vfold(self.data@[0]@[0], flat(self).subrange(1, M * N), g)
closure 0
ctypes T ; Vector<T, N>
cret T
creq forall|s: T, j: int| 0 <= j < N ==> #[trigger] call_requires(f, (s, a@[j]))
cens row_ok(f, t, a@, vx_r)
cpre let ghost t0 = t; let ghost a0 = a@;
cwrap proof { let c = choose|c: Seq<T>| #[trigger] chain_ok(&f, t0, a0, c) && vx_cr == c[N as int]; assert forall|k: int| 0 <= k < N implies call_ensures(f, (c[k], a0[k]), #[trigger] c[k + 1]) by { assert(call_ensures(&f, (c[k], a0[k]), c[k + 1])); } assert(chain_ok(f, t0, a0, c)); }
pre let ghost f0 = f; let ghost v0 = self;
postr proof {
    let row = v0.data@[0]@; let tl = v0.data@.subrange(1, M as int); let g0 = &f0;
    assert(exists|t: Seq<T>| #[trigger] chain_ok(g0, row[0], row.subrange(1, N as int), t) && s == t[N - 1]);
    let c = choose|t: Seq<T>| #[trigger] chain_ok(g0, row[0], row.subrange(1, N as int), t) && s == t[N - 1];
    assert(row_ok(g0, row[0], row.subrange(1, N as int), s));
    assert(exists|t: Seq<T>| #[trigger] t.len() == tl.len() + 1 && t[0] == s && vx_res == t[tl.len() as int] && forall|k: int| 0 <= k < tl.len() ==> row_ok(f0, t[k], tl[k]@, #[trigger] t[k + 1]));
    assert(vrows_ok::<T, T, F, M, N>(f0, s, tl, vx_res));
    fold_first_flat(f0, v0, vx_res); }
### verbatim
pub open spec fn ffirst_ok<T, F: Fn(T, T) -> T, const M: usize, const N: usize>(f: F, m: Matrix<T, M, N>, r: T) -> bool { exists|s: T| row_ok(&f, m.data@[0]@[0], m.data@[0]@.subrange(1, N as int), s) && #[trigger] vrows_ok::<T, T, F, M, N>(f, s, m.data@.subrange(1, M as int), r) }
pub proof fn row_ref<S, X, F: Fn(S, X) -> S>(f: F, s: S, xs: Seq<X>, r: S)
    requires row_ok(&f, s, xs, r),
    ensures row_ok(f, s, xs, r),
{ let c = choose|c: Seq<S>| #[trigger] chain_ok(&f, s, xs, c) && r == c[xs.len() as int]; assert forall|k: int| 0 <= k < xs.len() implies call_ensures(f, (c[k], xs[k]), #[trigger] c[k + 1]) by { assert(call_ensures(&f, (c[k], xs[k]), c[k + 1])); } assert(chain_ok(f, s, xs, c)); }
pub proof fn fold_first_flat<T, F: Fn(T, T) -> T, const M: usize, const N: usize>(f: F, m: Matrix<T, M, N>, r: T)
    requires M >= 1, N >= 1, ffirst_ok(f, m, r),
    ensures row_ok(f, m.data@[0]@[0], flat(m).subrange(1, M * N), r),
        forall|g: spec_fn(T, T) -> T| (forall|a: T, k: int, q: T| 0 <= k < M * N && #[trigger] call_ensures(f, (a, flat(m)[k]), q) ==> q == g(a, flat(m)[k])) ==> r == #[trigger] vfold(m.data@[0]@[0], flat(m).subrange(1, M * N), g),
{
    let s = choose|s: T| row_ok(&f, m.data@[0]@[0], m.data@[0]@.subrange(1, N as int), s) && #[trigger] vrows_ok::<T, T, F, M, N>(f, s, m.data@.subrange(1, M as int), r);
    let tl = m.data@.subrange(1, M as int);
    let t = choose|t: Seq<T>| #![trigger t.len()] t.len() == tl.len() + 1 && t[0] == s && r == t[tl.len() as int] && forall|k: int| 0 <= k < tl.len() ==> row_ok(f, t[k], tl[k]@, #[trigger] t[k + 1]);
    let rs = rows(m); let rt = rs.drop_first();
    assert forall|k: int| 0 <= k < rt.len() implies row_ok(f, t[k], #[trigger] rt[k], t[k + 1]) by { assert(rt[k] == tl[k]@); assert(row_ok(f, t[k], tl[k]@, t[k + 1])); }
    rows_ok(f, rt, t);
    row_ref(f, m.data@[0]@[0], m.data@[0]@.subrange(1, N as int), s);
    row_cat(f, m.data@[0]@[0], m.data@[0]@.subrange(1, N as int), s, rt.flatten(), r);
    flat_len(m); reveal(Seq::flatten);
    assert(flat(m) == rs[0] + rt.flatten()); assert(rs[0] == m.data@[0]@);
    let xs = flat(m).subrange(1, M * N);
    assert(M * N >= 1) by(nonlinear_arith) requires M >= 1, N >= 1;
    assert(xs =~= m.data@[0]@.subrange(1, N as int) + rt.flatten());
    assert forall|g: spec_fn(T, T) -> T| (forall|a: T, k: int, q: T| 0 <= k < M * N && #[trigger] call_ensures(f, (a, flat(m)[k]), q) ==> q == g(a, flat(m)[k])) implies r == #[trigger] vfold(m.data@[0]@[0], xs, g) by {
        assert forall|a: T, k: int, q: T| 0 <= k < xs.len() && #[trigger] call_ensures(f, (a, xs[k]), q) implies q == g(a, xs[k]) by { assert(xs[k] == flat(m)[k + 1]); }
        row_fold(f, m.data@[0]@[0], xs, r, g);
    }
}
### Matrix<T,M,N>::sum
props C12
req M >= 1 && N >= 1
req tot_add::<T, T>()
pre broadcast use flat_group;
ens r == vsum(flat(self))
### Matrix<T,M,N>::max
props C12
req M >= 1 && N >= 1
pre broadcast use flat_group;
ens T::obeys_partial_cmp_spec() ==> r == vmax(flat(self))
### Matrix<T,M,N>::min
props C12
req M >= 1 && N >= 1
pre broadcast use flat_group;
ens T::obeys_partial_cmp_spec() ==> r == vmin(flat(self))
