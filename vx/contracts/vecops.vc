### verbatim
pub open spec fn vsum<T: Add<Output = T>>(s: Seq<T>) -> T { vfold(s[0], s.subrange(1, s.len() as int), |a: T, b: T| sp_add(a, b)) }
pub open spec fn vmax<T: PartialOrd>(s: Seq<T>) -> T { vfold(s[0], s.subrange(1, s.len() as int), |a: T, b: T| if sp_lt(a, b) { b } else { a }) }
pub open spec fn vmin<T: PartialOrd>(s: Seq<T>) -> T { vfold(s[0], s.subrange(1, s.len() as int), |a: T, b: T| if sp_lt(a, b) { a } else { b }) }
// ---------------------------------------------------------- elementwise operators
### for Op,f in Add/add,Sub/sub,Mul/mul,Div/div,Rem/rem,BitAnd/bitand,BitOr/bitor,BitXor/bitxor: verbatim
impl<T: $Op<Output = T>, const N: usize> vstd::std_specs::ops::$OpSpecImpl<Vector<T, N>> for Vector<T, N> {
    open spec fn obeys_$f_spec() -> bool { T::obeys_$f_spec() }
    open spec fn $f_req(self, b: Vector<T, N>) -> bool { forall|i: int| 0 <= i < N ==> rq_$f(#[trigger] self@[i], b@[i]) }
    open spec fn $f_spec(self, b: Vector<T, N>) -> Vector<T, N> { Vector { data: mk_arr::<T, N>(|i: int| sp_$f(self@[i], b@[i])) } }
}
impl<T: $OpAssign, const N: usize> vstd::std_specs::ops::$OpAssignSpecImpl<Vector<T, N>> for Vector<T, N> {
    open spec fn obeys_$f_assign_spec() -> bool { T::obeys_$f_assign_spec() }
    open spec fn $f_assign_req(&self, b: Vector<T, N>) -> bool { forall|i: int| 0 <= i < N ==> (#[trigger] self@[i]).$f_assign_req(b@[i]) }
    open spec fn $f_assign_spec(&self, b: Vector<T, N>) -> &Vector<T, N> { &Vector { data: mk_arr::<T, N>(|i: int| *self@[i].$f_assign_spec(b@[i])) } }
}
### for Op,f in Neg/neg,Not/not: verbatim
impl<T: $Op<Output = T>, const N: usize> vstd::std_specs::ops::$OpSpecImpl for Vector<T, N> {
    open spec fn obeys_$f_spec() -> bool { T::obeys_$f_spec() }
    open spec fn $f_req(self) -> bool { forall|i: int| 0 <= i < N ==> rq_$f(#[trigger] self@[i]) }
    open spec fn $f_spec(self) -> Vector<T, N> { Vector { data: mk_arr::<T, N>(|i: int| sp_$f(self@[i])) } }
}
### for Op,f in Mul/mul,Div/div,Rem/rem: verbatim
impl<T: $Op<Output = T> + Copy, const N: usize> vstd::std_specs::ops::$OpSpecImpl<T> for Vector<T, N> {
    open spec fn obeys_$f_spec() -> bool { T::obeys_$f_spec() }
    open spec fn $f_req(self, b: T) -> bool { forall|i: int| 0 <= i < N ==> rq_$f(#[trigger] self@[i], b) }
    open spec fn $f_spec(self, b: T) -> Vector<T, N> { Vector { data: mk_arr::<T, N>(|i: int| sp_$f(self@[i], b)) } }
}
impl<T: $OpAssign + Copy, const N: usize> vstd::std_specs::ops::$OpAssignSpecImpl<T> for Vector<T, N> {
    open spec fn obeys_$f_assign_spec() -> bool { T::obeys_$f_assign_spec() }
    open spec fn $f_assign_req(&self, b: T) -> bool { forall|i: int| 0 <= i < N ==> (#[trigger] self@[i]).$f_assign_req(b) }
    open spec fn $f_assign_spec(&self, b: T) -> &Vector<T, N> { &Vector { data: mk_arr::<T, N>(|i: int| *self@[i].$f_assign_spec(b)) } }
}
### for Op,f in Neg/neg: <Vector<T,N> as $Op>::$f
props C01
ens T::obeys_$f_spec() ==> forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == sp_$f(self@[i])
postr proof { if T::obeys_$f_spec() { let vx_m = mk_arr::<T, N>(|i: int| sp_$f(self@[i])); assert forall|i: int| 0 <= i < N implies #[trigger] vx_res@[i] == sp_$f(self@[i]) by {} assert(vx_res@ =~= vx_m@); assert(vx_res.data =~= vx_m); } }
### for Op,f in Not/not: <Vector<T,N> as $Op>::$f
props C03
ens T::obeys_$f_spec() ==> forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == sp_$f(self@[i])
postr proof { if T::obeys_$f_spec() { let vx_m = mk_arr::<T, N>(|i: int| sp_$f(self@[i])); assert forall|i: int| 0 <= i < N implies #[trigger] vx_res@[i] == sp_$f(self@[i]) by {} assert(vx_res@ =~= vx_m@); assert(vx_res.data =~= vx_m); } }
### for Op,f in Add/add,Sub/sub,Mul/mul,Div/div,Rem/rem: <Vector<T,N> as $Op>::$f
props C01
ens T::obeys_$f_spec() ==> forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == sp_$f(self@[i], $1@[i])
postr proof { if T::obeys_$f_spec() { let vx_m = mk_arr::<T, N>(|i: int| sp_$f(self@[i], $1@[i])); assert forall|i: int| 0 <= i < N implies #[trigger] vx_res@[i] == sp_$f(self@[i], $1@[i]) by {} assert(vx_res@ =~= vx_m@); assert(vx_res.data =~= vx_m); } }
### for Op,f in BitAnd/bitand,BitOr/bitor,BitXor/bitxor: <Vector<T,N> as $Op>::$f
props C03
ens T::obeys_$f_spec() ==> forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == sp_$f(self@[i], $1@[i])
postr proof { if T::obeys_$f_spec() { let vx_m = mk_arr::<T, N>(|i: int| sp_$f(self@[i], $1@[i])); assert forall|i: int| 0 <= i < N implies #[trigger] vx_res@[i] == sp_$f(self@[i], $1@[i]) by {} assert(vx_res@ =~= vx_m@); assert(vx_res.data =~= vx_m); } }
### for Op,f in Mul/mul,Div/div,Rem/rem: <Vector<T,N> as $Op<T>>::$f
props C01
ens T::obeys_$f_spec() ==> forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == sp_$f(self@[i], $1)
postr proof { if T::obeys_$f_spec() { let vx_m = mk_arr::<T, N>(|i: int| sp_$f(self@[i], $1)); assert forall|i: int| 0 <= i < N implies #[trigger] vx_res@[i] == sp_$f(self@[i], $1) by {} assert(vx_res@ =~= vx_m@); assert(vx_res.data =~= vx_m); } }
### for Op,f in AddAssign/add_assign,SubAssign/sub_assign,MulAssign/mul_assign,DivAssign/div_assign,RemAssign/rem_assign: <Vector<T,N> as $Op>::$f
props C01
ens T::obeys_$f_spec() ==> forall|i: int| 0 <= i < N ==> #[trigger] final(self)@[i] == *old(self)@[i].$f_spec($1@[i])
pre let ghost s0 = *self; let ghost b0 = $1;
postr proof { if T::obeys_$f_spec() { let vx_m = mk_arr::<T, N>(|i: int| *s0@[i].$f_spec(b0@[i])); assert forall|i: int| 0 <= i < N implies #[trigger] self@[i] == *s0@[i].$f_spec(b0@[i]) by {} assert(self@ =~= vx_m@); assert(self.data =~= vx_m); } }
### for Op,f in BitAndAssign/bitand_assign,BitOrAssign/bitor_assign,BitXorAssign/bitxor_assign: <Vector<T,N> as $Op>::$f
props C03
ens T::obeys_$f_spec() ==> forall|i: int| 0 <= i < N ==> #[trigger] final(self)@[i] == *old(self)@[i].$f_spec($1@[i])
pre let ghost s0 = *self; let ghost b0 = $1;
postr proof { if T::obeys_$f_spec() { let vx_m = mk_arr::<T, N>(|i: int| *s0@[i].$f_spec(b0@[i])); assert forall|i: int| 0 <= i < N implies #[trigger] self@[i] == *s0@[i].$f_spec(b0@[i]) by {} assert(self@ =~= vx_m@); assert(self.data =~= vx_m); } }
### for Op,f in MulAssign/mul_assign,DivAssign/div_assign,RemAssign/rem_assign: <Vector<T,N> as $Op<T>>::$f
props C01
ens T::obeys_$f_spec() ==> forall|i: int| 0 <= i < N ==> #[trigger] final(self)@[i] == *old(self)@[i].$f_spec($1)
pre let ghost s0 = *self; let ghost b0 = $1;
postr proof { if T::obeys_$f_spec() { let vx_m = mk_arr::<T, N>(|i: int| *s0@[i].$f_spec(b0)); assert forall|i: int| 0 <= i < N implies #[trigger] self@[i] == *s0@[i].$f_spec(b0) by {} assert(self@ =~= vx_m@); assert(self.data =~= vx_m); } }
### for T in u8,u16,u32,u64,i8,i16,i32,i64,f32,f64: verbatim
impl<const N: usize> vstd::std_specs::ops::MulSpecImpl<Vector<$T, N>> for $T {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, b: Vector<$T, N>) -> bool { forall|i: int| 0 <= i < N ==> rq_mul(#[trigger] b@[i], self) }
    open spec fn mul_spec(self, b: Vector<$T, N>) -> Vector<$T, N> { arbitrary() }
}
### for T in u8,u16,u32,u64,i8,i16,i32,i64: <$T as Mul<Vector<$T,N>>>::mul
props C01
ens forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == $1@[i] * self
### for T in f32,f64: <$T as Mul<Vector<$T,N>>>::mul
props C01
ens <$T as MulSpec>::obeys_mul_spec() ==> forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == sp_mul($1@[i], self)
// ---------------------------------------------------------- comparison masks
### for f,s in veq/eq,vne/ne: Vector<T,N>::$f
props C03
ens T::obeys_eq_spec() ==> forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == sp_$s(self@[i], $1@[i])
### for f,s in vlt/lt,vle/le,vgt/gt,vge/ge: Vector<T,N>::$f
props C03
ens T::obeys_partial_cmp_spec() ==> forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == sp_$s(self@[i], $1@[i])
### Vector<bool,N>::any
props C03
ens r <==> exists|i: int| 0 <= i < N && #[trigger] self@[i]
### Vector<bool,N>::all
props C03
ens r <==> forall|i: int| #![trigger self@[i]] #![trigger vx_at(i)] 0 <= i < N ==> self@[i]
// ---------------------------------------------------------- integers
### for f in div_floor,mod_floor: Vector<T,N>::$f
props C04
ens forall|i: int| 0 <= i < N ==> call_ensures(T::$f, (&self@[i], &$1@[i]), #[trigger] r@[i])
### Vector<T,N>::div_mod_floor
props C04
ens forall|i: int| 0 <= i < N ==> call_ensures(T::div_mod_floor, (&self@[i], &$1@[i]), (#[trigger] r.0@[i], r.1@[i]))
// ---------------------------------------------------------- zero, sums, norms
### impl Zero for Vector<T,N>
ghost     open spec fn obeys_zero() -> bool { T::obeys_zero() }
    open spec fn zero_spec() -> Self { Vector { data: mk_arr::<T, N>(|i: int| T::zero_spec()) } }
    open spec fn is_zero_spec(&self) -> bool { forall|i: int| 0 <= i < N ==> (#[trigger] self@[i]).is_zero_spec() }
### <Vector<T,N> as Zero>::zero
props C01
ens forall|i: int| 0 <= i < N ==> call_ensures(T::zero, (), #[trigger] r@[i])
ens T::obeys_zero() ==> forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == T::zero_spec()
postr proof { if T::obeys_zero() { let vx_m = mk_arr::<T, N>(|i: int| T::zero_spec()); assert forall|i: int| 0 <= i < N implies #[trigger] vx_res@[i] == T::zero_spec() by {} assert(vx_res@ =~= vx_m@); assert(vx_res.data =~= vx_m); } }
### <Vector<T,N> as Zero>::is_zero
props C01
ens T::obeys_zero() ==> (r <==> forall|i: int| 0 <= i < N ==> (#[trigger] self@[i]).is_zero_spec())
### Vector<T,N>::sum
props C12
req N >= 1
req tot_add::<T, T>()
ens r == vsum(self@)
### Vector<T,N>::max
props C12
req N >= 1
ens T::obeys_partial_cmp_spec() ==> r == vmax(self@)
### Vector<T,N>::min
props C12
req N >= 1
ens T::obeys_partial_cmp_spec() ==> r == vmin(self@)
### for S,s,Z,A,a,z,q in Sum/sum/Zero/Add/add/zero/true,Product/product/One/Mul/mul/one/T::one_req(): verbatim
impl<T: $Z + $A, const N: usize> Vx$SSpecImpl<Vector<T, N>> for Vector<T, N> { open spec fn $s_req() -> bool { tot_$a::<T, T>() && T::obeys_$z() && $q } }
pub open spec fn vtrace_$s<T: $Z + $A<Output = T>, const N: usize>(t: Seq<Vector<T, N>>, xs: Seq<Vector<T, N>>, r: Vector<T, N>) -> bool {
    t.len() == xs.len() + 1 && t[0]@.len() == N && r == t[xs.len() as int] && (forall|i: int| 0 <= i < N ==> #[trigger] t[0]@[i] == T::$z_spec())
    && forall|k: int, i: int| 0 <= k < xs.len() && 0 <= i < N ==> #[trigger] t[k + 1]@[i] == sp_$a(t[k]@[i], xs[k]@[i])
}
pub proof fn vtrace_$s_lemma<T: $Z + $A<Output = T>, const N: usize>(t: Seq<Vector<T, N>>, xs: Seq<Vector<T, N>>, r: Vector<T, N>, i: int)
    requires vtrace_$s(t, xs, r), 0 <= i < N,
    ensures r@[i] == vfold(T::$z_spec(), xs.map_values(|x: Vector<T, N>| x@[i]), |a: T, b: T| sp_$a(a, b)),
{
    let tv = t.map_values(|x: Vector<T, N>| x@); let xv = xs.map_values(|x: Vector<T, N>| x@);
    cchain_vfold(tv, N as int, xv, |a: T, b: T| sp_$a(a, b), i);
    assert(xv.map_values(|x: Seq<T>| x[i]) =~= xs.map_values(|x: Vector<T, N>| x@[i]));
}
### <Vector<T,N> as Sum>::sum
props C12
ens exists|t: Seq<Self>| #[trigger] vtrace_sum(t, iter.remaining(), r)
ens forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == vfold(T::zero_spec(), iter.remaining().map_values(|x: Self| x@[i]), |a: T, b: T| sp_add(a, b))
pre let ghost xs = iter.remaining();
postr proof { assert(exists|t: Seq<Self>| #[trigger] t.len() == xs.len() + 1 && vtrace_sum(t, xs, vx_res)); let t = choose|t: Seq<Self>| #[trigger] vtrace_sum(t, xs, vx_res); assert forall|i: int| 0 <= i < N implies #[trigger] vx_res@[i] == vfold(T::zero_spec(), xs.map_values(|x: Self| x@[i]), |a: T, b: T| sp_add(a, b)) by { vtrace_sum_lemma(t, xs, vx_res, i); } }
### <Vector<T,N> as Product>::product
props C12
ens exists|t: Seq<Self>| #[trigger] vtrace_product(t, iter.remaining(), r)
ens forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == vfold(T::one_spec(), iter.remaining().map_values(|x: Self| x@[i]), |a: T, b: T| sp_mul(a, b))
pre let ghost xs = iter.remaining();
postr proof { assert(exists|t: Seq<Self>| #[trigger] t.len() == xs.len() + 1 && vtrace_product(t, xs, vx_res)); let t = choose|t: Seq<Self>| #[trigger] vtrace_product(t, xs, vx_res); assert forall|i: int| 0 <= i < N implies #[trigger] vx_res@[i] == vfold(T::one_spec(), xs.map_values(|x: Self| x@[i]), |a: T, b: T| sp_mul(a, b)) by { vtrace_product_lemma(t, xs, vx_res, i); } }
// ---------------------------------------------------------- norms and products
### verbatim
pub open spec fn vdot<T: Add<Output = T> + Mul<Output = T>>(a: Seq<T>, b: Seq<T>) -> T { vsum(Seq::new(a.len(), |i: int| sp_mul(a[i], b[i]))) }
pub open spec fn tot_vec<T: Add<Output = T> + Mul<Output = T>>() -> bool { tot_add::<T, T>() && tot_mul::<T, T>() }
### impl NormL1 for Vector<T,N>
ghost     open spec fn norm_l1_req(self) -> bool { N >= 1 && tot_add::<T, T>() && forall|i: int| 0 <= i < N ==> (#[trigger] self@[i]).norm_l1_req() }
    open spec fn norm_l1_r(self, r: Self::Output) -> bool { exists|n: Seq<T>| #[trigger] n.len() == N && r == vsum(n) && forall|i: int| 0 <= i < N ==> self@[i].norm_l1_r(#[trigger] n[i]) }
### <Vector<T,N> as NormL1>::norm_l1
props C12
ens exists|n: Seq<T>| #[trigger] n.len() == N && r == vsum(n) && forall|i: int| 0 <= i < N ==> call_ensures(T::norm_l1, (self@[i],), #[trigger] n[i])
### impl NormLInf for Vector<T,N>
ghost     open spec fn norm_l_inf_req(self) -> bool { N >= 1 && T::obeys_partial_cmp_spec() && forall|i: int| 0 <= i < N ==> (#[trigger] self@[i]).norm_l_inf_req() }
### <Vector<T,N> as NormLInf>::norm_l_inf
props C12
ens exists|n: Seq<T>| #[trigger] n.len() == N && r == vmax(n) && forall|i: int| 0 <= i < N ==> call_ensures(T::norm_l_inf, (self@[i],), #[trigger] n[i])
### impl NormL2 for Vector<T,N>
ghost     open spec fn norm_l2_req(self) -> bool { N >= 1 && tot_vec::<T>() }
### <Vector<T,N> as NormL2>::norm_l2_sqr
props C12
ens r == vdot(self@, self@)
pre let ghost vx_q = Seq::new(N as nat, |i: int| sp_mul(self@[i], self@[i])); proof { assert forall|p: Seq<T>| #![trigger vsum(p)] p.len() == N && (forall|i: int| 0 <= i < N ==> #[trigger] p[i] == vx_q[i]) implies p == vx_q by { assert(p =~= vx_q); } }
### <Vector<T,N> as NormL2>::norm_l2
props C12
ens T::sqrt_r(vdot(self@, self@), r)
### impl Dot<Vector<T,N>> for Vector<T,N>
ghost     open spec fn dot_req(self, other: Vector<T, N>) -> bool { N >= 1 && tot_vec::<T>() }
### <Vector<T,N> as Dot<Vector<T,N>>>::dot
props C13
ens r == vdot(self@, $1@)
pre let ghost vx_q = Seq::new(N as nat, |i: int| sp_mul(self@[i], $1@[i])); proof { assert forall|p: Seq<T>| #![trigger vsum(p)] p.len() == N && (forall|i: int| 0 <= i < N ==> #[trigger] p[i] == vx_q[i]) implies p == vx_q by { assert(p =~= vx_q); } }
### Vector<T,N>::square_length
props C12 C13
req N >= 1 && tot_vec::<T>()
ens r == vdot(self@, self@)
pre let ghost vx_q = Seq::new(N as nat, |i: int| sp_mul(self@[i], self@[i])); proof { assert forall|p: Seq<T>| #![trigger vsum(p)] p.len() == N && (forall|i: int| 0 <= i < N ==> #[trigger] p[i] == vx_q[i]) implies p == vx_q by { assert(p =~= vx_q); } }
### Vector<T,N>::length
props C12 C13
req N >= 1 && tot_vec::<T>()
ens T::sqrt_r(vdot(self@, self@), r)
### Vector<T,N>::normalize
props C12 C13
req N >= 1 && tot_vec::<T>() && tot_div::<T, T>()
ens exists|n: T| #[trigger] T::sqrt_r(vdot(self@, self@), n) && r == v_divs(self, n) && forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == sp_div(self@[i], n)
### impl Normalize for Vector<T,N>
ghost     open spec fn normalize_req(self) -> bool { N >= 1 && tot_vec::<T>() && tot_div::<T, T>() }
### <Vector<T,N> as Normalize>::normalize
props C12 C13
ens exists|n: T| #[trigger] T::sqrt_r(vdot(self@, self@), n) && r == v_divs(self, n) && forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == sp_div(self@[i], n)
