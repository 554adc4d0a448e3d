### verbatim
// a quaternion is its four components
pub open spec fn qw<T>(q: Quaternion<T>) -> T { q.vec@[0] }
pub open spec fn qx<T>(q: Quaternion<T>) -> T { q.vec@[1] }
pub open spec fn qy<T>(q: Quaternion<T>) -> T { q.vec@[2] }
pub open spec fn qz<T>(q: Quaternion<T>) -> T { q.vec@[3] }
pub open spec fn mkq<T>(w: T, x: T, y: T, z: T) -> Quaternion<T> { Quaternion { vec: mkv4(w, x, y, z) } }
pub proof fn q_ext<T>(a: Quaternion<T>, b: Quaternion<T>) requires qw(a) == qw(b), qx(a) == qx(b), qy(a) == qy(b), qz(a) == qz(b) ensures a == b
{ assert forall|i: int| 0 <= i < 4 implies #[trigger] a.vec@[i] == b.vec@[i] by { assert(i == 0 || i == 1 || i == 2 || i == 3); } v_ext(a.vec, b.vec); }
pub open spec fn q_mul<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T>>(a: Quaternion<T>, b: Quaternion<T>) -> Quaternion<T> {
    mkq(sp_sub(sp_sub(sp_sub(sp_mul(qw(a), qw(b)), sp_mul(qx(a), qx(b))), sp_mul(qy(a), qy(b))), sp_mul(qz(a), qz(b))),
        sp_sub(sp_add(sp_add(sp_mul(qw(a), qx(b)), sp_mul(qx(a), qw(b))), sp_mul(qy(a), qz(b))), sp_mul(qz(a), qy(b))),
        sp_add(sp_add(sp_sub(sp_mul(qw(a), qy(b)), sp_mul(qx(a), qz(b))), sp_mul(qy(a), qw(b))), sp_mul(qz(a), qx(b))),
        sp_add(sp_sub(sp_add(sp_mul(qw(a), qz(b)), sp_mul(qx(a), qy(b))), sp_mul(qy(a), qx(b))), sp_mul(qz(a), qw(b))))
}
pub open spec fn qc_mul<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T>>(a: Quaternion<T>, b: Complex<T>) -> Quaternion<T> {
    mkq(sp_sub(sp_mul(qw(a), cre(b)), sp_mul(qx(a), cim(b))), sp_add(sp_mul(qw(a), cim(b)), sp_mul(qx(a), cre(b))),
        sp_add(sp_mul(qz(a), cim(b)), sp_mul(qy(a), cre(b))), sp_sub(sp_mul(qz(a), cre(b)), sp_mul(qy(a), cim(b))))
}
pub open spec fn cq_mul<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T>>(a: Complex<T>, b: Quaternion<T>) -> Quaternion<T> {
    mkq(sp_sub(sp_mul(cre(a), qw(b)), sp_mul(cim(a), qx(b))), sp_add(sp_mul(cre(a), qx(b)), sp_mul(cim(a), qw(b))),
        sp_sub(sp_mul(cre(a), qy(b)), sp_mul(cim(a), qz(b))), sp_add(sp_mul(cre(a), qz(b)), sp_mul(cim(a), qy(b))))
}
pub open spec fn q_muls<T: Mul<Output = T>>(a: Quaternion<T>, b: T) -> Quaternion<T> { mkq(sp_mul(qw(a), b), sp_mul(qx(a), b), sp_mul(qy(a), b), sp_mul(qz(a), b)) }
pub open spec fn q_divs<T: Div<Output = T>>(a: Quaternion<T>, b: T) -> Quaternion<T> { mkq(sp_div(qw(a), b), sp_div(qx(a), b), sp_div(qy(a), b), sp_div(qz(a), b)) }
pub open spec fn q_dot<T: Add<Output = T> + Mul<Output = T>>(a: Quaternion<T>, b: Quaternion<T>) -> T { sp_add(sp_add(sp_add(sp_mul(qw(a), qw(b)), sp_mul(qx(a), qx(b))), sp_mul(qy(a), qy(b))), sp_mul(qz(a), qz(b))) }
pub open spec fn q_nsq<T: Add<Output = T> + Mul<Output = T>>(a: Quaternion<T>) -> T { q_dot(a, a) }
pub open spec fn q_neg<T: Neg<Output = T>>(a: Quaternion<T>) -> Quaternion<T> { mkq(sp_neg(qw(a)), sp_neg(qx(a)), sp_neg(qy(a)), sp_neg(qz(a))) }
pub open spec fn q_conj<T: Neg<Output = T>>(a: Quaternion<T>) -> Quaternion<T> { mkq(qw(a), sp_neg(qx(a)), sp_neg(qy(a)), sp_neg(qz(a))) }
pub open spec fn q_inv<T: Neg<Output = T> + Num>(a: Quaternion<T>) -> Quaternion<T> { q_divs(q_conj(a), q_nsq(a)) }
pub proof fn vdot4<T: Add<Output = T> + Mul<Output = T>>(a: Seq<T>, b: Seq<T>)
    requires a.len() == 4, b.len() == 4,
    ensures vdot(a, b) == sp_add(sp_add(sp_add(sp_mul(a[0], b[0]), sp_mul(a[1], b[1])), sp_mul(a[2], b[2])), sp_mul(a[3], b[3])),
{ let p = Seq::new(a.len(), |i: int| sp_mul(a[i], b[i])); let t = p.subrange(1, 4); let g = |x: T, y: T| sp_add(x, y);
  let t2 = t.drop_last(); let t1 = t2.drop_last(); let t0 = t1.drop_last();
  assert(t0.len() == 0 && t1.last() == p[1] && t2.last() == p[2] && t.last() == p[3]); reveal_with_fuel(vfold, 5); }
// ------------------------------------------------ construction and access
### Quaternion<T>::new
props C19
ens r == mkq($1, $2, $3, $4)
postr proof { q_ext(vx_res, mkq($1, $2, $3, $4)); }
### Quaternion<T>::from_vector ;; <Quaternion<T> as From<Vector4<T>>>::from
props C19
ens r.vec == $1
### Quaternion<T>::from_array ;; <Quaternion<T> as From<[T;4]>>::from
props C19
ens r.vec.data == $1
### Quaternion<T>::from_tuple ;; <Quaternion<T> as From<(T,T,T,T)>>::from
props C19
ens r == mkq($1.0, $1.1, $1.2, $1.3)
postr proof { q_ext(vx_res, mkq($1.0, $1.1, $1.2, $1.3)); }
### Quaternion<T>::from_scalar_and_vector3
props C19
ens r == mkq($1, $2@[0], $2@[1], $2@[2])
### <Quaternion<T> as From<(T,Vector3<T>)>>::from
props C19
ens r == mkq($1.0, $1.1@[0], $1.1@[1], $1.1@[2])
### Quaternion<T>::into_vector
props C19
ens r == self.vec
### Quaternion<T>::into_array
props C19
ens r == self.vec.data
### Quaternion<T>::into_tuple
props C19
ens r == (qw(self), qx(self), qy(self), qz(self))
### Quaternion<T>::into_scalar_and_vector3
props C19
ens r == (qw(self), mkv3(qx(self), qy(self), qz(self)))
postr proof { v_ext(vx_res.1, mkv3(qx(self), qy(self), qz(self))); }
### <Vector4<T> as From<Quaternion<T>>>::from
props C19
ens r == $1.vec
### <[T;4] as From<Quaternion<T>>>::from
props C19
ens r == $1.vec.data
### <(T,T,T,T) as From<Quaternion<T>>>::from
props C19
ens r == (qw($1), qx($1), qy($1), qz($1))
### <(T,Vector3<T>) as From<Quaternion<T>>>::from
props C19
ens r == (qw($1), mkv3(qx($1), qy($1), qz($1)))
### for A,s in Vector<T§4>/Quaternion{vec:a},[T;4]/Quaternion{vec:Vector{data:a}},(T§T§T§T)/mkq(a.0§ a.1§ a.2§ a.3),(T§Vector<T§3>)/mkq(a.0§ a.1@[0]§ a.1@[1]§ a.1@[2]): verbatim
impl<T> vstd::std_specs::convert::FromSpecImpl<$A> for Quaternion<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: $A) -> Self { $s }
}
### for A,s in Vector<T§4>/a.vec,[T;4]/a.vec.data,(T§T§T§T)/(qw(a)§ qx(a)§ qy(a)§ qz(a)),(T§Vector<T§3>)/(qw(a)§ mkv3(qx(a)§ qy(a)§ qz(a))): verbatim
impl<T> vstd::std_specs::convert::FromSpecImpl<Quaternion<T>> for $A {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: Quaternion<T>) -> Self { $s }
}
### Quaternion<T>::w
props C19
ens r == qw(*self)
### Quaternion<T>::w_ref
props C19
ens *r == qw(*self)
### Quaternion<T>::w_mut
props C19
ens *r == qw(*old(self))
ens qw(*final(self)) == *final(r)
ens qx(*final(self)) == qx(*old(self))
ens qy(*final(self)) == qy(*old(self))
ens qz(*final(self)) == qz(*old(self))
### Quaternion<T>::x
props C19
ens r == qx(*self)
### Quaternion<T>::x_ref
props C19
ens *r == qx(*self)
### Quaternion<T>::x_mut
props C19
ens *r == qx(*old(self))
ens qx(*final(self)) == *final(r)
ens qw(*final(self)) == qw(*old(self))
ens qy(*final(self)) == qy(*old(self))
ens qz(*final(self)) == qz(*old(self))
### Quaternion<T>::y
props C19
ens r == qy(*self)
### Quaternion<T>::y_ref
props C19
ens *r == qy(*self)
### Quaternion<T>::y_mut
props C19
ens *r == qy(*old(self))
ens qy(*final(self)) == *final(r)
ens qw(*final(self)) == qw(*old(self))
ens qx(*final(self)) == qx(*old(self))
ens qz(*final(self)) == qz(*old(self))
### Quaternion<T>::z
props C19
ens r == qz(*self)
### Quaternion<T>::z_ref
props C19
ens *r == qz(*self)
### Quaternion<T>::z_mut
props C19
ens *r == qz(*old(self))
ens qz(*final(self)) == *final(r)
ens qw(*final(self)) == qw(*old(self))
ens qx(*final(self)) == qx(*old(self))
ens qy(*final(self)) == qy(*old(self))
### Quaternion<T>::xyz
props C19
ens r == mkv3(qx(*self), qy(*self), qz(*self))
### Quaternion<T>::into_matrix
props C19
req rq_neg(qx(self)) && rq_neg(qy(self)) && rq_neg(qz(self))
ens T::obeys_neg_spec() ==> r.data@[0]@[0] == qw(self) && r.data@[0]@[1] == sp_neg(qx(self)) && r.data@[0]@[2] == sp_neg(qy(self)) && r.data@[0]@[3] == sp_neg(qz(self))
ens T::obeys_neg_spec() ==> r.data@[1]@[0] == qx(self) && r.data@[1]@[1] == qw(self) && r.data@[1]@[2] == sp_neg(qz(self)) && r.data@[1]@[3] == qy(self)
ens T::obeys_neg_spec() ==> r.data@[2]@[0] == qy(self) && r.data@[2]@[1] == qz(self) && r.data@[2]@[2] == qw(self) && r.data@[2]@[3] == sp_neg(qx(self))
ens T::obeys_neg_spec() ==> r.data@[3]@[0] == qz(self) && r.data@[3]@[1] == sp_neg(qy(self)) && r.data@[3]@[2] == qx(self) && r.data@[3]@[3] == qw(self)
// ------------------------------------------------ operators
### for Op,f in Add/add,Sub/sub: verbatim
impl<T: $Op<Output = T>> vstd::std_specs::ops::$OpSpecImpl<Quaternion<T>> for Quaternion<T> {
    open spec fn obeys_$f_spec() -> bool { T::obeys_$f_spec() }
    open spec fn $f_req(self, b: Quaternion<T>) -> bool { rq_$f(qw(self), qw(b)) && rq_$f(qx(self), qx(b)) && rq_$f(qy(self), qy(b)) && rq_$f(qz(self), qz(b)) }
    open spec fn $f_spec(self, b: Quaternion<T>) -> Quaternion<T> { mkq(sp_$f(qw(self), qw(b)), sp_$f(qx(self), qx(b)), sp_$f(qy(self), qy(b)), sp_$f(qz(self), qz(b))) }
}
impl<T: $OpAssign> vstd::std_specs::ops::$OpAssignSpecImpl<Quaternion<T>> for Quaternion<T> {
    open spec fn obeys_$f_assign_spec() -> bool { T::obeys_$f_assign_spec() }
    open spec fn $f_assign_req(&self, b: Quaternion<T>) -> bool { qw(*self).$f_assign_req(qw(b)) && qx(*self).$f_assign_req(qx(b)) && qy(*self).$f_assign_req(qy(b)) && qz(*self).$f_assign_req(qz(b)) }
    open spec fn $f_assign_spec(&self, b: Quaternion<T>) -> &Quaternion<T> { &mkq(*qw(*self).$f_assign_spec(qw(b)), *qx(*self).$f_assign_spec(qx(b)), *qy(*self).$f_assign_spec(qy(b)), *qz(*self).$f_assign_spec(qz(b))) }
}
impl<T: $Op<Output = T>> vstd::std_specs::ops::$OpSpecImpl<Complex<T>> for Quaternion<T> {
    open spec fn obeys_$f_spec() -> bool { T::obeys_$f_spec() }
    open spec fn $f_req(self, b: Complex<T>) -> bool { rq_$f(qw(self), cre(b)) && rq_$f(qx(self), cim(b)) }
    open spec fn $f_spec(self, b: Complex<T>) -> Quaternion<T> { mkq(sp_$f(qw(self), cre(b)), sp_$f(qx(self), cim(b)), qy(self), qz(self)) }
}
impl<T: $OpAssign> vstd::std_specs::ops::$OpAssignSpecImpl<Complex<T>> for Quaternion<T> {
    open spec fn obeys_$f_assign_spec() -> bool { T::obeys_$f_assign_spec() }
    open spec fn $f_assign_req(&self, b: Complex<T>) -> bool { qw(*self).$f_assign_req(cre(b)) && qx(*self).$f_assign_req(cim(b)) }
    open spec fn $f_assign_spec(&self, b: Complex<T>) -> &Quaternion<T> { &mkq(*qw(*self).$f_assign_spec(cre(b)), *qx(*self).$f_assign_spec(cim(b)), qy(*self), qz(*self)) }
}
impl<T: $Op<Output = T>> vstd::std_specs::ops::$OpSpecImpl<T> for Quaternion<T> {
    open spec fn obeys_$f_spec() -> bool { T::obeys_$f_spec() }
    open spec fn $f_req(self, b: T) -> bool { rq_$f(qw(self), b) }
    open spec fn $f_spec(self, b: T) -> Quaternion<T> { mkq(sp_$f(qw(self), b), qx(self), qy(self), qz(self)) }
}
impl<T: $OpAssign> vstd::std_specs::ops::$OpAssignSpecImpl<T> for Quaternion<T> {
    open spec fn obeys_$f_assign_spec() -> bool { T::obeys_$f_assign_spec() }
    open spec fn $f_assign_req(&self, b: T) -> bool { qw(*self).$f_assign_req(b) }
    open spec fn $f_assign_spec(&self, b: T) -> &Quaternion<T> { &mkq(*qw(*self).$f_assign_spec(b), qx(*self), qy(*self), qz(*self)) }
}
### for Op,f in Add/add,Sub/sub: <Quaternion<T> as $Op>::$f
props C19
postr proof { if T::obeys_$f_spec() { q_ext(vx_res, mkq(sp_$f(qw(self), qw($1)), sp_$f(qx(self), qx($1)), sp_$f(qy(self), qy($1)), sp_$f(qz(self), qz($1)))); } }
### for Op,f in Add/add,Sub/sub: <Quaternion<T> as $Op<T>>::$f ;; <Quaternion<T> as $Op<Complex<T>>>::$f
props C19
### for Op,f in AddAssign/add_assign,SubAssign/sub_assign: <Quaternion<T> as $Op>::$f
props C19
pre let ghost s0 = *self; let ghost b0 = $1;
post proof { if T::obeys_$f_spec() { q_ext(*self, mkq(*qw(s0).$f_spec(qw(b0)), *qx(s0).$f_spec(qx(b0)), *qy(s0).$f_spec(qy(b0)), *qz(s0).$f_spec(qz(b0)))); } }
### for Op,f in AddAssign/add_assign,SubAssign/sub_assign: <Quaternion<T> as $Op<T>>::$f
props C19
pre let ghost s0 = *self; let ghost b0 = $1;
post proof { if T::obeys_$f_spec() { q_ext(*self, mkq(*qw(s0).$f_spec(b0), qx(s0), qy(s0), qz(s0))); } }
### for Op,f in AddAssign/add_assign,SubAssign/sub_assign: <Quaternion<T> as $Op<Complex<T>>>::$f
props C19
pre let ghost s0 = *self; let ghost b0 = $1;
post proof { if T::obeys_$f_spec() { q_ext(*self, mkq(*qw(s0).$f_spec(cre(b0)), *qx(s0).$f_spec(cim(b0)), qy(s0), qz(s0))); } }
### verbatim
impl<T: Neg<Output = T>> vstd::std_specs::ops::NegSpecImpl for Quaternion<T> {
    open spec fn obeys_neg_spec() -> bool { T::obeys_neg_spec() }
    open spec fn neg_req(self) -> bool { rq_neg(qw(self)) && rq_neg(qx(self)) && rq_neg(qy(self)) && rq_neg(qz(self)) }
    open spec fn neg_spec(self) -> Quaternion<T> { q_neg(self) }
}
### <Quaternion<T> as Neg>::neg
props C19
postr proof { if T::obeys_neg_spec() { q_ext(vx_res, q_neg(self)); } }
### verbatim
// equality is derived: component by component
impl<T: PartialEq> vstd::std_specs::cmp::PartialEqSpecImpl for Quaternion<T> {
    open spec fn obeys_eq_spec() -> bool { T::obeys_eq_spec() }
    open spec fn eq_spec(&self, o: &Quaternion<T>) -> bool { qw(*self).eq_spec(&qw(*o)) && qx(*self).eq_spec(&qx(*o)) && qy(*self).eq_spec(&qy(*o)) && qz(*self).eq_spec(&qz(*o)) }
}
impl<T: PartialEq> PartialEq for Quaternion<T> { #[verifier::external_body] fn eq(&self, o: &Quaternion<T>) -> bool { unimplemented!() } }
impl<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy> vstd::std_specs::ops::MulSpecImpl<Quaternion<T>> for Quaternion<T> {
    open spec fn obeys_mul_spec() -> bool { tot_ring::<T>() }
    open spec fn mul_req(self, b: Quaternion<T>) -> bool { tot_ring::<T>() }
    open spec fn mul_spec(self, b: Quaternion<T>) -> Quaternion<T> { q_mul(self, b) }
}
impl<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy> vstd::std_specs::ops::MulSpecImpl<Complex<T>> for Quaternion<T> {
    open spec fn obeys_mul_spec() -> bool { tot_ring::<T>() }
    open spec fn mul_req(self, b: Complex<T>) -> bool { tot_ring::<T>() }
    open spec fn mul_spec(self, b: Complex<T>) -> Quaternion<T> { qc_mul(self, b) }
}
impl<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy> vstd::std_specs::ops::MulSpecImpl<Quaternion<T>> for Complex<T> {
    open spec fn obeys_mul_spec() -> bool { tot_ring::<T>() }
    open spec fn mul_req(self, b: Quaternion<T>) -> bool { tot_ring::<T>() }
    open spec fn mul_spec(self, b: Quaternion<T>) -> Quaternion<T> { cq_mul(self, b) }
}
impl<T: Mul<Output = T> + Copy> vstd::std_specs::ops::MulSpecImpl<T> for Quaternion<T> {
    open spec fn obeys_mul_spec() -> bool { T::obeys_mul_spec() }
    open spec fn mul_req(self, b: T) -> bool { rq_mul(qw(self), b) && rq_mul(qx(self), b) && rq_mul(qy(self), b) && rq_mul(qz(self), b) }
    open spec fn mul_spec(self, b: T) -> Quaternion<T> { q_muls(self, b) }
}
impl<T: Div<Output = T> + Copy> vstd::std_specs::ops::DivSpecImpl<T> for Quaternion<T> {
    open spec fn obeys_div_spec() -> bool { T::obeys_div_spec() }
    open spec fn div_req(self, b: T) -> bool { rq_div(qw(self), b) && rq_div(qx(self), b) && rq_div(qy(self), b) && rq_div(qz(self), b) }
    open spec fn div_spec(self, b: T) -> Quaternion<T> { q_divs(self, b) }
}
impl<T: Neg<Output = T> + Num + Copy> vstd::std_specs::ops::DivSpecImpl<Quaternion<T>> for Quaternion<T> {
    open spec fn obeys_div_spec() -> bool { tot_field::<T>() && tot_neg::<T>() }
    open spec fn div_req(self, b: Quaternion<T>) -> bool { tot_field::<T>() && tot_neg::<T>() }
    open spec fn div_spec(self, b: Quaternion<T>) -> Quaternion<T> { q_mul(self, q_inv(b)) }
}
impl<T: Neg<Output = T> + Num + Copy> vstd::std_specs::ops::DivSpecImpl<Complex<T>> for Quaternion<T> {
    open spec fn obeys_div_spec() -> bool { tot_field::<T>() && tot_neg::<T>() }
    open spec fn div_req(self, b: Complex<T>) -> bool { tot_field::<T>() && tot_neg::<T>() }
    open spec fn div_spec(self, b: Complex<T>) -> Quaternion<T> { qc_mul(self, c_inv(b)) }
}
impl<T: Neg<Output = T> + Num + Copy> vstd::std_specs::ops::DivSpecImpl<Quaternion<T>> for Complex<T> {
    open spec fn obeys_div_spec() -> bool { tot_field::<T>() && tot_neg::<T>() }
    open spec fn div_req(self, b: Quaternion<T>) -> bool { tot_field::<T>() && tot_neg::<T>() }
    open spec fn div_spec(self, b: Quaternion<T>) -> Quaternion<T> { cq_mul(self, q_inv(b)) }
}
impl<T: Neg<Output = T> + Num + Copy> vstd::std_specs::ops::RemSpecImpl<Quaternion<T>> for Quaternion<T> {
    open spec fn obeys_rem_spec() -> bool { false }
    open spec fn rem_req(self, b: Quaternion<T>) -> bool { false }
    open spec fn rem_spec(self, b: Quaternion<T>) -> Quaternion<T> { arbitrary() }
}
### for Op,f in Mul/mul,Div/div: verbatim
impl<T> vstd::std_specs::ops::$OpAssignSpecImpl<Quaternion<T>> for Quaternion<T> where Quaternion<T>: $Op<Quaternion<T>, Output = Quaternion<T>> + Copy {
    open spec fn obeys_$f_assign_spec() -> bool { <Quaternion<T> as vstd::std_specs::ops::$OpSpec<Quaternion<T>>>::obeys_$f_spec() }
    open spec fn $f_assign_req(&self, b: Quaternion<T>) -> bool { rq_$f(*self, b) }
    open spec fn $f_assign_spec(&self, b: Quaternion<T>) -> &Quaternion<T> { &sp_$f(*self, b) }
}
impl<T> vstd::std_specs::ops::$OpAssignSpecImpl<Complex<T>> for Quaternion<T> where Quaternion<T>: $Op<Complex<T>, Output = Quaternion<T>> + Copy {
    open spec fn obeys_$f_assign_spec() -> bool { <Quaternion<T> as vstd::std_specs::ops::$OpSpec<Complex<T>>>::obeys_$f_spec() }
    open spec fn $f_assign_req(&self, b: Complex<T>) -> bool { rq_$f(*self, b) }
    open spec fn $f_assign_spec(&self, b: Complex<T>) -> &Quaternion<T> { &sp_$f(*self, b) }
}
impl<T> vstd::std_specs::ops::$OpAssignSpecImpl<T> for Quaternion<T> where Quaternion<T>: $Op<T, Output = Quaternion<T>> + Copy {
    open spec fn obeys_$f_assign_spec() -> bool { <Quaternion<T> as vstd::std_specs::ops::$OpSpec<T>>::obeys_$f_spec() }
    open spec fn $f_assign_req(&self, b: T) -> bool { rq_$f(*self, b) }
    open spec fn $f_assign_spec(&self, b: T) -> &Quaternion<T> { &sp_$f(*self, b) }
}
### for Op,f in MulAssign/mul_assign,DivAssign/div_assign: <Quaternion<T> as $Op>::$f ;; <Quaternion<T> as $Op<T>>::$f ;; <Quaternion<T> as $Op<Complex<T>>>::$f
props C19
### <Quaternion<T> as Mul>::mul ;; <Quaternion<T> as Div>::div ;; <Quaternion<T> as Mul<Complex<T>>>::mul ;; <Quaternion<T> as Div<Complex<T>>>::div ;; <Complex<T> as Mul<Quaternion<T>>>::mul ;; <Complex<T> as Div<Quaternion<T>>>::div
props C19
### <Quaternion<T> as Rem>::rem
skip not implemented: panics
props C19
### <Quaternion<T> as Mul<T>>::mul
props C19
postr proof { if T::obeys_mul_spec() { q_ext(vx_res, q_muls(self, $1)); } }
### <Quaternion<T> as Div<T>>::div
props C19
postr proof { if T::obeys_div_spec() { q_ext(vx_res, q_divs(self, $1)); } }
### Quaternion<T>::conj
props C19
req rq_neg(qx(self)) && rq_neg(qy(self)) && rq_neg(qz(self))
ens T::obeys_neg_spec() ==> r == q_conj(self)
### impl Conj for Quaternion<T>
ghost     open spec fn conj_req(self) -> bool { rq_neg(qx(self)) && rq_neg(qy(self)) && rq_neg(qz(self)) }
### <Quaternion<T> as Conj>::conj
props C19
ens T::obeys_neg_spec() ==> r == q_conj(self)
### Quaternion<T>::norm_sqr
props C19
req tot_vec::<T>()
ens r == q_nsq(self)
postr proof { vdot4(self.vec@, self.vec@); }
### Quaternion<T>::norm
props C19
req tot_vec::<T>()
ens T::sqrt_r(q_nsq(self), r)
pre proof { vdot4(self.vec@, self.vec@); }
### impl NormL1 for Quaternion<T>
ghost     open spec fn norm_l1_req(self) -> bool { self.vec.norm_l1_req() }
    open spec fn norm_l1_r(self, r: T) -> bool { self.vec.norm_l1_r(r) }
### <Quaternion<T> as NormL1>::norm_l1
props C19
ens call_ensures(Vector::<T, 4>::norm_l1, (self.vec,), r)
### impl NormL2 for Quaternion<T>
ghost     open spec fn norm_l2_req(self) -> bool { tot_vec::<T>() }
### <Quaternion<T> as NormL2>::norm_l2
props C19
ens T::sqrt_r(q_nsq(self), r)
### <Quaternion<T> as NormL2>::norm_l2_sqr
props C19
ens r == q_nsq(self)
### Quaternion<T>::normalize
props C19
req tot_vec::<T>() && tot_div::<T, T>()
ens exists|n: T| #[trigger] T::sqrt_r(q_nsq(self), n) && r == q_divs(self, n)
### impl Normalize for Quaternion<T>
ghost     open spec fn normalize_req(self) -> bool { tot_vec::<T>() && tot_div::<T, T>() }
### <Quaternion<T> as Normalize>::normalize
props C19
ens exists|n: T| #[trigger] T::sqrt_r(q_nsq(self), n) && r == q_divs(self, n)
### Quaternion<T>::inv
props C19
req tot_field::<T>() && tot_neg::<T>()
ens r == q_inv(self)
### impl Inv for Quaternion<T>
ghost     open spec fn inv_req(self) -> bool { tot_field::<T>() && tot_neg::<T>() }
    open spec fn obeys_inv() -> bool { true }
    open spec fn inv_of(self) -> Quaternion<T> { q_inv(self) }
### <Quaternion<T> as Inv>::inv
props C19
ens r == q_inv(self)
### impl Zero for Quaternion<T>
ghost     open spec fn obeys_zero() -> bool { T::obeys_zero() }
    open spec fn zero_spec() -> Self { mkq(T::zero_spec(), T::zero_spec(), T::zero_spec(), T::zero_spec()) }
    open spec fn is_zero_spec(&self) -> bool { qw(*self).is_zero_spec() && qx(*self).is_zero_spec() && qy(*self).is_zero_spec() && qz(*self).is_zero_spec() }
### <Quaternion<T> as Zero>::zero
props C19
### <Quaternion<T> as Zero>::is_zero
props C19
postr proof { if T::obeys_zero() { assert forall|i: int| 0 <= i < 4 && (qw(*self).is_zero_spec() && qx(*self).is_zero_spec() && qy(*self).is_zero_spec() && qz(*self).is_zero_spec()) implies (#[trigger] self.vec@[i]).is_zero_spec() by { assert(i == 0 || i == 1 || i == 2 || i == 3); } } }
### impl One for Quaternion<T>
ghost     open spec fn one_req() -> bool { T::one_req() }
    open spec fn obeys_one() -> bool { T::obeys_one() && T::obeys_zero() }
    open spec fn one_spec() -> Self { mkq(T::one_spec(), T::zero_spec(), T::zero_spec(), T::zero_spec()) }
### <Quaternion<T> as One>::one
props C19
### for f,a,b,c,d in i/zero/one/zero/zero,j/zero/zero/one/zero,k/zero/zero/zero/one: Quaternion<T>::$f
props C19
req T::one_req()
ens T::obeys_one() && T::obeys_zero() ==> r == mkq(T::$a_spec(), T::$b_spec(), T::$c_spec(), T::$d_spec())
### impl Dot for Quaternion<T>
ghost     open spec fn dot_req(self, other: Quaternion<T>) -> bool { tot_vec::<T>() }
### <Quaternion<T> as Dot>::dot
props C19
ens r == q_dot(self, $1)
postr proof { vdot4(self.vec@, $1.vec@); }
### for T in f32,f64: verbatim
impl vstd::std_specs::ops::AddSpecImpl<Quaternion<$T>> for $T {
    open spec fn obeys_add_spec() -> bool { <$T as vstd::std_specs::ops::AddSpec>::obeys_add_spec() }
    open spec fn add_req(self, b: Quaternion<$T>) -> bool { rq_add(qw(b), self) }
    open spec fn add_spec(self, b: Quaternion<$T>) -> Quaternion<$T> { mkq(sp_add(qw(b), self), qx(b), qy(b), qz(b)) }
}
impl vstd::std_specs::ops::SubSpecImpl<Quaternion<$T>> for $T {
    open spec fn obeys_sub_spec() -> bool { <$T as vstd::std_specs::ops::AddSpec>::obeys_add_spec() && <$T as vstd::std_specs::ops::NegSpec>::obeys_neg_spec() }
    open spec fn sub_req(self, b: Quaternion<$T>) -> bool { tot_neg::<$T>() && tot_add::<$T, $T>() }
    open spec fn sub_spec(self, b: Quaternion<$T>) -> Quaternion<$T> { mkq(sp_add(sp_neg(qw(b)), self), sp_neg(qx(b)), sp_neg(qy(b)), sp_neg(qz(b))) }
}
impl vstd::std_specs::ops::AddSpecImpl<Quaternion<$T>> for Complex<$T> {
    open spec fn obeys_add_spec() -> bool { <$T as vstd::std_specs::ops::AddSpec>::obeys_add_spec() }
    open spec fn add_req(self, b: Quaternion<$T>) -> bool { rq_add(qw(b), cre(self)) && rq_add(qx(b), cim(self)) }
    open spec fn add_spec(self, b: Quaternion<$T>) -> Quaternion<$T> { mkq(sp_add(qw(b), cre(self)), sp_add(qx(b), cim(self)), qy(b), qz(b)) }
}
impl vstd::std_specs::ops::SubSpecImpl<Quaternion<$T>> for Complex<$T> {
    open spec fn obeys_sub_spec() -> bool { <$T as vstd::std_specs::ops::AddSpec>::obeys_add_spec() && <$T as vstd::std_specs::ops::NegSpec>::obeys_neg_spec() }
    open spec fn sub_req(self, b: Quaternion<$T>) -> bool { tot_neg::<$T>() && tot_add::<$T, $T>() }
    open spec fn sub_spec(self, b: Quaternion<$T>) -> Quaternion<$T> { mkq(sp_add(sp_neg(qw(b)), cre(self)), sp_add(sp_neg(qx(b)), cim(self)), sp_neg(qy(b)), sp_neg(qz(b))) }
}
impl vstd::std_specs::ops::MulSpecImpl<Quaternion<$T>> for $T {
    open spec fn obeys_mul_spec() -> bool { <$T as vstd::std_specs::ops::MulSpec>::obeys_mul_spec() }
    open spec fn mul_req(self, b: Quaternion<$T>) -> bool { tot_mul::<$T, $T>() }
    open spec fn mul_spec(self, b: Quaternion<$T>) -> Quaternion<$T> { q_muls(b, self) }
}
impl vstd::std_specs::ops::DivSpecImpl<Quaternion<$T>> for $T {
    open spec fn obeys_div_spec() -> bool { tot_field::<$T>() && tot_neg::<$T>() }
    open spec fn div_req(self, b: Quaternion<$T>) -> bool { tot_field::<$T>() && tot_neg::<$T>() }
    open spec fn div_spec(self, b: Quaternion<$T>) -> Quaternion<$T> { q_muls(q_inv(b), self) }
}
### for T in f32,f64: <$T as Add<Quaternion<$T>>>::add ;; <$T as Sub<Quaternion<$T>>>::sub ;; <$T as Mul<Quaternion<$T>>>::mul ;; <$T as Div<Quaternion<$T>>>::div ;; <Complex<$T> as Add<Quaternion<$T>>>::add ;; <Complex<$T> as Sub<Quaternion<$T>>>::sub
props C19
### <Quaternion<T> as Num>::from_str_radix
skip not implemented: panics
props C19
### for S,s,Z,A,a,z,q in Sum/sum/Zero/Add/add/zero/true,Product/product/One/Mul/mul/one/Quaternion::<T>::one_req(): verbatim
impl<T> Vx$SSpecImpl<Quaternion<T>> for Quaternion<T> where Quaternion<T>: $Z + $A { open spec fn $s_req() -> bool { tot_$a::<Quaternion<T>, Quaternion<T>>() && Quaternion::<T>::obeys_$z() && $q } }
### for S,s,A,a,z in Sum/sum/Add/add/zero,Product/product/Mul/mul/one: <Quaternion<T> as $S>::$s
props C19
ens r == vfold(Self::$z_spec(), iter.remaining(), |a: Self, b: Self| sp_$a(a, b))
pre let ghost xs = iter.remaining();
postr proof { assert(exists|t: Seq<Self>| #[trigger] t.len() == xs.len() + 1 && trace(t, Self::$z_spec(), xs, |a: Self, b: Self| sp_$a(a, b)) && vx_res == t[xs.len() as int]); let t = choose|t: Seq<Self>| #[trigger] t.len() == xs.len() + 1 && trace(t, Self::$z_spec(), xs, |a: Self, b: Self| sp_$a(a, b)) && vx_res == t[xs.len() as int]; trace_vfold(t, Self::$z_spec(), xs, |a: Self, b: Self| sp_$a(a, b)); }
closure 0
cret Self
creq tot_$a::<Self, Self>()
cens vx_r == sp_$a(a, x)
