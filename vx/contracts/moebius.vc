### verbatim
// a Moebius transform is its four coefficients
pub open spec fn ma<T>(m: Moebius<T>) -> T { m.mat.data@[0]@[0] }
pub open spec fn mb<T>(m: Moebius<T>) -> T { m.mat.data@[0]@[1] }
pub open spec fn mc<T>(m: Moebius<T>) -> T { m.mat.data@[1]@[0] }
pub open spec fn md<T>(m: Moebius<T>) -> T { m.mat.data@[1]@[1] }
pub open spec fn mkmat2<T>(a: T, b: T, c: T, d: T) -> Matrix<T, 2, 2> { Matrix { data: mkv2(mkv2(a, b), mkv2(c, d)) } }
pub open spec fn mkmo<T>(a: T, b: T, c: T, d: T) -> Moebius<T> { Moebius { mat: mkmat2(a, b, c, d) } }
pub proof fn mat2_ext<T>(a: Matrix<T, 2, 2>, b: Matrix<T, 2, 2>)
    requires a.data@[0]@[0] == b.data@[0]@[0], a.data@[0]@[1] == b.data@[0]@[1], a.data@[1]@[0] == b.data@[1]@[0], a.data@[1]@[1] == b.data@[1]@[1],
    ensures a == b,
{ assert forall|i: int, j: int| 0 <= i < 2 && 0 <= j < 2 implies #[trigger] a.data@[i]@[j] == b.data@[i]@[j] by { assert(i == 0 || i == 1); assert(j == 0 || j == 1); } mat_ext(a, b); }
pub open spec fn mo_apply<T: Mul<U, Output = U>, U: Add<T, Output = U> + Div<Output = U>>(m: Moebius<T>, x: U) -> U {
    sp_div(sp_add(sp_mul(ma(m), x), mb(m)), sp_add(sp_mul(mc(m), x), md(m)))
}
pub open spec fn mo_chain<T: Add<Output = T> + Mul<Output = T>>(f: Moebius<T>, g: Moebius<T>) -> Moebius<T> {
    mkmo(sp_add(sp_mul(ma(f), ma(g)), sp_mul(mb(f), mc(g))), sp_add(sp_mul(ma(f), mb(g)), sp_mul(mb(f), md(g))),
         sp_add(sp_mul(mc(f), ma(g)), sp_mul(md(f), mc(g))), sp_add(sp_mul(mc(f), mb(g)), sp_mul(md(f), md(g))))
}
// the determinant and the inverse as the Laplace expansion writes them
pub open spec fn mo_det<T: Neg<Output = T> + Num>(m: Moebius<T>) -> T {
    sp_add(sp_add(T::zero_spec(), sp_mul(ma(m), mo_one(md(m)))), sp_mul(mb(m), sp_neg(mo_one(mc(m)))))
}
pub open spec fn mo_one<T: Num>(x: T) -> T { sp_add(T::zero_spec(), sp_mul(x, T::one_spec())) }
pub open spec fn mo_inv<T: Neg<Output = T> + Num>(m: Moebius<T>) -> Moebius<T> {
    mkmo(sp_div(mo_one(md(m)), mo_det(m)), sp_div(sp_neg(mo_one(mb(m))), mo_det(m)), sp_div(sp_neg(mo_one(mc(m))), mo_det(m)), sp_div(mo_one(ma(m)), mo_det(m)))
}
pub open spec fn mo_norm<T: Neg<Output = T> + Num>(m: Moebius<T>) -> Moebius<T> {
    mkmo(sp_div(ma(m), mo_det(m)), sp_div(mb(m), mo_det(m)), sp_div(mc(m), mo_det(m)), sp_div(md(m), mo_det(m)))
}
pub proof fn ldet1<T: Neg<Output = T> + Num>(a: Matrix<T, 2, 2>, i: int, j: int)
    ensures ldet(a, seq![i], seq![j]) == mo_one(a.data@[i]@[j]),
{
    reveal_with_fuel(ldet, 3); reveal_with_fuel(lsum, 3);
    assert(seq![i].drop_first() =~= Seq::<int>::empty()); assert(seq![j].remove(0) =~= Seq::<int>::empty());
}
pub proof fn mo_laplace<T: Neg<Output = T> + Num>(m: Moebius<T>)
    ensures
        det_spec(m.mat) == mo_det(m),
        cof_spec(m.mat, 0, 0) == mo_one(md(m)), cof_spec(m.mat, 1, 1) == mo_one(ma(m)),
        cof_spec(m.mat, 0, 1) == sp_neg(mo_one(mc(m))), cof_spec(m.mat, 1, 0) == sp_neg(mo_one(mb(m))),
        inv_spec(m.mat) == mo_inv(m).mat,
{
    let a = m.mat; let z = seq![0int]; let o = seq![1int]; let s = idx(2);
    assert(s.remove(0) =~= o); assert(s.remove(1) =~= z); assert(s.drop_first() =~= o); assert(s.len() == 2 && s[0] == 0 && s[1] == 1);
    ldet1(a, 0, 0); ldet1(a, 0, 1); ldet1(a, 1, 0); ldet1(a, 1, 1);
    reveal_with_fuel(lsum, 3);
    assert(ldet(a, s, s) == lsum(a, s, s, 2));
    assert(lsum(a, s, s, 0) == T::zero_spec());
    assert(lsum(a, s, s, 1) == sp_add(T::zero_spec(), sp_mul(ma(m), mo_one(md(m)))));
    mat2_ext(inv_spec(a), mo_inv(m).mat);
}
### Moebius<T>::new
props C23
ens r == mkmo($1, $2, $3, $4)
postr proof { mat2_ext(vx_res.mat, mkmat2($1, $2, $3, $4)); }
### Moebius<T>::from_matrix ;; <Moebius<T> as From<Matrix2x2<T>>>::from
props C23
ens r.mat == $1
### Moebius<T>::into_matrix
props C23
ens r == self.mat
### Moebius<T>::as_matrix
props C23
ens *r == self.mat
### Moebius<T>::as_mut_matrix
props C23
ens *r == old(self).mat
ens final(self).mat == *final(r)
### Moebius<T>::from_array ;; <Moebius<T> as From<[[T;2];2]>>::from
props C23
ens forall|i: int, j: int| 0 <= i < 2 && 0 <= j < 2 ==> #[trigger] r.mat.data@[i]@[j] == $1@[i]@[j]
ens r == mkmo($1@[0]@[0], $1@[0]@[1], $1@[1]@[0], $1@[1]@[1])
postr proof { mat2_ext(vx_res.mat, mkmat2($1@[0]@[0], $1@[0]@[1], $1@[1]@[0], $1@[1]@[1])); }
### Moebius<T>::into_array ;; Moebius<T>::as_array_of_arrays
props C23
ens forall|i: int, j: int| 0 <= i < 2 && 0 <= j < 2 ==> #[trigger] r@[i]@[j] == self.mat.data@[i]@[j]
### Moebius<T>::as_mut_array_of_arrays
props C23
ens forall|i: int, j: int| 0 <= i < 2 && 0 <= j < 2 ==> #[trigger] r@[i]@[j] == old(self).mat.data@[i]@[j]
ens forall|i: int, j: int| 0 <= i < 2 && 0 <= j < 2 ==> #[trigger] final(self).mat.data@[i]@[j] == final(r)@[i]@[j]
### Moebius<T>::from_tuple
props C23
ens r == mkmo($1.0, $1.1, $1.2, $1.3)
### Moebius<T>::into_tuple
props C23
ens r == (ma(self), mb(self), mc(self), md(self))
### for f in a,b,c,d: Moebius<T>::$f
props C23
ens r == m$f(*self)
### for f in a,b,c,d: Moebius<T>::$f_ref
props C23
ens *r == m$f(*self)
### for f,g,h,k in a/b/c/d,b/a/c/d,c/a/b/d,d/a/b/c: Moebius<T>::$f_mut
props C23
ens *r == m$f(*old(self))
ens m$f(*final(self)) == *final(r)
ens m$g(*final(self)) == m$g(*old(self)) && m$h(*final(self)) == m$h(*old(self)) && m$k(*final(self)) == m$k(*old(self))
### Moebius<T>::identity
props C23
req T::one_req()
ens T::obeys_one() && T::obeys_zero() ==> r == mkmo(T::one_spec(), T::zero_spec(), T::zero_spec(), T::one_spec())
postr proof { if T::obeys_one() && T::obeys_zero() { mat2_ext(vx_res.mat, mkmat2(T::one_spec(), T::zero_spec(), T::zero_spec(), T::one_spec())); } }
### Moebius<T>::chain
props C23
req tot_vec::<T>()
ens r == mo_chain(self, $1)
postr proof { vdot2(self.mat.data@[0]@, colq($1.mat, 0)); vdot2(self.mat.data@[0]@, colq($1.mat, 1)); vdot2(self.mat.data@[1]@, colq($1.mat, 0)); vdot2(self.mat.data@[1]@, colq($1.mat, 1)); mat2_ext(vx_res.mat, mo_chain(self, $1).mat); }
### Moebius<T>::apply
props C23
req tot_mul::<T, U>() && tot_add::<U, T>() && tot_div::<U, U>()
ens r == mo_apply(*self, $1)
### Moebius<T>::det
props C23
req tot_field::<T>() && tot_neg::<T>()
ens r == mo_det(*self)
pre proof { mo_laplace(*self); }
### impl Normalize for Moebius<T>
ghost     open spec fn normalize_req(self) -> bool { tot_field::<T>() && tot_neg::<T>() }
### <Moebius<T> as Normalize>::normalize
props C23
ens r == mo_norm(self)
postr proof { mat2_ext(vx_res.mat, mo_norm(self).mat); }
### Moebius<T>::inv
props C23
req tot_field::<T>() && tot_neg::<T>()
ens r == mo_inv(self)
pre proof { mo_laplace(self); }
### <Matrix2x2<T> as From<Moebius<T>>>::from
props C23
ens r == $1.mat
### <&'a Matrix2x2<T> as From<&'a Moebius<T>>>::from
props C23
ens *r == $1.mat
### <&'a mut Matrix2x2<T> as From<&'a mut Moebius<T>>>::from
props C23
ens *r == old($1).mat
ens final($1).mat == *final(r)
### <[[T;2];2] as From<Moebius<T>>>::from ;; <&'a [[T;2];2] as From<&'a Moebius<T>>>::from
props C23
ens forall|i: int, j: int| 0 <= i < 2 && 0 <= j < 2 ==> #[trigger] r@[i]@[j] == $1.mat.data@[i]@[j]
### <&'a mut [[T;2];2] as From<&'a mut Moebius<T>>>::from
props C23
ens forall|i: int, j: int| 0 <= i < 2 && 0 <= j < 2 ==> #[trigger] r@[i]@[j] == old($1).mat.data@[i]@[j]
ens forall|i: int, j: int| 0 <= i < 2 && 0 <= j < 2 ==> #[trigger] final($1).mat.data@[i]@[j] == final(r)@[i]@[j]
### verbatim
impl<T> vstd::std_specs::convert::FromSpecImpl<Matrix<T, 2, 2>> for Moebius<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: Matrix<T, 2, 2>) -> Self { Moebius { mat: a } }
}
impl<T> vstd::std_specs::convert::FromSpecImpl<Moebius<T>> for Matrix<T, 2, 2> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: Moebius<T>) -> Self { a.mat }
}
impl<T> vstd::std_specs::convert::FromSpecImpl<[[T; 2]; 2]> for Moebius<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: [[T; 2]; 2]) -> Self { mkmo(a@[0]@[0], a@[0]@[1], a@[1]@[0], a@[1]@[1]) }
}
impl<T> vstd::std_specs::convert::FromSpecImpl<Moebius<T>> for [[T; 2]; 2] {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(a: Moebius<T>) -> Self { arbitrary() }
}
impl<'a, T> vstd::std_specs::convert::FromSpecImpl<&'a Moebius<T>> for &'a Matrix<T, 2, 2> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(a: &'a Moebius<T>) -> Self { arbitrary() }
}
impl<'a, T> vstd::std_specs::convert::FromSpecImpl<&'a mut Moebius<T>> for &'a mut Matrix<T, 2, 2> {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(a: &'a mut Moebius<T>) -> Self { arbitrary() }
}
impl<'a, T> vstd::std_specs::convert::FromSpecImpl<&'a Moebius<T>> for &'a [[T; 2]; 2] {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(a: &'a Moebius<T>) -> Self { arbitrary() }
}
impl<'a, T> vstd::std_specs::convert::FromSpecImpl<&'a mut Moebius<T>> for &'a mut [[T; 2]; 2] {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(a: &'a mut Moebius<T>) -> Self { arbitrary() }
}
// the derivative of a Moebius map
pub open spec fn mo_num<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T>>(m: Moebius<Complex<T>>, p: Complex<T>) -> Complex<T> { c_add(c_mul(ma(m), p), mb(m)) }
pub open spec fn mo_den<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T>>(m: Moebius<Complex<T>>, p: Complex<T>) -> Complex<T> { c_add(c_mul(mc(m), p), md(m)) }
pub open spec fn c_add<T: Add<Output = T>>(a: Complex<T>, b: Complex<T>) -> Complex<T> { mkc(sp_add(cre(a), cre(b)), sp_add(cim(a), cim(b))) }
pub open spec fn c_sub<T: Sub<Output = T>>(a: Complex<T>, b: Complex<T>) -> Complex<T> { mkc(sp_sub(cre(a), cre(b)), sp_sub(cim(a), cim(b))) }
pub open spec fn mo_deriv<T: Neg<Output = T> + Num>(m: Moebius<Complex<T>>, p: Complex<T>) -> Complex<T> {
    c_mul(c_sub(c_mul(ma(m), mo_den(m, p)), c_mul(mo_num(m, p), mc(m))), c_inv(c_mul(mo_den(m, p), mo_den(m, p))))
}
pub open spec fn q_add<T: Add<Output = T>>(a: Quaternion<T>, b: Quaternion<T>) -> Quaternion<T> { mkq(sp_add(qw(a), qw(b)), sp_add(qx(a), qx(b)), sp_add(qy(a), qy(b)), sp_add(qz(a), qz(b))) }
pub open spec fn q_addc<T: Add<Output = T>>(a: Quaternion<T>, b: Complex<T>) -> Quaternion<T> { mkq(sp_add(qw(a), cre(b)), sp_add(qx(a), cim(b)), qy(a), qz(a)) }
pub open spec fn q_sub<T: Sub<Output = T>>(a: Quaternion<T>, b: Quaternion<T>) -> Quaternion<T> { mkq(sp_sub(qw(a), qw(b)), sp_sub(qx(a), qx(b)), sp_sub(qy(a), qy(b)), sp_sub(qz(a), qz(b))) }
pub open spec fn mo_qderiv<T: Neg<Output = T> + Num>(m: Moebius<Complex<T>>, p: Quaternion<T>, v: Quaternion<T>, two: T) -> Quaternion<T> {
    let u = q_addc(cq_mul(ma(m), p), mb(m));
    let d = q_addc(cq_mul(mc(m), p), md(m));
    let d2 = q_nsq(d);
    let g1 = q_mul(cq_mul(ma(m), v), q_inv(d));
    let g21 = q_conj(cq_mul(mc(m), v));
    let g22 = q_muls(q_conj(d), sp_div(sp_mul(q_dot(d, cq_mul(mc(m), v)), two), d2));
    q_add(g1, q_mul(u, q_divs(q_sub(g21, g22), d2)))
}
### Moebius<Complex<T>>::deriv
props C21 C23
req tot_field::<T>() && tot_neg::<T>()
ens r == mo_deriv(*self, $1)
### Moebius<Complex<T>>::deriv_dir
props C21 C23
req tot_field::<T>() && tot_neg::<T>() && T::cast_of(2.0f64) is Some
ens r == mo_qderiv(*self, $1, $2, T::cast_of(2.0f64)->0)
