// ------------------------------------------------ the traits
### trait Transform
ghost     // the operations of the scalar are total functions (and the size fits)
    spec fn tr_req() -> bool;
    spec fn tr_id() -> Self;
    spec fn tr_inv(self) -> Self;
    spec fn tr_apply(&self, pos: T) -> T;
    spec fn tr_deriv(&self, pos: T, dir: T) -> T;
    spec fn tr_chain(self, other: Self) -> Self;
### trait Transform::identity
props C20
req Self::tr_req()
ens r == Self::tr_id()
### trait Transform::inv
props C20
req Self::tr_req()
ens r == self.tr_inv()
### trait Transform::apply
props C20
req Self::tr_req()
ens r == self.tr_apply($1)
### trait Transform::deriv
props C21
req Self::tr_req()
ens r == self.tr_deriv($1, $2)
### trait Transform::chain
props C20
req Self::tr_req()
ens r == self.tr_chain($1)
### trait Directional
ghost     spec fn dir_req() -> bool;
    spec fn dir_ens(&self, pos: T, dir: T, r: T) -> bool;
    spec fn nrm_ens(&self, pos: T, normal: T, r: T) -> bool;
### trait Directional::apply_dir
props C21
req Self::dir_req()
ens self.dir_ens($1, $2, r)
### trait Directional::apply_normal
props C21
req Self::dir_req()
ens self.nrm_ens($1, $2, r)
### trait Reorder
ghost     spec fn ro_req() -> bool;
    spec fn ro(self, other: B) -> (B, Self);
### trait Reorder::reorder
props C20
req Self::ro_req()
ens r == self.ro($1)
// ------------------------------------------------ formulas
### verbatim
pub open spec fn v_add<T: Add<Output = T>, const N: usize>(a: Vector<T, N>, b: Vector<T, N>) -> Vector<T, N> { mk_vec::<T, N>(|i: int| sp_add(a@[i], b@[i])) }
pub open spec fn v_neg<T: Neg<Output = T>, const N: usize>(a: Vector<T, N>) -> Vector<T, N> { mk_vec::<T, N>(|i: int| sp_neg(a@[i])) }
pub open spec fn v_muls<T: Mul<Output = T>, const N: usize>(a: Vector<T, N>, b: T) -> Vector<T, N> { mk_vec::<T, N>(|i: int| sp_mul(a@[i], b)) }
pub open spec fn m_v<T: Add<Output = T> + Mul<Output = T>, const N: usize>(a: Matrix<T, N, N>, x: Vector<T, N>) -> Vector<T, N> { mk_vec::<T, N>(|i: int| vdot(a.data@[i]@, x@)) }
pub open spec fn m_m<T: Add<Output = T> + Mul<Output = T>, const N: usize>(a: Matrix<T, N, N>, b: Matrix<T, N, N>) -> Matrix<T, N, N> { mk_mat::<T, N, N>(|i: int, j: int| vdot(a.data@[i]@, colq(b, j))) }
pub open spec fn m_tr<T, const N: usize>(a: Matrix<T, N, N>) -> Matrix<T, N, N> { mk_mat::<T, N, N>(|i: int, j: int| a.data@[j]@[i]) }
pub open spec fn rot2<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T>>(c: Complex<T>, x: Vector<T, 2>) -> Vector<T, 2> { c_mul(Complex { vec: x }, c).vec }
pub open spec fn rot3<T: Neg<Output = T> + Num>(q: Quaternion<T>, x: Vector<T, 3>) -> Vector<T, 3> { let s = q_mul(q_mul(q, mkq(T::zero_spec(), x@[0], x@[1], x@[2])), q_conj(q)); mkv3(qx(s), qy(s), qz(s)) }
pub open spec fn tot_lin<T: Neg<Output = T> + Num>(n: usize) -> bool { tot_field::<T>() && tot_neg::<T>() && 1 <= n <= usize::MAX / 2 && n * n <= usize::MAX }
// ------------------------------------------------ shift
### Shift<T,N>::from_vector ;; <Shift<T,N> as From<Vector<T,N>>>::from
props C20
ens r.pos == $1
### Shift<T,N>::into_vector
props C20
ens r == self.pos
### <Vector<T,N> as From<Shift<T,N>>>::from
props C20
ens r == $1.pos
### verbatim
impl<T, const N: usize> vstd::std_specs::convert::FromSpecImpl<Vector<T, N>> for Shift<T, N> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Vector<T, N>) -> Self { Shift { pos: a } } }
impl<T, const N: usize> vstd::std_specs::convert::FromSpecImpl<Shift<T, N>> for Vector<T, N> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Shift<T, N>) -> Self { a.pos } }
### impl Transform<Vector<T,N>> for Shift<T,N>
ghost     open spec fn tr_req() -> bool { tot_add::<T, T>() && tot_neg::<T>() && T::obeys_zero() }
    open spec fn tr_id() -> Self { Shift { pos: mk_vec::<T, N>(|i: int| T::zero_spec()) } }
    open spec fn tr_inv(self) -> Self { Shift { pos: v_neg(self.pos) } }
    open spec fn tr_apply(&self, pos: Vector<T, N>) -> Vector<T, N> { v_add(pos, self.pos) }
    open spec fn tr_deriv(&self, pos: Vector<T, N>, dir: Vector<T, N>) -> Vector<T, N> { dir }
    open spec fn tr_chain(self, other: Self) -> Self { Shift { pos: v_add(self.pos, other.pos) } }
### <Shift<T,N> as Transform<Vector<T,N>>>::identity
props C20
postr proof { v_ext(vx_res.pos, Self::tr_id().pos); }
### <Shift<T,N> as Transform<Vector<T,N>>>::inv
props C20
postr proof { v_ext(vx_res.pos, self.tr_inv().pos); }
### <Shift<T,N> as Transform<Vector<T,N>>>::apply
props C20
postr proof { v_ext(vx_res, self.tr_apply($1)); }
### <Shift<T,N> as Transform<Vector<T,N>>>::deriv
props C21
### <Shift<T,N> as Transform<Vector<T,N>>>::chain
props C20
postr proof { v_ext(vx_res.pos, self.tr_chain($1).pos); }
### for X in Shift<T§N>: impl Directional<Vector<T,N>> for $X
ghost     open spec fn dir_req() -> bool { true }
    open spec fn dir_ens(&self, pos: Vector<T, N>, dir: Vector<T, N>, r: Vector<T, N>) -> bool { r == dir }
    open spec fn nrm_ens(&self, pos: Vector<T, N>, normal: Vector<T, N>, r: Vector<T, N>) -> bool { r == normal }
### <Shift<T,N> as Directional<Vector<T,N>>>::apply_dir ;; <Shift<T,N> as Directional<Vector<T,N>>>::apply_normal
props C21
// ------------------------------------------------ linear
### Linear<T,N>::from_matrix ;; <Linear<T,N> as From<Matrix<T,N,N>>>::from
props C20
ens r.lin == $1
### Linear<T,N>::into_matrix
props C20
ens r == self.lin
### <Matrix<T,N,N> as From<Linear<T,N>>>::from
props C20
ens r == $1.lin
### verbatim
impl<T, const N: usize> vstd::std_specs::convert::FromSpecImpl<Matrix<T, N, N>> for Linear<T, N> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Matrix<T, N, N>) -> Self { Linear { lin: a } } }
impl<T, const N: usize> vstd::std_specs::convert::FromSpecImpl<Linear<T, N>> for Matrix<T, N, N> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Linear<T, N>) -> Self { a.lin } }
### impl Transform<Vector<T,N>> for Linear<T,N>
ghost     open spec fn tr_req() -> bool { tot_lin::<T>(N) }
    open spec fn tr_id() -> Self { Linear { lin: Matrix::<T, N, N>::one_spec() } }
    open spec fn tr_inv(self) -> Self { Linear { lin: inv_spec(self.lin) } }
    open spec fn tr_apply(&self, pos: Vector<T, N>) -> Vector<T, N> { m_v(self.lin, pos) }
    open spec fn tr_deriv(&self, pos: Vector<T, N>, dir: Vector<T, N>) -> Vector<T, N> { m_v(self.lin, dir) }
    open spec fn tr_chain(self, other: Self) -> Self { Linear { lin: m_m(self.lin, other.lin) } }
### <Linear<T,N> as Transform<Vector<T,N>>>::identity ;; <Linear<T,N> as Transform<Vector<T,N>>>::inv
props C20
### <Linear<T,N> as Transform<Vector<T,N>>>::apply
props C20
postr proof { v_ext(vx_res, m_v(self.lin, $1)); }
### <Linear<T,N> as Transform<Vector<T,N>>>::deriv
props C21
### <Linear<T,N> as Transform<Vector<T,N>>>::chain
props C20
postr proof { mat_ext(vx_res.lin, m_m(self.lin, $1.lin)); }
### Linear<T,N>::normal_transform
props C21
req <Matrix<T, N, N> as Inv>::obeys_inv() && <Matrix<T, N, N> as Inv>::inv_req(self.lin)
ens r.lin == m_tr(<Matrix<T, N, N> as Inv>::inv_of(self.lin))
postr proof { mat_ext(vx_res.lin, m_tr(<Matrix<T, N, N> as Inv>::inv_of(self.lin))); }
### impl Directional<Vector<T,N>> for Linear<T,N>
ghost     open spec fn dir_req() -> bool { tot_lin::<T>(N) && <Self as Transform<Vector<T, N>>>::tr_req() && forall|v: Vector<T, N>| #[trigger] <Vector<T, N> as Normalize>::normalize_req(v) }
    open spec fn dir_ens(&self, pos: Vector<T, N>, dir: Vector<T, N>, r: Vector<T, N>) -> bool { call_ensures(<Vector<T, N> as Normalize>::normalize, (m_v(self.lin, dir),), r) }
    open spec fn nrm_ens(&self, pos: Vector<T, N>, normal: Vector<T, N>, r: Vector<T, N>) -> bool { call_ensures(<Vector<T, N> as Normalize>::normalize, (m_v(m_tr(inv_spec(self.lin)), normal),), r) }
### <Linear<T,N> as Directional<Vector<T,N>>>::apply_dir ;; <Linear<T,N> as Directional<Vector<T,N>>>::apply_normal
props C21
### impl Reorder<Linear<T,N>,Vector<T,N>> for Shift<T,N>
ghost     open spec fn ro_req() -> bool { <Linear<T, N> as Transform<Vector<T, N>>>::tr_req() }
    open spec fn ro(self, other: Linear<T, N>) -> (Linear<T, N>, Self) { (other, Shift { pos: other.tr_inv().tr_apply(self.pos) }) }
### <Shift<T,N> as Reorder<Linear<T,N>,Vector<T,N>>>::reorder
props C20
### impl Reorder<Shift<T,N>,Vector<T,N>> for Linear<T,N>
ghost     open spec fn ro_req() -> bool { <Linear<T, N> as Transform<Vector<T, N>>>::tr_req() }
    open spec fn ro(self, other: Shift<T, N>) -> (Shift<T, N>, Self) { (Shift { pos: self.tr_apply(other.pos) }, self) }
### <Linear<T,N> as Reorder<Shift<T,N>,Vector<T,N>>>::reorder
props C20
// ------------------------------------------------ scale
### Scale<T>::from_mag ;; <Scale<T> as From<T>>::from
props C20
ens r.mag == $1
### Scale<T>::into_mag
props C20
ens r == self.mag
### verbatim
impl<T> vstd::std_specs::convert::FromSpecImpl<T> for Scale<T> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: T) -> Self { Scale { mag: a } } }
### impl Transform<Vector<T,N>> for Scale<T>
ghost     open spec fn tr_req() -> bool { tot_mul::<T, T>() && T::obeys_one() && T::one_req() && T::obeys_inv() && forall|x: T| #[trigger] x.inv_req() }
    open spec fn tr_id() -> Self { Scale { mag: T::one_spec() } }
    open spec fn tr_inv(self) -> Self { Scale { mag: self.mag.inv_of() } }
    open spec fn tr_apply(&self, pos: Vector<T, N>) -> Vector<T, N> { v_muls(pos, self.mag) }
    open spec fn tr_deriv(&self, pos: Vector<T, N>, dir: Vector<T, N>) -> Vector<T, N> { v_muls(dir, self.mag) }
    open spec fn tr_chain(self, other: Self) -> Self { Scale { mag: sp_mul(self.mag, other.mag) } }
### <Scale<T> as Transform<Vector<T,N>>>::identity ;; <Scale<T> as Transform<Vector<T,N>>>::inv ;; <Scale<T> as Transform<Vector<T,N>>>::chain
props C20
### <Scale<T> as Transform<Vector<T,N>>>::apply
props C20
postr proof { v_ext(vx_res, v_muls($1, self.mag)); }
### <Scale<T> as Transform<Vector<T,N>>>::deriv
props C21
### impl Directional<Vector<T,N>> for Scale<T>
ghost     open spec fn dir_req() -> bool { true }
    open spec fn dir_ens(&self, pos: Vector<T, N>, dir: Vector<T, N>, r: Vector<T, N>) -> bool { r == dir }
    open spec fn nrm_ens(&self, pos: Vector<T, N>, normal: Vector<T, N>, r: Vector<T, N>) -> bool { r == normal }
### <Scale<T> as Directional<Vector<T,N>>>::apply_dir ;; <Scale<T> as Directional<Vector<T,N>>>::apply_normal
props C21
### impl Reorder<Scale<T>,Vector<T,N>> for Shift<T,N>
ghost     open spec fn ro_req() -> bool { <Scale<T> as Transform<Vector<T, N>>>::tr_req() }
    open spec fn ro(self, other: Scale<T>) -> (Scale<T>, Self) { (other, Shift { pos: <Scale<T> as Transform<Vector<T, N>>>::tr_apply(&<Scale<T> as Transform<Vector<T, N>>>::tr_inv(other), self.pos) }) }
### <Shift<T,N> as Reorder<Scale<T>,Vector<T,N>>>::reorder
props C20
### impl Reorder<Shift<T,N>,Vector<T,N>> for Scale<T>
ghost     open spec fn ro_req() -> bool { <Scale<T> as Transform<Vector<T, N>>>::tr_req() }
    open spec fn ro(self, other: Shift<T, N>) -> (Shift<T, N>, Self) { (Shift { pos: <Scale<T> as Transform<Vector<T, N>>>::tr_apply(&self, other.pos) }, self) }
### <Scale<T> as Reorder<Shift<T,N>,Vector<T,N>>>::reorder
props C20
// ------------------------------------------------ chain
### Chain<A,B,T>::new
props C20
ens r.outer == $1 && r.inner == $2
### Chain<A,B,T>::split
props C20
ens r == (self.outer, self.inner)
### for f in outer,inner: Chain<A,B,T>::$f
props C20
ens *r == self.$f
### for f,g in outer/inner,inner/outer: Chain<A,B,T>::$f_mut
props C20
ens *r == old(self).$f
ens final(self).$f == *final(r)
ens final(self).$g == old(self).$g
### <Chain<A,B,T> as From<(A,B)>>::from
props C20
ens r.outer == $1.0 && r.inner == $1.1
### <(A,B) as From<Chain<A,B,T>>>::from
props C20
ens r == ($1.outer, $1.inner)
### verbatim
pub open spec fn mkch<A, B, T>(a: A, b: B) -> Chain<A, B, T> { Chain { outer: a, inner: b, phantom: PhantomData } }
impl<A, B, T> vstd::std_specs::convert::FromSpecImpl<(A, B)> for Chain<A, B, T> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: (A, B)) -> Self { mkch(a.0, a.1) } }
impl<A, B, T> vstd::std_specs::convert::FromSpecImpl<Chain<A, B, T>> for (A, B) { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Chain<A, B, T>) -> Self { (a.outer, a.inner) } }
### impl Transform<T> for Chain<A,B,T>
ghost     open spec fn tr_req() -> bool { A::tr_req() && B::tr_req() && <A as Reorder<B, T>>::ro_req() && <B as Reorder<A, T>>::ro_req() }
    open spec fn tr_id() -> Self { mkch(A::tr_id(), B::tr_id()) }
    open spec fn tr_inv(self) -> Self { let p = self.inner.tr_inv().ro(self.outer.tr_inv()); mkch(p.0, p.1) }
    open spec fn tr_apply(&self, pos: T) -> T { self.outer.tr_apply(self.inner.tr_apply(pos)) }
    open spec fn tr_deriv(&self, pos: T, dir: T) -> T { self.outer.tr_deriv(self.inner.tr_apply(pos), self.inner.tr_deriv(pos, dir)) }
    open spec fn tr_chain(self, other: Self) -> Self { let p = self.inner.ro(other.outer); mkch(self.outer.tr_chain(p.0), p.1.tr_chain(other.inner)) }
### for f in identity,inv,apply,chain: <Chain<A,B,T> as Transform<T>>::$f
props C20
### <Chain<A,B,T> as Transform<T>>::deriv
props C21
### impl Directional<T> for Chain<A,B,T>
ghost     open spec fn dir_req() -> bool { A::dir_req() && B::dir_req() && B::tr_req() }
    open spec fn dir_ens(&self, pos: T, dir: T, r: T) -> bool { exists|m: T| #[trigger] self.inner.dir_ens(pos, dir, m) && self.outer.dir_ens(self.inner.tr_apply(pos), m, r) }
    open spec fn nrm_ens(&self, pos: T, normal: T, r: T) -> bool { exists|m: T| #[trigger] self.inner.nrm_ens(pos, normal, m) && self.outer.nrm_ens(self.inner.tr_apply(pos), m, r) }
### <Chain<A,B,T> as Directional<T>>::apply_dir ;; <Chain<A,B,T> as Directional<T>>::apply_normal
props C21
### Affine<T,N>::linear
props C20
ens r == self.inner
### Affine<T,N>::shift
props C20
ens r == self.outer
// ------------------------------------------------ rotations
### Rotation2<T>::from_complex ;; <Rotation2<T> as From<Complex<T>>>::from
props C20 C22
ens r.comp == $1
### Rotation2<T>::into_complex
props C20 C22
ens r == self.comp
### <Complex<T> as From<Rotation2<T>>>::from
props C20 C22
ens r == $1.comp
### Rotation2<T>::new
props C22
ens exists|c: T, s: T| #[trigger] T::cos_r($1, c) && #[trigger] T::sin_r($1, s) && r.comp == mkc(c, s)
### Rotation2<T>::angle
props C22
ens T::atan2_r(cim(self.comp), cre(self.comp), r)
### verbatim
impl<T> vstd::std_specs::convert::FromSpecImpl<Complex<T>> for Rotation2<T> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Complex<T>) -> Self { Rotation2 { comp: a } } }
impl<T> vstd::std_specs::convert::FromSpecImpl<Rotation2<T>> for Complex<T> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Rotation2<T>) -> Self { a.comp } }
impl<T> vstd::std_specs::convert::FromSpecImpl<Quaternion<T>> for Rotation3<T> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Quaternion<T>) -> Self { Rotation3 { quat: a } } }
impl<T> vstd::std_specs::convert::FromSpecImpl<Rotation3<T>> for Quaternion<T> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(a: Rotation3<T>) -> Self { a.quat } }
### impl Transform<Vector<T,2>> for Rotation2<T>
ghost     open spec fn tr_req() -> bool { tot_ring::<T>() && tot_neg::<T>() && T::obeys_zero() && T::obeys_one() && T::one_req() }
    open spec fn tr_id() -> Self { Rotation2 { comp: mkc(T::one_spec(), T::zero_spec()) } }
    open spec fn tr_inv(self) -> Self { Rotation2 { comp: c_conj(self.comp) } }
    open spec fn tr_apply(&self, pos: Vector<T, 2>) -> Vector<T, 2> { rot2(self.comp, pos) }
    open spec fn tr_deriv(&self, pos: Vector<T, 2>, dir: Vector<T, 2>) -> Vector<T, 2> { rot2(self.comp, dir) }
    open spec fn tr_chain(self, other: Self) -> Self { Rotation2 { comp: c_mul(self.comp, other.comp) } }
### for f in identity,inv,apply,chain: <Rotation2<T> as Transform<Vector<T,2>>>::$f
props C20 C22
### <Rotation2<T> as Transform<Vector<T,2>>>::deriv
props C21 C22
### for K,n in 2/2,3/3: impl Directional<Vector<T,$n>> for Rotation$K<T>
ghost     open spec fn dir_req() -> bool { <Self as Transform<Vector<T, $n>>>::tr_req() }
    open spec fn dir_ens(&self, pos: Vector<T, $n>, dir: Vector<T, $n>, r: Vector<T, $n>) -> bool { r == <Self as Transform<Vector<T, $n>>>::tr_deriv(self, pos, dir) }
    open spec fn nrm_ens(&self, pos: Vector<T, $n>, normal: Vector<T, $n>, r: Vector<T, $n>) -> bool { r == <Self as Transform<Vector<T, $n>>>::tr_deriv(self, pos, normal) }
### for K,n in 2/2,3/3: <Rotation$K<T> as Directional<Vector<T,$n>>>::apply_dir ;; <Rotation$K<T> as Directional<Vector<T,$n>>>::apply_normal
props C21 C22
### Rotation2<T>::to_linear
props C22
req rq_neg(cim(self.comp))
ens T::obeys_neg_spec() ==> r.lin == mkmat2(cre(self.comp), sp_neg(cim(self.comp)), cim(self.comp), cre(self.comp))
postr proof { if T::obeys_neg_spec() { mat2_ext(vx_res.lin, mkmat2(cre(self.comp), sp_neg(cim(self.comp)), cim(self.comp), cre(self.comp))); } }
### Rotation3<T>::from_quaternion ;; <Rotation3<T> as From<Quaternion<T>>>::from
props C20 C22
ens r.quat == $1
### Rotation3<T>::into_quaternion
props C20 C22
ens r == self.quat
### <Quaternion<T> as From<Rotation3<T>>>::from
props C20 C22
ens r == $1.quat
### impl Transform<Vector<T,3>> for Rotation3<T>
ghost     open spec fn tr_req() -> bool { tot_field::<T>() && tot_neg::<T>() }
    open spec fn tr_id() -> Self { Rotation3 { quat: mkq(T::one_spec(), T::zero_spec(), T::zero_spec(), T::zero_spec()) } }
    open spec fn tr_inv(self) -> Self { Rotation3 { quat: q_conj(self.quat) } }
    open spec fn tr_apply(&self, pos: Vector<T, 3>) -> Vector<T, 3> { rot3(self.quat, pos) }
    open spec fn tr_deriv(&self, pos: Vector<T, 3>, dir: Vector<T, 3>) -> Vector<T, 3> { rot3(self.quat, dir) }
    open spec fn tr_chain(self, other: Self) -> Self { Rotation3 { quat: q_mul(self.quat, other.quat) } }
### for f in identity,inv,apply,chain: <Rotation3<T> as Transform<Vector<T,3>>>::$f
props C20 C22
### <Rotation3<T> as Transform<Vector<T,3>>>::deriv
props C21 C22
### for K,n in 2/2,3/3: impl Reorder<Rotation$K<T>,Vector<T,$n>> for Shift<T,$n>
ghost     open spec fn ro_req() -> bool { <Rotation$K<T> as Transform<Vector<T, $n>>>::tr_req() }
    open spec fn ro(self, other: Rotation$K<T>) -> (Rotation$K<T>, Self) { (other, Shift { pos: other.tr_inv().tr_apply(self.pos) }) }
### for K,n in 2/2,3/3: <Shift<T,$n> as Reorder<Rotation$K<T>,Vector<T,$n>>>::reorder
props C20
### for K,n in 2/2,3/3: impl Reorder<Shift<T,$n>,Vector<T,$n>> for Rotation$K<T>
ghost     open spec fn ro_req() -> bool { <Rotation$K<T> as Transform<Vector<T, $n>>>::tr_req() }
    open spec fn ro(self, other: Shift<T, $n>) -> (Shift<T, $n>, Self) { (Shift { pos: self.tr_apply(other.pos) }, self) }
### for K,n in 2/2,3/3: <Rotation$K<T> as Reorder<Shift<T,$n>,Vector<T,$n>>>::reorder
props C20
### verbatim
pub open spec fn q_axang<T: Float>(axis: Vector<T, 3>, angle: T, q: Quaternion<T>) -> bool {
    exists|c: T, s: T| #[trigger] T::cos_r(sp_div(angle, T::cast_of(2.0f64)->0), c) && #[trigger] T::sin_r(sp_div(angle, T::cast_of(2.0f64)->0), s)
        && q == mkq(c, sp_mul(axis@[0], s), sp_mul(axis@[1], s), sp_mul(axis@[2], s))
}
pub open spec fn mk_rows3<T>(a: Vector<T, 3>, b: Vector<T, 3>, c: Vector<T, 3>) -> Matrix<T, 3, 3> { Matrix { data: mkv3(a, b, c) } }
pub proof fn mat3_ext<T>(a: Matrix<T, 3, 3>, b: Matrix<T, 3, 3>)
    requires forall|i: int| 0 <= i < 3 ==> #[trigger] a.data@[i]@[0] == b.data@[i]@[0] && a.data@[i]@[1] == b.data@[i]@[1] && a.data@[i]@[2] == b.data@[i]@[2],
    ensures a == b,
{ assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies #[trigger] a.data@[i]@[j] == b.data@[i]@[j] by { assert(a.data@[i]@[0] == b.data@[i]@[0]); assert(j == 0 || j == 1 || j == 2); } mat_ext(a, b); }
// the matrix that look_at builds: columns right, strict up, -dir
pub open spec fn lookat<T: Float>(dir: Vector<T, 3>, up: Vector<T, 3>, r: Linear<T, 3>) -> bool {
    let c = v_cross(dir, up);
    exists|n: T| #[trigger] T::sqrt_r(vdot(c@, c@), n) && { let right = v_divs(c, n); let su = v_cross(right, dir);
        r.lin.data@[0]@[0] == right@[0] && r.lin.data@[1]@[0] == right@[1] && r.lin.data@[2]@[0] == right@[2]
        && r.lin.data@[0]@[1] == su@[0] && r.lin.data@[1]@[1] == su@[1] && r.lin.data@[2]@[1] == su@[2]
        && r.lin.data@[0]@[2] == sp_neg(dir@[0]) && r.lin.data@[1]@[2] == sp_neg(dir@[1]) && r.lin.data@[2]@[2] == sp_neg(dir@[2]) }
}
pub open spec fn tot_float<T: Float>() -> bool { tot_field::<T>() && tot_neg::<T>() && tot_vec::<T>() && T::obeys_partial_cmp_spec() && T::cast_of(2.0f64) is Some && T::cast_of(0.5f64) is Some && T::cast_of(2i32) is Some }
### Linear<T,3>::look_at
props C22
req tot_float::<T>()
ens lookat($1, $2, r)
pre let ghost vx_c = v_cross($1, $2); let ghost vx_d = vdot(vx_c@, vx_c@);

### Linear<T,3>::look_at_any
props C22
req tot_float::<T>()
ens exists|a: T| #[trigger] T::abs_r($1@[2], a) && lookat($1, if sp_lt(a, T::cast_of(0.5f64)->0) { mkv3(T::zero_spec(), T::zero_spec(), T::one_spec()) } else { mkv3(T::zero_spec(), T::one_spec(), T::zero_spec()) }, r)
pre let ghost vx_x = T::cast_of(0.5f64)->0; let ghost vx_a = v_cross($1, mkv3(T::zero_spec(), T::zero_spec(), T::one_spec())); let ghost vx_b = v_cross($1, mkv3(T::zero_spec(), T::one_spec(), T::zero_spec()));
### Rotation3<T>::new
props C22
req tot_float::<T>()
ens q_axang($1, $2, r.quat)
pre let ghost vx_h = sp_div($2, T::cast_of(2.0f64)->0);
### Rotation3<T>::axis
props C22
req tot_float::<T>()
ens exists|n: T| #[trigger] T::sqrt_r(vdot(mkv3(qx(self.quat), qy(self.quat), qz(self.quat))@, mkv3(qx(self.quat), qy(self.quat), qz(self.quat))@), n) && r == v_divs(mkv3(qx(self.quat), qy(self.quat), qz(self.quat)), n)
### Rotation3<T>::angle
props C22
req tot_float::<T>()
ens exists|n: T, h: T| #[trigger] T::sqrt_r(vdot(mkv3(qx(self.quat), qy(self.quat), qz(self.quat))@, mkv3(qx(self.quat), qy(self.quat), qz(self.quat))@), n) && #[trigger] T::atan2_r(n, qw(self.quat), h) && r == sp_mul(T::cast_of(2.0f64)->0, h)
### Rotation3<T>::to_linear
props C22
req tot_float::<T>()
ens r.lin == rot3_lin(self.quat, T::cast_of(2.0f64)->0)
postr proof { mat3_ext(vx_res.lin, rot3_lin(self.quat, T::cast_of(2.0f64)->0)); }
### verbatim
pub open spec fn rot3_lin<T: Num>(q: Quaternion<T>, t: T) -> Matrix<T, 3, 3> {
    let o = T::one_spec();
    mk_rows3(
        mkv3(sp_sub(sp_sub(o, tt(t, qy(q), qy(q))), tt(t, qz(q), qz(q))), sp_sub(tt(t, qx(q), qy(q)), tt(t, qz(q), qw(q))), sp_add(tt(t, qx(q), qz(q)), tt(t, qy(q), qw(q)))),
        mkv3(sp_add(tt(t, qx(q), qy(q)), tt(t, qz(q), qw(q))), sp_sub(sp_sub(o, tt(t, qx(q), qx(q))), tt(t, qz(q), qz(q))), sp_sub(tt(t, qy(q), qz(q)), tt(t, qx(q), qw(q)))),
        mkv3(sp_sub(tt(t, qx(q), qz(q)), tt(t, qy(q), qw(q))), sp_add(tt(t, qy(q), qz(q)), tt(t, qx(q), qw(q))), sp_sub(sp_sub(o, tt(t, qx(q), qx(q))), tt(t, qy(q), qy(q)))))
}
pub open spec fn tt<T: Mul<Output = T>>(t: T, a: T, b: T) -> T { sp_mul(sp_mul(t, a), b) }
// the rotation taking -z to a direction with a positive product with it
pub open spec fn lac_dot<T: Float>(dir: Vector<T, 3>) -> T { vdot(lac_z::<T>()@, dir@) }
pub open spec fn lac_z<T: Float>() -> Vector<T, 3> { mkv3(T::zero_spec(), T::zero_spec(), sp_neg(T::one_spec())) }
pub open spec fn lac<T: Float>(dir: Vector<T, 3>, r: Rotation3<T>) -> bool {
    let x = v_cross(lac_z::<T>(), dir); let two = T::cast_of(2i32)->0;
    exists|c: T| #[trigger] T::sqrt_r(sp_div(sp_add(T::one_spec(), lac_dot(dir)), two), c) && { let m = sp_div(T::one_spec(), sp_mul(two, c)); r.quat == mkq(c, sp_mul(x@[0], m), sp_mul(x@[1], m), sp_mul(x@[2], m)) }
}
pub open spec fn half_ax<T: Float>() -> Vector<T, 3> { mkv3(T::one_spec(), T::zero_spec(), T::zero_spec()) }
### Rotation3<T>::look_at_any_cont
props C22
attr #[verifier::exec_allows_no_decreases_clause]
req tot_float::<T>()
ens !sp_lt(lac_dot($1), T::zero_spec()) ==> lac($1, r)
pre let ghost vx_d = lac_dot($1); let ghost vx_two = T::cast_of(2i32)->0; let ghost vx_q = sp_div(sp_add(T::one_spec(), vx_d), vx_two); let ghost vx_x = v_cross(lac_z::<T>(), $1);
### Rotation3<T>::look_at_any
props C22
attr #[verifier::exec_allows_no_decreases_clause]
req tot_float::<T>()
ens sp_lt($1@[2], T::zero_spec()) && !sp_lt(lac_dot($1), T::zero_spec()) ==> lac($1, r)
ens !sp_lt($1@[2], T::zero_spec()) && !sp_lt(lac_dot(v_neg($1)), T::zero_spec()) ==> exists|m: Rotation3<T>, h: Rotation3<T>| #[trigger] lac(v_neg($1), m) && #[trigger] q_axang(half_ax::<T>(), T::pi_spec(), h.quat) && r.quat == q_mul(m.quat, h.quat)
pre let ghost vx_n = v_neg($1); let ghost vx_d = lac_dot(vx_n); let ghost vx_ax = half_ax::<T>();
// ------------------------------------------------ Moebius transforms as transforms
### impl Transform<Complex<T>> for Moebius<Complex<T>>
ghost     open spec fn tr_req() -> bool { tot_field::<T>() && tot_neg::<T>() }
    open spec fn tr_id() -> Self { mkmo(Complex::<T>::one_spec(), Complex::<T>::zero_spec(), Complex::<T>::zero_spec(), Complex::<T>::one_spec()) }
    open spec fn tr_inv(self) -> Self { mo_inv(self) }
    open spec fn tr_apply(&self, pos: Complex<T>) -> Complex<T> { mo_apply(*self, pos) }
    open spec fn tr_deriv(&self, pos: Complex<T>, dir: Complex<T>) -> Complex<T> { c_mul(mo_deriv(*self, pos), dir) }
    open spec fn tr_chain(self, other: Self) -> Self { mo_chain(self, other) }
### impl Transform<Quaternion<T>> for Moebius<Complex<T>>
ghost     open spec fn tr_req() -> bool { tot_field::<T>() && tot_neg::<T>() && T::cast_of(2.0f64) is Some }
    open spec fn tr_id() -> Self { mkmo(Complex::<T>::one_spec(), Complex::<T>::zero_spec(), Complex::<T>::zero_spec(), Complex::<T>::one_spec()) }
    open spec fn tr_inv(self) -> Self { mo_inv(self) }
    open spec fn tr_apply(&self, pos: Quaternion<T>) -> Quaternion<T> { mo_apply(*self, pos) }
    open spec fn tr_deriv(&self, pos: Quaternion<T>, dir: Quaternion<T>) -> Quaternion<T> { mo_qderiv(*self, pos, dir, T::cast_of(2.0f64)->0) }
    open spec fn tr_chain(self, other: Self) -> Self { mo_chain(self, other) }
### for P in Complex<T>,Quaternion<T>: <Moebius<Complex<T>> as Transform<$P>>::identity ;; <Moebius<Complex<T>> as Transform<$P>>::inv ;; <Moebius<Complex<T>> as Transform<$P>>::apply ;; <Moebius<Complex<T>> as Transform<$P>>::chain
props C20 C23
### for P in Complex<T>,Quaternion<T>: <Moebius<Complex<T>> as Transform<$P>>::deriv
props C21
### for P in Complex<T>,Quaternion<T>: impl Directional<$P> for Moebius<Complex<T>>
ghost     open spec fn dir_req() -> bool { <Self as Transform<$P>>::tr_req() && forall|v: $P| #[trigger] <$P as Normalize>::normalize_req(v) }
    open spec fn dir_ens(&self, pos: $P, dir: $P, r: $P) -> bool { call_ensures(<$P as Normalize>::normalize, (<Self as Transform<$P>>::tr_deriv(self, pos, dir),), r) }
    open spec fn nrm_ens(&self, pos: $P, normal: $P, r: $P) -> bool { call_ensures(<$P as Normalize>::normalize, (<Self as Transform<$P>>::tr_deriv(self, pos, normal),), r) }
### for P in Complex<T>,Quaternion<T>: <Moebius<Complex<T>> as Directional<$P>>::apply_dir ;; <Moebius<Complex<T>> as Directional<$P>>::apply_normal
props C21
