// approximate comparison (feature "approx")
### verbatim
// ---------- trusted: the trait of the approx crate, and what its macro expands to
pub trait AbsDiffEq<Rhs = Self>: Sized {
    type Epsilon;
    // the comparison is a function of its operands
    spec fn obeys_ade() -> bool;
    spec fn ade(&self, other: &Rhs, epsilon: Self::Epsilon) -> bool;
    spec fn obeys_eps() -> bool;
    spec fn eps_spec() -> Self::Epsilon;
    fn default_epsilon() -> (r: Self::Epsilon) ensures Self::obeys_eps() ==> r == Self::eps_spec();
    fn abs_diff_eq(&self, other: &Rhs, epsilon: Self::Epsilon) -> (r: bool) ensures Self::obeys_ade() ==> r == self.ade(other, epsilon);
}
pub fn vx_abs_diff_eq<A: AbsDiffEq<B>, B>(x: &A, y: &B, e: A::Epsilon) -> (r: bool) ensures A::obeys_ade() ==> r == x.ade(y, e) { A::abs_diff_eq(x, y, e) }
pub open spec fn seq_ade<T: AbsDiffEq<Epsilon = T>>(a: Seq<T>, b: Seq<T>, e: T) -> bool { forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i].ade(&b[i], e) }
### for T in Vector<T§N>,Matrix<T§M§N>,Complex<T>,Quaternion<T>,Moebius<T>,Linear<T§N>,Scale<T>,Shift<T§N>,Rotation2<T>,Rotation3<T>: <$T as AbsDiffEq>::default_epsilon
props C24
### <Chain<A,B,T> as AbsDiffEq>::default_epsilon
props C24
### impl AbsDiffEq for Vector<T,N>
ghost     open spec fn obeys_ade() -> bool { T::obeys_ade() }
    open spec fn ade(&self, other: &Self, epsilon: T) -> bool { seq_ade(self@, other@, epsilon) }
    open spec fn obeys_eps() -> bool { T::obeys_eps() }
    open spec fn eps_spec() -> T { T::eps_spec() }
### <Vector<T,N> as AbsDiffEq>::abs_diff_eq
props C24
closure 0
cret bool
creq true
cens T::obeys_ade() ==> vx_r == x.ade(&y, epsilon)
postr proof { if vx_res && T::obeys_ade() { assert forall|i: int| 0 <= i < N implies #[trigger] self@[i].ade(&$1@[i], $2) by { assert(vx_at(i)); } } }
### impl AbsDiffEq for Matrix<T,M,N>
ghost     open spec fn obeys_ade() -> bool { T::obeys_ade() }
    open spec fn ade(&self, other: &Self, epsilon: T) -> bool { forall|i: int| 0 <= i < M ==> #[trigger] seq_ade(self.data@[i]@, other.data@[i]@, epsilon) }
    open spec fn obeys_eps() -> bool { T::obeys_eps() }
    open spec fn eps_spec() -> T { T::eps_spec() }
### <Matrix<T,M,N> as AbsDiffEq>::abs_diff_eq
props C24
closure 0
cret bool
creq true
cens T::obeys_ade() ==> vx_r == x.ade(&y, epsilon)
postr proof { if vx_res && T::obeys_ade() { assert forall|i: int, j: int| 0 <= i < M && 0 <= j < N implies #[trigger] self.data@[i]@[j].ade(&$1.data@[i]@[j], $2) by { assert(vx_at2(i, j)); } } assert forall|i: int, j: int| 0 <= i < M && 0 <= j < N && self.ade($1, $2) implies #[trigger] self.data@[i]@[j].ade(&$1.data@[i]@[j], $2) by { assert(seq_ade(self.data@[i]@, $1.data@[i]@, $2)); } }
### for T,F in Complex<T>/vec,Quaternion<T>/vec,Moebius<T>/mat,Linear<T§N>/lin,Scale<T>/mag,Shift<T§N>/pos,Rotation2<T>/comp,Rotation3<T>/quat: impl AbsDiffEq for $T
ghost     open spec fn obeys_ade() -> bool { T::obeys_ade() }
    open spec fn ade(&self, other: &Self, epsilon: T) -> bool { self.$F.ade(&other.$F, epsilon) }
    open spec fn obeys_eps() -> bool { T::obeys_eps() }
    open spec fn eps_spec() -> T { T::eps_spec() }
### for T in Complex<T>,Quaternion<T>,Moebius<T>,Linear<T§N>,Scale<T>,Shift<T§N>,Rotation2<T>,Rotation3<T>: <$T as AbsDiffEq>::abs_diff_eq
props C24
### impl AbsDiffEq for Chain<A,B,T>
ghost     open spec fn obeys_ade() -> bool { A::obeys_ade() && B::obeys_ade() }
    open spec fn ade(&self, other: &Self, epsilon: T) -> bool { self.outer.ade(&other.outer, epsilon) && self.inner.ade(&other.inner, epsilon) }
    open spec fn obeys_eps() -> bool { T::obeys_eps() }
    open spec fn eps_spec() -> T { T::eps_spec() }
### <Chain<A,B,T> as AbsDiffEq>::abs_diff_eq
props C24
