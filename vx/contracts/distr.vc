// random distributions (feature "rand"). The generator is a source of arbitrary draws: the contracts say which
// values a distribution may deliver, whatever the generator does (the order and freshness of draws is decided
// by the bounded layer only).
### verbatim
// ---------- trusted: rand's traits, as declared there but with a shared reference to the generator
pub trait Rng { }
pub trait Distribution<T> {
    // what has to hold of the element operations
    spec fn smp_req(&self) -> bool;
    // x may be delivered
    spec fn smp(&self, x: T) -> bool;
    fn sample<R: Rng + ?Sized>(&self, rng: &R) -> (r: T) requires self.smp_req() ensures self.smp(r);
}
pub trait RngSample { fn sample<T, D: Distribution<T>>(&self, d: D) -> (r: T) requires d.smp_req() ensures d.smp(r); }
impl<R: Rng + ?Sized> RngSample for R { fn sample<T, D: Distribution<T>>(&self, d: D) -> (r: T) { d.sample(self) } }
impl<'a, T, D: Distribution<T>> Distribution<T> for &'a D {
    open spec fn smp_req(&self) -> bool { (**self).smp_req() }
    open spec fn smp(&self, x: T) -> bool { (**self).smp(x) }
    fn sample<R: Rng + ?Sized>(&self, rng: &R) -> (r: T) { (**self).sample(rng) }
}
pub trait SampleUniform: Sized { }
impl SampleUniform for f32 { }
impl SampleUniform for f64 { }
// a half-open range; what it delivers is not specified further
pub struct RangedUniform<X> { pub low: X, pub high: X }
pub trait SampleBorrow<B> { spec fn b(&self) -> B; fn get(self) -> (r: B) where Self: Sized ensures r == self.b(); }
impl<B: SampleUniform> SampleBorrow<B> for B { open spec fn b(&self) -> B { *self } fn get(self) -> (r: B) { self } }
impl<'a, B: SampleUniform> SampleBorrow<B> for &'a B { open spec fn b(&self) -> B { **self } #[verifier::external_body] fn get(self) -> (r: B) { unimplemented!() } }
impl<X: SampleUniform> RangedUniform<X> { pub fn new<B1: SampleBorrow<X> + Sized, B2: SampleBorrow<X> + Sized>(low: B1, high: B2) -> (r: Self) ensures r.low == low.b(), r.high == high.b() { RangedUniform { low: low.get(), high: high.get() } } }
pub uninterp spec fn in_range<X>(low: X, high: X, x: X) -> bool;
impl<X: SampleUniform> Distribution<X> for RangedUniform<X> {
    open spec fn smp_req(&self) -> bool { true }
    open spec fn smp(&self, x: X) -> bool { in_range(self.low, self.high, x) }
    #[verifier::external_body] fn sample<R: Rng + ?Sized>(&self, rng: &R) -> (r: X) { unimplemented!() }
}
### for T in f32,f64: verbatim
impl FloatConst for $T { uninterp spec fn pi_spec() -> Self; #[verifier::external_body] fn PI() -> (r: Self) { unimplemented!() } }
// inherent functions of the float types: the results of num_traits' functions of the same name
pub assume_specification[ $T::cos ](x: $T) -> (r: $T) ensures x.cos_r(r);
pub assume_specification[ $T::sin ](x: $T) -> (r: $T) ensures x.sin_r(r);
pub assume_specification[ $T::sqrt ](x: $T) -> (r: $T) ensures x.sqrt_r(r);
pub assume_specification[ $T::ln ](x: $T) -> (r: $T) ensures x.ln_r(r);
// Box-Muller
pub open spec fn bm_$T(u: $T, phi: $T, x: $T) -> bool {
    exists|d: $T, l: $T, m: $T, s: $T, c: $T| #[trigger] d.ln_r(l) && #[trigger] m.sqrt_r(s) && #[trigger] phi.cos_r(c) && d == sp_sub(1.0$T, u) && m == sp_mul(l, (-2.0$T)) && x == sp_mul(s, c)
}
### for T in f32,f64: impl Distribution<$T> for Normal
ghost     open spec fn smp_req(&self) -> bool { tot_sub::<$T, $T>() && tot_mul::<$T, $T>() }
    open spec fn smp(&self, x: $T) -> bool { exists|u: $T, phi: $T| #[trigger] in_range(0.0$T, 1.0$T, u) && #[trigger] in_range(0.0$T, $T::pi_spec(), phi) && bm_$T(u, phi, x) }
### for T in f32,f64: <Normal as Distribution<$T>>::sample
props C25
### VectorDistribution<D,T,N>::new
props C25
ens r.inner == inner
### impl Distribution<Vector<T,N>> for VectorDistribution<D,T,N>
ghost     open spec fn smp_req(&self) -> bool { self.inner.smp_req() }
    open spec fn smp(&self, x: Vector<T, N>) -> bool { forall|i: int| 0 <= i < N ==> self.inner.smp(#[trigger] x@[i]) }
### <VectorDistribution<D,T,N> as Distribution<Vector<T,N>>>::sample
props C25
closure 0
cret T
creq self.inner.smp_req()
cens self.inner.smp(vx_r)
### impl Distribution<Vector<T,N>> for Normal
ghost     open spec fn smp_req(&self) -> bool { <Normal as Distribution<T>>::smp_req(self) }
    open spec fn smp(&self, x: Vector<T, N>) -> bool { forall|i: int| 0 <= i < N ==> <Normal as Distribution<T>>::smp(self, #[trigger] x@[i]) }
### <Normal as Distribution<Vector<T,N>>>::sample
props C25
### verbatim
pub open spec fn above_eps<T: Float, const N: usize>(x: Vector<T, N>) -> bool { exists|l: T, e: T| #[trigger] T::sqrt_r(vdot(x@, x@), l) && #[trigger] T::epsilon_r(e) && sp_gt(l, e) }
pub open spec fn normalized<T: Float, const N: usize>(y: Vector<T, N>, x: Vector<T, N>) -> bool { exists|l: T| #[trigger] T::sqrt_r(vdot(y@, y@), l) && x == v_divs(y, l) }
### impl Distribution<Vector<T,N>> for NonZero
ghost     open spec fn smp_req(&self) -> bool { <Normal as Distribution<Vector<T, N>>>::smp_req(&Normal) && N >= 1 && tot_vec::<T>() && T::obeys_partial_cmp_spec() }
    open spec fn smp(&self, x: Vector<T, N>) -> bool { <Normal as Distribution<Vector<T, N>>>::smp(&Normal, x) && above_eps(x) }
### <NonZero as Distribution<Vector<T,N>>>::sample
props C25
attr #[verifier::exec_allows_no_decreases_clause]
loop 0
inv <NonZero as Distribution<Vector<T, N>>>::smp_req(self)
### impl Distribution<Vector<T,N>> for Unit
ghost     open spec fn smp_req(&self) -> bool { <NonZero as Distribution<Vector<T, N>>>::smp_req(&NonZero) && N >= 1 && tot_vec::<T>() && tot_div::<T, T>() }
    open spec fn smp(&self, x: Vector<T, N>) -> bool { exists|y: Vector<T, N>| #[trigger] <NonZero as Distribution<Vector<T, N>>>::smp(&NonZero, y) && normalized(y, x) }
### <Unit as Distribution<Vector<T,N>>>::sample
props C25
### MatrixDistribution<D,T,M,N>::new
props C25
ens r.inner == inner
### impl Distribution<Matrix<T,M,N>> for MatrixDistribution<D,T,M,N>
ghost     open spec fn smp_req(&self) -> bool { self.inner.smp_req() }
    open spec fn smp(&self, x: Matrix<T, M, N>) -> bool { forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> self.inner.smp(#[trigger] x.data@[i]@[j]) }
### <MatrixDistribution<D,T,M,N> as Distribution<Matrix<T,M,N>>>::sample
props C25
closure 0
cret T
creq self.inner.smp_req()
cens self.inner.smp(vx_r)
### impl Distribution<Matrix<T,M,N>> for Normal
ghost     open spec fn smp_req(&self) -> bool { <Normal as Distribution<T>>::smp_req(self) }
    open spec fn smp(&self, x: Matrix<T, M, N>) -> bool { forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> <Normal as Distribution<T>>::smp(self, #[trigger] x.data@[i]@[j]) }
### <Normal as Distribution<Matrix<T,M,N>>>::sample
props C25
### verbatim
pub open spec fn det_above<T: Neg<Output = T> + Num + NormL1, const N: usize>(x: Matrix<T, N, N>) -> bool where <T as NormL1>::Output: Epsilon { exists|d: T, n: <T as NormL1>::Output| d == det_spec(x) && #[trigger] d.norm_l1_r(n) && n.is_eps_r(false) }
### impl Distribution<Matrix<T,N,N>> for Invertible
ghost     open spec fn smp_req(&self) -> bool { <Normal as Distribution<Matrix<T, N, N>>>::smp_req(&Normal) && tot_field::<T>() && tot_neg::<T>() && N <= usize::MAX / 2 && forall|d: T| #[trigger] d.norm_l1_req() }
    open spec fn smp(&self, x: Matrix<T, N, N>) -> bool { <Normal as Distribution<Matrix<T, N, N>>>::smp(&Normal, x) && det_above(x) }
### <Invertible as Distribution<Matrix<T,N,N>>>::sample
props C25
attr #[verifier::exec_allows_no_decreases_clause]
loop 0
inv <Invertible as Distribution<Matrix<T, N, N>>>::smp_req(self)
### for D,C,V in Normal/Complex/2,NonZero/Complex/2,Unit/Complex/2,Normal/Quaternion/4,NonZero/Quaternion/4,Unit/Quaternion/4: impl Distribution<$C<T>> for $D
ghost     open spec fn smp_req(&self) -> bool { <$D as Distribution<Vector<T, $V>>>::smp_req(self) }
    open spec fn smp(&self, x: $C<T>) -> bool { <$D as Distribution<Vector<T, $V>>>::smp(self, x.vec) }
### for D,C in Normal/Complex,NonZero/Complex,Unit/Complex,Normal/Quaternion,NonZero/Quaternion,Unit/Quaternion: <$D as Distribution<$C<T>>>::sample
props C25
### impl Distribution<Moebius<T>> for Invertible
ghost     open spec fn smp_req(&self) -> bool { <Invertible as Distribution<Matrix<T, 2, 2>>>::smp_req(self) }
    open spec fn smp(&self, x: Moebius<T>) -> bool { <Invertible as Distribution<Matrix<T, 2, 2>>>::smp(self, x.mat) }
### <Invertible as Distribution<Moebius<T>>>::sample
props C25
### for D in Normal,Invertible: impl Distribution<Linear<T,N>> for $D
ghost     open spec fn smp_req(&self) -> bool { <$D as Distribution<Matrix<T, N, N>>>::smp_req(self) }
    open spec fn smp(&self, x: Linear<T, N>) -> bool { <$D as Distribution<Matrix<T, N, N>>>::smp(self, x.lin) }
### for D in Normal,Invertible: <$D as Distribution<Linear<T,N>>>::sample
props C25
### for D,S,F in Normal/Shift<T§N>/pos: impl Distribution<$S> for $D
ghost     open spec fn smp_req(&self) -> bool { <$D as Distribution<Vector<T, N>>>::smp_req(self) }
    open spec fn smp(&self, x: $S) -> bool { <$D as Distribution<Vector<T, N>>>::smp(self, x.$F) }
### for D,S in Normal/Shift<T§N>: <$D as Distribution<$S>>::sample
props C25
### for D in Normal: impl Distribution<Scale<T>> for $D
ghost     open spec fn smp_req(&self) -> bool { <$D as Distribution<T>>::smp_req(self) }
    open spec fn smp(&self, x: Scale<T>) -> bool { <$D as Distribution<T>>::smp(self, x.mag) }
### for D in Normal: <$D as Distribution<Scale<T>>>::sample
props C25
### for D in Normal,Invertible: impl Distribution<Affine<T,N>> for $D
ghost     open spec fn smp_req(&self) -> bool { <$D as Distribution<Linear<T, N>>>::smp_req(self) && <Normal as Distribution<Shift<T, N>>>::smp_req(&Normal) }
    open spec fn smp(&self, x: Affine<T, N>) -> bool { <$D as Distribution<Linear<T, N>>>::smp(self, x.inner) && <Normal as Distribution<Shift<T, N>>>::smp(&Normal, x.outer) }
### for D in Normal,Invertible: <$D as Distribution<Affine<T,N>>>::sample
props C25
### verbatim
// a full turn
pub open spec fn turn<T: Float + FloatConst>() -> RangedUniform<T> { RangedUniform { low: T::zero_spec(), high: sp_mul(T::cast_of(2.0f64)->0, T::pi_spec()) } }
### impl Distribution<Rotation2<T>> for Uniform
ghost     open spec fn smp_req(&self) -> bool { tot_float::<T>() && turn::<T>().smp_req() }
    open spec fn smp(&self, x: Rotation2<T>) -> bool { exists|a: T, c: T, s: T| turn::<T>().smp(a) && #[trigger] T::cos_r(a, c) && #[trigger] T::sin_r(a, s) && x.comp == mkc(c, s) }
### <Uniform as Distribution<Rotation2<T>>>::sample
props C25
### impl Distribution<Rotation3<T>> for Uniform
ghost     open spec fn smp_req(&self) -> bool { tot_float::<T>() && turn::<T>().smp_req() && <Unit as Distribution<Vector<T, 3>>>::smp_req(&Unit) }
    open spec fn smp(&self, x: Rotation3<T>) -> bool { exists|ax: Vector<T, 3>, a: T| turn::<T>().smp(a) && <Unit as Distribution<Vector<T, 3>>>::smp(&Unit, ax) && #[trigger] q_axang(ax, a, x.quat) }
### <Uniform as Distribution<Rotation3<T>>>::sample
props C25
