### verbatim
// trusted: num_complex::Complex, its functions as uninterpreted functions of their arguments
#[derive(Clone, Copy)]
pub struct NumComplex<T> { pub re: T, pub im: T }
impl<T: Num> vstd::std_specs::ops::RemSpecImpl<NumComplex<T>> for NumComplex<T> {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, b: NumComplex<T>) -> bool { true }
    open spec fn rem_spec(self, b: NumComplex<T>) -> NumComplex<T> { nc_rem(self, b) }
}
impl<T: Num> Rem for NumComplex<T> { type Output = NumComplex<T>; #[verifier::external_body] fn rem(self, b: NumComplex<T>) -> NumComplex<T> { unimplemented!() } }
pub uninterp spec fn nc_rem<T>(a: NumComplex<T>, b: NumComplex<T>) -> NumComplex<T>;
pub uninterp spec fn nc_powu<T>(a: NumComplex<T>, b: u32) -> NumComplex<T>;
pub uninterp spec fn nc_powi<T>(a: NumComplex<T>, b: i32) -> NumComplex<T>;
impl<T: Num + Copy> NumComplex<T> {
    #[verifier::external_body] pub fn powu(&self, exp: u32) -> (r: Self) ensures r == nc_powu(*self, exp) { unimplemented!() }
    #[verifier::external_body] pub fn powi(&self, exp: i32) -> (r: Self) ensures r == nc_powi(*self, exp) { unimplemented!() }
}
pub struct ParseComplexError<E> { pub e: E }
// a complex number is its two components
pub open spec fn cre<T>(z: Complex<T>) -> T { z.vec@[0] }
pub open spec fn cim<T>(z: Complex<T>) -> T { z.vec@[1] }
pub open spec fn mkc<T>(re: T, im: T) -> Complex<T> { Complex { vec: mkv2(re, im) } }
pub broadcast proof fn mkc_ax<T>(re: T, im: T) ensures cre(#[trigger] mkc(re, im)) == re, cim(mkc(re, im)) == im {}
pub proof fn c_ext<T>(a: Complex<T>, b: Complex<T>) requires cre(a) == cre(b), cim(a) == cim(b) ensures a == b { assert(a.vec.data =~= b.vec.data); }
pub open spec fn nc<T>(z: Complex<T>) -> NumComplex<T> { NumComplex { re: cre(z), im: cim(z) } }
pub open spec fn unc<T>(n: NumComplex<T>) -> Complex<T> { mkc(n.re, n.im) }
pub broadcast group cx_group { mkc_ax }
### for f in exp,ln,sqrt,cbrt,sin,cos,tan,asin,acos,atan,sinh,cosh,tanh,asinh,acosh,atanh,finv: verbatim
pub uninterp spec fn nc_$f<T>(a: NumComplex<T>) -> NumComplex<T>;
impl<T: Float> NumComplex<T> { #[verifier::external_body] pub fn $f(self) -> (r: Self) ensures r == nc_$f(self) { unimplemented!() } }
### for f,A in powf/T,log/T,expf/T,powc/NumComplex<T>,fdiv/NumComplex<T>: verbatim
pub uninterp spec fn nc_$f<T>(a: NumComplex<T>, b: $A) -> NumComplex<T>;
impl<T: Float> NumComplex<T> { #[verifier::external_body] pub fn $f(self, b: $A) -> (r: Self) ensures r == nc_$f(self, b) { unimplemented!() } }
// ------------------------------------------------ construction and access
### Complex<T>::new
props C18
ens r == mkc($1, $2)
postr proof { c_ext(vx_res, mkc($1, $2)); }
### Complex<T>::from_vector ;; <Complex<T> as From<Vector2<T>>>::from
props C18
ens r.vec == $1
### Complex<T>::from_array ;; <Complex<T> as From<[T;2]>>::from
props C18
ens r.vec.data == $1
### Complex<T>::from_tuple ;; <Complex<T> as From<(T,T)>>::from
props C18
ens r == mkc($1.0, $1.1)
postr proof { c_ext(vx_res, mkc($1.0, $1.1)); }
### Complex<T>::from_num ;; <Complex<T> as From<NumComplex<T>>>::from
props C18
ens r == unc($1)
### Complex<T>::into_vector
props C18
ens r == self.vec
### Complex<T>::into_array
props C18
ens r == self.vec.data
### Complex<T>::into_tuple
props C18
ens r == (cre(self), cim(self))
### Complex<T>::into_num
props C18
ens r == nc(self)
### <Vector2<T> as From<Complex<T>>>::from
props C18
ens r == $1.vec
### <[T;2] as From<Complex<T>>>::from
props C18
ens r == $1.vec.data
### <(T,T) as From<Complex<T>>>::from
props C18
ens r == (cre($1), cim($1))
### <NumComplex<T> as From<Complex<T>>>::from
props C18
ens r == nc($1)
### for A,s in Vector<T§2>/Complex{vec:a},[T;2]/Complex{vec:Vector{data:a}},(T§T)/mkc(a.0§ a.1),NumComplex<T>/unc(a): verbatim
impl<T> vstd::std_specs::convert::FromSpecImpl<$A> for Complex<T> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: $A) -> Self { $s }
}
### for A,s in Vector<T§2>/a.vec,[T;2]/a.vec.data,(T§T)/(cre(a)§ cim(a)),NumComplex<T>/nc(a): verbatim
impl<T> vstd::std_specs::convert::FromSpecImpl<Complex<T>> for $A {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: Complex<T>) -> Self { $s }
}
### Complex<T>::re
props C18
ens r == cre(*self)
### Complex<T>::im
props C18
ens r == cim(*self)
### Complex<T>::re_ref
props C18
ens *r == cre(*self)
### Complex<T>::im_ref
props C18
ens *r == cim(*self)
### Complex<T>::re_mut
props C18
ens *r == cre(*old(self))
ens cre(*final(self)) == *final(r)
ens cim(*final(self)) == cim(*old(self))
### Complex<T>::im_mut
props C18
ens *r == cim(*old(self))
ens cim(*final(self)) == *final(r)
ens cre(*final(self)) == cre(*old(self))
// ------------------------------------------------ operators
### for Op,f in Add/add,Sub/sub: verbatim
impl<T: $Op<Output = T>> vstd::std_specs::ops::$OpSpecImpl<Complex<T>> for Complex<T> {
    open spec fn obeys_$f_spec() -> bool { T::obeys_$f_spec() }
    open spec fn $f_req(self, b: Complex<T>) -> bool { rq_$f(cre(self), cre(b)) && rq_$f(cim(self), cim(b)) }
    open spec fn $f_spec(self, b: Complex<T>) -> Complex<T> { mkc(sp_$f(cre(self), cre(b)), sp_$f(cim(self), cim(b))) }
}
impl<T: $OpAssign> vstd::std_specs::ops::$OpAssignSpecImpl<Complex<T>> for Complex<T> {
    open spec fn obeys_$f_assign_spec() -> bool { T::obeys_$f_assign_spec() }
    open spec fn $f_assign_req(&self, b: Complex<T>) -> bool { cre(*self).$f_assign_req(cre(b)) && cim(*self).$f_assign_req(cim(b)) }
    open spec fn $f_assign_spec(&self, b: Complex<T>) -> &Complex<T> { &mkc(*cre(*self).$f_assign_spec(cre(b)), *cim(*self).$f_assign_spec(cim(b))) }
}
impl<T: $Op<Output = T>> vstd::std_specs::ops::$OpSpecImpl<T> for Complex<T> {
    open spec fn obeys_$f_spec() -> bool { T::obeys_$f_spec() }
    open spec fn $f_req(self, b: T) -> bool { rq_$f(cre(self), b) }
    open spec fn $f_spec(self, b: T) -> Complex<T> { mkc(sp_$f(cre(self), b), cim(self)) }
}
impl<T: $OpAssign> vstd::std_specs::ops::$OpAssignSpecImpl<T> for Complex<T> {
    open spec fn obeys_$f_assign_spec() -> bool { T::obeys_$f_assign_spec() }
    open spec fn $f_assign_req(&self, b: T) -> bool { cre(*self).$f_assign_req(b) }
    open spec fn $f_assign_spec(&self, b: T) -> &Complex<T> { &mkc(*cre(*self).$f_assign_spec(b), cim(*self)) }
}
### for Op,f in Add/add,Sub/sub: <Complex<T> as $Op>::$f
props C18
postr proof { if T::obeys_$f_spec() { c_ext(vx_res, mkc(sp_$f(cre(self), cre($1)), sp_$f(cim(self), cim($1)))); } }
### for Op,f in Add/add,Sub/sub: <Complex<T> as $Op<T>>::$f
props C18
### for Op,f in AddAssign/add_assign,SubAssign/sub_assign: <Complex<T> as $Op>::$f
props C18
pre let ghost s0 = *self; let ghost b0 = $1;
post proof { if T::obeys_$f_spec() { c_ext(*self, mkc(*cre(s0).$f_spec(cre(b0)), *cim(s0).$f_spec(cim(b0)))); } }
### for Op,f in AddAssign/add_assign,SubAssign/sub_assign: <Complex<T> as $Op<T>>::$f
props C18
pre let ghost s0 = *self; let ghost b0 = $1;
post proof { if T::obeys_$f_spec() { c_ext(*self, mkc(*cre(s0).$f_spec(b0), cim(s0))); } }
### verbatim
impl<T: Neg<Output = T>> vstd::std_specs::ops::NegSpecImpl for Complex<T> {
    open spec fn obeys_neg_spec() -> bool { T::obeys_neg_spec() }
    open spec fn neg_req(self) -> bool { rq_neg(cre(self)) && rq_neg(cim(self)) }
    open spec fn neg_spec(self) -> Complex<T> { mkc(sp_neg(cre(self)), sp_neg(cim(self))) }
}
### <Complex<T> as Neg>::neg
props C18
postr proof { if T::obeys_neg_spec() { c_ext(vx_res, mkc(sp_neg(cre(self)), sp_neg(cim(self)))); } }
### verbatim
// equality is derived: component by component
impl<T: PartialEq> vstd::std_specs::cmp::PartialEqSpecImpl for Complex<T> {
    open spec fn obeys_eq_spec() -> bool { T::obeys_eq_spec() }
    open spec fn eq_spec(&self, o: &Complex<T>) -> bool { cre(*self).eq_spec(&cre(*o)) && cim(*self).eq_spec(&cim(*o)) }
}
impl<T: PartialEq> PartialEq for Complex<T> { #[verifier::external_body] fn eq(&self, o: &Complex<T>) -> bool { unimplemented!() } }
// ------------------------------------------------ field operations
pub open spec fn c_mul<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T>>(a: Complex<T>, b: Complex<T>) -> Complex<T> {
    mkc(sp_sub(sp_mul(cre(a), cre(b)), sp_mul(cim(a), cim(b))), sp_add(sp_mul(cre(a), cim(b)), sp_mul(cim(a), cre(b))))
}
pub open spec fn c_nsq<T: Add<Output = T> + Mul<Output = T>>(a: Complex<T>) -> T { sp_add(sp_mul(cre(a), cre(a)), sp_mul(cim(a), cim(a))) }
pub proof fn vdot2<T: Add<Output = T> + Mul<Output = T>>(a: Seq<T>, b: Seq<T>)
    requires a.len() == 2, b.len() == 2,
    ensures vdot(a, b) == sp_add(sp_mul(a[0], b[0]), sp_mul(a[1], b[1])),
{ let p = Seq::new(a.len(), |i: int| sp_mul(a[i], b[i])); let t = p.subrange(1, 2); reveal_with_fuel(vfold, 3); assert(t.drop_last().len() == 0); assert(t.last() == p[1]); }
pub open spec fn c_conj<T: Neg<Output = T>>(a: Complex<T>) -> Complex<T> { mkc(cre(a), sp_neg(cim(a))) }
pub open spec fn c_divs<T: Div<Output = T>>(a: Complex<T>, b: T) -> Complex<T> { mkc(sp_div(cre(a), b), sp_div(cim(a), b)) }
pub open spec fn c_inv<T: Neg<Output = T> + Num>(a: Complex<T>) -> Complex<T> { c_divs(c_conj(a), c_nsq(a)) }
impl<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Copy> vstd::std_specs::ops::MulSpecImpl<Complex<T>> for Complex<T> {
    open spec fn obeys_mul_spec() -> bool { tot_ring::<T>() }
    open spec fn mul_req(self, b: Complex<T>) -> bool { tot_ring::<T>() }
    open spec fn mul_spec(self, b: Complex<T>) -> Complex<T> { c_mul(self, b) }
}
impl<T: Mul<Output = T> + Copy> vstd::std_specs::ops::MulSpecImpl<T> for Complex<T> {
    open spec fn obeys_mul_spec() -> bool { T::obeys_mul_spec() }
    open spec fn mul_req(self, b: T) -> bool { rq_mul(cre(self), b) && rq_mul(cim(self), b) }
    open spec fn mul_spec(self, b: T) -> Complex<T> { mkc(sp_mul(cre(self), b), sp_mul(cim(self), b)) }
}
impl<T: Div<Output = T> + Copy> vstd::std_specs::ops::DivSpecImpl<T> for Complex<T> {
    open spec fn obeys_div_spec() -> bool { T::obeys_div_spec() }
    open spec fn div_req(self, b: T) -> bool { rq_div(cre(self), b) && rq_div(cim(self), b) }
    open spec fn div_spec(self, b: T) -> Complex<T> { c_divs(self, b) }
}
impl<T: Neg<Output = T> + Num + Copy> vstd::std_specs::ops::DivSpecImpl<Complex<T>> for Complex<T> {
    open spec fn obeys_div_spec() -> bool { tot_field::<T>() && tot_neg::<T>() }
    open spec fn div_req(self, b: Complex<T>) -> bool { tot_field::<T>() && tot_neg::<T>() }
    open spec fn div_spec(self, b: Complex<T>) -> Complex<T> { c_mul(self, c_inv(b)) }
}
impl<T: Neg<Output = T> + Num + Copy> vstd::std_specs::ops::RemSpecImpl<Complex<T>> for Complex<T> {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, b: Complex<T>) -> bool { true }
    open spec fn rem_spec(self, b: Complex<T>) -> Complex<T> { unc(nc_rem(nc(self), nc(b))) }
}
### for Op,f in Mul/mul,Div/div: verbatim
impl<T> vstd::std_specs::ops::$OpAssignSpecImpl<Complex<T>> for Complex<T> where Complex<T>: $Op<Output = Complex<T>> + Copy {
    open spec fn obeys_$f_assign_spec() -> bool { <Complex<T> as vstd::std_specs::ops::$OpSpec<Complex<T>>>::obeys_$f_spec() }
    open spec fn $f_assign_req(&self, b: Complex<T>) -> bool { rq_$f(*self, b) }
    open spec fn $f_assign_spec(&self, b: Complex<T>) -> &Complex<T> { &sp_$f(*self, b) }
}
impl<T> vstd::std_specs::ops::$OpAssignSpecImpl<T> for Complex<T> where Complex<T>: $Op<T, Output = Complex<T>> + Copy {
    open spec fn obeys_$f_assign_spec() -> bool { <Complex<T> as vstd::std_specs::ops::$OpSpec<T>>::obeys_$f_spec() }
    open spec fn $f_assign_req(&self, b: T) -> bool { rq_$f(*self, b) }
    open spec fn $f_assign_spec(&self, b: T) -> &Complex<T> { &sp_$f(*self, b) }
}
### for Op,f in MulAssign/mul_assign,DivAssign/div_assign: <Complex<T> as $Op>::$f ;; <Complex<T> as $Op<T>>::$f
props C18
### <Complex<T> as Mul>::mul ;; <Complex<T> as Div>::div
props C18
### <Complex<T> as Rem>::rem
props C18
### <Complex<T> as Mul<T>>::mul
props C18
postr proof { if T::obeys_mul_spec() { c_ext(vx_res, mkc(sp_mul(cre(self), $1), sp_mul(cim(self), $1))); } }
### <Complex<T> as Div<T>>::div
props C18
postr proof { if T::obeys_div_spec() { c_ext(vx_res, c_divs(self, $1)); } }
### Complex<T>::conj
props C18
req rq_neg(cim(self))
ens T::obeys_neg_spec() ==> r == c_conj(self)
### impl Conj for Complex<T>
ghost     open spec fn conj_req(self) -> bool { rq_neg(cim(self)) }
### <Complex<T> as Conj>::conj
props C18
ens T::obeys_neg_spec() ==> r == c_conj(self)
### Complex<T>::into_matrix
props C18
req rq_neg(cim(self))
ens T::obeys_neg_spec() ==> r.data@[0]@[0] == cre(self) && r.data@[0]@[1] == sp_neg(cim(self)) && r.data@[1]@[0] == cim(self) && r.data@[1]@[1] == cre(self)
### Complex<T>::norm_sqr
props C18
req tot_vec::<T>()
ens r == c_nsq(self)
postr proof { vdot2(self.vec@, self.vec@); }
### Complex<T>::norm
props C18
req tot_vec::<T>()
ens T::sqrt_r(c_nsq(self), r)
pre proof { vdot2(self.vec@, self.vec@); }
### Complex<T>::arg
props C18
ens T::atan2_r(cim(self), cre(self), r)
### Complex<T>::to_polar
props C18
req tot_vec::<T>()
ens T::sqrt_r(c_nsq(self), r.0)
ens T::atan2_r(cim(self), cre(self), r.1)
### Complex<T>::from_polar
props C18
ret q
req tot_vec::<T>()
ens exists|c: T, s: T| #[trigger] T::cos_r($2, c) && #[trigger] T::sin_r($2, s) && q == mkc(sp_mul($1, c), sp_mul($1, s))
### impl NormL1 for Complex<T>
ghost     open spec fn norm_l1_req(self) -> bool { self.vec.norm_l1_req() }
    open spec fn norm_l1_r(self, r: T) -> bool { self.vec.norm_l1_r(r) }
### <Complex<T> as NormL1>::norm_l1
props C18
ens call_ensures(Vector::<T, 2>::norm_l1, (self.vec,), r)
### impl NormL2 for Complex<T>
ghost     open spec fn norm_l2_req(self) -> bool { tot_vec::<T>() }
### <Complex<T> as NormL2>::norm_l2
props C18
ens T::sqrt_r(c_nsq(self), r)
### <Complex<T> as NormL2>::norm_l2_sqr
props C18
ens r == c_nsq(self)
### Complex<T>::normalize
props C18
req tot_vec::<T>() && tot_div::<T, T>()
ens exists|n: T| #[trigger] T::sqrt_r(c_nsq(self), n) && r == c_divs(self, n)
### impl Normalize for Complex<T>
ghost     open spec fn normalize_req(self) -> bool { tot_vec::<T>() && tot_div::<T, T>() }
### <Complex<T> as Normalize>::normalize
props C18
ens exists|n: T| #[trigger] T::sqrt_r(c_nsq(self), n) && r == c_divs(self, n)
### Complex<T>::inv
props C18
req tot_field::<T>() && tot_neg::<T>()
ens r == c_inv(self)
### impl Inv for Complex<T>
ghost     open spec fn inv_req(self) -> bool { tot_field::<T>() && tot_neg::<T>() }
    open spec fn obeys_inv() -> bool { true }
    open spec fn inv_of(self) -> Complex<T> { c_inv(self) }
### <Complex<T> as Inv>::inv
props C18
ens r == c_inv(self)
### impl Zero for Complex<T>
ghost     open spec fn obeys_zero() -> bool { T::obeys_zero() }
    open spec fn zero_spec() -> Self { mkc(T::zero_spec(), T::zero_spec()) }
    open spec fn is_zero_spec(&self) -> bool { cre(*self).is_zero_spec() && cim(*self).is_zero_spec() }
### <Complex<T> as Zero>::zero
props C18
ens exists|a: T, b: T| #[trigger] call_ensures(T::zero, (), a) && #[trigger] call_ensures(T::zero, (), b) && r == mkc(a, b)
### <Complex<T> as Zero>::is_zero
props C18
### impl One for Complex<T>
ghost     open spec fn one_req() -> bool { T::one_req() }
    open spec fn obeys_one() -> bool { T::obeys_one() && T::obeys_zero() }
    open spec fn one_spec() -> Self { mkc(T::one_spec(), T::zero_spec()) }
### <Complex<T> as One>::one
props C18
ens exists|a: T, b: T| #[trigger] call_ensures(T::one, (), a) && #[trigger] call_ensures(T::zero, (), b) && r == mkc(a, b)
### Complex<T>::i
props C18
req T::one_req()
ens exists|a: T, b: T| #[trigger] call_ensures(T::zero, (), a) && #[trigger] call_ensures(T::one, (), b) && r == mkc(a, b)
ens T::obeys_one() && T::obeys_zero() ==> r == mkc(T::zero_spec(), T::one_spec())
### impl Dot for Complex<T>
ghost     open spec fn dot_req(self, other: Complex<T>) -> bool { tot_vec::<T>() }
### <Complex<T> as Dot>::dot
props C18
ens r == sp_add(sp_mul(cre(self), cre($1)), sp_mul(cim(self), cim($1)))
postr proof { vdot2(self.vec@, $1.vec@); }
### for T in f32,f64: verbatim
impl vstd::std_specs::ops::AddSpecImpl<Complex<$T>> for $T {
    open spec fn obeys_add_spec() -> bool { <$T as vstd::std_specs::ops::AddSpec>::obeys_add_spec() }
    open spec fn add_req(self, b: Complex<$T>) -> bool { rq_add(cre(b), self) }
    open spec fn add_spec(self, b: Complex<$T>) -> Complex<$T> { mkc(sp_add(cre(b), self), cim(b)) }
}
impl vstd::std_specs::ops::SubSpecImpl<Complex<$T>> for $T {
    open spec fn obeys_sub_spec() -> bool { <$T as vstd::std_specs::ops::AddSpec>::obeys_add_spec() && <$T as vstd::std_specs::ops::NegSpec>::obeys_neg_spec() }
    open spec fn sub_req(self, b: Complex<$T>) -> bool { tot_neg::<$T>() && tot_add::<$T, $T>() }
    open spec fn sub_spec(self, b: Complex<$T>) -> Complex<$T> { mkc(sp_add(sp_neg(cre(b)), self), sp_neg(cim(b))) }
}
impl vstd::std_specs::ops::MulSpecImpl<Complex<$T>> for $T {
    open spec fn obeys_mul_spec() -> bool { <$T as vstd::std_specs::ops::MulSpec>::obeys_mul_spec() }
    open spec fn mul_req(self, b: Complex<$T>) -> bool { rq_mul(cre(b), self) && rq_mul(cim(b), self) }
    open spec fn mul_spec(self, b: Complex<$T>) -> Complex<$T> { mkc(sp_mul(cre(b), self), sp_mul(cim(b), self)) }
}
### for T in f32,f64: verbatim
impl vstd::std_specs::ops::DivSpecImpl<Complex<$T>> for $T {
    open spec fn obeys_div_spec() -> bool { tot_field::<$T>() && tot_neg::<$T>() }
    open spec fn div_req(self, b: Complex<$T>) -> bool { tot_field::<$T>() && tot_neg::<$T>() }
    open spec fn div_spec(self, b: Complex<$T>) -> Complex<$T> { sp_mul(self, c_inv(b)) }
}
### for T in f32,f64: <$T as Div<Complex<$T>>>::div
props C18
### for T in f32,f64: <$T as Add<Complex<$T>>>::add ;; <$T as Sub<Complex<$T>>>::sub ;; <$T as Mul<Complex<$T>>>::mul
props C18
### for f in powu,powi: Complex<T>::$f
props C18
ens r == unc(nc_$f(nc(*self), $1))
### for f in exp,ln,sqrt,cbrt,sin,cos,tan,asin,acos,atan,sinh,cosh,tanh,asinh,acosh,atanh,finv: Complex<T>::$f
props C18
ens r == unc(nc_$f(nc(self)))
### for f in powf,log,expf: Complex<T>::$f
props C18
ens r == unc(nc_$f(nc(self), $1))
### for f in powc,fdiv: Complex<T>::$f
props C18
ens r == unc(nc_$f(nc(self), nc($1)))
### <Complex<T> as Num>::from_str_radix
skip parses text with num_complex
props C18
### verbatim
pub open spec fn trace<S, X>(t: Seq<S>, s: S, xs: Seq<X>, g: spec_fn(S, X) -> S) -> bool { t.len() == xs.len() + 1 && t[0] == s && forall|k: int| 0 <= k < xs.len() ==> #[trigger] t[k + 1] == g(t[k], xs[k]) }
pub proof fn trace_vfold<S, X>(t: Seq<S>, s: S, xs: Seq<X>, g: spec_fn(S, X) -> S)
    requires trace(t, s, xs, g) ensures t[xs.len() as int] == vfold(s, xs, g) decreases xs.len()
{ if xs.len() > 0 { trace_vfold(t.drop_last(), s, xs.drop_last(), g); let n = xs.len() - 1; assert(t[n + 1] == g(t[n], xs[n])); } }
### for S,s,Z,A,a,z,q in Sum/sum/Zero/Add/add/zero/true,Product/product/One/Mul/mul/one/Complex::<T>::one_req(): verbatim
impl<T> Vx$SSpecImpl<Complex<T>> for Complex<T> where Complex<T>: $Z + $A { open spec fn $s_req() -> bool { tot_$a::<Complex<T>, Complex<T>>() && Complex::<T>::obeys_$z() && $q } }
### for S,s,A,a,z in Sum/sum/Add/add/zero,Product/product/Mul/mul/one: <Complex<T> as $S>::$s
props C18
ens r == vfold(Self::$z_spec(), iter.remaining(), |a: Self, b: Self| sp_$a(a, b))
pre let ghost xs = iter.remaining();
postr proof { assert(exists|t: Seq<Self>| #[trigger] t.len() == xs.len() + 1 && trace(t, Self::$z_spec(), xs, |a: Self, b: Self| sp_$a(a, b)) && vx_res == t[xs.len() as int]); let t = choose|t: Seq<Self>| #[trigger] t.len() == xs.len() + 1 && trace(t, Self::$z_spec(), xs, |a: Self, b: Self| sp_$a(a, b)) && vx_res == t[xs.len() as int]; trace_vfold(t, Self::$z_spec(), xs, |a: Self, b: Self| sp_$a(a, b)); }
closure 0
cret Self
creq tot_$a::<Self, Self>()
cens vx_r == sp_$a(a, x)
