verus! {
// ---------- trusted: num_traits and num_integer traits, signatures as declared there
pub trait Zero: Sized + Add<Self, Output = Self> {
    spec fn obeys_zero() -> bool;
    spec fn zero_spec() -> Self;
    spec fn is_zero_spec(&self) -> bool;
    fn zero() -> (r: Self) ensures Self::obeys_zero() ==> r == Self::zero_spec();
    fn is_zero(&self) -> (r: bool) ensures Self::obeys_zero() ==> r == self.is_zero_spec();
}
pub trait One: Sized + Mul<Self, Output = Self> {
    spec fn obeys_one() -> bool;
    spec fn one_spec() -> Self;
    spec fn one_req() -> bool;
    fn one() -> (r: Self) requires Self::one_req() ensures Self::obeys_one() ==> r == Self::one_spec();
}
pub trait NumOps<Rhs = Self, Output = Self>: Add<Rhs, Output = Output> + Sub<Rhs, Output = Output> + Mul<Rhs, Output = Output> + Div<Rhs, Output = Output> + Rem<Rhs, Output = Output> {}
pub trait Num: PartialEq + Zero + One + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self, Output = Self> + Div<Self, Output = Self> + Rem<Self, Output = Self> { type FromStrRadixErr; fn from_str_radix(s: &str, radix: u32) -> Result<Self, Self::FromStrRadixErr>; }
pub trait FloatCore: Sized { fn abs(self) -> Self; }
impl FloatCore for f32 { #[verifier::external_body] fn abs(self) -> Self { unimplemented!() } }
impl FloatCore for f64 { #[verifier::external_body] fn abs(self) -> Self { unimplemented!() } }
pub trait Inv: Sized { type Output; spec fn inv_req(self) -> bool; spec fn obeys_inv() -> bool; spec fn inv_of(self) -> Self::Output; fn inv(self) -> (r: Self::Output) requires self.inv_req() ensures Self::obeys_inv() ==> r == self.inv_of(); }
pub trait NumCast: Sized { spec fn cast_of<N>(n: N) -> Option<Self>; fn from<N>(n: N) -> (r: Option<Self>) ensures r == Self::cast_of(n); }
pub trait FloatConst: Sized { spec fn pi_spec() -> Self; #[allow(non_snake_case)] fn PI() -> (r: Self) ensures r == Self::pi_spec(); }
pub trait Float: Num + Copy + NumCast + PartialOrd + Neg<Output = Self> {
    fn floor(self) -> Self;
    fn ceil(self) -> Self;
    fn round(self) -> Self;
    fn trunc(self) -> Self;
    fn fract(self) -> Self;
    spec fn abs_r(self, r: Self) -> bool; fn abs(self) -> (r: Self) ensures self.abs_r(r);
    fn signum(self) -> Self;
    fn recip(self) -> Self;
    spec fn sqrt_r(self, r: Self) -> bool; fn sqrt(self) -> (r: Self) ensures self.sqrt_r(r);
    fn exp(self) -> Self;
    fn exp2(self) -> Self;
    spec fn ln_r(self, r: Self) -> bool; fn ln(self) -> (r: Self) ensures self.ln_r(r);
    fn log2(self) -> Self;
    fn log10(self) -> Self;
    fn cbrt(self) -> Self;
    spec fn sin_r(self, r: Self) -> bool; fn sin(self) -> (r: Self) ensures self.sin_r(r);
    spec fn cos_r(self, r: Self) -> bool; fn cos(self) -> (r: Self) ensures self.cos_r(r);
    fn tan(self) -> Self;
    fn asin(self) -> Self;
    fn acos(self) -> Self;
    fn atan(self) -> Self;
    fn exp_m1(self) -> Self;
    fn ln_1p(self) -> Self;
    fn sinh(self) -> Self;
    fn cosh(self) -> Self;
    fn tanh(self) -> Self;
    fn asinh(self) -> Self;
    fn acosh(self) -> Self;
    fn atanh(self) -> Self;
    fn powf(self, other: Self) -> Self;
    fn log(self, other: Self) -> Self;
    fn max(self, other: Self) -> Self;
    fn min(self, other: Self) -> Self;
    fn abs_sub(self, other: Self) -> Self;
    fn hypot(self, other: Self) -> Self;
    spec fn atan2_r(self, other: Self, r: Self) -> bool; fn atan2(self, other: Self) -> (r: Self) ensures self.atan2_r(other, r);
    fn powi(self, n: i32) -> Self;
    fn mul_add(self, a: Self, b: Self) -> Self;
    fn sin_cos(self) -> (Self, Self);
    spec fn epsilon_r(r: Self) -> bool; fn epsilon() -> (r: Self) ensures Self::epsilon_r(r); fn infinity() -> Self; fn neg_infinity() -> Self; fn nan() -> Self; fn max_value() -> Self; fn min_value() -> Self;
    fn is_nan(self) -> bool; fn is_infinite(self) -> bool; fn is_finite(self) -> bool; fn is_sign_negative(self) -> bool; fn is_sign_positive(self) -> bool;
}
impl Zero for f32 { uninterp spec fn obeys_zero() -> bool; uninterp spec fn zero_spec() -> Self; uninterp spec fn is_zero_spec(&self) -> bool; #[verifier::external_body] fn zero() -> (r: Self) { unimplemented!() } #[verifier::external_body] fn is_zero(&self) -> (r: bool) { unimplemented!() } }
impl One for f32 { uninterp spec fn obeys_one() -> bool; open spec fn one_req() -> bool { true } uninterp spec fn one_spec() -> Self; #[verifier::external_body] fn one() -> (r: Self) { unimplemented!() } }
impl NumCast for f32 { uninterp spec fn cast_of<N>(n: N) -> Option<Self>; #[verifier::external_body] fn from<N>(n: N) -> (r: Option<Self>) { unimplemented!() } }
impl Num for f32 { type FromStrRadixErr = (); #[verifier::external_body] fn from_str_radix(s: &str, radix: u32) -> Result<Self, ()> { unimplemented!() } }
impl Zero for f64 { uninterp spec fn obeys_zero() -> bool; uninterp spec fn zero_spec() -> Self; uninterp spec fn is_zero_spec(&self) -> bool; #[verifier::external_body] fn zero() -> (r: Self) { unimplemented!() } #[verifier::external_body] fn is_zero(&self) -> (r: bool) { unimplemented!() } }
impl One for f64 { uninterp spec fn obeys_one() -> bool; open spec fn one_req() -> bool { true } uninterp spec fn one_spec() -> Self; #[verifier::external_body] fn one() -> (r: Self) { unimplemented!() } }
impl NumCast for f64 { uninterp spec fn cast_of<N>(n: N) -> Option<Self>; #[verifier::external_body] fn from<N>(n: N) -> (r: Option<Self>) { unimplemented!() } }
impl Num for f64 { type FromStrRadixErr = (); #[verifier::external_body] fn from_str_radix(s: &str, radix: u32) -> Result<Self, ()> { unimplemented!() } }
pub trait Integer: Sized + Num + PartialOrd + Ord + Eq {
    fn div_floor(&self, other: &Self) -> Self;
    fn mod_floor(&self, other: &Self) -> Self;
    fn div_mod_floor(&self, other: &Self) -> (Self, Self);
}
pub mod vx_int {
    use super::*;
    pub fn div_floor<T: Integer>(x: T, y: T) -> (r: T) ensures call_ensures(T::div_floor, (&x, &y), r) { x.div_floor(&y) }
    pub fn mod_floor<T: Integer>(x: T, y: T) -> (r: T) ensures call_ensures(T::mod_floor, (&x, &y), r) { x.mod_floor(&y) }
    pub fn div_mod_floor<T: Integer>(x: T, y: T) -> (r: (T, T)) ensures call_ensures(T::div_mod_floor, (&x, &y), r) { x.div_mod_floor(&y) }
}
}
