// generated by gen_float.py
### for T in f32,f64: verbatim
impl Float for $T {
    #[verifier::external_body] fn floor(self) -> Self { unimplemented!() }
    #[verifier::external_body] fn ceil(self) -> Self { unimplemented!() }
    #[verifier::external_body] fn round(self) -> Self { unimplemented!() }
    #[verifier::external_body] fn trunc(self) -> Self { unimplemented!() }
    #[verifier::external_body] fn fract(self) -> Self { unimplemented!() }
    uninterp spec fn abs_r(self, r: Self) -> bool;
    #[verifier::external_body] fn abs(self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn signum(self) -> Self { unimplemented!() }
    #[verifier::external_body] fn recip(self) -> Self { unimplemented!() }
    uninterp spec fn sqrt_r(self, r: Self) -> bool;
    #[verifier::external_body] fn sqrt(self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn exp(self) -> Self { unimplemented!() }
    #[verifier::external_body] fn exp2(self) -> Self { unimplemented!() }
    uninterp spec fn ln_r(self, r: Self) -> bool;
    #[verifier::external_body] fn ln(self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn log2(self) -> Self { unimplemented!() }
    #[verifier::external_body] fn log10(self) -> Self { unimplemented!() }
    #[verifier::external_body] fn cbrt(self) -> Self { unimplemented!() }
    uninterp spec fn sin_r(self, r: Self) -> bool;
    #[verifier::external_body] fn sin(self) -> (r: Self) { unimplemented!() }
    uninterp spec fn cos_r(self, r: Self) -> bool;
    #[verifier::external_body] fn cos(self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn tan(self) -> Self { unimplemented!() }
    #[verifier::external_body] fn asin(self) -> Self { unimplemented!() }
    #[verifier::external_body] fn acos(self) -> Self { unimplemented!() }
    #[verifier::external_body] fn atan(self) -> Self { unimplemented!() }
    #[verifier::external_body] fn exp_m1(self) -> Self { unimplemented!() }
    #[verifier::external_body] fn ln_1p(self) -> Self { unimplemented!() }
    #[verifier::external_body] fn sinh(self) -> Self { unimplemented!() }
    #[verifier::external_body] fn cosh(self) -> Self { unimplemented!() }
    #[verifier::external_body] fn tanh(self) -> Self { unimplemented!() }
    #[verifier::external_body] fn asinh(self) -> Self { unimplemented!() }
    #[verifier::external_body] fn acosh(self) -> Self { unimplemented!() }
    #[verifier::external_body] fn atanh(self) -> Self { unimplemented!() }
    #[verifier::external_body] fn powf(self, other: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn log(self, other: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn max(self, other: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn min(self, other: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn abs_sub(self, other: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn hypot(self, other: Self) -> Self { unimplemented!() }
    uninterp spec fn atan2_r(self, other: Self, r: Self) -> bool;
    #[verifier::external_body] fn atan2(self, other: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn powi(self, n: i32) -> Self { unimplemented!() }
    #[verifier::external_body] fn mul_add(self, a: Self, b: Self) -> Self { unimplemented!() }
    #[verifier::external_body] fn sin_cos(self) -> (Self, Self) { unimplemented!() }
    uninterp spec fn epsilon_r(r: Self) -> bool;
    #[verifier::external_body] fn epsilon() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn infinity() -> Self { unimplemented!() }
    #[verifier::external_body] fn neg_infinity() -> Self { unimplemented!() }
    #[verifier::external_body] fn nan() -> Self { unimplemented!() }
    #[verifier::external_body] fn max_value() -> Self { unimplemented!() }
    #[verifier::external_body] fn min_value() -> Self { unimplemented!() }
    #[verifier::external_body] fn is_nan(self) -> bool { unimplemented!() }
    #[verifier::external_body] fn is_infinite(self) -> bool { unimplemented!() }
    #[verifier::external_body] fn is_finite(self) -> bool { unimplemented!() }
    #[verifier::external_body] fn is_sign_negative(self) -> bool { unimplemented!() }
    #[verifier::external_body] fn is_sign_positive(self) -> bool { unimplemented!() }
}
