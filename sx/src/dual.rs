//! Dual numbers over the symbolic scalars: evaluating the code at a dual point yields the exact
//! directional derivative of the map the code computes.
use num_traits::{Inv, Num, NumCast, One, ToPrimitive, Zero};
use std::ops::*;
use sxcore::E;
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct D(pub E, pub E);
pub fn dc(a: E) -> D { D(a, sxcore::con(0)) }
impl Add for D { type Output = D; fn add(self, o: D) -> D { D(self.0 + o.0, self.1 + o.1) } }
impl Sub for D { type Output = D; fn sub(self, o: D) -> D { D(self.0 - o.0, self.1 - o.1) } }
impl Neg for D { type Output = D; fn neg(self) -> D { D(-self.0, -self.1) } }
impl Mul for D { type Output = D; fn mul(self, o: D) -> D { D(self.0 * o.0, self.0 * o.1 + self.1 * o.0) } }
impl Div for D { type Output = D; fn div(self, o: D) -> D { D(self.0 / o.0, (self.1 * o.0 - self.0 * o.1) / (o.0 * o.0)) } }
impl Rem for D { type Output = D; fn rem(self, _: D) -> D { panic!("sxcore: remainder of dual numbers") } }
impl Zero for D { fn zero() -> D { dc(E::zero()) } fn is_zero(&self) -> bool { self.0.is_zero() } }
impl One for D { fn one() -> D { dc(E::one()) } }
impl Inv for D { type Output = D; fn inv(self) -> D { D::one() / self } }
impl Num for D { type FromStrRadixErr = (); fn from_str_radix(s: &str, r: u32) -> Result<D, ()> { E::from_str_radix(s, r).map(dc) } }
impl ToPrimitive for D { fn to_i64(&self) -> Option<i64> { self.0.to_i64() } fn to_u64(&self) -> Option<u64> { self.0.to_u64() } fn to_f64(&self) -> Option<f64> { self.0.to_f64() } }
impl NumCast for D { fn from<T: ToPrimitive>(n: T) -> Option<D> { <E as NumCast>::from(n).map(dc) } }
