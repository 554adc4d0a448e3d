//! Exact rationals as an element type (a field), for sizes where the symbolic check is too large.
use num_traits::{Num, One, Zero};
use std::ops::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Q { pub n: i128, pub d: i128 }
fn gcd(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs()); while b != 0 { let t = a % b; a = b; b = t; } a as i128 }
impl Q { pub fn new(n: i128, d: i128) -> Q { assert!(d != 0, "sxcore: division by zero in the exact field"); let g = gcd(n, d).max(1); let s = if d < 0 { -1 } else { 1 }; Q { n: s * n / g, d: s * d / g } } pub fn i(n: i64) -> Q { Q { n: n as i128, d: 1 } } }
impl Add for Q { type Output = Q; fn add(self, o: Q) -> Q { Q::new(self.n.checked_mul(o.d).unwrap().checked_add(o.n.checked_mul(self.d).unwrap()).unwrap(), self.d.checked_mul(o.d).unwrap()) } }
impl Neg for Q { type Output = Q; fn neg(self) -> Q { Q { n: -self.n, d: self.d } } }
impl Sub for Q { type Output = Q; fn sub(self, o: Q) -> Q { self + -o } }
impl Mul for Q { type Output = Q; fn mul(self, o: Q) -> Q { let (g, h) = (gcd(self.n, o.d).max(1), gcd(o.n, self.d).max(1)); Q::new((self.n / g).checked_mul(o.n / h).unwrap(), (self.d / h).checked_mul(o.d / g).unwrap()) } }
impl Div for Q { type Output = Q; fn div(self, o: Q) -> Q { if o.n == 0 { panic!("division by zero") } self * Q::new(o.d, o.n) } }
impl Rem for Q { type Output = Q; fn rem(self, _: Q) -> Q { Q::i(0) } }
impl Zero for Q { fn zero() -> Q { Q::i(0) } fn is_zero(&self) -> bool { self.n == 0 } }
impl One for Q { fn one() -> Q { Q::i(1) } }
impl Num for Q { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Q, ()> { Err(()) } }
/// The field of integers modulo a prime.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct F(pub u64);
pub const P: u64 = 1_000_003;
impl F { pub fn i(n: i64) -> F { F(n.rem_euclid(P as i64) as u64) } pub fn pow(self, mut e: u64) -> F { let (mut b, mut r) = (self, F(1)); while e > 0 { if e & 1 == 1 { r = r * b; } b = b * b; e >>= 1; } r } }
impl Add for F { type Output = F; fn add(self, o: F) -> F { F((self.0 + o.0) % P) } }
impl Neg for F { type Output = F; fn neg(self) -> F { F((P - self.0) % P) } }
impl Sub for F { type Output = F; fn sub(self, o: F) -> F { F((self.0 + P - o.0) % P) } }
impl Mul for F { type Output = F; fn mul(self, o: F) -> F { F(self.0 * o.0 % P) } }
impl Div for F { type Output = F; fn div(self, o: F) -> F { if o.0 == 0 { panic!("division by zero") } self * o.pow(P - 2) } }
impl Rem for F { type Output = F; fn rem(self, _: F) -> F { F(0) } }
impl Zero for F { fn zero() -> F { F(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl One for F { fn one() -> F { F(1) } }
impl Num for F { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<F, ()> { Err(()) } }
/// determinant over F by Gaussian elimination (independent of the code under contract)
pub fn det_f<const N: usize>(a: [[F; N]; N]) -> F { let mut a = a; let mut d = F(1); for c in 0..N { let Some(p) = (c..N).find(|r| a[*r][c].0 != 0) else { return F(0) }; if p != c { a.swap(p, c); d = -d; } d = d * a[c][c]; for r in c + 1..N { let k = a[r][c] / a[c][c]; for j in c..N { a[r][j] = a[r][j] - k * a[c][j]; } } } d }
