//! Shared vocabulary of the contracts: symbolic arguments and whole-value postconditions.
pub use num_traits::{Float, FloatConst, Inv, Num, One, Zero};
pub use std::panic::{catch_unwind, AssertUnwindSafe};
pub use sxcore::*;
pub use vecmat::traits::*;
pub use vecmat::{Complex, Matrix, Quaternion, Transform, Vector};
pub mod el;
pub mod q;
pub mod dual;
pub use el::El;
include!(concat!(env!("OUT_DIR"), "/dims.rs"));

/// symbolic vector p0..p(N-1)
pub fn v<const N: usize>(p: &str) -> Vector<E, N> { Vector::from_array(std::array::from_fn(|i| var(&format!("{}{}", p, i)))) }
/// symbolic matrix p00..
pub fn m<const M: usize, const N: usize>(p: &str) -> Matrix<E, M, N> {
    Matrix::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| var(&format!("{}{}_{}", p, i, j)))))
}
pub fn s(p: &str) -> E { var(p) }
pub fn cx(p: &str) -> Complex<E> { Complex::new(var(&format!("{}r", p)), var(&format!("{}i", p))) }
pub fn qt(p: &str) -> Quaternion<E> { Quaternion::new(var(&format!("{}w", p)), var(&format!("{}x", p)), var(&format!("{}y", p)), var(&format!("{}z", p))) }

pub fn va<const N: usize>(v: Vector<E, N>) -> [E; N] { v.into_array() }
pub fn ma<const M: usize, const N: usize>(v: Matrix<E, M, N>) -> [[E; N]; M] { v.into_array_of_arrays() }
fn one(k: Kind, l: &str, g: E, w: E) { match k { Kind::Exact => exact(l, g, w), Kind::Ring => ring(l, g, w), Kind::Field => field(l, g, w) } }
/// postcondition on every component
pub fn eqv<const N: usize>(k: Kind, got: Vector<E, N>, want: impl Fn(usize) -> E) { let g = va(got); if N == 0 { count_check(); } for i in 0..N { one(k, &format!("component {}", i), g[i], want(i)); } }
pub fn eqvn<const N: usize>(k: Kind, l: &str, got: Vector<E, N>, want: impl Fn(usize) -> E) { let g = va(got); if N == 0 { count_check(); } for i in 0..N { one(k, &format!("{} component {}", l, i), g[i], want(i)); } }
pub fn eqvv<const N: usize>(k: Kind, l: &str, got: Vector<E, N>, want: Vector<E, N>) { let w = va(want); eqvn(k, l, got, |i| w[i]) }
pub fn eqm<const M: usize, const N: usize>(k: Kind, got: Matrix<E, M, N>, want: impl Fn(usize, usize) -> E) { eqmn(k, "", got, want) }
pub fn eqmn<const M: usize, const N: usize>(k: Kind, l: &str, got: Matrix<E, M, N>, want: impl Fn(usize, usize) -> E) { let g = ma(got); if M * N == 0 { count_check(); } for i in 0..M { for j in 0..N { one(k, &format!("{} entry ({},{})", l, i, j), g[i][j], want(i, j)); } } }
pub fn eqmm<const M: usize, const N: usize>(k: Kind, l: &str, got: Matrix<E, M, N>, want: Matrix<E, M, N>) { let w = ma(want); eqmn(k, l, got, |i, j| w[i][j]) }
pub fn eqe(k: Kind, l: &str, got: E, want: E) { one(k, l, got, want) }
pub fn eqc(k: Kind, l: &str, got: Complex<E>, want: Complex<E>) { let (g, w): ([E; 2], [E; 2]) = (got.into(), want.into()); one(k, &format!("{} re", l), g[0], w[0]); one(k, &format!("{} im", l), g[1], w[1]); }
pub fn eqq(k: Kind, l: &str, got: Quaternion<E>, want: Quaternion<E>) { let (g, w): ([E; 4], [E; 4]) = (got.into(), want.into()); for (i, n) in ["w", "x", "y", "z"].iter().enumerate() { one(k, &format!("{} {}", l, n), g[i], w[i]); } }
pub use Kind::{Exact, Field, Ring};
pub fn bounds() -> Opt { FREE }
/// equal float values, NaN equal to NaN, zero signs distinguished
pub fn bits<T: Float + std::fmt::Debug>(a: T, b: T) -> bool { (a.is_nan() && b.is_nan()) || (a == b && a.is_sign_negative() == b.is_sign_negative()) }

/// postcondition: e > 0 under the preconditions (decided by the SMT solver, over the reals)
pub fn positive(label: &str, e: E) {
    if replaying() { holds(label, norm::eval(e) > 0.0); return; }
    match smt::implied_sign(e, true) { smt::Ans::Proved(_) => holds(label, true), smt::Ans::Refuted(m) => note_fail(label, format!("{} is not positive, e.g. {}", e.show(), m), "positive".into()), smt::Ans::Unknown => panic!("sxcore: sign of {} not decided", label) }
}
pub use sxcore::{norm, smt};
