use approx::AbsDiffEq;
use sx::*;
use vecmat::transform::*;
fn near(a: &[E], b: &[E], e: E) -> bool { let mut r = true; for i in 0..a.len() { if !a[i].abs_diff_eq(&b[i], e) { r = false; } } r }
fn fl(p: &str, n: usize) -> Vec<E> { (0..n).map(|i| var(&format!("{}{}", p, i))).collect() }
/// symbolic: the comparison of the whole is the conjunction of the comparisons of the parts
fn sym<T: AbsDiffEq<Epsilon = E>>(name: &str, n: usize, mk: impl Fn(&[E]) -> T) { contract(&format!("{}: approximate equality", name), FREE, || { let (a, b, e) = (fl("a", n), fl("b", n), s("eps")); let g = mk(&a).abs_diff_eq(&mk(&b), e); let w = near(&a, &b, e); holds("equal exactly when every component is", g == w); holds("negated form", mk(&a).abs_diff_ne(&mk(&b), e) == !w); exact("default epsilon", T::default_epsilon(), <E as AbsDiffEq>::default_epsilon()); }); }
/// all patterns of one, two or all differing components, at, below and above the tolerance
fn conc<T: AbsDiffEq<Epsilon = f64>>(name: &str, n: usize, mk: impl Fn(&[f64]) -> T) { concrete(&format!("{} of f64: approximate equality", name), || { let base: Vec<f64> = (0..n).map(|i| i as f64 * 0.75 - 3.0).collect(); same("default epsilon", T::default_epsilon(), f64::EPSILON); let e = 0.25; holds("equal values", mk(&base).abs_diff_eq(&mk(&base), 0.0)); let ok = |l: String, b: &[f64]| { let w = base.iter().zip(b).all(|(x, y)| x.abs_diff_eq(y, e)); holds(&l, mk(&base).abs_diff_eq(&mk(b), e) == w); holds(&l, mk(b).abs_diff_eq(&mk(&base), e) == w); };
        for d in [0.0, 0.125, 0.25, 0.375, 5.0, -0.125, -0.25, -0.375, f64::NAN, f64::INFINITY] { for i in 0..n { let mut b = base.clone(); b[i] += d; ok(format!("component {} off by {}", i, d), &b); for j in 0..i { if j % 3 == 0 || i == j + 1 { let mut b = b.clone(); b[j] -= d; ok(format!("components {} and {} off by {}", j, i, d), &b); let mut b = base.clone(); b[i] += 0.125; b[j] += d; ok(format!("component {} off a little, {} by {}", i, j, d), &b); } } } let b: Vec<f64> = base.iter().map(|x| x + d).collect(); ok(format!("all off by {}", d), &b); let b: Vec<f64> = base.iter().enumerate().map(|(k, x)| if k % 2 == 0 { x + d } else { x - d }).collect(); ok(format!("alternately off by {}", d), &b); } if n > 1 { let mut b = base.clone(); b.swap(0, n - 1); ok("swapped".into(), &b); b = base.clone(); b.rotate_left(1); ok("rotated".into(), &b); } }); }
fn arr<T: Copy, const N: usize>(x: &[T]) -> [T; N] { std::array::from_fn(|i| x[i]) }
fn arr2<T: Copy, const M: usize, const N: usize>(x: &[T]) -> [[T; N]; M] { std::array::from_fn(|i| std::array::from_fn(|j| x[i * N + j])) }
fn vecs<const N: usize>() { if N <= 6 { sym(&format!("Vector<{}>", N), N, |a| Vector::from_array(arr::<_, N>(a))); sym(&format!("Shift<{}>", N), N, |a| Shift::from(Vector::from_array(arr::<_, N>(a)))); } conc(&format!("Vector<{}>", N), N, |a| Vector::from_array(arr::<_, N>(a))); conc(&format!("Shift<{}>", N), N, |a| Shift::from(Vector::from_array(arr::<_, N>(a)))); }
fn mats<const M: usize, const N: usize>() { if M * N <= 6 { sym(&format!("Matrix<{},{}>", M, N), M * N, |a| Matrix::from_array_of_arrays(arr2::<_, M, N>(a))); } conc(&format!("Matrix<{},{}>", M, N), M * N, |a| Matrix::from_array_of_arrays(arr2::<_, M, N>(a))); }
fn lins<const N: usize>() { if N <= 2 { sym(&format!("Linear<{}>", N), N * N, |a| Linear::from(Matrix::from_array_of_arrays(arr2::<_, N, N>(a)))); } conc(&format!("Linear<{}>", N), N * N, |a| Linear::from(Matrix::from_array_of_arrays(arr2::<_, N, N>(a)))); }
// Chain<A, B, T> compares with a T tolerance, so its point type is the scalar here
type C1<A, B> = Chain<A, B, E>; type C2<A, B> = Chain<A, B, f64>;
fn main() { sxcore::main("C24", || {
    vdims!(vecs); mdims!(mats); lins::<0>(); lins::<1>(); lins::<2>(); lins::<3>(); lins::<4>(); lins::<6>();
    sym("Complex", 2, |a| Complex::from(arr::<_, 2>(a))); sym("Quaternion", 4, |a| Quaternion::from(arr::<_, 4>(a))); sym("Moebius", 4, |a| Moebius::from(arr2::<_, 2, 2>(a))); sym("Rotation2", 2, |a| Rotation2::from(Complex::from(arr::<_, 2>(a)))); sym("Rotation3", 4, |a| Rotation3::from(Quaternion::from(arr::<_, 4>(a)))); sym("Scale", 1, |a| Scale::from(a[0]));
    conc("Complex", 2, |a| Complex::from(arr::<_, 2>(a))); conc("Quaternion", 4, |a| Quaternion::from(arr::<_, 4>(a))); conc("Moebius", 4, |a| Moebius::from(arr2::<_, 2, 2>(a))); conc("Rotation2", 2, |a| Rotation2::from(Complex::from(arr::<_, 2>(a)))); conc("Rotation3", 4, |a| Rotation3::from(Quaternion::from(arr::<_, 4>(a)))); conc("Scale", 1, |a| Scale::from(a[0]));
    sym("Chain<Shift<2>, Linear<2>>", 6, |a| C1::new(Shift::from(Vector::from_array(arr::<_, 2>(a))), Linear::from(Matrix::from_array_of_arrays(arr2::<_, 2, 2>(&a[2..]))))); sym("Chain<Scale, Shift<3>>", 4, |a| C1::new(Scale::from(a[0]), Shift::from(Vector::from_array(arr::<_, 3>(&a[1..]))))); sym("Chain<Rotation3, Shift<3>>", 7, |a| C1::new(Rotation3::from(Quaternion::from(arr::<_, 4>(a))), Shift::from(Vector::from_array(arr::<_, 3>(&a[4..]))))); sym("Chain<Shift<2>, Rotation2>", 4, |a| C1::new(Shift::from(Vector::from_array(arr::<_, 2>(a))), Rotation2::from(Complex::from(arr::<_, 2>(&a[2..])))));
    conc("Chain<Shift<3>, Linear<3>>", 12, |a| C2::new(Shift::from(Vector::from_array(arr::<_, 3>(a))), Linear::from(Matrix::from_array_of_arrays(arr2::<_, 3, 3>(&a[3..]))))); conc("Chain<Scale, Shift<3>>", 4, |a| C2::new(Scale::from(a[0]), Shift::from(Vector::from_array(arr::<_, 3>(&a[1..])))));
}) }
