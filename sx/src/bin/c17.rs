use sx::*;
use sx::q::*;
fn inv<const N: usize>() {
    contract(&format!("Matrix<T,{},{}> inverse, symbolic", N, N), FREE, || { let a = m::<N, N>("a"); if N > 0 { assume_nonzero(a.det()); } check_defined();
        for (l, r) in [("inherent", Matrix::inv(&a)), ("trait", Inv::inv(a))] { let p: Matrix<E, N, N> = if N > 0 { a.dot(r) } else { r }; let q: Matrix<E, N, N> = if N > 0 { r.dot(a) } else { r }; eqmm(Field, &format!("{}: A A^-1", l), p, Matrix::one()); eqmm(Field, &format!("{}: A^-1 A", l), q, Matrix::one()); } });
}
fn laws<const N: usize>() { contract(&format!("laws of inversion, size {}", N), FREE, || { let (a, b) = (m::<N, N>("a"), m::<N, N>("b")); assume_nonzero(a.det()); assume_nonzero(b.det()); eqmm(Field, "inverse of the inverse", Matrix::inv(&Matrix::inv(&a)), a); if N <= 2 { let p: Matrix<E, N, N> = a.dot(b); let q: Matrix<E, N, N> = Matrix::inv(&b).dot(Matrix::inv(&a)); eqmm(Field, "inverse of a product", Matrix::inv(&p), q); } }); }
fn modp<const N: usize>(n: usize) { concrete(&format!("inverse modulo a prime, size {}", N), || { let mut r = sxcore::rng::Rng::new(seed() + 31 * N as u64); let mut t = 0; let mut tries = 0; while t < n && tries < 100 * n { tries += 1; let sparse = tries % 3; let a: [[F; N]; N] = std::array::from_fn(|_| std::array::from_fn(|_| { let k = r.next(); if sparse > 0 && k % 4 < sparse as u64 + 1 { F(0) } else if sparse == 2 { F(k >> 20 & 1) } else { F((k >> 8) % P) } })); if det_f(a).0 == 0 { continue; } t += 1;
        let x = Matrix::from_array_of_arrays(a); for (l, y) in [("inherent", Matrix::inv(&x)), ("trait", Inv::inv(x))] { let p: Matrix<F, N, N> = x.dot(y); let q: Matrix<F, N, N> = y.dot(x); let one: [[F; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| F((i == j) as u64))); same(&format!("{}: A A^-1 for {:?}", l, a), p.into_array_of_arrays(), one); same(&format!("{}: A^-1 A", l), q.into_array_of_arrays(), one); } 
        if N <= 5 { same("inverse of the inverse", Matrix::inv(&Matrix::inv(&x)).into_array_of_arrays(), a); } } holds("enough invertible samples", t > 0); }); }
/// matrices with prescribed zero minors (every way an elimination shortcut could go wrong), over the rationals
fn small<const N: usize>(vals: &[i64]) { concrete(&format!("inverse over the rationals, every {}x{} matrix with entries in {:?}", N, N, vals), || { let k = vals.len(); let total = k.pow((N * N) as u32); for code in 0..total { let mut c = code; let a: [[Q; N]; N] = std::array::from_fn(|_| std::array::from_fn(|_| { let x = Q::i(vals[c % k]); c /= k; x })); let f: [[F; N]; N] = a.map(|r| r.map(|x| F::i(x.n as i64))); if det_f(f).0 == 0 { continue; } let x = Matrix::from_array_of_arrays(a); let y = Matrix::inv(&x); let p: Matrix<Q, N, N> = x.dot(y); let q: Matrix<Q, N, N> = Inv::inv(x).dot(x); let one: [[Q; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| Q::i((i == j) as i64))); if p.into_array_of_arrays() != one || q.into_array_of_arrays() != one { same(&format!("A A^-1 for {:?}", a), p.into_array_of_arrays(), one); same("A^-1 A", q.into_array_of_arrays(), one); } } count_check(); }); }
fn main() { sxcore::main("C17", || {
    inv::<1>(); inv::<2>(); inv::<3>(); inv::<4>(); laws::<1>(); laws::<2>(); laws::<3>();
    small::<1>(&[-3, -2, -1, 1, 2, 3]); small::<2>(&[-2, -1, 0, 1, 3]); small::<3>(&[-1, 0, 2]);
    modp::<1>(20); modp::<2>(60); modp::<3>(80); modp::<4>(60); modp::<5>(20); modp::<6>(3); if thorough() { modp::<7>(1); }
    contract("Matrix<T,0,0>::inv", FREE, || { let a = m::<0, 0>("a"); eqm(Exact, Matrix::inv(&a), |_, _| con(0)); });
}) }
