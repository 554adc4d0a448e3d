use sx::*;
use sx::q::*;
fn perms(n: usize) -> Vec<(Vec<usize>, bool)> { let mut out = vec![]; fn go(n: usize, cur: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, bool)>) { if cur.len() == n { let mut odd = false; for i in 0..n { for j in i + 1..n { if cur[i] > cur[j] { odd = !odd; } } } out.push((cur.clone(), odd)); return; } for k in 0..n { if !cur.contains(&k) { cur.push(k); go(n, cur, out); cur.pop(); } } } go(n, &mut vec![], &mut out); out }
/// Leibniz formula over the rows and columns listed
fn leibniz<const N: usize>(x: &[[E; N]; N], rows: &[usize], cols: &[usize]) -> E { let n = rows.len(); let mut w = con(0); for (p, odd) in perms(n) { let mut t = con(1); for i in 0..n { t = t * x[rows[i]][cols[p[i]]]; } w = if odd { w - t } else { w + t }; } w }
fn all(n: usize) -> Vec<usize> { (0..n).collect() }
fn but(n: usize, k: usize) -> Vec<usize> { (0..n).filter(|i| *i != k).collect() }
fn det<const N: usize>() { contract(&format!("Matrix<T,{},{}>::det is the Leibniz sum", N, N), FREE, || { let a = m::<N, N>("a"); let x = ma(a); field("det", a.det(), leibniz(&x, &all(N), &all(N))); }); }
fn cof<const N: usize>() { for i in 0..N { contract(&format!("Matrix<T,{},{}>::cofactor, row {}", N, N, i), FREE, || { let a = m::<N, N>("a"); let x = ma(a); for j in 0..N { let w = leibniz(&x, &but(N, i), &but(N, j)); field(&format!("cofactor({},{})", i, j), a.cofactor(i, j), if (i + j) % 2 == 1 { -w } else { w }); } }); }
    contract(&format!("Matrix<T,{},{}>::adj is the transposed cofactor matrix", N, N), FREE, || { let a = m::<N, N>("a"); let r = ma(a.adj()); count_check(); for i in 0..N { for j in 0..N { field(&format!("adj({},{})", i, j), r[i][j], a.cofactor(j, i)); } } }); }
fn laws<const N: usize>() { contract(&format!("determinant and adjugate laws, size {}", N), FREE, || { let (a, b) = (m::<N, N>("a"), m::<N, N>("b")); let d = a.det();
        field("transpose", a.transpose().det(), d); let id = Matrix::<E, N, N>::one() * d; let l: Matrix<E, N, N> = a.dot(a.adj()); let r: Matrix<E, N, N> = a.adj().dot(a); eqmm(Field, "A adj(A) = det(A) 1", l, id); eqmm(Field, "adj(A) A = det(A) 1", r, id); field("det 1 = 1", Matrix::<E, N, N>::one().det(), con(1));
        if N <= 3 { let p: Matrix<E, N, N> = a.dot(b); field("multiplicative", p.det(), d * b.det()); }
        for i in 0..N { for j in 0..i { let mut x = ma(a); x.swap(i, j); field(&format!("swapping rows {} and {}", i, j), Matrix::from_array_of_arrays(x).det(), -d); let mut x = ma(a); let k = s("k"); x[i] = std::array::from_fn(|c| x[j][c] * k); field(&format!("row {} a multiple of row {}", i, j), Matrix::from_array_of_arrays(x).det(), con(0)); } } }); }
/// larger sizes: exact arithmetic modulo a prime, against Gaussian elimination
fn modp<const N: usize>(n: usize) { concrete(&format!("det, cofactor, adj modulo a prime, size {}", N), || { let mut r = sxcore::rng::Rng::new(seed() + N as u64); for t in 0..n { let sparse = t as u64 % 3; let a: [[F; N]; N] = std::array::from_fn(|_| std::array::from_fn(|_| { let k = r.next(); if sparse > 0 && k % 4 < sparse + 1 { F(0) } else if sparse == 2 { F(k >> 20 & 1) } else { F((k >> 8) % P) } }));
        let x = Matrix::from_array_of_arrays(a); let d = det_f(a); same(&format!("det of {:?}", a), x.det(), d);
        let (i, j) = (r.below(N as u64) as usize, r.below(N as u64) as usize); let mut c = a; for k in 0..N { c[i][k] = F(0); c[k][j] = F(0); } c[i][j] = F(1); same(&format!("cofactor({},{})", i, j), x.cofactor(i, j), det_f(c));
        if N <= 5 || t < 2 { let id = Matrix::<F, N, N>::one() * d; let p: Matrix<F, N, N> = x.dot(x.adj()); same("A adj(A)", p.into_array_of_arrays(), id.into_array_of_arrays()); } } }); }
fn oob<const N: usize>() { concrete(&format!("cofactor index outside a {}x{} matrix panics", N, N), || { let a = Matrix::from_array_of_arrays([[F(2); N]; N]); let mut bad = vec![(N, N), (usize::MAX, 0), (0, usize::MAX), (N + 1, N + 1), (N, N + 1)]; for k in 0..N { bad.push((N, k)); bad.push((k, N)); bad.push((k, N + 1)); bad.push((N + 1, k)); } if N == 0 { bad.push((0, 0)); } for (i, j) in bad { panics(&format!("cofactor({},{})", i, j), || { let _ = a.cofactor(i, j); }); } }); }
fn main() { sxcore::main("C16", || {
    det::<0>(); det::<1>(); det::<2>(); det::<3>(); det::<4>(); det::<5>(); cof::<1>(); cof::<2>(); cof::<3>(); cof::<4>(); cof::<5>(); laws::<1>(); laws::<2>(); laws::<3>(); laws::<4>();
    if thorough() { det::<6>(); }
    modp::<1>(20); modp::<2>(60); modp::<3>(100); modp::<4>(100); modp::<5>(60); modp::<6>(30); modp::<7>(4); if thorough() { modp::<8>(2); }
    oob::<0>(); oob::<1>(); oob::<2>(); oob::<3>(); oob::<4>(); oob::<5>();
    contract("Matrix<T,0,0>::adj", FREE, || { let a = m::<0, 0>("a"); eqm(Exact, a.adj(), |_, _| con(0)); });
}) }
