use sx::*;
fn sum(n: usize, f: impl Fn(usize) -> E) -> E { let mut w = f(0); for k in 1..n { w = w + f(k); } w }
fn mmul<const L: usize, const M: usize, const N: usize>() {
    contract(&format!("Matrix<T,{},{}> . Matrix<T,{},{}>", L, M, M, N), FREE, || { let (a, b) = (m::<L, M>("a"), m::<M, N>("b")); let (x, y) = (ma(a), ma(b)); let r: Matrix<E, L, N> = a.dot(b); eqm(Ring, r, |i, j| sum(M, |k| x[i][k] * y[k][j])); });
}
fn mv<const M: usize, const N: usize>() {
    if N > 0 || M == 0 { contract(&format!("Matrix<T,{},{}> . Vector", M, N), FREE, || { let (a, b) = (m::<M, N>("a"), v::<N>("b")); let (x, y) = (ma(a), va(b)); let r: Vector<E, M> = a.dot(b); eqv(Ring, r, |i| sum(N, |k| x[i][k] * y[k])); }); }
    if M > 0 || N == 0 { contract(&format!("Vector . Matrix<T,{},{}>", M, N), FREE, || { let (a, b) = (m::<M, N>("a"), v::<M>("b")); let (x, y) = (ma(a), va(b)); let r: Vector<E, N> = b.dot(a); eqv(Ring, r, |j| sum(M, |k| y[k] * x[k][j])); }); }
}
fn laws<const L: usize, const M: usize, const N: usize, const K: usize>() {
    contract(&format!("laws of the product, shapes {}x{} {}x{} {}x{}", L, M, M, N, N, K), FREE, || { let (a, b, c, d, u) = (m::<L, M>("a"), m::<M, N>("b"), m::<N, K>("c"), m::<M, N>("d"), v::<N>("u"));
        let l: Matrix<E, L, K> = Dot::<Matrix<E, N, K>>::dot(Dot::<Matrix<E, M, N>>::dot(a, b), c); let r: Matrix<E, L, K> = Dot::<Matrix<E, M, K>>::dot(a, Dot::<Matrix<E, N, K>>::dot(b, c)); eqmm(Ring, "associative", l, r);
        let l: Matrix<E, L, N> = a.dot(b + d); let p: Matrix<E, L, N> = a.dot(b); let q: Matrix<E, L, N> = a.dot(d); eqmm(Ring, "distributes", l, p + q);
        let ab: Matrix<E, L, N> = a.dot(b); let l: Vector<E, L> = ab.dot(u); let bu: Vector<E, M> = b.dot(u); let r: Vector<E, L> = a.dot(bu); eqvv(Ring, "(A B) v = A (B v)", l, r); });
}
fn ident<const M: usize, const N: usize>() { contract(&format!("identity is neutral, {}x{}", M, N), FREE, || { let a = m::<M, N>("a"); let l: Matrix<E, M, N> = Matrix::<E, M, M>::one().dot(a); let r: Matrix<E, M, N> = a.dot(Matrix::<E, N, N>::one()); eqmm(Ring, "1 A", l, a); eqmm(Ring, "A 1", r, a); let u = v::<N>("u"); let w: Vector<E, N> = Matrix::<E, N, N>::one().dot(u); eqvv(Ring, "1 v", w, u); let w: Vector<E, N> = u.dot(Matrix::<E, N, N>::one()); eqvv(Ring, "v 1", w, u); }); }
fn dm<const M: usize, const N: usize>() { if M > 0 { mmul::<1, M, N>(); mmul::<N, M, 2>(); mmul::<3, M, N>(); } if N > 0 { mmul::<M, N, M>(); } }
fn main() { sxcore::main("C14", || {
    macro_rules! cube { ($($l:literal)*) => { $( cube!(@ $l 1); cube!(@ $l 2); cube!(@ $l 3); cube!(@ $l 4); )* }; (@ $l:literal $m:literal) => { mmul::<$l, $m, 1>(); mmul::<$l, $m, 2>(); mmul::<$l, $m, 3>(); mmul::<$l, $m, 4>(); } }
    cube!(1 2 3 4); mmul::<0, 2, 2>(); mmul::<2, 2, 0>(); mmul::<0, 2, 0>(); mmul::<5, 5, 5>(); mmul::<6, 2, 5>(); mmul::<2, 7, 3>(); mmul::<1, 9, 1>(); mmul::<2, 16, 2>();
    mdims!(dm); mdims!(mv);
    laws::<1, 1, 1, 1>(); laws::<2, 2, 2, 2>(); laws::<2, 3, 2, 3>(); laws::<3, 2, 4, 1>(); laws::<3, 3, 3, 3>(); laws::<4, 4, 4, 4>(); laws::<1, 4, 2, 3>();
    ident::<1, 1>(); ident::<2, 2>(); ident::<3, 3>(); ident::<4, 4>(); ident::<2, 3>(); ident::<4, 2>(); ident::<5, 5>(); ident::<1, 6>();
}) }
