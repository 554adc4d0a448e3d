use sx::*;
fn tr<T: El, const M: usize, const N: usize>() { concrete(&format!("Matrix<{},{},{}>::transpose", T::NAME, M, N), || { let f = |i: usize, j: usize| T::mk(i * N + j); let a: [[T; N]; M] = std::array::from_fn(|i| std::array::from_fn(|j| f(i, j))); let t = Matrix::from_array_of_arrays(a.clone()).transpose(); same("entries", t.clone().into_array_of_arrays(), std::array::from_fn(|j| std::array::from_fn(|i| f(i, j)))); same("twice", t.transpose().into_array_of_arrays(), a); }); }
fn sym<const M: usize, const N: usize>() {
    contract(&format!("Matrix<T,{},{}>::transpose, rows become columns", M, N), FREE, || { let a = m::<M, N>("a"); let x = ma(a); let t = a.transpose(); eqm(Exact, t, |j, i| x[i][j]); eqmm(Exact, "twice", t.transpose(), a); for i in 0..M { eqvv(Exact, "row", t.col(i), a.row(i)); } for j in 0..N { eqvv(Exact, "column", t.row(j), a.col(j)); } });
}
fn prod<const L: usize, const M: usize, const N: usize>() { contract(&format!("transpose of a product {}x{}x{}", L, M, N), FREE, || { let (a, b) = (m::<L, M>("a"), m::<M, N>("b")); let p: Matrix<E, L, N> = a.dot(b); let q: Matrix<E, N, L> = b.transpose().dot(a.transpose()); eqmm(Field, "(A B)^T = B^T A^T", p.transpose(), q); }); }
fn diag<const N: usize>() {
    contract(&format!("Matrix<T,{},{}>::diagonal, one", N, N), FREE, || { let d = v::<N>("d"); let x = va(d); eqmn(Exact, "diagonal", Matrix::<E, N, N>::diagonal(d), |i, j| if i == j { x[i] } else { con(0) }); eqmn(Exact, "one", Matrix::<E, N, N>::one(), |i, j| if i == j { con(1) } else { con(0) }); });
    contract(&format!("Matrix<T,{},{}>::is_one", N, N), FREE, || { if N <= 4 && N > 0 { let a = m::<N, N>("a"); let x = ma(a); let r = a.is_one(); same("is_one iff equal to the identity", r, (0..N).all(|i| (0..N).all(|j| x[i][j] == if i == j { con(1) } else { con(0) }))); } count_check(); });
}
fn main() { sxcore::main("C15", || {
    mdims_t!(tr, u64); mdims_t!(tr, String); mdims!(sym);
    fn cap<const N: usize>() { diag::<N>() } vdims!(cap);
    macro_rules! few { ($($T:ty)*) => { $( tr::<$T, 0, 0>(); tr::<$T, 0, 3>(); tr::<$T, 3, 0>(); tr::<$T, 1, 1>(); tr::<$T, 1, 4>(); tr::<$T, 4, 1>(); tr::<$T, 2, 2>(); tr::<$T, 2, 3>(); tr::<$T, 3, 2>(); tr::<$T, 3, 3>(); tr::<$T, 4, 4>(); tr::<$T, 5, 3>(); )* } }
    few!(u8 [u16; 3] el::Pair [u64; 5] Box<usize> Option<Box<u8>> el::Unit0 el::Al f64);
    prod::<1, 1, 1>(); prod::<2, 2, 2>(); prod::<3, 3, 3>(); prod::<2, 3, 4>(); prod::<4, 1, 3>(); prod::<4, 4, 4>(); prod::<1, 5, 1>();
}) }
