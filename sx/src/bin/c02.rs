use sx::*;
macro_rules! vv { ($($n:ident $o:tt $ao:tt;)*) => { $(
    fn $n<const M: usize, const N: usize>() {
        contract(&format!("Matrix<T,{},{}> {} Matrix", M, N, stringify!($o)), FREE, || { let (a, b) = (m::<M, N>("a"), m::<M, N>("b")); let (x, y) = (ma(a), ma(b)); eqm(Exact, a $o b, |i, j| x[i][j] $o y[i][j]); });
        contract(&format!("Matrix<T,{},{}> {} Matrix", M, N, stringify!($ao)), FREE, || { let (mut a, b) = (m::<M, N>("a"), m::<M, N>("b")); let (x, y) = (ma(a), ma(b)); a $ao b; eqm(Exact, a, |i, j| x[i][j] $o y[i][j]); });
    } )* } }
vv! { add + +=; sub - -=; mul * *=; div / /=; rem % %=; }
macro_rules! vs { ($($n:ident $o:tt $ao:tt;)*) => { $(
    fn $n<const M: usize, const N: usize>() {
        contract(&format!("Matrix<T,{},{}> {} scalar", M, N, stringify!($o)), FREE, || { let a = m::<M, N>("a"); let k = s("k"); let x = ma(a); eqm(Exact, a $o k, |i, j| x[i][j] $o k); });
        contract(&format!("Matrix<T,{},{}> {} scalar", M, N, stringify!($ao)), FREE, || { let mut a = m::<M, N>("a"); let k = s("k"); let x = ma(a); a $ao k; eqm(Exact, a, |i, j| x[i][j] $o k); });
    } )* } }
vs! { muls * *=; divs / /=; rems % %=; }
fn negz<const M: usize, const N: usize>() {
    contract(&format!("-Matrix<T,{},{}>", M, N), FREE, || { let a = m::<M, N>("a"); let x = ma(a); eqm(Exact, -a, |i, j| -x[i][j]); });
    contract(&format!("Matrix<T,{},{}>::zero", M, N), FREE, || { eqm(Exact, Matrix::<E, M, N>::zero(), |_, _| E::zero()); });
    contract(&format!("Matrix<T,{},{}>::set_zero", M, N), FREE, || { let mut a = m::<M, N>("a"); a.set_zero(); eqm(Exact, a, |_, _| E::zero()); });
    contract(&format!("Matrix<T,{},{}>::is_zero", M, N), FREE, || { let a = m::<M, N>("a"); let x = ma(a); let r = a.is_zero(); same("is_zero iff every entry is zero", r, x.iter().all(|r| r.iter().all(|e| e.is_zero()))); });
    concrete(&format!("Matrix<i32,{},{}>::is_zero, one nonzero entry anywhere", M, N), || { for i in 0..M { for j in 0..N { for k in [1, -1, i32::MIN, i32::MAX] { let mut a = [[0i32; N]; M]; a[i][j] = k; holds(&format!("entry ({},{}) = {}", i, j, k), !Matrix::from_array_of_arrays(a).is_zero()); } } } holds("zero matrix", Matrix::<i32, M, N>::zero().is_zero()); });
}
fn main() { sxcore::main("C02", || {
    mdims!(add); mdims!(sub); mdims!(mul); mdims!(div); mdims!(rem); mdims!(muls); mdims!(divs); mdims!(rems); mdims!(negz);
    concrete("Matrix<f64,2,2> operators on floats", || {
        let d = [0.0, -0.0, 1.0, 0.1, -7.25, 1e300, f64::INFINITY, f64::NAN];
        for &a in &d { for &b in &d { let (x, y) = (Matrix::from_array_of_arrays([[a, 2.0], [b, 3.0]]), Matrix::from_array_of_arrays([[b, a], [5.0, a]]));
            let ck = |l: &str, r: Matrix<f64, 2, 2>, f: fn(f64, f64) -> f64| { let r = r.into_array_of_arrays(); let w = [[f(a, b), f(2.0, a)], [f(b, 5.0), f(3.0, a)]]; for i in 0..2 { for j in 0..2 { holds(&format!("{} at ({},{}) for a={} b={}", l, i, j, a, b), bits(r[i][j], w[i][j])); } } };
            ck("+", x + y, |a, b| a + b); ck("-", x - y, |a, b| a - b); ck("*", x * y, |a, b| a * b); ck("/", x / y, |a, b| a / b); ck("%", x % y, |a, b| a % b); } }
    });
}) }
