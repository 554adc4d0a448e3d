use sx::*;
use std::cmp::Ordering::{self, *};
// All outcomes of every comparison, unordered included, at every position.
fn rel(k: usize, o: Option<Ordering>) -> bool { match k { 0 => o == Some(Equal), 1 => o != Some(Equal), 2 => o == Some(Less), 3 => matches!(o, Some(Less | Equal)), 4 => o == Some(Greater), _ => matches!(o, Some(Greater | Equal)) } }
const NAMES: [&str; 6] = ["veq", "vne", "vlt", "vle", "vgt", "vge"];
fn call_v<const N: usize>(k: usize, a: Vector<E, N>, b: Vector<E, N>) -> [bool; N] { match k { 0 => a.veq(b), 1 => a.vne(b), 2 => a.vlt(b), 3 => a.vle(b), 4 => a.vgt(b), _ => a.vge(b) }.into_array() }
fn call_m<const M: usize, const N: usize>(k: usize, a: Matrix<E, M, N>, b: Matrix<E, M, N>) -> [[bool; N]; M] { match k { 0 => a.veq(b), 1 => a.vne(b), 2 => a.vlt(b), 3 => a.vle(b), 4 => a.vgt(b), _ => a.vge(b) }.into_array_of_arrays() }
fn opt(n: usize) -> Opt { if n <= 4 { FREE } else { Opt { search: Search::Sample(80), ..FREE } } }
fn cmpv<const N: usize>() { for k in 0..6 {
    contract(&format!("Vector<T,{}>::{}", N, NAMES[k]), opt(N), || { let (a, b) = (v::<N>("a"), v::<N>("b")); let (x, y) = (va(a), va(b)); let r = call_v(k, a, b); for i in 0..N { same(&format!("[{}]", i), r[i], rel(k, cmp4(x[i], y[i]))); } count_check(); });
    // one position at a time, every outcome (the other positions are the same element of a fixed order)
    for p in 0..N.min(20) { concrete(&format!("Vector<f64,{}>::{} at position {}", N, NAMES[k], p), || {
        for (q, o) in [(1.0, Some(Less)), (0.0, Some(Equal)), (-1.0, Some(Greater)), (f64::NAN, None)] { for (q2, o2) in [(1.0, Some(Less)), (0.0, Some(Equal)), (-1.0, Some(Greater)), (f64::NAN, None)] {
            let a = Vector::from_array([0.0f64; N]); let mut b = [q2; N]; b[p] = q; let b = Vector::from_array(b);
            let r = match k { 0 => a.veq(b), 1 => a.vne(b), 2 => a.vlt(b), 3 => a.vle(b), 4 => a.vgt(b), _ => a.vge(b) }.into_array();
            for i in 0..N { same(&format!("mask {}", i), r[i], rel(k, if i == p { o } else { o2 })); } } } }); }
} }
fn cmpm<const M: usize, const N: usize>() { for k in 0..6 {
    contract(&format!("Matrix<T,{},{}>::{}", M, N, NAMES[k]), opt(M * N), || { let (a, b) = (m::<M, N>("a"), m::<M, N>("b")); let (x, y) = (ma(a), ma(b)); let r = call_m(k, a, b); for i in 0..M { for j in 0..N { same(&format!("({},{})", i, j), r[i][j], rel(k, cmp4(x[i][j], y[i][j]))); } } count_check(); });
    concrete(&format!("Matrix<f64,{},{}>::{} one position at a time", M, N, NAMES[k]), || { count_check(); for p in 0..M { for c in 0..N {
        for (q, o) in [(1.0, Some(Less)), (0.0, Some(Equal)), (-1.0, Some(Greater)), (f64::NAN, None)] { for (q2, o2) in [(1.0, Some(Less)), (0.0, Some(Equal)), (-1.0, Some(Greater)), (f64::NAN, None)] {
            let a = Matrix::from_array_of_arrays([[0.0f64; N]; M]); let mut b = [[q2; N]; M]; b[p][c] = q; let b = Matrix::from_array_of_arrays(b);
            let r = match k { 0 => a.veq(b), 1 => a.vne(b), 2 => a.vlt(b), 3 => a.vle(b), 4 => a.vgt(b), _ => a.vge(b) }.into_array_of_arrays();
            for i in 0..M { for j in 0..N { same(&format!("mask ({},{})", i, j), r[i][j], rel(k, if (i, j) == (p, c) { o } else { o2 })); } } } } } } });
} }
fn bitv<const N: usize>() {
    contract(&format!("!Vector<T,{}>", N), FREE, || { let a = v::<N>("a"); let x = va(a); eqv(Exact, !a, |i| !x[i]); });
    macro_rules! o { ($($o:tt $ao:tt),*) => { $(
        contract(&format!("Vector<T,{}> {} Vector", N, stringify!($o)), FREE, || { let (a, b) = (v::<N>("a"), v::<N>("b")); let (x, y) = (va(a), va(b)); eqv(Exact, a $o b, |i| x[i] $o y[i]); });
        contract(&format!("Vector<T,{}> {} Vector", N, stringify!($ao)), FREE, || { let (mut a, b) = (v::<N>("a"), v::<N>("b")); let (x, y) = (va(a), va(b)); a $ao b; eqv(Exact, a, |i| x[i] $o y[i]); }); )* } }
    o!(& &=, | |=, ^ ^=);
    concrete(&format!("Vector<bool,{}> any/all and bitwise on bool", N), || {
        let lim = if N <= 9 { 1u64 << N } else { 0 };
        let mut pats: Vec<u64> = (0..lim).collect();
        if N > 9 { let full = if N >= 64 { u64::MAX } else { (1u64 << N) - 1 }; pats.push(0); pats.push(full); for i in 0..N.min(64) { pats.push(1 << i); pats.push(full & !(1 << i)); for j in 0..i { pats.push(1 << i | 1 << j); pats.push(full & !(1 << i | 1 << j)); } } }
        for p in pats { let a: [bool; N] = std::array::from_fn(|i| i < 64 && p >> i & 1 == 1); let x = Vector::from_array(a);
            same(&format!("any {:b}", p), x.any(), a.iter().any(|b| *b)); same(&format!("all {:b}", p), x.all(), a.iter().all(|b| *b));
            same("not", (!x).into_array(), a.map(|b| !b)); }
        count_check(); });
}
fn bitm<const M: usize, const N: usize>() {
    contract(&format!("!Matrix<T,{},{}>", M, N), FREE, || { let a = m::<M, N>("a"); let x = ma(a); eqm(Exact, !a, |i, j| !x[i][j]); });
    macro_rules! o { ($($o:tt $ao:tt),*) => { $(
        contract(&format!("Matrix<T,{},{}> {} Matrix", M, N, stringify!($o)), FREE, || { let (a, b) = (m::<M, N>("a"), m::<M, N>("b")); let (x, y) = (ma(a), ma(b)); eqm(Exact, a $o b, |i, j| x[i][j] $o y[i][j]); });
        contract(&format!("Matrix<T,{},{}> {} Matrix", M, N, stringify!($ao)), FREE, || { let (mut a, b) = (m::<M, N>("a"), m::<M, N>("b")); let (x, y) = (ma(a), ma(b)); a $ao b; eqm(Exact, a, |i, j| x[i][j] $o y[i][j]); }); )* } }
    o!(& &=, | |=, ^ ^=);
    concrete(&format!("Matrix<bool,{},{}> any/all", M, N), || {
        let t = M * N; let mut pats: Vec<u64> = if t <= 9 { (0..1u64 << t).collect() } else { vec![] };
        if t > 9 { let full = if t >= 64 { u64::MAX } else { (1u64 << t) - 1 }; pats.push(0); pats.push(full); for i in 0..t.min(64) { pats.push(1 << i); pats.push(full & !(1 << i)); for j in 0..i { pats.push(1 << i | 1 << j); pats.push(full & !(1 << i | 1 << j)); } } }
        for p in pats { let b = |k: usize| k < 64 && p >> k & 1 == 1; let a: [[bool; N]; M] = std::array::from_fn(|i| std::array::from_fn(|j| b(i * N + j))); let x = Matrix::from_array_of_arrays(a);
            same(&format!("any {:b}", p), x.any(), a.iter().any(|r| r.iter().any(|b| *b))); same(&format!("all {:b}", p), x.all(), a.iter().all(|r| r.iter().all(|b| *b))); }
        count_check(); });
}
fn main() { sxcore::main("C03", || {
    vdims!(cmpv); mdims!(cmpm); vdims!(bitv); mdims!(bitm);
    concrete("bitwise on machine integers", || { for a in 0..=255u8 { for b in (0..=255u8).step_by(5) { let (x, y) = (Vector::from_array([a, b, 7]), Vector::from_array([b, 3, a]));
        same("&", (x & y).into_array(), [a & b, b & 3, 7 & a]); same("|", (x | y).into_array(), [a | b, b | 3, 7 | a]); same("^", (x ^ y).into_array(), [a ^ b, b ^ 3, 7 ^ a]); same("!", (!x).into_array(), [!a, !b, !7]); } } });
}) }
