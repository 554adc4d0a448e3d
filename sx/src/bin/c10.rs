use sx::*;
use std::cell::RefCell;
fn mk<T: El, const N: usize>(o: usize) -> Vector<T, N> { Vector::from_array(std::array::from_fn(|i| T::mk(i + o))) }
fn ids<T: El>(r: std::ops::Range<usize>) -> Vec<T> { r.map(T::mk).collect() }
fn mm<T: El, const M: usize, const N: usize>(o: usize) -> Matrix<T, M, N> { Matrix::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| T::mk(i * N + j + o)))) }
fn fl<T: Clone, const M: usize, const N: usize>(m: Matrix<T, M, N>) -> Vec<T> { m.into_array_of_arrays().iter().flatten().cloned().collect() }
fn vecs<T: El, const N: usize>() {
    let n = |s: &str| format!("Vector<{},{}>::{}", T::NAME, N, s);
    concrete(&n("map"), || { let mut log = vec![]; let mut k = 0usize; let r = mk::<T, N>(0).map(|x| { log.push(x); k += 1; (k - 1) * 3 }); same("visited", log, ids(0..N)); same("results at their positions", r.into_array().to_vec(), (0..N).map(|i| i * 3).collect::<Vec<_>>()); });
    concrete(&n("zip, unzip"), || { let z = mk::<T, N>(0).zip(mk::<u64, N>(40)); same("zip", z.clone().into_array().to_vec(), (0..N).map(|i| (T::mk(i), u64::mk(i + 40))).collect::<Vec<_>>()); let (a, b) = z.unzip(); same("unzip left", a.into_array().to_vec(), ids(0..N)); same("unzip right", b.into_array().to_vec(), (0..N).map(|i| u64::mk(i + 40)).collect::<Vec<_>>()); let (a, b) = mk::<String, N>(7).zip(mk::<T, N>(1)).unzip(); same("unzip left", a.into_array().to_vec(), ids::<String>(7..N + 7)); same("unzip right", b.into_array().to_vec(), ids(1..N + 1)); });
    concrete(&n("enumerate, indices"), || { same("enumerate", mk::<T, N>(0).enumerate().into_array().to_vec(), (0..N).map(|i| (i, T::mk(i))).collect::<Vec<_>>()); same("indices", Vector::<usize, N>::indices().into_array().to_vec(), (0..N).collect::<Vec<_>>()); });
    concrete(&n("for_each"), || { let mut log = vec![]; mk::<T, N>(0).for_each(|x| log.push(x)); same("visited", log, ids(0..N)); });
    concrete(&n("fold"), || { let r = mk::<T, N>(0).fold(vec![], |mut s, x| { s.push(x); s }); same("folded", r, ids(0..N)); });
    if N > 0 { concrete(&n("fold_first"), || { let mut calls = vec![]; let mut acc = 1000usize; let r = mk::<T, N>(0).fold_first(|a, b| { calls.push((a, b)); acc += 1; T::mk(acc) }); let want: Vec<(T, T)> = (1..N).map(|i| (if i == 1 { T::mk(0) } else { T::mk(1000 + i - 1) }, T::mk(i))).collect(); same("accumulator and element of every call", calls, want); same("result", r, if N == 1 { T::mk(0) } else { T::mk(1000 + N - 1) }); }); }
    concrete(&n("scan"), || { let r = mk::<T, N>(0).scan(10usize, |s, x| { let o = (*s, x); *s = *s * 2 % 1000003 + 1; o }); let mut s = 10usize; same("states and elements", r.into_array().to_vec(), (0..N).map(|i| { let o = (s, T::mk(i)); s = s * 2 % 1000003 + 1; o }).collect::<Vec<_>>()); });
}
fn mats<T: El, const M: usize, const N: usize>() {
    let n = |s: &str| format!("Matrix<{},{},{}>::{}", T::NAME, M, N, s); let t = M * N;
    concrete(&n("map"), || { let mut log = vec![]; let mut k = 0usize; let r = mm::<T, M, N>(0).map(|x| { log.push(x); k += 1; (k - 1) * 3 }); same("visited row by row", log, ids(0..t)); same("results at their positions", fl(r), (0..t).map(|i| i * 3).collect::<Vec<_>>()); });
    concrete(&n("zip, unzip"), || { let z = mm::<T, M, N>(0).zip(mm::<u64, M, N>(40)); same("zip", fl(z.clone()), (0..t).map(|i| (T::mk(i), u64::mk(i + 40))).collect::<Vec<_>>()); let (a, b) = z.unzip(); same("unzip left", fl(a), ids(0..t)); same("unzip right", fl(b), (0..t).map(|i| u64::mk(i + 40)).collect::<Vec<_>>()); let (a, b) = mm::<String, M, N>(7).zip(mm::<T, M, N>(1)).unzip(); same("unzip left", fl(a), ids::<String>(7..t + 7)); same("unzip right", fl(b), ids(1..t + 1)); });
    concrete(&n("indices"), || { same("indices", Matrix::<(usize, usize), M, N>::indices().into_array_of_arrays(), std::array::from_fn(|i| std::array::from_fn(|j| (i, j)))); });
    concrete(&n("for_each"), || { let mut log = vec![]; mm::<T, M, N>(0).for_each(|x| log.push(x)); same("visited", log, ids(0..t)); });
    concrete(&n("fold"), || { let log = RefCell::new(vec![]); let r = mm::<T, M, N>(0).fold(0usize, |s, x| { log.borrow_mut().push((s, x)); s * 2 % 1000003 + 1 }); let mut s = 0usize; let want: Vec<(usize, T)> = (0..t).map(|i| { let o = (s, T::mk(i)); s = s * 2 % 1000003 + 1; o }).collect(); same("folded row by row", log.into_inner(), want); same("result", r, s); });
    if t > 0 { concrete(&n("fold_first"), || { let mut calls = vec![]; let mut acc = 1000usize; let r = mm::<T, M, N>(0).fold_first(|a, b| { calls.push((a, b)); acc += 1; T::mk(acc) }); let want: Vec<(T, T)> = (1..t).map(|i| (if i == 1 { T::mk(0) } else { T::mk(1000 + i - 1) }, T::mk(i))).collect(); same("accumulator and element of every call", calls, want); same("result", r, if t == 1 { T::mk(0) } else { T::mk(1000 + t - 1) }); }); }
    concrete(&n("scan"), || { let r = mm::<T, M, N>(0).scan(10usize, |s, x| { let o = (*s, x); *s = *s * 2 % 1000003 + 1; o }); let mut s = 10usize; same("states and elements", fl(r), (0..t).map(|i| { let o = (s, T::mk(i)); s = s * 2 % 1000003 + 1; o }).collect::<Vec<_>>()); });
}
fn sums<const N: usize>() { for k in [0usize, 1, 2, 3, 5, 17] {
    contract(&format!("sum and product of {} vectors of length {}", k, N), FREE, || { let xs: Vec<Vector<E, N>> = (0..k).map(|i| v::<N>(&format!("a{}_", i))).collect();
        let fold = |i: usize, f: fn(E, E) -> E, z: E| (xs.iter().map(|x| va(*x)[i]).fold(z, f), if k > 0 { xs[1..].iter().map(|x| va(*x)[i]).fold(va(xs[0])[i], f) } else { z });
        let (r, p) = (va(xs.iter().copied().sum::<Vector<E, N>>()), va(xs.iter().copied().product::<Vector<E, N>>())); count_check();
        for i in 0..N { let w = fold(i, |a, b| a + b, E::zero()); if !r[i].same(w.1) { exact(&format!("sum component {}", i), r[i], w.0); } let w = fold(i, |a, b| a * b, E::one()); if !p[i].same(w.1) { exact(&format!("product component {}", i), p[i], w.0); } } });
} }
fn msums<const M: usize, const N: usize>() { for k in [0usize, 1, 2, 4] {
    contract(&format!("sum and product of {} matrices {}x{}", k, M, N), FREE, || { let xs: Vec<Matrix<E, M, N>> = (0..k).map(|i| m::<M, N>(&format!("a{}_", i))).collect();
        let fold = |i: usize, j: usize, f: fn(E, E) -> E, z: E| (xs.iter().map(|x| ma(*x)[i][j]).fold(z, f), if k > 0 { xs[1..].iter().map(|x| ma(*x)[i][j]).fold(ma(xs[0])[i][j], f) } else { z });
        let (r, p) = (ma(xs.iter().copied().sum::<Matrix<E, M, N>>()), ma(xs.iter().copied().product::<Matrix<E, M, N>>())); count_check();
        for i in 0..M { for j in 0..N { let w = fold(i, j, |a, b| a + b, E::zero()); if !r[i][j].same(w.1) { exact(&format!("sum entry ({},{})", i, j), r[i][j], w.0); } let w = fold(i, j, |a, b| a * b, E::one()); if !p[i][j].same(w.1) { exact(&format!("product entry ({},{})", i, j), p[i][j], w.0); } } } });
} }
fn main() { sxcore::main("C10", || {
    vdims_t!(vecs, u8); vdims_t!(vecs, String); mdims_t!(mats, u64); mdims_t!(mats, String); vdims!(sums); mdims!(msums);
    macro_rules! few { ($($T:ty)*) => { $( vecs::<$T, 0>(); vecs::<$T, 1>(); vecs::<$T, 2>(); vecs::<$T, 3>(); vecs::<$T, 5>(); mats::<$T, 2, 3>(); mats::<$T, 3, 2>(); mats::<$T, 2, 2>(); mats::<$T, 0, 2>(); mats::<$T, 2, 0>(); )* } }
    few!([u16; 3] el::Pair Box<usize> el::Unit0 el::Al f64);
}) }
