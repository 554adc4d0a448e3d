use sx::*;
use std::convert::TryFrom;
use std::fmt::Debug;
fn raw<T, const M: usize, const N: usize>(v: &Matrix<T, M, N>) -> &[[T; N]; M] { assert!(std::mem::size_of::<Matrix<T, M, N>>() == std::mem::size_of::<[[T; N]; M]>(), "layout"); unsafe { &*(v as *const _ as *const [[T; N]; M]) } }
fn id(i: usize, j: usize, n: usize) -> usize { i * n + j }
fn arr<T: El, const M: usize, const N: usize>() -> [[T; N]; M] { std::array::from_fn(|i| std::array::from_fn(|j| T::mk(id(i, j, N)))) }
fn rows<T: El, const M: usize, const N: usize>() -> [Vector<T, N>; M] { arr::<T, M, N>().map(Vector::from_array) }
fn mk<T: El, const M: usize, const N: usize>() -> Matrix<T, M, N> { Matrix::from_vector_of_vectors(Vector::from_array(rows())) }
fn is<T: PartialEq + Debug, const M: usize, const N: usize>(l: &str, v: &Matrix<T, M, N>, w: &[[T; N]; M]) { same(l, raw(v), w) }
fn any_el<T: El, const M: usize, const N: usize>() {
    let n = |s: &str| format!("Matrix<{},{},{}>: {}", T::NAME, M, N, s);
    concrete(&n("construction and conversion"), || {
        let a = arr::<T, M, N>();
        is("from_vector_of_vectors", &mk::<T, M, N>(), &a); is("from_array_of_vectors", &Matrix::from_array_of_vectors(rows::<T, M, N>()), &a); is("from_array_of_arrays", &Matrix::from_array_of_arrays(a.clone()), &a);
        is("From<Vector<Vector>>", &Matrix::from(Vector::from_array(rows::<T, M, N>())), &a); is("From<[Vector;M]>", &Matrix::from(rows::<T, M, N>()), &a); is("From<[[T;N];M]>", &Matrix::from(a.clone()), &a);
        let vv = |v: Vector<Vector<T, N>, M>| v.into_array().map(|r| r.into_array());
        same("into_vector_of_vectors", vv(mk().into_vector_of_vectors()), a.clone()); same("into_array_of_vectors", mk::<T, M, N>().into_array_of_vectors().map(|r| r.into_array()), a.clone()); same("into_array_of_arrays", mk::<T, M, N>().into_array_of_arrays(), a.clone());
        let x: Vector<Vector<T, N>, M> = mk().into(); same("Into<Vector<Vector>>", vv(x), a.clone()); let x: [Vector<T, N>; M] = mk().into(); same("Into<[Vector;M]>", x.map(|r| r.into_array()), a.clone()); let x: [[T; N]; M] = mk().into(); same("Into<[[T;N];M]>", x, a.clone());
        is("clone", &mk::<T, M, N>().clone(), &a);
    });
    concrete(&n("views"), || {
        let a = arr::<T, M, N>(); let v = mk::<T, M, N>();
        let vv = |v: &Vector<Vector<T, N>, M>| v.clone().into_array().map(|r| r.into_array());
        same("as_vector_of_vectors", vv(v.as_vector_of_vectors()), a.clone()); same("as_ref", vv(v.as_ref()), a.clone()); let r: &Vector<Vector<T, N>, M> = (&v).into(); same("From<&Matrix> for &Vector<Vector>", vv(r), a.clone());
        same("as_array_of_vectors", v.as_array_of_vectors().clone().map(|r| r.into_array()), a.clone()); same("as_array_of_arrays", v.as_array_of_arrays(), &a); let r: &[[T; N]; M] = (&v).into(); same("From<&Matrix> for &[[T;N];M]", r, &a);
        holds("views do not move", v.as_array_of_arrays() as *const _ as usize == &v as *const _ as usize && v.as_ptr() as usize == &v as *const _ as usize);
        for i in 0..M { same(&format!("row_ref {}", i), v.row_ref(i).clone().into_array(), a[i].clone()); for j in 0..N { same(&format!("[({},{})]", i, j), &v[(i, j)], &a[i][j]); same(&format!("get_unchecked({},{})", i, j), unsafe { v.get_unchecked(i, j) }, &a[i][j]); same(&format!("as_ptr + {}*N+{}", i, j), unsafe { &*v.as_ptr().add(i * N + j) }, &a[i][j]); } }
    });
    concrete(&n("mutable views change that entry and no other"), || {
        count_check();
        for i in 0..M { for j in 0..N { let x = T::mk(id(i, j, N) + 100); let mut w = arr::<T, M, N>(); w[i][j] = x.clone();
            let ck = |l: &str, f: &dyn Fn(&mut Matrix<T, M, N>)| { let mut v = mk::<T, M, N>(); f(&mut v); is(&format!("{} at ({},{})", l, i, j), &v, &w); };
            ck("IndexMut", &|v| v[(i, j)] = x.clone()); ck("row_mut", &|v| v.row_mut(i)[j] = x.clone()); ck("as_mut_vector_of_vectors", &|v| v.as_mut_vector_of_vectors()[i][j] = x.clone()); ck("as_mut_array_of_vectors", &|v| v.as_mut_array_of_vectors()[i][j] = x.clone()); ck("as_mut_array_of_arrays", &|v| v.as_mut_array_of_arrays()[i][j] = x.clone());
            ck("as_mut", &|v| { let r: &mut Vector<Vector<T, N>, M> = v.as_mut(); r[i][j] = x.clone(); }); ck("From<&mut Matrix> for &mut Vector", &|v| { let r: &mut Vector<Vector<T, N>, M> = v.into(); r[i][j] = x.clone(); }); ck("From<&mut Matrix> for &mut [[T;N];M]", &|v| { let r: &mut [[T; N]; M] = v.into(); r[i][j] = x.clone(); });
            ck("as_mut_ptr", &|v| unsafe { *v.as_mut_ptr().add(i * N + j) = x.clone() }); ck("get_unchecked_mut", &|v| unsafe { *v.get_unchecked_mut(i, j) = x.clone() });
        } }
    });
    concrete(&n("init calls the closure row by row"), || { let mut k = 0; let v = Matrix::<T, M, N>::init(|| { k += 1; T::mk(k - 1) }); is("init", &v, &arr()); same("calls", k, M * N); });
    concrete(&n("iterators"), || {
        let all = || (0..M * N).map(T::mk);
        for extra in [0usize, 1, 5] { let v = Matrix::<T, M, N>::try_from_iter((0..M * N + extra).map(T::mk)); holds("try_from_iter succeeds", v.is_some()); is("try_from_iter", &v.unwrap(), &arr()); let v = Matrix::<T, M, N>::try_from_iter_of_vectors((0..M + extra).map(|i| Vector::from_array(std::array::from_fn(|j| T::mk(id(i, j, N)))))); holds("try_from_iter_of_vectors succeeds", v.is_some()); is("try_from_iter_of_vectors", &v.unwrap(), &arr()); }
        let _ = all;
    });
    concrete(&n("index outside the shape panics"), || {
        let mut v = mk::<T, M, N>();
        let mut bad = vec![(M, N), (M, 0), (0, N), (M + 1, 0), (0, N + 1), (usize::MAX, 0), (0, usize::MAX), (usize::MAX, usize::MAX), (M, usize::MAX)];
        if M > 0 { for k in 0..=N + M { bad.push((M - 1, N + k)); } bad.push((M - 1, N)); } if N > 0 { for k in 0..=N + M { bad.push((M + k, N - 1)); } } for i in 0..M { bad.push((i, N)); } for j in 0..N { bad.push((M, j)); }
        for (i, j) in bad { let r = catch_unwind(AssertUnwindSafe(|| { let _ = &v[(i, j)]; })).is_err(); holds(&format!("[({},{})] panics", i, j), r); let r = catch_unwind(AssertUnwindSafe(|| { v[(i, j)] = T::mk(0); })).is_err(); holds(&format!("[({},{})] = x panics", i, j), r); }
        for i in [M, M + 1, 2 * M + 3, usize::MAX] { holds("row_ref outside panics", catch_unwind(AssertUnwindSafe(|| { let _ = v.row_ref(i); })).is_err()); holds("row_mut outside panics", catch_unwind(AssertUnwindSafe(|| { let _ = v.row_mut(i); })).is_err()); }
        is("unchanged", &v, &arr());
    });
}
fn copy_el<T: El + Copy, const M: usize, const N: usize>() {
    let n = |s: &str| format!("Matrix<{},{},{}>: {}", T::NAME, M, N, s);
    concrete(&n("fill, references, rows, columns, slices"), || {
        let a = arr::<T, M, N>(); let v = mk::<T, M, N>();
        is("fill", &Matrix::<T, M, N>::fill(T::mk(3)), &[[T::mk(3); N]; M]); is("fill_ref", &Matrix::<T, M, N>::fill_ref(&T::mk(4)), &[[T::mk(4); N]; M]);
        is("From<&Vector<Vector>>", &Matrix::from(&Vector::from_array(rows::<T, M, N>())), &a); is("From<&[Vector;M]>", &Matrix::from(&rows::<T, M, N>()), &a); is("From<&[[T;N];M]>", &Matrix::from(&a), &a);
        for i in 0..M { same(&format!("row {}", i), v.row(i).into_array(), a[i]); } for j in 0..N { same(&format!("col {}", j), v.col(j).into_array(), std::array::from_fn(|i| a[i][j])); }
        for i in [M, M + 1] { holds("row outside panics", catch_unwind(AssertUnwindSafe(|| { let _ = v.row(i); })).is_err()); } if M > 0 { for j in [N, N + 1, M * N + 1] { holds("col outside panics", catch_unwind(AssertUnwindSafe(|| { let _ = v.col(j); })).is_err()); } }
        let all: Vec<T> = (0..2 * M * N + 3).map(T::mk).collect();
        for l in 0..all.len() { let r = Matrix::<T, M, N>::try_from(&all[..l]); same(&format!("flat slice of length {} accepted", l), r.is_ok(), l == M * N); if let Ok(x) = r { is("from slice", &x, &a); } }
        let vr: Vec<Vector<T, N>> = (0..2 * M + 3).map(|i| Vector::from_array(std::array::from_fn(|j| T::mk(id(i, j, N))))).collect();
        for l in 0..vr.len() { let r = Matrix::<T, M, N>::try_from(&vr[..l]); same(&format!("slice of {} rows accepted", l), r.is_ok(), l == M); if let Ok(x) = r { is("from row slice", &x, &a); } }
    });
}
fn defaults<const M: usize, const N: usize>() {
    contract(&format!("Matrix<T,{},{}>: default and new", M, N), FREE, || { eqmn(Exact, "default", Matrix::<E, M, N>::default(), |_, _| E::default()); eqmn(Exact, "new", Matrix::<E, M, N>::new(), |_, _| E::default()); });
    contract(&format!("Matrix<T,{},{}>: ==", M, N), FREE, || { let (a, b) = (m::<M, N>("a"), m::<M, N>("b")); let (x, y) = (ma(a), ma(b)); let r = a == b; same("equal iff every pair of entries is", r, (0..M).all(|i| (0..N).all(|j| x[i][j] == y[i][j]))); });
}
fn main() { sxcore::main("C07", || {
    mdims_t!(any_el, u64); mdims_t!(any_el, String); mdims_t!(copy_el, u64); mdims!(defaults);
    macro_rules! few { ($($T:ty)*) => { $( any_el::<$T, 0, 0>(); any_el::<$T, 0, 2>(); any_el::<$T, 2, 0>(); any_el::<$T, 1, 1>(); any_el::<$T, 2, 2>(); any_el::<$T, 2, 3>(); any_el::<$T, 3, 2>(); any_el::<$T, 4, 4>(); any_el::<$T, 5, 3>(); )* } }
    few!(u8 [u16; 3] (u8, u32) Box<usize> () el::Al);
    macro_rules! fewc { ($($T:ty)*) => { $( copy_el::<$T, 0, 0>(); copy_el::<$T, 0, 2>(); copy_el::<$T, 2, 0>(); copy_el::<$T, 1, 1>(); copy_el::<$T, 2, 3>(); copy_el::<$T, 3, 2>(); copy_el::<$T, 4, 4>(); )* } }
    fewc!(u8 [u16; 3] (u8, u32) el::Al);
}) }
