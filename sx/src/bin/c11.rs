use sx::*;
use vecmat::matrix::FlatIter;
fn mm<T: El, const M: usize, const N: usize>(o: usize) -> Matrix<T, M, N> { Matrix::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| T::mk(i * N + j + o)))) }
fn drain<T, I: Iterator<Item = T>>(mut it: I, max: usize) -> Vec<T> { let mut v = vec![]; while let Some(x) = it.next() { v.push(x); if v.len() > max + 5 { break; } } for _ in 0..4 { holds("nothing more after the last entry", it.next().is_none()); } v }
fn mats<T: El, const M: usize, const N: usize>() {
    let n = |s: &str| format!("Matrix<{},{},{}>: {}", T::NAME, M, N, s); let t = M * N; let ids = |o: usize| (o..t + o).map(T::mk).collect::<Vec<T>>();
    concrete(&n("by value"), || { same("entries, row by row", drain(mm::<T, M, N>(0).into_iter(), t), ids(0)); let mut c = vec![]; for x in mm::<T, M, N>(0) { c.push(x); } same("for loop", c, ids(0)); same("collected", mm::<T, M, N>(0).into_iter().collect::<Vec<T>>(), ids(0)); });
    concrete(&n("by reference"), || { let x = mm::<T, M, N>(0); same("iter", drain(x.iter(), t).into_iter().cloned().collect::<Vec<T>>(), ids(0)); same("&into_iter", drain((&x).into_iter(), t).into_iter().cloned().collect::<Vec<T>>(), ids(0)); for (k, r) in x.iter().enumerate() { holds("references into the matrix", N > 0 && r as *const T == &x[(k / N, k % N)] as *const T); } let (lo, hi) = x.iter().size_hint(); holds("size hint is sound", lo <= t && hi.map_or(true, |h| h >= t)); });
    concrete(&n("by mutable reference"), || { let mut x = mm::<T, M, N>(0); let mut k = 0; for e in x.iter_mut() { same("visited entry", &*e, &T::mk(k)); *e = T::mk(k + 60); k += 1; } same("entries visited", k, t); same("entries after writing", x.clone().into_array_of_arrays().iter().flatten().cloned().collect::<Vec<T>>(), ids(60));
        let mut k = 0; for e in &mut x { *e = T::mk(k); k += 1; } same("entries visited", k, t); same("after writing through &mut", x.clone().into_array_of_arrays().iter().flatten().cloned().collect::<Vec<T>>(), ids(0));
        for stop in 0..=t.min(8) { let mut x = mm::<T, M, N>(0); for e in x.iter_mut().take(stop) { *e = T::mk(99); } let w: Vec<T> = (0..t).map(|k| if k < stop { T::mk(99) } else { T::mk(k) }).collect(); same(&format!("only the {} visited entries changed", stop), x.into_array_of_arrays().iter().flatten().cloned().collect::<Vec<T>>(), w); }
        let mut x = mm::<T, M, N>(0); let mut it = x.iter_mut(); let mut c = 0; while it.next().is_some() { c += 1; } holds("then nothing more", it.next().is_none() && it.next().is_none()); same("count", c, t); });
    concrete(&n("adaptors"), || { same("nth", (0..t + 2).map(|k| mm::<T, M, N>(0).into_iter().nth(k)).collect::<Vec<_>>(), (0..t + 2).map(|k| if k < t { Some(T::mk(k)) } else { None }).collect::<Vec<_>>()); same("count", mm::<T, M, N>(0).into_iter().count(), t); same("last", mm::<T, M, N>(0).into_iter().last(), if t > 0 { Some(T::mk(t - 1)) } else { None }); same("skip", mm::<T, M, N>(0).iter().skip(2).cloned().collect::<Vec<T>>(), ids(0).into_iter().skip(2).collect::<Vec<T>>()); same("fold", mm::<T, M, N>(0).into_iter().fold(vec![], |mut s, x| { s.push(x); s }), ids(0)); });
}
fn flat_case(shape: &[usize]) {
    concrete(&format!("FlatIter over inner lengths {:?}", shape), || {
        let mut k = 0; let outer: Vec<Vec<usize>> = shape.iter().map(|n| (0..*n).map(|_| { k += 1; k - 1 }).collect()).collect();
        let want: Vec<usize> = (0..k).collect();
        match FlatIter::new(outer.clone().into_iter()) { None => holds("no iterator only for an empty outer sequence", shape.is_empty()), Some(it) => same("concatenation", drain(it, k), want.clone()) }
        match FlatIter::new(outer.iter()) { None => holds("no iterator only for an empty outer sequence", shape.is_empty()), Some(it) => same("by reference", drain(it, k).into_iter().copied().collect::<Vec<_>>(), want.clone()) }
        let mut o2 = outer.clone(); if let Some(it) = FlatIter::new(o2.iter_mut()) { for x in it { *x += 100; } } same("writing", o2.into_iter().flatten().collect::<Vec<_>>(), want.iter().map(|x| x + 100).collect::<Vec<_>>());
        if let Some(it) = FlatIter::new(shape.iter().map(|n| 0..*n)) { same("of ranges", it.collect::<Vec<_>>(), shape.iter().flat_map(|n| 0..*n).collect::<Vec<_>>()); }
        // laziness: nothing is pulled beyond what was asked for
        for stop in 0..=k.min(6) { let pulled = std::cell::Cell::new(0usize); let it = shape.iter().map(|n| { pulled.set(pulled.get() + 1); 0..*n }); if let Some(it) = FlatIter::new(it) { let g = it.take(stop).count(); same("taken", g, stop.min(k)); } let _ = pulled; }
        count_check();
    });
}
fn main() { sxcore::main("C11", || {
    mdims_t!(mats, u64); mdims_t!(mats, String);
    macro_rules! few { ($($T:ty)*) => { $( mats::<$T, 0, 0>(); mats::<$T, 0, 2>(); mats::<$T, 2, 0>(); mats::<$T, 1, 1>(); mats::<$T, 2, 3>(); mats::<$T, 3, 2>(); mats::<$T, 1, 4>(); mats::<$T, 4, 1>(); )* } }
    few!(u8 [u16; 3] el::Pair Box<usize> el::Al);
    // every outer sequence of up to 5 inner sequences of length 0..3
    let mut shapes: Vec<Vec<usize>> = vec![vec![]]; let mut cur: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..5 { let mut nx = vec![]; for s in &cur { for l in 0..4 { let mut t = s.clone(); t.push(l); nx.push(t); } } shapes.extend(nx.clone()); cur = nx; }
    shapes.push(vec![0; 40]); shapes.push(vec![1; 40]); shapes.push((0..20).collect()); shapes.push((0..20).map(|i| (i * 7) % 5).collect()); shapes.push([vec![3], vec![0; 30], vec![2]].concat());
    for s in &shapes { flat_case(s); }
}) }
