use sx::*;
use std::cell::Cell;
use vecmat::vector::GroupIter;
/// An iterator that counts how often it was asked, and (optionally) resumes after having returned None.
struct Src<'a, T: El> { pos: usize, len: usize, asked: &'a Cell<usize>, given: &'a Cell<usize>, lie: u8, p: std::marker::PhantomData<T>, resume: bool, ended: bool }
fn src<'a, T: El>(len: usize, asked: &'a Cell<usize>, given: &'a Cell<usize>, lie: u8, resume: bool) -> Src<'a, T> { asked.set(0); given.set(0); Src { pos: 0, len, asked, given, lie, p: Default::default(), resume, ended: false } }
impl<'a, T: El> Iterator for Src<'a, T> { type Item = T;
    fn next(&mut self) -> Option<T> { self.asked.set(self.asked.get() + 1); if self.pos < self.len { self.pos += 1; self.given.set(self.given.get() + 1); Some(T::mk(self.pos - 1)) } else { if self.resume && !self.ended { self.ended = true; self.len += 40; } None } }
    fn size_hint(&self) -> (usize, Option<usize>) { let r = self.len - self.pos; match self.lie { 0 => (r, Some(r)), 1 => (0, None), 2 => (0, Some(0)), 3 => (r + 100, Some(r + 100)), 4 => (usize::MAX, None), _ => (r, None) } }
}
fn lens(n: usize) -> Vec<usize> { let mut v: Vec<usize> = (0..n.min(20)).collect(); v.extend([n.saturating_sub(1), n, n + 1, n + 2, n + 7, 2 * n, 2 * n + 1, 3 * n]); v.sort(); v.dedup(); v }
fn vec_c<T: El, const N: usize>() { for len in lens(N) { for lie in 0..6u8 { for resume in [false, true] {
    concrete(&format!("Vector<{},{}>::try_from_iter, {} items, size hint variant {}, resuming {}", T::NAME, N, len, lie, resume), || {
        let (a, g) = (Cell::new(0), Cell::new(0));
        let mut it = src::<T>(len, &a, &g, lie, resume);
        let r = Vector::<T, N>::try_from_iter(&mut it);
        same("succeeds exactly when enough items", r.is_some(), len >= N);
        if let Some(v) = r { same("first items, in order", v.into_array().to_vec(), (0..N).map(T::mk).collect::<Vec<_>>()); same("items consumed", g.get(), N); same("iterator not asked beyond the last needed item", a.get(), N); same("next item of the iterator", it.next(), if len > N { Some(T::mk(N)) } else { None }); }
        else { same("all available items were consumed", g.get(), len); holds("asked at most once past the end", a.get() <= len + 1); }
    });
} } } }
fn mat_c<T: El, const M: usize, const N: usize>() { for len in lens(M * N) { for lie in 0..6u8 { for resume in [false, true] {
    concrete(&format!("Matrix<{},{},{}>::try_from_iter, {} items, size hint variant {}, resuming {}", T::NAME, M, N, len, lie, resume), || {
        let (a, g) = (Cell::new(0), Cell::new(0)); let mut it = src::<T>(len, &a, &g, lie, resume); let r = Matrix::<T, M, N>::try_from_iter(&mut it);
        same("succeeds exactly when enough items", r.is_some(), len >= M * N);
        if let Some(x) = r { same("first items, row by row", x.into_array_of_arrays().iter().flatten().cloned().collect::<Vec<_>>(), (0..M * N).map(T::mk).collect::<Vec<_>>()); same("items consumed", g.get(), M * N); same("not asked beyond", a.get(), M * N); same("next item of the iterator", it.next(), if len > M * N { Some(T::mk(M * N)) } else { None }); }
        else { same("all available items were consumed", g.get(), len); holds("asked at most once past the end", a.get() <= len + 1); }
    });
} } } 
    for rows in lens(M) { concrete(&format!("Matrix<{},{},{}>::try_from_iter_of_vectors, {} rows", T::NAME, M, N, rows), || { let k = Cell::new(0); let mut it = (0..rows).map(|i| { k.set(k.get() + 1); Vector::<T, N>::from_array(std::array::from_fn(|j| T::mk(i * N + j))) }); let r = Matrix::<T, M, N>::try_from_iter_of_vectors(&mut it); same("succeeds exactly when enough rows", r.is_some(), rows >= M); if let Some(x) = r { same("rows in order", x.into_array_of_arrays().iter().flatten().cloned().collect::<Vec<_>>(), (0..M * N).map(T::mk).collect::<Vec<_>>()); same("rows consumed", k.get(), M); } }); }
}
fn group_c<T: El, const N: usize>() { for len in lens(N).into_iter().chain([5 * N + N / 2]) { for lie in [0, 1, 3u8] {
    concrete(&format!("GroupIter<{},{}>, {} items, size hint variant {}", T::NAME, N, len, lie), || {
        let (a, g) = (Cell::new(0), Cell::new(0)); let mut it = GroupIter::<_, N>::new(src::<T>(len, &a, &g, lie, false));
        let groups = if N == 0 { 4 } else { len / N };
        for k in 0..groups { let r = it.next(); holds(&format!("group {} is there", k), r.is_some()); same("its items", r.unwrap().into_array().to_vec(), (k * N..(k + 1) * N).map(T::mk).collect::<Vec<_>>()); same("items consumed so far", g.get(), (k + 1) * N); same("not asked beyond", a.get(), (k + 1) * N); }
        if N > 0 { holds("stops at the incomplete group", it.next().is_none()); same("leftover consumed", g.get(), len); }
    });
} } }
fn idx<const N: usize>() { concrete(&format!("Vector<usize,{}>::indices", N), || same("positions", Vector::<usize, N>::indices().into_array(), std::array::from_fn(|i| i))); }
fn main() { sxcore::main("C08", || {
    vdims_t!(vec_c, u8); vdims_t!(vec_c, String); vdims_t!(group_c, u8); vdims!(idx); mdims_t!(mat_c, u8);
    macro_rules! few { ($($T:ty)*) => { $( vec_c::<$T, 0>(); vec_c::<$T, 1>(); vec_c::<$T, 2>(); vec_c::<$T, 3>(); vec_c::<$T, 4>(); group_c::<$T, 1>(); group_c::<$T, 2>(); group_c::<$T, 3>(); mat_c::<$T, 2, 3>(); mat_c::<$T, 3, 2>(); mat_c::<$T, 0, 2>(); mat_c::<$T, 2, 0>(); )* } }
    few!([u16; 3] (u8, u32) Box<usize> () el::Al);
}) }
