//! Ownership contracts: every element is tracked by identity in a ledger.
use sx::*;
use std::cell::RefCell;
use std::collections::BTreeSet;
use vecmat::vector::GroupIter;
#[derive(Default)] struct Ledger { alive: BTreeSet<u64>, next: u64, bad: Vec<String>, zst: i64 }
thread_local! { static L: RefCell<Ledger> = RefCell::new(Ledger::default()); }
fn led<R>(f: impl FnOnce(&mut Ledger) -> R) -> R { L.with(|l| f(&mut l.borrow_mut())) }
fn born() -> u64 { led(|l| { l.next += 1; let i = l.next; l.alive.insert(i); i }) }
fn died(id: u64, what: &str) { led(|l| if !l.alive.remove(&id) { l.bad.push(format!("{}: element {} dropped twice, or a slot that was never filled was dropped", what, id)); }) }
fn seen(id: u64, what: &str) { led(|l| if !l.alive.contains(&id) { l.bad.push(format!("{}: read of element {} which is not alive", what, id)); }) }
pub trait Tok: Sized + 'static { const NAME: &'static str; fn new() -> Self; fn look(&self) -> u64; }
macro_rules! tok { ($n:ident, $t:ty, $mk:expr, $get:expr, $chk:expr) => {
    pub struct $n($t);
    impl Tok for $n { const NAME: &'static str = stringify!($n); fn new() -> Self { let i = born(); $n($mk(i)) } fn look(&self) -> u64 { let i = $get(&self.0); if !$chk(&self.0) { led(|l| l.bad.push("read of a slot that was never filled".into())); } seen(i, stringify!($n)); i } }
    impl Drop for $n { fn drop(&mut self) { if !$chk(&self.0) { led(|l| l.bad.push("drop of a slot that was never filled".into())); } died($get(&self.0), stringify!($n)); } }
} }
tok!(TokWide, [u64; 3], |i: u64| [i, !i, i ^ 0xABCD_EF01_2345_6789], |x: &[u64; 3]| x[0], |x: &[u64; 3]| x[1] == !x[0] && x[2] == x[0] ^ 0xABCD_EF01_2345_6789);
tok!(TokSmall, u16, |i: u64| i as u16, |x: &u16| *x as u64, |_x: &u16| true);
tok!(TokBox, Box<(u64, u64)>, |i: u64| Box::new((i, !i)), |x: &Box<(u64, u64)>| x.0, |x: &Box<(u64, u64)>| x.1 == !x.0);
pub struct TokZst; 
impl Tok for TokZst { const NAME: &'static str = "zero-sized"; fn new() -> Self { led(|l| l.zst += 1); TokZst } fn look(&self) -> u64 { 0 } }
impl Drop for TokZst { fn drop(&mut self) { led(|l| { l.zst -= 1; if l.zst < 0 { l.bad.push("zero-sized element dropped twice".into()); } }) } }
impl<T: Tok> std::ops::Add for W<T> { type Output = W<T>; fn add(self, o: W<T>) -> W<T> { self.0.look(); o.0.look(); W(T::new()) } }
impl<T: Tok> std::ops::AddAssign for W<T> { fn add_assign(&mut self, o: W<T>) { o.0.look(); self.0 = T::new(); } }
impl<T: Tok> std::ops::Neg for W<T> { type Output = W<T>; fn neg(self) -> W<T> { self } }
pub struct W<T: Tok>(T);
impl<T: Tok> Default for W<T> { fn default() -> Self { W(T::new()) } }
impl<T: Tok> Clone for W<T> { fn clone(&self) -> Self { self.0.look(); W(T::new()) } }

/// run a scenario on a fresh ledger; `leak` = leaking is allowed (the scenario was abandoned by a panic)
fn own<T: Tok>(name: &str, leak: bool, f: impl Fn()) {
    concrete(&format!("{} [{}]", name, T::NAME), || {
        led(|l| *l = Ledger::default());
        let r = catch_unwind(AssertUnwindSafe(|| f()));
        let (alive, zst, bad) = led(|l| (l.alive.len(), l.zst, l.bad.clone()));
        count_check();
        if !bad.is_empty() { note_fail("no element is dropped twice, no unfilled slot is read or dropped", bad[0].clone(), "every element dropped once".into()); }
        if leak { holds("the injected panic propagates", r.is_err()); } else { holds("no panic", r.is_ok()); same("elements neither handed out nor dropped", (alive, zst), (0, 0)); }
    });
}
fn look_all<T: Tok, const N: usize>(v: &Vector<T, N>) { let mut s = BTreeSet::new(); let mut n = 0; for x in v.iter() { let i = x.look(); s.insert(i); n += 1; } if std::mem::size_of::<T>() > 0 { same("distinct elements", s.len(), N); } same("length", n, N); }
fn vt<T: Tok, const N: usize>() -> Vector<T, N> { Vector::from_array(std::array::from_fn(|_| T::new())) }
fn mt<T: Tok, const M: usize, const N: usize>() -> Matrix<T, M, N> { Matrix::from_vector_of_vectors(Vector::from_array(std::array::from_fn(|_| vt()))) }
fn look_m<T: Tok, const M: usize, const N: usize>(v: &Matrix<T, M, N>) { let mut s = BTreeSet::new(); for i in 0..M { for j in 0..N { s.insert(v[(i, j)].look()); } } if std::mem::size_of::<T>() > 0 { same("distinct elements", s.len(), M * N); } }
fn boom(k: &mut usize, at: usize) { if *k == at { panic!("injected"); } *k += 1; }
struct Bomb<T> { left: usize, boom: bool, p: std::marker::PhantomData<T> }
impl<T: Tok> Iterator for Bomb<T> { type Item = T; fn next(&mut self) -> Option<T> { if self.left == 0 { if self.boom { panic!("injected"); } return None; } self.left -= 1; Some(T::new()) } }
fn bomb<T: Tok>(left: usize, boom: bool) -> Bomb<T> { Bomb { left, boom, p: Default::default() } }

fn vecs<T: Tok, const N: usize>() {
    let n = |s: &str| format!("Vector<T,{}> {}", N, s);
    own::<T>(&n("created and dropped"), false, || { look_all(&vt::<T, N>()); });
    own::<T>(&n("init"), false, || { look_all(&Vector::<T, N>::init(T::new)); });
    own::<T>(&n("default, new, clone, add, neg, add_assign, sum by addition"), false, || { let d = Vector::<W<T>, N>::default(); let e = Vector::<W<T>, N>::new(); let f = d.clone(); let mut g = -(d + e); g += f; for x in g.iter() { x.0.look(); } if N > 0 { g.sum().0.look(); } });
    own::<T>(&n("array round trip"), false, || { let a: [T; N] = vt().into_array(); look_all(&Vector::from(a)); let b: [T; N] = vt().into(); for x in &b { x.look(); } });
    own::<T>(&n("uninit, filled, assume_init"), false, || { let mut u = Vector::<T, N>::uninit(); for x in u.iter_mut() { *x = std::mem::MaybeUninit::new(T::new()); } look_all(&unsafe { u.assume_init() }); let _never_filled = Vector::<T, N>::uninit(); });
    own::<T>(&n("replacing components"), false, || { let mut v = vt::<T, N>(); for i in 0..N { v[i] = T::new(); } for x in v.iter_mut() { *x = T::new(); } look_all(&v); });
    own::<T>(&n("map"), false, || { look_all(&vt::<T, N>().map(|x| { x.look(); x })); look_all(&vt::<T, N>().map(|x| { x.look(); TokWide::new() })); let _ = vt::<T, N>().map(|x| { x.look(); 1u8 }); let v: Vector<(T, T), N> = vt::<T, N>().map(|x| (x, T::new())); for p in v.iter() { p.0.look(); p.1.look(); } });
    own::<T>(&n("zip, unzip"), false, || { let (a, b) = vt::<T, N>().zip(vt::<TokWide, N>()).unzip(); look_all(&a); look_all(&b); let z = vt::<TokBox, N>().zip(vt::<T, N>()); for p in z.iter() { p.0.look(); p.1.look(); } let (a, b) = z.unzip(); look_all(&a); drop(b); });
    own::<T>(&n("enumerate, for_each, fold, scan"), false, || { for (_, x) in vt::<T, N>().enumerate() { x.look(); } vt::<T, N>().for_each(|x| { x.look(); }); let c = vt::<T, N>().fold(0, |c, x| { x.look(); c + 1 }); same("folded", c, N); look_all(&vt::<T, N>().scan(T::new(), |s, x| { s.look(); std::mem::replace(s, x) })); let _ = vt::<T, N>().fold(T::new(), |s, x| { s.look(); x }); });
    if N > 0 { own::<T>(&n("fold_first"), false, || { vt::<T, N>().fold_first(|a, b| { a.look(); b.look(); b }).look(); vt::<T, N>().fold_first(|a, b| { a.look(); b.look(); a }).look(); }); }
    own::<T>(&n("partially consumed iterator"), false, || { for k in 0..=N { let mut it = vt::<T, N>().into_iter(); for _ in 0..k { it.next().unwrap().look(); } let mut it = vt::<T, N>().into_iter(); for _ in 0..k { it.next_back().unwrap().look(); } } });
    for have in 0..N + 3 { own::<T>(&n(&format!("try_from_iter with {} items", have)), false, || { let r = Vector::<T, N>::try_from_iter(bomb::<T>(have, false)); same("succeeds", r.is_some(), have >= N); if let Some(v) = r { look_all(&v); } let mut it = bomb::<T>(have, false); let r = Vector::<T, N>::try_from_iter(&mut it); drop(r); for x in it { x.look(); } }); }
    for have in 0..2 * N + 2 { own::<T>(&n(&format!("GroupIter over {} items", have)), false, || { if N > 0 { for g in GroupIter::<_, N>::new(bomb::<T>(have, false)) { look_all(&g); } } }); }
    own::<T>(&n("forgotten without drop, then dropped through its array"), false, || { let a = std::mem::ManuallyDrop::new(vt::<T, N>()); let _b: Vector<T, N> = std::mem::ManuallyDrop::into_inner(a); });
    for at in 0..N {
        own::<T>(&n(&format!("init, closure panics at call {}", at)), true, || { let mut k = 0; let _ = Vector::<T, N>::init(|| { boom(&mut k, at); T::new() }); });
        own::<T>(&n(&format!("map, closure panics at call {}", at)), true, || { let mut k = 0; let _ = vt::<T, N>().map(|x| { boom(&mut k, at); x }); });
        own::<T>(&n(&format!("map to another type, closure panics at call {}", at)), true, || { let mut k = 0; let _ = vt::<T, N>().map(|x| { boom(&mut k, at); drop(x); TokBox::new() }); });
        own::<T>(&n(&format!("for_each, closure panics at call {}", at)), true, || { let mut k = 0; vt::<T, N>().for_each(|x| { boom(&mut k, at); x.look(); }); });
        own::<T>(&n(&format!("fold, closure panics at call {}", at)), true, || { let mut k = 0; let _ = vt::<T, N>().fold(T::new(), |_, x| { boom(&mut k, at); x }); });
        own::<T>(&n(&format!("scan, closure panics at call {}", at)), true, || { let mut k = 0; let _: Vector<T, N> = vt::<T, N>().scan((), |_, x| { boom(&mut k, at); x }); });
        own::<T>(&n(&format!("try_from_iter, iterator panics after {}", at)), true, || { let _ = Vector::<T, N>::try_from_iter(bomb::<T>(at, true)); });
        own::<T>(&n(&format!("clone panics at {}", at)), true, || { thread_local! { static K: std::cell::Cell<usize> = std::cell::Cell::new(0); } struct C<T: Tok>(T); impl<T: Tok> Clone for C<T> { fn clone(&self) -> Self { self.0.look(); if K.with(|k| { k.set(k.get() + 1); k.get() }) == 0 { panic!("injected") } C(T::new()) } } let v: Vector<C<T>, N> = vt::<T, N>().map(C); K.with(|k| k.set(0usize.wrapping_sub(at + 1))); let _ = v.clone(); });
    }
    for at in 1..N { own::<T>(&n(&format!("fold_first, closure panics at call {}", at)), true, || { let mut k = 1; let _ = vt::<T, N>().fold_first(|_, x| { boom(&mut k, at); x }); }); }
    // a panicking drop while collecting fails part-way must not drop anything twice
}
fn mats<T: Tok, const M: usize, const N: usize>() {
    let n = |s: &str| format!("Matrix<T,{},{}> {}", M, N, s);
    own::<T>(&n("created and dropped"), false, || { look_m(&mt::<T, M, N>()); });
    own::<T>(&n("init, default, clone, add, add_assign, neg"), false, || { look_m(&Matrix::<T, M, N>::init(T::new)); let d = Matrix::<W<T>, M, N>::default(); let e = d.clone(); let mut g = -(d + e.clone()); g += e; for x in g.iter() { x.0.look(); } if M * N > 0 { g.sum().0.look(); } });
    own::<T>(&n("uninit, filled, assume_init"), false, || { let mut u = Matrix::<T, M, N>::uninit(); for i in 0..M { for j in 0..N { u[(i, j)] = std::mem::MaybeUninit::new(T::new()); } } look_m(&unsafe { u.assume_init() }); let _never = Matrix::<T, M, N>::uninit(); });
    own::<T>(&n("transpose"), false, || { look_m(&mt::<T, M, N>().transpose()); look_m(&mt::<T, M, N>().transpose().transpose()); });
    own::<T>(&n("conversions"), false, || { let a = mt::<T, M, N>().into_array_of_arrays(); let b = Matrix::from(a); look_m(&b); let c = Matrix::from(b.into_array_of_vectors()); look_m(&c); look_m(&Matrix::from(c.into_vector_of_vectors())); });
    own::<T>(&n("map, zip, unzip"), false, || { look_m(&mt::<T, M, N>().map(|x| { x.look(); x })); look_m(&mt::<T, M, N>().map(|x| { x.look(); TokBox::new() })); let (a, b) = mt::<T, M, N>().zip(mt::<TokWide, M, N>()).unzip(); look_m(&a); look_m(&b); let (a, b) = mt::<TokBox, M, N>().zip(mt::<T, M, N>()).unzip(); drop(a); look_m(&b); });
    own::<T>(&n("for_each, fold, scan, replacing entries"), false, || { mt::<T, M, N>().for_each(|x| { x.look(); }); same("folded", mt::<T, M, N>().fold(0, |c, x| { x.look(); c + 1 }), M * N); look_m(&mt::<T, M, N>().scan(T::new(), |s, x| { s.look(); std::mem::replace(s, x) })); let mut v = mt::<T, M, N>(); for x in v.iter_mut() { *x = T::new(); } for i in 0..M { v.row_mut(i).iter().for_each(|x| { x.look(); }); *v.row_mut(i) = vt(); } look_m(&v); });
    if M > 0 && N > 0 { own::<T>(&n("fold_first"), false, || { mt::<T, M, N>().fold_first(|a, b| { a.look(); b.look(); b }).look(); mt::<T, M, N>().fold_first(|a, b| { a.look(); b.look(); a }).look(); }); }
    own::<T>(&n("partially consumed iterator"), false, || { for k in 0..=M * N { let mut it = mt::<T, M, N>().into_iter(); for _ in 0..k { it.next().unwrap().look(); } } let mut it = mt::<T, M, N>().into_iter(); while let Some(x) = it.next() { x.look(); } holds("nothing more", it.next().is_none() && it.next().is_none()); });
    for have in 0..M * N + 2 { own::<T>(&n(&format!("try_from_iter with {} items", have)), false, || { let r = Matrix::<T, M, N>::try_from_iter(bomb::<T>(have, false)); same("succeeds", r.is_some(), have >= M * N); if let Some(v) = r { look_m(&v); } }); }
    for have in 0..M + 2 { own::<T>(&n(&format!("try_from_iter_of_vectors with {} rows", have)), false, || { let r = Matrix::<T, M, N>::try_from_iter_of_vectors((0..have).map(|_| vt::<T, N>())); same("succeeds", r.is_some(), have >= M); if let Some(v) = r { look_m(&v); } }); }
    for at in 0..M * N {
        own::<T>(&n(&format!("init, closure panics at call {}", at)), true, || { let mut k = 0; let _ = Matrix::<T, M, N>::init(|| { boom(&mut k, at); T::new() }); });
        own::<T>(&n(&format!("map, closure panics at call {}", at)), true, || { let mut k = 0; let _ = mt::<T, M, N>().map(|x| { boom(&mut k, at); x }); });
        own::<T>(&n(&format!("scan, closure panics at call {}", at)), true, || { let mut k = 0; let _: Matrix<T, M, N> = mt::<T, M, N>().scan((), |_, x| { boom(&mut k, at); x }); });
        own::<T>(&n(&format!("for_each, closure panics at call {}", at)), true, || { let mut k = 0; mt::<T, M, N>().for_each(|x| { boom(&mut k, at); x.look(); }); });
        own::<T>(&n(&format!("try_from_iter, iterator panics after {}", at)), true, || { let _ = Matrix::<T, M, N>::try_from_iter(bomb::<T>(at, true)); });
    }
}
fn flat<T: Tok>() {
    own::<T>("FlatIter over rows of different lengths, abandoned anywhere", false, || { for k in 0..8 { let outer: Vec<Vec<T>> = [2, 0, 1, 0, 0, 3].iter().map(|n| (0..*n).map(|_| T::new()).collect()).collect(); let mut it = vecmat::matrix::FlatIter::new(outer.into_iter()).unwrap(); for _ in 0..k { if let Some(x) = it.next() { x.look(); } } } });
    own::<T>("tuples", false, || { let (a, b, c) = vt::<T, 3>().into_tuple(); a.look(); b.look(); c.look(); look_all(&Vector::from((a, b, c))); let t: (T, T) = vt::<T, 2>().into(); look_all(&Vector::from(t)); let t = vt::<T, 4>().into_tuple(); look_all(&Vector::<T, 4>::from_tuple(t)); let v = vt::<T, 2>(); drop(v.into_tuple()); });
    own::<T>("complex and quaternion conversions", false, || { let c = Complex::new(T::new(), T::new()); let (a, b): (T, T) = c.into(); a.look(); b.look(); let c = Complex::from_array([a, b]); let v: Vector<T, 2> = c.into(); look_all(&v); let q = Quaternion::from_array([T::new(), T::new(), T::new(), T::new()]); let a: [T; 4] = q.into(); for x in &a { x.look(); } });
}
fn main() { sxcore::main("C09", || {
    macro_rules! all { ($($T:ty)*) => { $( vecs::<$T, 0>(); vecs::<$T, 1>(); vecs::<$T, 2>(); vecs::<$T, 3>(); vecs::<$T, 4>(); vecs::<$T, 5>(); vecs::<$T, 8>(); mats::<$T, 0, 0>(); mats::<$T, 0, 2>(); mats::<$T, 2, 0>(); mats::<$T, 1, 1>(); mats::<$T, 1, 3>(); mats::<$T, 3, 1>(); mats::<$T, 2, 2>(); mats::<$T, 2, 3>(); mats::<$T, 3, 2>(); mats::<$T, 3, 3>(); mats::<$T, 4, 3>(); flat::<$T>(); )* } }
    all!(TokWide TokSmall TokBox TokZst);
    fn big<const N: usize>() { vecs::<TokWide, N>(); } vdims!(big);
    fn bigm<const M: usize, const N: usize>() { mats::<TokWide, M, N>(); } mdims!(bigm);
}) }
