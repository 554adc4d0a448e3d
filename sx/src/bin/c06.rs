use sx::*;
use std::convert::TryFrom;
use std::fmt::Debug;
// Raw view of the documented layout: the components, in order (Vector is repr(transparent) over [T; N]).
fn raw<T, const N: usize>(v: &Vector<T, N>) -> &[T; N] { assert!(std::mem::size_of::<Vector<T, N>>() == std::mem::size_of::<[T; N]>(), "layout"); unsafe { &*(v as *const _ as *const [T; N]) } }
fn arr<T: El, const N: usize>() -> [T; N] { std::array::from_fn(T::mk) }
fn off<T: El, const N: usize>(k: usize) -> [T; N] { std::array::from_fn(|i| T::mk(i + k)) }
fn mk<T: El, const N: usize>() -> Vector<T, N> { Vector::from_array(arr()) }
fn is<T: PartialEq + Debug, const N: usize>(l: &str, v: &Vector<T, N>, w: &[T; N]) { same(l, raw(v), w) }

fn any_el<T: El, const N: usize>() {
    let n = |s: &str| format!("Vector<{},{}>: {}", T::NAME, N, s);
    concrete(&n("from_array, into_array, From"), || {
        let a = arr::<T, N>();
        is("from_array", &Vector::from_array(a.clone()), &a); is("From<[T;N]>", &Vector::from(a.clone()), &a);
        same("into_array", mk::<T, N>().into_array(), a.clone()); let b: [T; N] = mk::<T, N>().into(); same("Into<[T;N]>", b, a.clone());
        is("clone", &mk::<T, N>().clone(), &a);
    });
    concrete(&n("views"), || {
        let a = arr::<T, N>(); let v = mk::<T, N>(); let base = &v as *const _ as *const T;
        same("as_array", v.as_array(), &a); let r: &[T; N] = (&v).into(); same("From<&Vector> for &[T;N]", r, &a); let r: &[T; N] = v.as_ref(); same("as_ref", r, &a);
        holds("as_array does not move", v.as_array() as *const _ as *const T == base);
        same("iter", v.iter().cloned().collect::<Vec<T>>(), a.to_vec()); same("&into_iter", (&v).into_iter().cloned().collect::<Vec<T>>(), a.to_vec()); same("into_iter", v.clone().into_iter().collect::<Vec<T>>(), a.to_vec());
        same("iter reversed", v.iter().rev().cloned().collect::<Vec<T>>(), a.iter().rev().cloned().collect::<Vec<T>>()); same("iter length", v.iter().len(), N); same("into_iter length", v.clone().into_iter().len(), N);
        for i in 0..N { same(&format!("index {}", i), &v[i], &a[i]); same(&format!("get_unchecked {}", i), unsafe { v.get_unchecked(i) }, &a[i]); same(&format!("as_ptr + {}", i), unsafe { &*v.as_ptr().add(i) }, &a[i]); holds("reference into the vector", std::mem::size_of::<T>() == 0 || &v[i] as *const T == unsafe { base.add(i) }); }
        holds("as_ptr", v.as_ptr() == base);
    });
    concrete(&n("mutable views change that component and no other"), || {
        count_check();
        for i in 0..N { let x = T::mk(i + 100); let mut w = arr::<T, N>(); w[i] = x.clone();
            let ck = |l: &str, f: &dyn Fn(&mut Vector<T, N>)| { let mut v = mk::<T, N>(); f(&mut v); is(&format!("{} at {}", l, i), &v, &w); };
            ck("IndexMut", &|v| v[i] = x.clone()); ck("as_mut_array", &|v| v.as_mut_array()[i] = x.clone()); ck("From<&mut>", &|v| { let r: &mut [T; N] = v.into(); r[i] = x.clone(); }); ck("as_mut", &|v| { let r: &mut [T; N] = v.as_mut(); r[i] = x.clone(); });
            ck("as_mut_ptr", &|v| unsafe { *v.as_mut_ptr().add(i) = x.clone() }); ck("get_unchecked_mut", &|v| unsafe { *v.get_unchecked_mut(i) = x.clone() }); ck("iter_mut", &|v| *v.iter_mut().nth(i).unwrap() = x.clone()); ck("&mut into_iter", &|v| for (k, e) in v.into_iter().enumerate() { if k == i { *e = x.clone(); } });
        }
        let mut v = mk::<T, N>(); for (k, e) in v.iter_mut().enumerate() { *e = T::mk(k + 50); } is("iter_mut visits all, in order", &v, &off(50)); same("iter_mut length", v.iter_mut().len(), N);
    });
    concrete(&n("init: the closure runs once per component, first to last"), || {
        let mut k = 0; let v = Vector::<T, N>::init(|| { k += 1; T::mk(k - 1) }); is("init", &v, &arr()); same("calls", k, N);
    });
    concrete(&n("index at or beyond the length panics"), || {
        let mut v = mk::<T, N>();
        for i in [N, N + 1, N + 7, 2 * N + 2, 1000, usize::MAX / 2, usize::MAX] { let r = catch_unwind(AssertUnwindSafe(|| { let _ = &v[i]; })).is_err(); holds(&format!("v[{}] panics", i), r); let r = catch_unwind(AssertUnwindSafe(|| { v[i] = T::mk(0); })).is_err(); holds(&format!("v[{}] = x panics", i), r); }
        is("unchanged", &v, &arr());
    });
}
fn copy_el<T: El + Copy, const N: usize>() {
    let n = |s: &str| format!("Vector<{},{}>: {}", T::NAME, N, s);
    concrete(&n("fill, From<&[T;N]>, slices"), || {
        is("fill", &Vector::<T, N>::fill(T::mk(3)), &[T::mk(3); N]); is("From<&[T;N]>", &Vector::from(&arr::<T, N>()), &arr());
        let all: Vec<T> = (0..2 * N + 3).map(T::mk).collect();
        for l in 0..all.len() { let r = Vector::<T, N>::try_from(&all[..l]); same(&format!("slice of length {} accepted", l), r.is_ok(), l == N); if let Ok(v) = r { is("from slice", &v, &arr()); } }
        for o in 0..=N + 2 { let r = Vector::<T, N>::try_from(&all[o..o + N]).ok(); holds("slice at an offset", r.is_some()); if let Some(v) = r { is("from inner slice", &v, &off(o)); } }
    });
}
fn defaults<const N: usize>() {
    contract(&format!("Vector<T,{}>: default and new", N), FREE, || { eqvn(Exact, "default", Vector::<E, N>::default(), |_| E::default()); eqvn(Exact, "new", Vector::<E, N>::new(), |_| E::default()); });
    concrete(&format!("Vector<Counter,{}>: default called once per component, in order", N), || {
        thread_local! { static K: std::cell::Cell<usize> = std::cell::Cell::new(0); }
        #[derive(PartialEq, Debug)] struct D(usize); impl Default for D { fn default() -> D { K.with(|k| { k.set(k.get() + 1); D(k.get() - 1) }) } }
        K.with(|k| k.set(0)); is("default", &Vector::<D, N>::default(), &std::array::from_fn(D)); K.with(|k| k.set(0)); is("new", &Vector::<D, N>::new(), &std::array::from_fn(D)); same("calls", K.with(|k| k.get()), N);
    });
    contract(&format!("Vector<T,{}>: == and !=", N), FREE, || { let (a, b) = (v::<N>("a"), v::<N>("b")); let (x, y) = (va(a), va(b)); let r = a == b; same("equal iff every pair of components is", r, (0..N).all(|i| x[i] == y[i])); });
}
macro_rules! named { ($n:literal, $T:ty; $($c:ident $r:ident $m:ident $i:literal),*) => { {
    let n = |s: &str| format!("Vector<{},{}>: {}", <$T>::NAME, $n, s);
    concrete(&n("named coordinates"), || { let a = arr::<$T, $n>(); let mut v = mk::<$T, $n>(); $( same(stringify!($r), v.$r(), &a[$i]); same(stringify!($m), &*v.$m(), &a[$i]); let mut w = mk::<$T, $n>(); *w.$m() = <$T>::mk(77); let mut e = arr::<$T, $n>(); e[$i] = <$T>::mk(77); is(concat!("writing ", stringify!($m)), &w, &e); )* });
} } }
macro_rules! named_c { ($n:literal, $T:ty; $($c:ident $i:literal),*) => { concrete(&format!("Vector<{},{}>: coordinate values", <$T>::NAME, $n), || { let a = arr::<$T, $n>(); let v = mk::<$T, $n>(); $( same(stringify!($c), v.$c(), a[$i]); )* }); } }
macro_rules! tuples { ($n:literal, $T:ty; $($i:tt),*) => { concrete(&format!("Vector<{},{}>: tuples", <$T>::NAME, $n), || { let t = ($(<$T>::mk($i),)*); is("from_tuple", &Vector::<$T, $n>::from_tuple(t.clone()), &arr()); is("From", &Vector::<$T, $n>::from(t.clone()), &arr()); same("into_tuple", mk::<$T, $n>().into_tuple(), t.clone()); let u: ($(tuples!(@ $i $T),)*) = mk::<$T, $n>().into(); same("Into", u, t); }); }; (@ $i:tt $T:ty) => { $T } }
macro_rules! all_named { ($($T:ty)*) => { $( named!(2, $T; x x_ref x_mut 0, y y_ref y_mut 1); named!(3, $T; x x_ref x_mut 0, y y_ref y_mut 1, z z_ref z_mut 2); named!(4, $T; x x_ref x_mut 0, y y_ref y_mut 1, z z_ref z_mut 2, w w_ref w_mut 3); tuples!(2, $T; 0, 1); tuples!(3, $T; 0, 1, 2); tuples!(4, $T; 0, 1, 2, 3); )* } }
fn main() { sxcore::main("C06", || {
    vdims_t!(any_el, u8); vdims_t!(any_el, String); vdims_t!(any_el, [u16; 3]); vdims_t!(copy_el, u8); vdims_t!(copy_el, [u16; 3]); vdims!(defaults);
    macro_rules! few { ($($T:ty)*) => { $( any_el::<$T, 0>(); any_el::<$T, 1>(); any_el::<$T, 2>(); any_el::<$T, 3>(); any_el::<$T, 4>(); any_el::<$T, 5>(); any_el::<$T, 16>(); )* } }
    few!(u64 el::Pair [u64; 5] Box<usize> Option<Box<u8>> el::Unit0 el::Al);
    macro_rules! fewc { ($($T:ty)*) => { $( copy_el::<$T, 0>(); copy_el::<$T, 1>(); copy_el::<$T, 2>(); copy_el::<$T, 3>(); copy_el::<$T, 4>(); copy_el::<$T, 16>(); )* } }
    fewc!(u64 el::Pair [u64; 5] el::Unit0 el::Al);
    all_named!(u8 u64 [u16; 3] el::Pair String Box<usize> el::Al);
    macro_rules! nc { ($($T:ty)*) => { $( named_c!(2, $T; x 0, y 1); named_c!(3, $T; x 0, y 1, z 2); named_c!(4, $T; x 0, y 1, z 2, w 3); )* } }
    nc!(u8 u64 [u16; 3] el::Pair el::Al f64);
}) }
