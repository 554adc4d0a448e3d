use sx::*;
fn lins<const N: usize>() {
    contract(&format!("Vector<T,{}>::sum", N), FREE, || { let a = v::<N>("a"); let x = va(a); let mut w = x[0]; for i in 1..N { w = w + x[i]; } ring("sum", a.sum(), w); });
    contract(&format!("Vector<T,{}> L1 norm", N), FREE, || { let a = v::<N>("a"); let x = va(a); let mut w = x[0].norm_l1(); for i in 1..N { w = w + x[i].norm_l1(); } ring("norm_l1", a.norm_l1(), w); });
    contract(&format!("Vector<T,{}> L2 norm and length", N), FREE, || { let a = v::<N>("a"); let x = va(a); let mut w = x[0] * x[0]; for i in 1..N { w = w + x[i] * x[i]; }
        ring("norm_l2_sqr", a.norm_l2_sqr(), w); ring("square_length", a.square_length(), w); field("norm_l2", a.norm_l2(), w.sqrt()); field("length", a.length(), w.sqrt()); });
    if N <= 5 { contract(&format!("Vector<T,{}>::normalize", N), FREE, || { let a = v::<N>("a"); let x = va(a); let mut w = x[0] * x[0]; for i in 1..N { w = w + x[i] * x[i]; } assume_pos(w); assume_nonzero(w); check_defined();
        for (l, n) in [("inherent", a.normalize()), ("trait", Normalize::normalize(a))] { let n = va(n); let mut q = n[0] * n[0]; for i in 1..N { q = q + n[i] * n[i]; } field(&format!("{}: length one", l), q, con(1)); for i in 0..N { field(&format!("{}: parallel, same direction, component {}", l, i), n[i] * w.sqrt(), x[i]); } } }); }
    else { concrete(&format!("Vector<f64,{}>::normalize", N), || { for k in 0..20 { let a: [f64; N] = std::array::from_fn(|i| ((i * 37 + k * 11) % 23) as f64 - 9.5); let l = a.iter().map(|x| x * x).sum::<f64>().sqrt(); for n in [Vector::from_array(a).normalize(), Normalize::normalize(Vector::from_array(a))] { let n = n.into_array(); for i in 0..N { holds(&format!("component {}", i), (n[i] * l - a[i]).abs() < 1e-12 * l); } } } }); }
}
fn mlins<const M: usize, const N: usize>() {
    let sum = |x: &[[E; N]; M], f: &dyn Fn(E) -> E| { let mut w: Option<E> = None; for r in x { for e in r { let t = f(*e); w = Some(match w { None => t, Some(w) => w + t }); } } w.unwrap() };
    contract(&format!("Matrix<T,{},{}> sum and norms", M, N), FREE, || { let a = m::<M, N>("a"); let x = ma(a); ring("sum", a.sum(), sum(&x, &|e| e)); ring("norm_l1", a.norm_l1(), sum(&x, &|e| e.norm_l1())); ring("norm_l2_sqr", a.norm_l2_sqr(), sum(&x, &|e| e * e)); field("norm_l2", a.norm_l2(), sum(&x, &|e| e * e).sqrt()); });
}
// max / min use comparisons only: every weak ordering of the elements covers every input
fn weak_orders(n: usize) -> Vec<Vec<u8>> { let mut out = vec![]; let mut cur = vec![0u8; n]; loop { let mx = *cur.iter().max().unwrap(); if (0..=mx).all(|k| cur.contains(&k)) { out.push(cur.clone()); } let mut i = 0; while i < n { cur[i] += 1; if (cur[i] as usize) < n { break; } cur[i] = 0; i += 1; } if i == n { return out; } } }
#[derive(Clone, PartialEq, PartialOrd, Debug)] struct O(u8, );
fn ext_orders(n: usize) -> Vec<Vec<u8>> { if n <= 6 { weak_orders(n) } else { let mut r = sxcore::rng::Rng::new(seed()); let mut v = vec![]; for i in 0..n { for (a, b) in [(0, 1), (1, 0)] { let mut t = vec![a; n]; t[i] = b; v.push(t); } for j in 0..n { if i != j { let mut t: Vec<u8> = (0..n).map(|k| 50 + k as u8 % 9).collect(); t[i] = 99; t[j] = 1; v.push(t); } } } for _ in 0..400 { v.push((0..n).map(|_| r.below(n as u64 + 2) as u8).collect()); } v.push((0..n as u8).collect()); v.push((0..n as u8).rev().collect()); v } }
fn ext<const N: usize>() { concrete(&format!("Vector<T,{}> max, min", N), || { for w in ext_orders(N) { let a: [O; N] = std::array::from_fn(|i| O(w[i])); let (mx, mn) = (*w.iter().max().unwrap(), *w.iter().min().unwrap()); same(&format!("max of {:?}", w), Vector::from_array(a.clone()).max(), O(mx)); same(&format!("min of {:?}", w), Vector::from_array(a).min(), O(mn));
        let f: [f64; N] = std::array::from_fn(|i| w[i] as f64 - 3.0); same(&format!("max of {:?}", f), Vector::from_array(f).max(), mx as f64 - 3.0); same(&format!("min of {:?}", f), Vector::from_array(f).min(), mn as f64 - 3.0);
        let la = f.iter().fold(0.0f64, |m, x| m.max(x.abs())); same(&format!("L-infinity norm of {:?}", f), Vector::from_array(f).norm_l_inf(), la);
        let k: [i32; N] = std::array::from_fn(|i| (w[i] as i32 - 3) * if i % 2 == 0 { 1 } else { -1 }); same(&format!("L-infinity norm of {:?}", k), Vector::from_array(k).norm_l_inf(), k.iter().map(|x| x.abs()).max().unwrap()); same(&format!("L1 norm of {:?}", k), Vector::from_array(k).norm_l1(), k.iter().map(|x| x.abs()).sum()); } }); }
fn mext<const M: usize, const N: usize>() { concrete(&format!("Matrix<T,{},{}> max, min", M, N), || { for w in ext_orders(M * N) { let a: [[O; N]; M] = std::array::from_fn(|i| std::array::from_fn(|j| O(w[i * N + j]))); let (mx, mn) = (*w.iter().max().unwrap(), *w.iter().min().unwrap()); same(&format!("max of {:?}", w), Matrix::from_array_of_arrays(a.clone()).max(), O(mx)); same(&format!("min of {:?}", w), Matrix::from_array_of_arrays(a).min(), O(mn));
        let k: [[i32; N]; M] = std::array::from_fn(|i| std::array::from_fn(|j| (w[i * N + j] as i32 - 3) * if (i + j) % 2 == 0 { 1 } else { -1 })); same(&format!("L-infinity norm of {:?}", k), Matrix::from_array_of_arrays(k).norm_l_inf(), k.iter().flatten().map(|x| x.abs()).max().unwrap()); } }); }
fn linf<const N: usize>() { contract(&format!("Vector<T,{}> max, min, L-infinity norm, symbolic", N), REAL, || { let a = v::<N>("a"); let x = va(a);
        let mx = a.max(); holds("max is an element", x.iter().any(|e| e.same(mx))); for i in 0..N { holds(&format!("component {} does not exceed max", i), !(mx < x[i])); }
        let mn = a.min(); holds("min is an element", x.iter().any(|e| e.same(mn))); for i in 0..N { holds(&format!("component {} is not below min", i), !(x[i] < mn)); } });
    contract(&format!("Vector<T,{}> L-infinity norm, symbolic", N), REAL, || { let a = v::<N>("a"); let x = va(a); let r = a.norm_l_inf(); holds("is the norm of an element", x.iter().any(|e| e.norm_l_inf().same(r))); for i in 0..N { holds(&format!("norm of component {} does not exceed it", i), !(r < x[i].norm_l_inf())); } }); }
fn domain(bits: u32, signed: bool) -> Vec<i128> { let mut d: Vec<i128> = (-40..=40).collect(); for k in 0..bits { for e in [-1, 0, 1] { d.push((1i128 << k) + e); d.push(-(1i128 << k) + e); } } d.retain(|x| if signed { *x >= -(1i128 << (bits - 1)) && *x < (1i128 << (bits - 1)) } else { *x >= 0 && *x < (1i128 << bits) }); d.sort(); d.dedup(); d }
macro_rules! prim { ($($t:ident)*) => { $( concrete(concat!("norms of ", stringify!($t)), || { let d: Vec<$t> = if $t::BITS <= 16 { ($t::MIN..=$t::MAX).collect() } else { domain($t::BITS, $t::MIN != 0).into_iter().map(|x| x as $t).collect() };
    for a in d { let ab = (a as i128).abs(); if ab <= $t::MAX as i128 { same(&format!("norm_l1({})", a), a.norm_l1() as i128, ab); same(&format!("norm_l2({})", a), a.norm_l2() as i128, ab); same(&format!("norm_l_inf({})", a), a.norm_l_inf() as i128, ab); } if let Some(sq) = a.checked_mul(a) { same(&format!("norm_l2_sqr({})", a), a.norm_l2_sqr(), sq); } } }); )* } }
macro_rules! primf { ($($t:ident $u:ident)*) => { $( concrete(concat!("norms and epsilon of ", stringify!($t)), || {
    let mut d: Vec<$t> = vec![0.0, 1.0, 0.5, 3.25, 1e-20, 1e20, $t::MAX, $t::MIN_POSITIVE, $t::EPSILON, $t::EPSILON / 2.0, $t::EPSILON * 2.0, $t::from_bits($t::EPSILON.to_bits() + 1), $t::from_bits($t::EPSILON.to_bits() - 1), $t::from_bits(1), $t::INFINITY, 0.1, 1e-7, 1e-16, 2.3e-16, 1.2e-7];
    for i in 0..200u64 { d.push($t::from_bits((i.wrapping_mul(0x9E3779B97F4A7C15) >> (64 - $u::BITS)) as $u)); }
    let n: Vec<$t> = d.iter().map(|x| -*x).collect(); d.extend(n); d.push($t::NAN);
    for a in d { let ab = if a.is_nan() { a } else if a < 0.0 { -a } else if a == 0.0 { 0.0 } else { a }; holds(&format!("norms of {:e}", a), bits(a.norm_l1(), ab) && bits(a.norm_l2(), ab) && bits(a.norm_l_inf(), ab) && bits(a.norm_l2_sqr(), a * a)); same(&format!("is_epsilon({:e})", a), a.is_epsilon(), !a.is_nan() && ab <= $t::EPSILON); holds("conj of a real", bits(a.conj(), a)); } }); )* } }
fn main() { sxcore::main("C12", || {
    vdims1!(lins); mdims1!(mlins); vdims1!(ext); mdims1!(mext); linf::<1>(); linf::<2>(); linf::<3>(); linf::<4>();
    prim!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize); primf!(f32 u32 f64 u64);
}) }
