use sx::*;
macro_rules! vv { ($($n:ident $o:tt $an:ident $ao:tt;)*) => { $(
    fn $n<const N: usize>() {
        contract(&format!("Vector<T,{}> {} Vector", N, stringify!($o)), FREE, || { let (a, b) = (v::<N>("a"), v::<N>("b")); let (x, y) = (va(a), va(b)); eqv(Exact, a $o b, |i| x[i] $o y[i]); });
        contract(&format!("Vector<T,{}> {} same operand twice", N, stringify!($o)), FREE, || { let a = v::<N>("a"); let x = va(a); eqv(Exact, a $o a, |i| x[i] $o x[i]); });
        contract(&format!("Vector<T,{}> {} Vector", N, stringify!($ao)), FREE, || { let (mut a, b) = (v::<N>("a"), v::<N>("b")); let (x, y) = (va(a), va(b)); a $ao b; eqv(Exact, a, |i| x[i] $o y[i]); });
    } )* } }
vv! { add + add_a +=; sub - sub_a -=; mul * mul_a *=; div / div_a /=; rem % rem_a %=; }
macro_rules! vs { ($($n:ident $o:tt $ao:tt;)*) => { $(
    fn $n<const N: usize>() {
        contract(&format!("Vector<T,{}> {} scalar", N, stringify!($o)), FREE, || { let a = v::<N>("a"); let k = s("k"); let x = va(a); eqv(Exact, a $o k, |i| x[i] $o k); });
        contract(&format!("Vector<T,{}> {} scalar", N, stringify!($ao)), FREE, || { let mut a = v::<N>("a"); let k = s("k"); let x = va(a); a $ao k; eqv(Exact, a, |i| x[i] $o k); });
    } )* } }
vs! { muls * *=; divs / /=; rems % %=; }
fn negz<const N: usize>() {
    contract(&format!("-Vector<T,{}>", N), FREE, || { let a = v::<N>("a"); let x = va(a); eqv(Exact, -a, |i| -x[i]); });
    contract(&format!("Vector<T,{}>::zero", N), FREE, || { eqv(Exact, Vector::<E, N>::zero(), |_| E::zero()); holds("zero is zero", N > 9 || Vector::<Z, N>::zero().is_zero()); });
    contract(&format!("Vector<T,{}>::is_zero", N), FREE, || { let a = v::<N>("a"); let x = va(a); let r = a.is_zero(); same("is_zero iff every component is zero", r, x.iter().all(|e| e.is_zero())); });
    contract(&format!("Vector<T,{}>::set_zero", N), FREE, || { let mut a = v::<N>("a"); a.set_zero(); eqv(Exact, a, |_| E::zero()); });
    concrete(&format!("Vector<i32,{}>::is_zero, one nonzero component anywhere", N), || { for i in 0..N { for k in [1, -1, i32::MIN, i32::MAX] { let mut a = [0i32; N]; a[i] = k; holds(&format!("component {} = {}", i, k), !Vector::from_array(a).is_zero()); } } holds("all zero", Vector::from_array([0i32; N]).is_zero()); });
}
#[derive(Clone, Copy, PartialEq, Debug)] struct Z(i32);
impl std::ops::Add for Z { type Output = Z; fn add(self, o: Z) -> Z { Z(self.0 + o.0) } }
impl Zero for Z { fn zero() -> Z { Z(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
// the primitive macros, one implementation per primitive
fn domain_i(bits: u32, signed: bool) -> Vec<i128> { let mut d: Vec<i128> = (-20..=20).collect(); for k in 0..bits { for e in [-1, 0, 1] { d.push((1i128 << k) + e); d.push(-(1i128 << k) + e); } } d.retain(|x| if signed { *x >= -(1i128 << (bits - 1)) && *x < (1i128 << (bits - 1)) } else { *x >= 0 && *x < (1i128 << bits) }); d.sort(); d.dedup(); d }
macro_rules! prim_int { ($($t:ident)*) => { $( {
    concrete(concat!(stringify!($t), " * Vector"), || {
        let d: Vec<$t> = if $t::BITS == 8 { ($t::MIN..=$t::MAX).collect() } else { domain_i($t::BITS, $t::MIN != 0).into_iter().map(|x| x as $t).collect() };
        for &a in &d { for &b in &d { if let Some(p) = a.checked_mul(b) { let c: $t = 1; if a.checked_mul(c).is_some() { 
            same("scalar * [b, 1, 0]", (a * Vector::<$t, 3>::from_array([b, 1, 0])).into_array(), [p, a, 0]); } } } }
        same("length 1", (3 as $t * Vector::<$t, 1>::from_array([4])).into_array(), [12]);
        same("length 0", (3 as $t * Vector::<$t, 0>::from_array([])).into_array(), []);
        for a in 0..12 as $t { let x: [$t; 9] = std::array::from_fn(|i| i as $t); same("length 9", (a * Vector::from_array(x)).into_array(), x.map(|y| y * a)); let x: [$t; 2] = [a, 5]; same("length 2", (a * Vector::from_array(x)).into_array(), x.map(|y| y * a)); let x: [$t; 4] = [a, 5, 3, 2]; same("length 4", (a * Vector::from_array(x)).into_array(), x.map(|y| y * a)); }
    }); } )* } }
macro_rules! prim_f { ($($t:ident)*) => { $( {
    concrete(concat!(stringify!($t), " * Vector"), || {
        let d: Vec<$t> = vec![0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 3.0, -7.25, 1e-30, 1e30, $t::MAX, $t::MIN_POSITIVE, $t::EPSILON, $t::INFINITY, $t::NEG_INFINITY, $t::NAN, 0.1, 1.0 / 3.0, -1e-10, 12345.678];
        for &a in &d { for &b in &d { for &c in &d { let r = (a * Vector::<$t, 2>::from_array([b, c])).into_array(); holds(&format!("{} * [{}, {}]", a, b, c), bits(r[0], b * a) && bits(r[1], c * a)); } 
            let r = (a * Vector::<$t, 3>::from_array([b, 2.0, b])).into_array(); holds("length 3", bits(r[0], b * a) && bits(r[1], 2.0 * a) && bits(r[2], b * a));
            let r = (a * Vector::<$t, 4>::from_array([b, 2.0, b, 1.0])).into_array(); holds("length 4", bits(r[0], b * a) && bits(r[1], 2.0 * a) && bits(r[2], b * a) && bits(r[3], a));
            let r = (a * Vector::<$t, 1>::from_array([b])).into_array(); holds("length 1", bits(r[0], b * a)); } }
    }); } )* } }
fn main() { sxcore::main("C01", || {
    vdims!(add); vdims!(sub); vdims!(mul); vdims!(div); vdims!(rem);
    vdims!(muls); vdims!(divs); vdims!(rems); vdims!(negz);
    prim_int!(u8 u16 u32 u64 i8 i16 i32 i64);
    prim_f!(f32 f64);
    // the float instances really perform the scalar operation (no re-association at the primitive level)
    concrete("Vector<f64,3> operators on floats", || {
        let d = [0.0, -0.0, 1.0, 0.1, -7.25, 1e300, 1e-300, f64::INFINITY, f64::NAN, 3.0];
        for &a in &d { for &b in &d { let (x, y) = (Vector::from_array([a, 2.0, b]), Vector::from_array([b, a, 5.0]));
            let ck = |l: &str, r: Vector<f64, 3>, f: fn(f64, f64) -> f64| { let r = r.into_array(); let w = [f(a, b), f(2.0, a), f(b, 5.0)]; for i in 0..3 { holds(&format!("{} at {} for a={} b={}", l, i, a, b), bits(r[i], w[i])); } };
            ck("+", x + y, |a, b| a + b); ck("-", x - y, |a, b| a - b); ck("*", x * y, |a, b| a * b); ck("/", x / y, |a, b| a / b); ck("%", x % y, |a, b| a % b);
            let as_ = |f: &dyn Fn(&mut Vector<f64, 3>)| { let mut z = x; f(&mut z); z };
            ck("+=", as_(&|z| *z += y), |a, b| a + b); ck("-=", as_(&|z| *z -= y), |a, b| a - b); ck("*=", as_(&|z| *z *= y), |a, b| a * b); ck("/=", as_(&|z| *z /= y), |a, b| a / b); ck("%=", as_(&|z| *z %= y), |a, b| a % b); } }
    });
}) }
