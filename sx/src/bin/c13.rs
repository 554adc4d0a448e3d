use sx::*;
fn dots<const N: usize>() { contract(&format!("Vector<T,{}> dot", N), FREE, || { let (a, b) = (v::<N>("a"), v::<N>("b")); let (x, y) = (va(a), va(b)); let mut w = x[0] * y[0]; for i in 1..N { w = w + x[i] * y[i]; } ring("a . b", a.dot(b), w); let mut w = x[0] * x[0]; for i in 1..N { w = w + x[i] * x[i]; } ring("a . a", a.dot(a), w); }); }
fn outers<const M: usize, const N: usize>() { contract(&format!("Vector<T,{}> outer Vector<T,{}>", M, N), FREE, || { let (a, b) = (v::<M>("a"), v::<N>("b")); let (x, y) = (va(a), va(b)); let r: Matrix<E, M, N> = a.outer(b); eqm(Exact, r, |i, j| x[i] * y[j]); }); }
fn dot3(a: [E; 3], b: [E; 3]) -> E { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn main() { sxcore::main("C13", || {
    vdims1!(dots); mdims!(outers);
    contract("Vector<T,2> cross", FREE, || { let (a, b) = (v::<2>("a"), v::<2>("b")); let (x, y) = (va(a), va(b)); ring("pseudo-cross product", a.cross(b), x[0] * y[1] - x[1] * y[0]); field("anticommutative", a.cross(b), -b.cross(a)); });
    contract("Vector<T,3> cross", FREE, || { let (a, b) = (v::<3>("a"), v::<3>("b")); let (x, y) = (va(a), va(b)); let c = a.cross(b); let w = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]; eqv(Field, c, |i| w[i]);
        let c = va(c); let d = va(b.cross(a)); for i in 0..3 { field("anticommutative", c[i], -d[i]); } field("orthogonal to the first factor", dot3(c, x), con(0)); field("orthogonal to the second factor", dot3(c, y), con(0)); field("squared length", dot3(c, c), dot3(x, x) * dot3(y, y) - dot3(x, y) * dot3(x, y)); });
    contract("Vector<T,4> cross", FREE, || { let (a, b) = (v::<4>("a"), v::<4>("b")); let (x, y) = (va(a), va(b)); let w = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0], con(0)]; eqv(Field, a.cross(b), |i| w[i]); });
    macro_rules! p { ($($t:ident)*) => { $( concrete(concat!("dot of ", stringify!($t)), || { for a in 0..=120 as $t { for b in 0..=120 as $t { if let Some(w) = a.checked_mul(b) { same("a . b", a.dot(b), w); } } } same("max", $t::MAX.dot(1), $t::MAX); same("min", $t::MIN.dot(1), $t::MIN); }); )* } }
    p!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
    macro_rules! pf { ($($t:ident)*) => { $( concrete(concat!("dot of ", stringify!($t)), || { let d = [0.0 as $t, -0.0, 1.0, 0.1, -3.5, 1e30, $t::MAX, $t::INFINITY, $t::NAN]; for a in d { for b in d { holds(&format!("{} . {}", a, b), bits(a.dot(b), a * b)); } } }); )* } }
    pf!(f32 f64);
    macro_rules! si { ($($t:ident)*) => { $( concrete(concat!("negative operands, dot of ", stringify!($t)), || { for a in -6..=6 as $t { for b in -6..=6 as $t { same("a . b", a.dot(b), a * b); same("2-vector cross", Vector::from_array([a, b]).cross(Vector::from_array([b, 3])), a * 3 - b * b); } } }); )* } }
    si!(i8 i16 i32 i64 isize);
}) }
