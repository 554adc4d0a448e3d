use sx::*;
fn vec_un<const N: usize>() {
    macro_rules! u { ($($f:ident),*) => { $( contract(&format!("Vector<T,{}>::{}", N, stringify!($f)), FREE, || { let a = v::<N>("a"); let x = va(a); eqv(Exact, a.$f(), |i| <E as Float>::$f(x[i])); }); )* } }
    u!(abs, signum, cbrt, sqrt, acos, asin, atan, cosh, sinh, tan, tanh, log2, exp, ln, sin, cos, asinh, acosh, atanh, floor, ceil, round, trunc, fract, recip, exp2, log10, exp_m1, ln_1p);
    contract(&format!("Vector<T,{}>::sin_cos", N), FREE, || { let a = v::<N>("a"); let x = va(a); let (p, q) = a.sin_cos(); eqvn(Exact, "sines", p, |i| x[i].sin()); eqvn(Exact, "cosines", q, |i| x[i].cos()); });
}
fn mat_un<const M: usize, const N: usize>() {
    macro_rules! u { ($($f:ident),*) => { $( contract(&format!("Matrix<T,{},{}>::{}", M, N, stringify!($f)), FREE, || { let a = m::<M, N>("a"); let x = ma(a); eqm(Exact, a.$f(), |i, j| <E as Float>::$f(x[i][j])); }); )* } }
    u!(abs, signum, cbrt, sqrt, acos, asin, atan, cosh, sinh, tan, tanh, log2, exp, ln, sin, cos, asinh, acosh, atanh, floor, ceil, round, trunc, fract, recip, exp2, log10, exp_m1, ln_1p);
    contract(&format!("Matrix<T,{},{}>::sin_cos", M, N), FREE, || { let a = m::<M, N>("a"); let x = ma(a); let (p, q) = a.sin_cos(); eqmn(Exact, "sines", p, |i, j| x[i][j].sin()); eqmn(Exact, "cosines", q, |i, j| x[i][j].cos()); });
}
/// clamp is pinned on the order (lower bound not above upper bound) only
fn clamp_ok(got: E, x: E, a: E, b: E) -> bool {
    let mx = |p: E, q: E| [uf("max", &[p, q]), uf("max", &[q, p])]; let mn = |p: E, q: E| [uf("min", &[p, q]), uf("min", &[q, p])];
    got.same(uf("clamp", &[x, a, b])) || mx(x, a).iter().any(|t| mn(*t, b).iter().any(|u| got.same(*u))) || mn(x, b).iter().any(|t| mx(*t, a).iter().any(|u| got.same(*u)))
}
fn vec_bin<const N: usize>() {
    macro_rules! b { ($($f:ident $g:ident),*) => { $(
        contract(&format!("Vector<T,{}>::{} with a vector", N, stringify!($f)), FREE, || { let (a, b) = (v::<N>("a"), v::<N>("b")); let (x, y) = (va(a), va(b)); eqv(Exact, a.$f(b), |i| <E as Float>::$g(x[i], y[i])); });
        contract(&format!("Vector<T,{}>::{} with a scalar", N, stringify!($f)), FREE, || { let (a, k) = (v::<N>("a"), s("k")); let x = va(a); eqv(Exact, a.$f(k), |i| <E as Float>::$g(x[i], k)); }); )* } }
    b!(abs_sub abs_sub, vmin min, vmax max, atan2 atan2, hypot hypot, powf powf, log log);
    contract(&format!("Vector<T,{}>::powi", N), FREE, || { let a = v::<N>("a"); let x = va(a); eqvn(Exact, "scalar", a.powi(5), |i| x[i].powi(5)); let e: [i32; N] = std::array::from_fn(|i| 3 * i as i32 - 4); eqvn(Exact, "vector", a.powi(Vector::from_array(e)), |i| x[i].powi(e[i])); });
    contract(&format!("Vector<T,{}>::mul_add", N), FREE, || { let (a, b, c, k, l) = (v::<N>("a"), v::<N>("b"), v::<N>("c"), s("k"), s("l")); let (x, y, z) = (va(a), va(b), va(c));
        eqvn(Exact, "vv", a.mul_add(b, c), |i| x[i].mul_add(y[i], z[i])); eqvn(Exact, "vs", a.mul_add(b, k), |i| x[i].mul_add(y[i], k)); eqvn(Exact, "sv", a.mul_add(k, c), |i| x[i].mul_add(k, z[i])); eqvn(Exact, "ss", a.mul_add(k, l), |i| x[i].mul_add(k, l)); });
    contract(&format!("Vector<T,{}>::clamp", N), FREE, || { let (a, b, c, k, l) = (v::<N>("a"), v::<N>("b"), v::<N>("c"), s("k"), s("l")); let (x, y, z) = (va(a), va(b), va(c));
        let ck = |n: &str, g: Vector<E, N>, lo: &dyn Fn(usize) -> E, hi: &dyn Fn(usize) -> E| { let g = va(g); count_check(); for i in 0..N { holds(&format!("{} component {} is {} = clamp({}, {}, {})", n, i, g[i], x[i], lo(i), hi(i)), clamp_ok(g[i], x[i], lo(i), hi(i))); } };
        ck("vv", a.clamp(b, c), &|i| y[i], &|i| z[i]); ck("vs", a.clamp(b, k), &|i| y[i], &|_| k); ck("sv", a.clamp(k, c), &|_| k, &|i| z[i]); ck("ss", a.clamp(k, l), &|_| k, &|_| l); });
    contract(&format!("Vector<T,{}> broadcast", N), FREE, || { let (a, k) = (v::<N>("a"), s("k")); let x = va(a); let f: Vector<E, N> = a.broadcast(); eqvn(Exact, "vector", f, |i| x[i]); let f: Vector<E, N> = Broadcast::<Vector<E, N>>::broadcast(k); eqvn(Exact, "scalar", f, |_| k); });
}
fn mat_bin<const M: usize, const N: usize>() {
    macro_rules! b { ($($f:ident $g:ident),*) => { $(
        contract(&format!("Matrix<T,{},{}>::{}", M, N, stringify!($f)), FREE, || { let (a, b, r, k) = (m::<M, N>("a"), m::<M, N>("b"), v::<N>("r"), s("k")); let (x, y, z) = (ma(a), ma(b), va(r));
            eqmn(Exact, "matrix", a.$f(b), |i, j| <E as Float>::$g(x[i][j], y[i][j])); eqmn(Exact, "row", a.$f(r), |i, j| <E as Float>::$g(x[i][j], z[j])); eqmn(Exact, "scalar", a.$f(k), |i, j| <E as Float>::$g(x[i][j], k)); }); )* } }
    b!(abs_sub abs_sub, vmin min, vmax max, atan2 atan2, hypot hypot, powf powf, log log);
    contract(&format!("Matrix<T,{},{}>::powi", M, N), FREE, || { let a = m::<M, N>("a"); let x = ma(a); eqmn(Exact, "scalar", a.powi(5), |i, j| x[i][j].powi(5)); let e: [[i32; N]; M] = std::array::from_fn(|i| std::array::from_fn(|j| 3 * i as i32 - 4 + 7 * j as i32)); eqmn(Exact, "matrix", a.powi(Matrix::from_array_of_arrays(e)), |i, j| x[i][j].powi(e[i][j]));
        let r: [i32; N] = std::array::from_fn(|j| 7 * j as i32 - 2); eqmn(Exact, "row", a.powi(Vector::from_array(r)), |i, j| x[i][j].powi(r[j])); });
    contract(&format!("Matrix<T,{},{}>::mul_add", M, N), FREE, || { let (a, b, c, r, k, l) = (m::<M, N>("a"), m::<M, N>("b"), m::<M, N>("c"), v::<N>("r"), s("k"), s("l")); let (x, y, z, w) = (ma(a), ma(b), ma(c), va(r));
        eqmn(Exact, "mm", a.mul_add(b, c), |i, j| x[i][j].mul_add(y[i][j], z[i][j])); eqmn(Exact, "mr", a.mul_add(b, r), |i, j| x[i][j].mul_add(y[i][j], w[j])); eqmn(Exact, "rm", a.mul_add(r, c), |i, j| x[i][j].mul_add(w[j], z[i][j])); eqmn(Exact, "ms", a.mul_add(b, k), |i, j| x[i][j].mul_add(y[i][j], k)); eqmn(Exact, "sm", a.mul_add(k, c), |i, j| x[i][j].mul_add(k, z[i][j])); eqmn(Exact, "ss", a.mul_add(k, l), |i, j| x[i][j].mul_add(k, l)); });
    contract(&format!("Matrix<T,{},{}>::clamp", M, N), FREE, || { let (a, b, c, r, k, l) = (m::<M, N>("a"), m::<M, N>("b"), m::<M, N>("c"), v::<N>("r"), s("k"), s("l")); let (x, y, z, w) = (ma(a), ma(b), ma(c), va(r));
        let ck = |n: &str, g: Matrix<E, M, N>, lo: &dyn Fn(usize, usize) -> E, hi: &dyn Fn(usize, usize) -> E| { let g = ma(g); count_check(); for i in 0..M { for j in 0..N { holds(&format!("{} entry ({},{}) is {} = clamp({}, {}, {})", n, i, j, g[i][j], x[i][j], lo(i, j), hi(i, j)), clamp_ok(g[i][j], x[i][j], lo(i, j), hi(i, j))); } } };
        ck("mm", a.clamp(b, c), &|i, j| y[i][j], &|i, j| z[i][j]); ck("mr", a.clamp(b, r), &|i, j| y[i][j], &|_, j| w[j]); ck("rm", a.clamp(r, c), &|_, j| w[j], &|i, j| z[i][j]); ck("ms", a.clamp(b, k), &|i, j| y[i][j], &|_, _| k); ck("ss", a.clamp(k, l), &|_, _| k, &|_, _| l); });
    contract(&format!("Matrix<T,{},{}> broadcast", M, N), FREE, || { let (a, r, k) = (m::<M, N>("a"), v::<N>("r"), s("k")); let (x, y) = (ma(a), va(r)); let f: Matrix<E, M, N> = a.broadcast(); eqmn(Exact, "matrix", f, |i, j| x[i][j]); let f: Matrix<E, M, N> = Broadcast::<Matrix<E, M, N>>::broadcast(r); eqmn(Exact, "row", f, |_, j| y[j]); let f: Matrix<E, M, N> = Broadcast::<Matrix<E, M, N>>::broadcast(k); eqmn(Exact, "scalar", f, |_, _| k); });
}
macro_rules! fl_un { ($t:ident; $($f:ident),*) => { concrete(concat!("elementwise unary functions on ", stringify!($t)), || {
    let d: Vec<$t> = vec![0.0, -0.0, 0.5, 1.0, -1.0, 2.0, -2.5, 3.7, 1e-5, 100.0, $t::INFINITY, $t::NEG_INFINITY, $t::NAN, 0.3, -0.7];
    for (i, &a) in d.iter().enumerate() { let b = d[(i + 4) % d.len()]; let c = d[(i + 9) % d.len()];
        let x = Vector::from_array([a, b, c]); let p = Matrix::from_array_of_arrays([[a, b], [c, a]]);
        $( let r = x.$f().into_array(); let rm = p.$f().into_array_of_arrays(); for (k, w) in [a, b, c].iter().enumerate() { holds(&format!("{} of {}", stringify!($f), w), bits(r[k], Float::$f(*w))); }
           holds(concat!("matrix ", stringify!($f)), bits(rm[0][0], Float::$f(a)) && bits(rm[0][1], Float::$f(b)) && bits(rm[1][0], Float::$f(c)) && bits(rm[1][1], Float::$f(a))); )*
        let (sn, cs) = x.sin_cos(); holds("sin_cos", bits(sn.into_array()[1], b.sin()) && bits(cs.into_array()[1], b.cos()));
    } }); } }
macro_rules! fl_bin { ($t:ident; $($f:ident $g:ident),*) => { concrete(concat!("elementwise binary functions on ", stringify!($t)), || {
    let d: Vec<$t> = vec![0.0, -0.0, 0.5, 1.0, -1.0, 2.0, -2.5, 3.7, 1e-5, 100.0, $t::INFINITY, $t::NEG_INFINITY, $t::NAN];
    for &a in &d { for &b in &d { let x = Vector::from_array([a, 2.0, b]); let y = Vector::from_array([b, 3.0, a]); let (p, q) = (Matrix::from_array_of_arrays([[a, 2.0], [b, 4.0]]), Matrix::from_array_of_arrays([[b, 3.0], [a, 5.0]]));
        $( let r = x.$f(y).into_array(); holds(&format!("{}({}, {})", stringify!($f), a, b), bits(r[0], Float::$g(a, b)) && bits(r[1], Float::$g(2.0 as $t, 3.0)) && bits(r[2], Float::$g(b, a)));
           let r = p.$f(q).into_array_of_arrays(); holds(&format!("matrix {}({}, {})", stringify!($f), a, b), bits(r[0][0], Float::$g(a, b)) && bits(r[0][1], Float::$g(2.0 as $t, 3.0)) && bits(r[1][0], Float::$g(b, a)) && bits(r[1][1], Float::$g(4.0 as $t, 5.0)));
           let r = x.$f(b).into_array(); holds(concat!(stringify!($f), " scalar"), bits(r[0], Float::$g(a, b)) && bits(r[1], Float::$g(2.0 as $t, b))); )*
        if a <= b { for &c in &d { if c.is_nan() { continue; } let w = if c < a { a } else if c > b { b } else { c }; let r = Vector::from_array([c, c]).clamp(a, b).into_array(); holds(&format!("clamp({}, {}, {})", c, a, b), r[0] == w && r[1] == w); let r = Matrix::from_array_of_arrays([[c], [c]]).clamp(a, b).into_array_of_arrays(); holds(&format!("matrix clamp({}, {}, {})", c, a, b), r[0][0] == w && r[1][0] == w); } }
    } } }); } }
fn main() { sxcore::main("C05", || {
    vdims_s!(vec_un); vdims_s!(vec_bin); mdims_s!(mat_un); mdims_s!(mat_bin);
    fl_un!(f32; abs, signum, cbrt, sqrt, acos, asin, atan, cosh, sinh, tan, tanh, log2, exp, ln, sin, cos, asinh, acosh, atanh, floor, ceil, round, trunc, fract, recip, exp2, log10, exp_m1, ln_1p);
    fl_un!(f64; abs, signum, cbrt, sqrt, acos, asin, atan, cosh, sinh, tan, tanh, log2, exp, ln, sin, cos, asinh, acosh, atanh, floor, ceil, round, trunc, fract, recip, exp2, log10, exp_m1, ln_1p);
    fl_bin!(f32; vmin min, vmax max, atan2 atan2, hypot hypot, powf powf, log log); fl_bin!(f64; vmin min, vmax max, atan2 atan2, hypot hypot, powf powf, log log);
}) }
