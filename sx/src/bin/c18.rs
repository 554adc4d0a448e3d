use num_complex::Complex as NC;
use sx::*;
use vecmat::matrix::Matrix2x2;
type C = Complex<E>;
fn c2(a: E, b: E) -> C { Complex::new(a, b) }
fn p(z: C) -> [E; 2] { z.into() }
fn n2(z: [E; 2]) -> E { z[0] * z[0] + z[1] * z[1] }
fn nc<T: Copy>(z: Complex<T>) -> NC<T> { let a: [T; 2] = z.into(); NC { re: a[0], im: a[1] } }
fn cn(k: &str, g: C, w: NC<E>) { field(&format!("{} re", k), p(g)[0], w.re); field(&format!("{} im", k), p(g)[1], w.im); }
fn sets(base: [E; 2]) -> C { Complex::from(base) }
fn arith() {
    contract("complex +, -, negation, conjugation", FREE, || { let (x, y) = (cx("a"), cx("b")); let (a, b) = (p(x), p(y)); let t = s("t");
        eqc(Field, "a+b", x + y, c2(a[0] + b[0], a[1] + b[1])); eqc(Field, "a-b", x - y, c2(a[0] - b[0], a[1] - b[1])); eqc(Field, "-a", -x, c2(-a[0], -a[1])); eqc(Field, "conj", x.conj(), c2(a[0], -a[1])); eqc(Field, "Conj::conj", Conj::conj(x), c2(a[0], -a[1]));
        eqc(Field, "a+t", x + t, c2(a[0] + t, a[1])); eqc(Field, "a-t", x - t, c2(a[0] - t, a[1]));
        let mut z = x; z += y; eqc(Field, "a+=b", z, x + y); let mut z = x; z -= y; eqc(Field, "a-=b", z, x - y); let mut z = x; z += t; eqc(Field, "a+=t", z, x + t); let mut z = x; z -= t; eqc(Field, "a-=t", z, x - t);
        eqc(Field, "additive cancellation", x + y - y, x); });
    contract("complex *, / and their assigning forms", FREE, || { let (x, y) = (cx("a"), cx("b")); let (a, b) = (p(x), p(y)); let t = s("t");
        assume_nonzero(n2(b)); assume_nonzero(t); check_defined();
        let m = c2(a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]); eqc(Field, "a*b", x * y, m); eqc(Field, "a*t", x * t, c2(a[0] * t, a[1] * t)); let d = x / t; eqc(Field, "a/t * t", d * t, x);
        let q = x / y; eqc(Field, "a/b * b", q * y, x); let n = spec(|| n2(b)); eqc(Field, "a/b", q, spec(|| c2((a[0] * b[0] + a[1] * b[1]) / n, (a[1] * b[0] - a[0] * b[1]) / n)));
        let mut z = x; z *= y; eqc(Field, "a*=b", z, m); let mut z = x; z *= t; eqc(Field, "a*=t", z, c2(a[0] * t, a[1] * t)); let mut z = x; z /= y; eqc(Field, "a/=b", z, q); let mut z = x; z /= t; eqc(Field, "a/=t", z, d);
        eqc(Field, "conjugation is multiplicative", (x * y).conj(), x.conj() * y.conj()); field("the squared norm is multiplicative", (x * y).norm_sqr(), x.norm_sqr() * y.norm_sqr()); });
    contract("field laws of complex arithmetic", FREE, || { let (x, y, z) = (cx("a"), cx("b"), cx("c")); eqc(Field, "associativity", (x * y) * z, x * (y * z)); eqc(Field, "commutativity", x * y, y * x); eqc(Field, "distributivity", x * (y + z), x * y + x * z); eqc(Field, "one", x * C::one(), x); eqc(Field, "zero", x + C::zero(), x); });
    contract("complex units", FREE, || { eqc(Field, "i*i", C::i() * C::i(), c2(con(-1), con(0))); eqc(Field, "i", C::i(), c2(con(0), con(1))); eqc(Field, "one", C::one(), c2(con(1), con(0))); eqc(Field, "zero", C::zero(), c2(con(0), con(0))); eqc(Field, "default", C::default(), c2(E::default(), E::default())); });
    contract("complex inverse", FREE, || { let x = cx("a"); let a = p(x); assume_nonzero(n2(a)); check_defined(); for (l, i) in [("inherent", x.inv()), ("trait", Inv::inv(x))] { eqc(Field, &format!("{}: z * inverse", l), x * i, c2(con(1), con(0))); eqc(Field, &format!("{}: inverse * z", l), i * x, c2(con(1), con(0))); } });
    contract("complex is_zero and equality", REAL, || { let x = cx("a"); let a = p(x); let z = a[0] == con(0) && a[1] == con(0); holds("is_zero", x.is_zero() == z); let y = cx("b"); let b = p(y); let e = a[0] == b[0] && a[1] == b[1]; holds("==", (x == y) == e); holds("!=", (x != y) == !e); });
}
fn norms() {
    contract("norms, dot product and 2x2 matrix of a complex number", FREE, || { let (x, y) = (cx("a"), cx("b")); let (a, b) = (p(x), p(y));
        field("norm_sqr", x.norm_sqr(), n2(a)); field("norm", x.norm(), n2(a).sqrt()); field("norm_l2", x.norm_l2(), n2(a).sqrt()); field("norm_l2_sqr", x.norm_l2_sqr(), n2(a)); field("norm_l1", x.norm_l1(), a[0].norm_l1() + a[1].norm_l1());
        field("dot", x.dot(y), a[0] * b[0] + a[1] * b[1]); field("arg", x.arg(), a[1].atan2(a[0])); let (r, t) = x.to_polar(); field("polar r", r, n2(a).sqrt()); field("polar theta", t, a[1].atan2(a[0]));
        let mx: Matrix2x2<E> = x.into_matrix(); eqm(Field, mx, |i, j| match (i, j) { (0, 0) | (1, 1) => a[0], (0, 1) => -a[1], _ => a[1] });
        let pr: Matrix2x2<E> = mx.dot(y.into_matrix()); eqmm(Field, "matrix of the product", (x * y).into_matrix(), pr);
        let col: Vector<E, 2> = mx.dot(Vector::from_array(b)); eqv(Field, col, |i| p(x * y)[i]); });
    contract("from_polar", FREE, || { let (r, t) = (s("r"), s("t")); eqc(Field, "from_polar", C::from_polar(r, t), c2(r * t.cos(), r * t.sin())); field("squared norm", C::from_polar(r, t).norm_sqr(), r * r); });
    contract("polar form round trip", FREE, || { let x = cx("a"); let a = p(x); assume_pos(n2(a)); assume_nonzero(n2(a)); let (r, t) = x.to_polar(); eqc(Field, "from_polar(to_polar)", C::from_polar(r, t), x); });
    contract("normalised complex number", FREE, || { let x = cx("a"); let a = p(x); assume_pos(n2(a)); assume_nonzero(n2(a)); check_defined(); for (l, n) in [("inherent", x.normalize()), ("trait", Normalize::normalize(x))] { field(&format!("{}: length one", l), n2(p(n)), con(1)); field(&format!("{}: re", l), p(n)[0] * n2(a).sqrt(), a[0]); field(&format!("{}: im", l), p(n)[1] * n2(a).sqrt(), a[1]); } });
    for n in 0..6usize { contract(&format!("sum and product of {} complex numbers", n), FREE, || { let v: Vec<C> = (0..n).map(|i| cx(&format!("a{}", i))).collect(); let (mut w, mut q) = ([con(0), con(0)], [con(1), con(0)]); for z in &v { let z = p(*z); w = [w[0] + z[0], w[1] + z[1]]; q = [q[0] * z[0] - q[1] * z[1], q[0] * z[1] + q[1] * z[0]]; } eqc(Field, "sum", v.iter().copied().sum(), sets(w)); eqc(Field, "product", v.iter().copied().product(), sets(q)); }); }
}
fn conv() {
    contract("complex conversions and accessors", FREE, || { let (a, b) = (s("a"), s("b")); let ok = |l: &str, z: C| { exact(&format!("{}: re", l), z.re(), a); exact(&format!("{}: im", l), z.im(), b); };
        ok("new", Complex::new(a, b)); ok("from_array", Complex::from_array([a, b])); ok("From<array>", [a, b].into()); ok("from_tuple", Complex::from_tuple((a, b))); ok("From<tuple>", (a, b).into()); ok("from_vector", Complex::from_vector(Vector::from_array([a, b]))); ok("From<Vector>", Vector::from_array([a, b]).into()); ok("from_num", Complex::from_num(NC::new(a, b))); ok("From<num>", NC::new(a, b).into());
        let z = Complex::new(a, b); let pr = |l: &str, x: E, y: E| { exact(&format!("{}: re", l), x, a); exact(&format!("{}: im", l), y, b); };
        let t = z.into_tuple(); pr("into_tuple", t.0, t.1); let t: (E, E) = z.into(); pr("Into<tuple>", t.0, t.1); let t = z.into_array(); pr("into_array", t[0], t[1]); let t: [E; 2] = z.into(); pr("Into<array>", t[0], t[1]); let t = z.into_vector().into_array(); pr("into_vector", t[0], t[1]); let t: Vector<E, 2> = z.into(); let t = t.into_array(); pr("Into<Vector>", t[0], t[1]); let t = z.into_num(); pr("into_num", t.re, t.im); let t: NC<E> = z.into(); pr("Into<num>", t.re, t.im);
        pr("refs", *z.re_ref(), *z.im_ref()); let mut m = Complex::new(s("c"), b); *m.re_mut() = a; pr("re_mut", m.re(), m.im()); let mut m = Complex::new(a, s("c")); *m.im_mut() = b; pr("im_mut", m.re(), m.im());
        let mut m = z; let _ = m.re_mut(); let q = z; pr("copy", q.re(), q.im()); pr("clone", z.clone().re(), z.clone().im()); });
    concrete("conversions of non-Copy parts", || { let z = Complex::new("a".to_string(), "b".to_string()); same("refs", (z.re_ref().clone(), z.im_ref().clone()), ("a".into(), "b".into())); same("tuple", z.clone().into_tuple(), ("a".to_string(), "b".to_string())); same("array", z.into_array(), ["a".to_string(), "b".to_string()]); });
}
macro_rules! fun { ($($f:ident)*) => { $( contract(concat!("Complex::", stringify!($f)), Opt { order: Order::Partial, search: Search::Sample(if thorough() { 400 } else { 60 }), max_decisions: 400 }, || { let z = cx("a"); cn(stringify!($f), z.$f(), nc(z).$f()); }); )*
    $( concrete(concat!("Complex<f64>::", stringify!($f)), || { for z in grid() { let (g, w) = (z.$f(), nc(z).$f()); holds(&format!("{:?}: got {:?}, expected {:?}", z, g, w), close(g.re(), w.re) && close(g.im(), w.im)); } }); )* } }
fn grid() -> Vec<Complex<f64>> { let v = [0.0, 1.0, -1.0, 0.3, -0.7, 2.5, -4.0, 1e-3]; let mut o = vec![]; for a in v { for b in v { o.push(Complex::new(a, b)); } } o }
fn close(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs())) }
fn closec(g: Complex<f64>, w: NC<f64>) -> bool { close(g.re(), w.re) && close(g.im(), w.im) }
fn funs() {
    fun!(exp ln sqrt cbrt sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh finv);
    let smp = || Opt { order: Order::Partial, search: Search::Sample(if thorough() { 300 } else { 40 }), max_decisions: 400 };
    contract("Complex powf, log, expf, powc, fdiv", smp(), || { let (z, w, t) = (cx("a"), cx("b"), s("t")); cn("powf", z.powf(t), nc(z).powf(t)); cn("log", z.log(t), nc(z).log(t)); cn("expf", z.expf(t), nc(z).expf(t)); cn("powc", z.powc(w), nc(z).powc(nc(w))); cn("fdiv", z.fdiv(w), nc(z).fdiv(nc(w))); });
    concrete("Complex<f64> finv and fdiv where squares overflow or underflow", || { let v = [1e200, -1e200, 1e-200, -3e-200, 1.0, -2.0]; let rel = |g: Complex<f64>, w: NC<f64>| { let n = w.re.abs().max(w.im.abs()); let c = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * n; c(g.re(), w.re) && c(g.im(), w.im) };
        for a in v { for b in v { let z = Complex::new(a, b); holds(&format!("finv {:?}", z), rel(z.finv(), nc(z).finv())); for c in v { for d in v { let w = Complex::new(c, d); holds(&format!("fdiv {:?} {:?}", z, w), rel(z.fdiv(w), nc(z).fdiv(nc(w)))); } } } } });
    concrete("Complex<f64> powf, log, expf, powc, fdiv, powu, powi, %", || { for z in grid() { for w in grid() { holds(&format!("powc {:?} {:?}", z, w), closec(z.powc(w), nc(z).powc(nc(w)))); holds(&format!("fdiv {:?} {:?}", z, w), closec(z.fdiv(w), nc(z).fdiv(nc(w)))); holds(&format!("{:?} % {:?}", z, w), closec(z % w, nc(z) % nc(w))); }
        for t in [0.5, 2.0, -1.5, 3.0, 10.0] { holds(&format!("powf {:?} {}", z, t), closec(z.powf(t), nc(z).powf(t))); holds(&format!("log {:?} {}", z, t), closec(z.log(t), nc(z).log(t))); holds(&format!("expf {:?} {}", z, t), closec(z.expf(t), nc(z).expf(t))); }
        for k in 0..12 { holds(&format!("powu {:?} {}", z, k), closec(z.powu(k), nc(z).powu(k))); } for k in -8..9 { holds(&format!("powi {:?} {}", z, k), closec(z.powi(k), nc(z).powi(k))); } } });
    for k in 0..9u32 { contract(&format!("Complex powu and powi, exponent {}", k), FREE, || { let z = cx("a"); let mut w = C::one(); for _ in 0..k { w = w * z; } eqc(Field, "powu", z.powu(k), w); eqc(Field, "powi", z.powi(k as i32), w); assume_nonzero(n2(p(z))); if k < 5 { eqc(Field, "powi negative", z.powi(-(k as i32)) * w, C::one()); } }); }
    concrete("Complex powu exponents up to 70, modulo a prime", || { use sx::q::F; let z = Complex::new(F(12345), F(54321)); let mut w = Complex::new(F(1), F(0)); for k in 0..70u32 { same(&format!("powu {}", k), z.powu(k).into_array(), w.into_array()); same(&format!("powi {}", k), z.powi(k as i32).into_array(), w.into_array()); w = w * z; } same("powu max", z.powu(u32::MAX).into_array(), { let q = nc(z).powu(u32::MAX); [q.re, q.im] }); });
    concrete("remainder of Gaussian integers, parsing", || { for a in -6..=6i64 { for b in -6..=6i64 { for c in -3..=3i64 { for d in -3..=3i64 { if c == 0 && d == 0 { continue; } let (x, y) = (Complex::new(a, b), Complex::new(c, d)); let w = NC::new(a, b) % NC::new(c, d); same(&format!("{:?} % {:?}", x, y), (x % y).into_array(), [w.re, w.im]); } } } }
        for t in ["1+2i", "-3-4i", "5", "2i", "-i", "7+i", "x", "", "1+2", "10+11i", "i", "1+2i+3"] { for r in [2, 8, 10, 16] { let (g, w) = (<Complex<i64> as Num>::from_str_radix(t, r), NC::<i64>::from_str_radix(t, r)); same(&format!("from_str_radix {:?} {}", t, r), g.ok().map(|z| z.into_array()), w.ok().map(|z| [z.re, z.im])); } } });
}
macro_rules! prim { ($($t:ident $eps:expr;)*) => { $( concrete(concat!("real scalar on either side, ", stringify!($t)), || { let v: [$t; 7] = [0.0, 1.0, -2.0, 0.75, -3.5, 10.0, 0.125]; let cl = |l: &str, g: Complex<$t>, w: [$t; 2]| { let g = g.into_array(); for i in 0..2 { holds(&format!("{}: got {:?}, expected {:?}", l, g, w), g[i] == w[i] || (g[i].is_nan() && w[i].is_nan()) || (g[i] - w[i]).abs() <= $eps * (1.0 + w[i].abs())); } };
        for t in v { for a in v { for b in v { let z = Complex::new(a, b); cl(&format!("{} + {:?}", t, z), t + z, [t + a, b]); cl(&format!("{} - {:?}", t, z), t - z, [t - a, -b]); cl(&format!("{} * {:?}", t, z), t * z, [t * a, t * b]); cl(&format!("{:?} + {}", z, t), z + t, [a + t, b]); cl(&format!("{:?} - {}", z, t), z - t, [a - t, b]); cl(&format!("{:?} * {}", z, t), z * t, [a * t, b * t]);
            if a != 0.0 || b != 0.0 { let n = a * a + b * b; cl(&format!("{} / {:?}", t, z), t / z, [t * a / n, -t * b / n]); } if t != 0.0 { cl(&format!("{:?} / {}", z, t), z / t, [a / t, b / t]); } } } } }); )* } }
fn main() { sxcore::main("C18", || { arith(); norms(); conv(); funs(); prim! { f32 1e-5; f64 1e-12; } }) }
