use sx::*;
use vecmat::matrix::Matrix4x4;
type Qn = Quaternion<E>;
fn p(z: Qn) -> [E; 4] { z.into() }
fn q4(a: [E; 4]) -> Qn { Quaternion::new(a[0], a[1], a[2], a[3]) }
fn z() -> E { con(0) }
fn sq(a: [E; 4]) -> E { a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3] }
/// Hamilton's product from the multiplication table of the units
fn ham(a: [E; 4], b: [E; 4]) -> [E; 4] { let t: [[(usize, i32); 4]; 4] = [[(0, 1), (1, 1), (2, 1), (3, 1)], [(1, 1), (0, -1), (3, 1), (2, -1)], [(2, 1), (3, -1), (0, -1), (1, 1)], [(3, 1), (2, 1), (1, -1), (0, -1)]]; let mut r = [z(); 4]; for i in 0..4 { for j in 0..4 { let (k, s) = t[i][j]; r[k] = if s > 0 { r[k] + a[i] * b[j] } else { r[k] - a[i] * b[j] }; } } r }
fn conj4(a: [E; 4]) -> [E; 4] { [a[0], -a[1], -a[2], -a[3]] }
fn emb(c: Complex<E>) -> Qn { let c: [E; 2] = c.into(); q4([c[0], c[1], z(), z()]) }
fn embs(t: E) -> Qn { q4([t, z(), z(), z()]) }
fn arith() {
    contract("quaternion +, -, negation, conjugation", FREE, || { let (x, y, t, c) = (qt("a"), qt("b"), s("t"), cx("c")); let (a, b) = (p(x), p(y));
        eqq(Field, "a+b", x + y, q4(std::array::from_fn(|i| a[i] + b[i]))); eqq(Field, "a-b", x - y, q4(std::array::from_fn(|i| a[i] - b[i]))); eqq(Field, "-a", -x, q4(a.map(|e| -e))); eqq(Field, "conj", x.conj(), q4(conj4(a))); eqq(Field, "Conj::conj", Conj::conj(x), q4(conj4(a)));
        eqq(Field, "a+c", x + c, x + emb(c)); eqq(Field, "a-c", x - c, x - emb(c)); eqq(Field, "a+t", x + t, x + embs(t)); eqq(Field, "a-t", x - t, x - embs(t));
        let mut w = x; w += y; eqq(Field, "a+=b", w, x + y); let mut w = x; w -= y; eqq(Field, "a-=b", w, x - y); let mut w = x; w += c; eqq(Field, "a+=c", w, x + c); let mut w = x; w -= c; eqq(Field, "a-=c", w, x - c); let mut w = x; w += t; eqq(Field, "a+=t", w, x + t); let mut w = x; w -= t; eqq(Field, "a-=t", w, x - t); });
    contract("quaternion product is Hamilton's", FREE, || { let (x, y, t, c) = (qt("a"), qt("b"), s("t"), cx("c")); let (a, b) = (p(x), p(y)); eqq(Field, "a*b", x * y, q4(ham(a, b))); eqq(Field, "a*c", x * c, q4(ham(a, p(emb(c))))); eqq(Field, "c*a", c * x, q4(ham(p(emb(c)), a))); eqq(Field, "a*t", x * t, q4(a.map(|e| e * t)));
        let mut w = x; w *= y; eqq(Field, "a*=b", w, x * y); let mut w = x; w *= c; eqq(Field, "a*=c", w, x * c); let mut w = x; w *= t; eqq(Field, "a*=t", w, x * t); });
    contract("quaternion laws", FREE, || { let (x, y, w) = (qt("a"), qt("b"), qt("c")); eqq(Field, "associativity", (x * y) * w, x * (y * w)); eqq(Field, "left distributivity", x * (y + w), x * y + x * w); eqq(Field, "right distributivity", (x + y) * w, x * w + y * w); eqq(Field, "conjugation reverses products", (x * y).conj(), y.conj() * x.conj()); field("the squared norm is multiplicative", (x * y).norm_sqr(), x.norm_sqr() * y.norm_sqr()); eqq(Field, "one", x * Qn::one(), x); eqq(Field, "one (left)", Qn::one() * x, x); eqq(Field, "zero", x + Qn::zero(), x); });
    contract("quaternion units", FREE, || { let (i, j, k, o) = (Qn::i(), Qn::j(), Qn::k(), Qn::one()); eqq(Field, "i", i, q4([z(), con(1), z(), z()])); eqq(Field, "j", j, q4([z(), z(), con(1), z()])); eqq(Field, "k", k, q4([z(), z(), z(), con(1)])); eqq(Field, "1", o, q4([con(1), z(), z(), z()])); eqq(Field, "0", Qn::zero(), q4([z(); 4])); eqq(Field, "ij", i * j, k); eqq(Field, "jk", j * k, i); eqq(Field, "ki", k * i, j); eqq(Field, "ii", i * i, -o); eqq(Field, "jj", j * j, -o); eqq(Field, "kk", k * k, -o); eqq(Field, "default", Qn::default(), q4([E::default(); 4])); });
    contract("quaternion inverse and division", FREE, || { let (x, y, c, t) = (qt("a"), qt("b"), cx("c"), s("t")); assume_nonzero(sq(p(y))); assume_nonzero(sq(p(emb(c)))); assume_nonzero(t); check_defined();
        for (l, i) in [("inherent", y.inv()), ("trait", Inv::inv(y))] { eqq(Field, &format!("{}: q q^-1", l), y * i, Qn::one()); eqq(Field, &format!("{}: q^-1 q", l), i * y, Qn::one()); eqq(Field, &format!("{}: a / q", l), x / y, x * i); eqq(Field, &format!("{}: c / q", l), c / y, emb(c) * i); }
        eqq(Field, "(a/b) b", (x / y) * y, x); eqq(Field, "(a/c) c", (x / c) * emb(c), x); eqq(Field, "(c/b) b", (c / y) * y, emb(c)); eqq(Field, "(a/t) t", (x / t) * t, x);
        let mut w = x; w /= y; eqq(Field, "a/=b", w, x / y); let mut w = x; w /= c; eqq(Field, "a/=c", w, x / c); let mut w = x; w /= t; eqq(Field, "a/=t", w, x / t); });
    contract("quaternion is_zero and equality", REAL, || { let (x, y) = (qt("a"), qt("b")); let (a, b) = (p(x), p(y)); let w = (0..4).all(|i| a[i] == z()); holds("is_zero", x.is_zero() == w); let e = (0..4).all(|i| a[i] == b[i]); holds("==", (x == y) == e); });
    contract("quaternion norms and dot", FREE, || { let (x, y) = (qt("a"), qt("b")); let (a, b) = (p(x), p(y)); field("norm_sqr", x.norm_sqr(), sq(a)); field("norm", x.norm(), sq(a).sqrt()); field("norm_l2", x.norm_l2(), sq(a).sqrt()); field("norm_l2_sqr", x.norm_l2_sqr(), sq(a)); field("norm_l1", x.norm_l1(), a[0].norm_l1() + a[1].norm_l1() + a[2].norm_l1() + a[3].norm_l1()); field("dot", x.dot(y), a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]); });
    contract("normalised quaternion", FREE, || { let x = qt("a"); let a = p(x); assume_pos(sq(a)); assume_nonzero(sq(a)); check_defined(); for (l, n) in [("inherent", x.normalize()), ("trait", Normalize::normalize(x))] { field(&format!("{}: length one", l), sq(p(n)), con(1)); for i in 0..4 { field(&format!("{}: component {}", l, i), p(n)[i] * sq(a).sqrt(), a[i]); } } });
    contract("4x4 matrix form is left multiplication", FREE, || { let (x, y) = (qt("a"), qt("b")); let mx: Matrix4x4<E> = x.into_matrix(); let col: Vector<E, 4> = mx.dot(Vector::from_array(p(y))); eqv(Field, col, |i| ham(p(x), p(y))[i]); let pr: Matrix4x4<E> = mx.dot(y.into_matrix()); eqmm(Field, "matrix of the product", (x * y).into_matrix(), pr); });
    for n in 0..6usize { contract(&format!("sum and product of {} quaternions", n), FREE, || { let v: Vec<Qn> = (0..n).map(|i| if n > 3 && i > 1 { q4([s(&format!("u{}", i)), con(i as i128), z(), s(&format!("v{}", i))]) } else { qt(&format!("a{}", i)) }).collect(); let (mut w, mut q) = ([z(); 4], [con(1), z(), z(), z()]); for e in &v { let e = p(*e); w = std::array::from_fn(|i| w[i] + e[i]); q = ham(q, e); } eqq(Field, "sum", v.iter().copied().sum(), q4(w)); eqq(Field, "product", v.iter().copied().product(), q4(q)); }); }
}
fn conv() {
    contract("quaternion conversions and accessors", FREE, || { let a = [s("w"), s("x"), s("y"), s("z")]; let ok = |l: &str, q: Qn| { for (i, g) in [q.w(), q.x(), q.y(), q.z()].into_iter().enumerate() { exact(&format!("{}: component {}", l, i), g, a[i]); } };
        let pr = |l: &str, g: [E; 4]| for i in 0..4 { exact(&format!("{}: component {}", l, i), g[i], a[i]); };
        let v3 = || Vector::from_array([a[1], a[2], a[3]]); ok("new", Quaternion::new(a[0], a[1], a[2], a[3])); ok("from_array", Quaternion::from_array(a)); ok("From<array>", a.into()); ok("from_tuple", Quaternion::from_tuple((a[0], a[1], a[2], a[3]))); ok("From<tuple>", (a[0], a[1], a[2], a[3]).into()); ok("from_vector", Quaternion::from_vector(Vector::from_array(a))); ok("From<Vector>", Vector::from_array(a).into()); ok("from_scalar_and_vector3", Quaternion::from_scalar_and_vector3(a[0], v3())); ok("From<(T, Vector3)>", (a[0], v3()).into());
        let q = Quaternion::from_array(a); pr("into_array", q.into_array()); pr("Into<array>", q.into()); let t = q.into_tuple(); pr("into_tuple", [t.0, t.1, t.2, t.3]); let t: (E, E, E, E) = q.into(); pr("Into<tuple>", [t.0, t.1, t.2, t.3]); pr("into_vector", q.into_vector().into_array()); let t: Vector<E, 4> = q.into(); pr("Into<Vector>", t.into_array()); let (t, v) = q.into_scalar_and_vector3(); let v = v.into_array(); pr("into_scalar_and_vector3", [t, v[0], v[1], v[2]]); let (t, v): (E, Vector<E, 3>) = q.into(); let v = v.into_array(); pr("Into<(T, Vector3)>", [t, v[0], v[1], v[2]]);
        let v = q.xyz().into_array(); pr("xyz", [q.w(), v[0], v[1], v[2]]); pr("refs", [*q.w_ref(), *q.x_ref(), *q.y_ref(), *q.z_ref()]);
        for i in 0..4 { let mut b = a; b[i] = s("other"); let mut q = Quaternion::from_array(b); *[Quaternion::w_mut, Quaternion::x_mut, Quaternion::y_mut, Quaternion::z_mut][i](&mut q) = a[i]; pr(&format!("mutable access {}", i), q.into_array()); } ok("clone", q.clone()); });
    concrete("conversions of non-Copy parts", || { let n = ["w".to_string(), "x".into(), "y".into(), "z".into()]; let q = Quaternion::from_array(n.clone()); same("refs", [q.w_ref().clone(), q.x_ref().clone(), q.y_ref().clone(), q.z_ref().clone()], n.clone()); let (w, v) = q.into_scalar_and_vector3(); same("w", w, "w".to_string()); same("xyz", v.into_array(), ["x".to_string(), "y".into(), "z".into()]); });
}
macro_rules! prim { ($($t:ident $eps:expr;)*) => { $( concrete(concat!("mixing quaternions with scalars and complex numbers on either side, ", stringify!($t)), || { let cl = |l: String, g: Quaternion<$t>, w: Quaternion<$t>| { let (g, w) = (g.into_array(), w.into_array()); for i in 0..4 { holds(&format!("{}: got {:?}, expected {:?}", l, g, w), (g[i] - w[i]).abs() <= $eps * (1.0 + w[i].abs())); } };
        let mut r = sxcore::rng::Rng::new(7 + seed()); let mut f = || (r.below(41) as $t - 20.0) / 4.0; for k in 0..300 { let q = Quaternion::new(f(), f(), f(), f()); let c = Complex::new(f(), if k % 5 == 0 { 0.0 } else { f() }); let t = f(); let (ec, et) = (Quaternion::new(c.re(), c.im(), 0.0, 0.0), Quaternion::new(t, 0.0, 0.0, 0.0));
            cl(format!("{} + {:?}", t, q), t + q, et + q); cl(format!("{} - {:?}", t, q), t - q, et - q); cl(format!("{:?} + {:?}", c, q), c + q, ec + q); cl(format!("{:?} - {:?}", c, q), c - q, ec - q); cl(format!("{} * {:?}", t, q), t * q, et * q); cl(format!("{:?} * {:?}", c, q), c * q, ec * q); if q.norm_sqr() > 0.0 { cl(format!("{} / {:?}", t, q), t / q, et / q); cl(format!("{:?} / {:?}", c, q), c / q, ec / q); }
            cl(format!("{:?} + {}", q, t), q + t, q + et); cl(format!("{:?} - {}", q, t), q - t, q - et); cl(format!("{:?} - {:?}", q, c), q - c, q - ec); cl(format!("{:?} * {:?}", q, c), q * c, q * ec); if t != 0.0 { cl(format!("{:?} / {}", q, t), q / t, q / et); } if c.norm_sqr() > 0.0 { cl(format!("{:?} / {:?}", q, c), q / c, q / ec); } } }); )* } }
fn main() { sxcore::main("C19", || { arith(); conv(); prim! { f32 1e-3; f64 1e-10; } }) }
