use sx::*;
use vecmat::transform::*;
fn unit(p: &str, n: usize) { let mut w = con(1); for i in 1..n { let x = s(&format!("{}{}", p, i)); w = w - x * x; } assume_square(s(&format!("{}0", p)), w); }
fn unit2(p: &str) { assume_square(s(&format!("{}r", p)), con(1) - s(&format!("{}i", p)) * s(&format!("{}i", p))); }
fn unit3(p: &str) { let f = |c: &str| s(&format!("{}{}", p, c)); assume_square(f("w"), con(1) - f("x") * f("x") - f("y") * f("y") - f("z") * f("z")); }
fn dot(a: &[E], b: &[E]) -> E { let mut w = con(0); for i in 0..a.len() { w = w + a[i] * b[i]; } w }
fn cross(a: [E; 3], b: [E; 3]) -> [E; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn isometry2(r: Rotation2<E>) { let (x, y) = (v::<2>("x"), v::<2>("y")); let (a, b, fx, fy) = (va(x), va(y), va(r.apply(x)), va(r.apply(y))); field("preserves lengths", dot(&fx, &fx), dot(&a, &a)); field("preserves dot products", dot(&fx, &fy), dot(&a, &b)); field("preserves orientation", fx[0] * fy[1] - fx[1] * fy[0], a[0] * b[1] - a[1] * b[0]); }
fn isometry3(f: impl Fn(Vector<E, 3>) -> Vector<E, 3>) { let e: [[E; 3]; 3] = std::array::from_fn(|i| va(f(Vector::from_array(std::array::from_fn(|j| con((i == j) as i128)))))); for i in 0..3 { for j in 0..=i { field("images of the basis are orthonormal", dot(&e[i], &e[j]), con((i == j) as i128)); } } field("preserves orientation", dot(&e[0], &cross(e[1], e[2])), con(1)); let x = v::<3>("x"); let a = va(x); eqv(Field, f(x), |k| e[0][k] * a[0] + e[1][k] * a[1] + e[2][k] * a[2]); }
fn two() {
    contract("Rotation2::new turns counter-clockwise by the angle", FREE, || { let t = s("t"); let r = Rotation2::new(t); let x = v::<2>("x"); let a = va(x); eqv(Field, r.apply(x), |k| [t.cos() * a[0] - t.sin() * a[1], t.sin() * a[0] + t.cos() * a[1]][k]); isometry2(r); });
    contract("Rotation2 from a unit complex number", FREE, || { unit2("q"); let r = Rotation2::from(cx("q")); isometry2(r); let x = v::<2>("x"); eqvv(Field, "the angle read back describes the same rotation", Rotation2::new(r.angle()).apply(x), r.apply(x)); let l = r.to_linear(); eqvv(Field, "linear form", l.apply(x), r.apply(x)); });
    contract("Rotation2 angles add", FREE, || { let x = v::<2>("x"); let (a, b) = (s("a"), s("b")); eqvv(Field, "chain", Rotation2::new(a).chain(Rotation2::new(b)).apply(x), Rotation2::new(a + b).apply(x)); eqvv(Field, "inverse", Rotation2::new(a).inv().apply(x), Rotation2::new(-a).apply(x)); eqvv(Field, "angle read back", Rotation2::new(Rotation2::new(a).angle()).apply(x), Rotation2::new(a).apply(x)); eqvv(Field, "linear form", Rotation2::new(a).to_linear().apply(x), Rotation2::new(a).apply(x)); });
    contract("Rotation2 linear form, any parts", FREE, || { let r = Rotation2::from(cx("q")); let x = v::<2>("x"); eqvv(Field, "linear form", r.to_linear().apply(x), r.apply(x)); });
    concrete("Rotation2<f64>::angle", || { for k in -62..=62 { let t = k as f64 / 20.0; let a = Rotation2::new(t).angle(); holds(&format!("angle of Rotation2::new({}) is {}", t, a), (a - t).abs() < 1e-12); let w = Rotation2::new(t + 4.0 * std::f64::consts::PI).angle(); holds(&format!("angle {} plus two turns", t), (w - t).abs() < 1e-9); } });
}
fn three() {
    contract("Rotation3::new turns by the angle about the axis (Rodrigues)", FREE, || { unit("a", 3); let (ax, h) = (v::<3>("a"), s("h")); let t = h + h; let r = Rotation3::new(ax, t); let x = v::<3>("x"); let (u, a) = (va(ax), va(x)); let c = cross(u, a); let d = dot(&u, &a); eqv(Field, r.apply(x), |k| a[k] * t.cos() + c[k] * t.sin() + u[k] * d * (con(1) - t.cos())); eqvv(Field, "fixes the axis", r.apply(ax), ax); isometry3(|x| r.apply(x)); });
    contract("Rotation3 angles about one axis add", FREE, || { unit("a", 3); let ax = v::<3>("a"); let (h, k) = (s("h"), s("k")); let x = v::<3>("x"); eqvv(Field, "chain", Rotation3::new(ax, h + h).chain(Rotation3::new(ax, k + k)).apply(x), Rotation3::new(ax, h + h + k + k).apply(x)); eqvv(Field, "inverse", Rotation3::new(ax, h + h).inv().apply(x), Rotation3::new(ax, -(h + h)).apply(x)); });
    contract("Rotation3 from a unit quaternion", FREE, || { unit3("q"); let r = Rotation3::from(qt("q")); isometry3(|x| r.apply(x)); let x = v::<3>("x"); eqvv(Field, "linear form", r.to_linear().apply(x), r.apply(x)); isometry3(|x| r.to_linear().apply(x)); });
    contract("Rotation3 axis and angle read back", FREE, || { let (x, y, z) = (s("qx"), s("qy"), s("qz")); let n = x * x + y * y + z * z; assume_pos(n); assume_nonzero(n); unit3("q"); let r = Rotation3::from(qt("q")); let p = v::<3>("x"); let (ax, an) = (r.axis(), r.angle()); field("axis of length one", dot(&va(ax), &va(ax)), con(1)); eqvv(Field, "same rotation", Rotation3::new(ax, an).apply(p), r.apply(p)); eqvv(Field, "the axis is fixed", r.apply(ax), ax); });
    concrete("Rotation3<f64> axis and angle", || { for k in 1..62 { let t = k as f64 / 10.0; for a in [[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.6, 0.8], [0.48, -0.6, 0.64], [-0.36, 0.48, -0.8]] { let r = Rotation3::new(Vector::from_array(a), t); let (g, an) = (r.axis().into_array(), r.angle()); for i in 0..3 { holds(&format!("axis of {:?} {}: {:?}", a, t, g), (g[i] - a[i]).abs() < 1e-9); } holds(&format!("angle of {:?} {}: {}", a, t, an), (an - t).abs() < 1e-9); } } });
}
fn minus_z() -> Vector<E, 3> { Vector::from_array([con(0), con(0), con(-1)]) }
fn look() {
    contract("Linear::look_at", FREE, || { unit("d", 3); let d = va(v::<3>("d")); /* up: any unit vector perpendicular to d, as (cos, sin) in the plane spanned by w - (w.d)d and its quarter turn */ let w = va(v::<3>("w")); let k = dot(&w, &d); let e: [E; 3] = std::array::from_fn(|i| w[i] - d[i] * k); let n = dot(&e, &e); assume_pos(n); assume_nonzero(n); let up = Vector::from_array(e.map(|x| x / n.sqrt())); let dd = v::<3>("d"); let l = Linear::look_at(dd, up); eqvv(Field, "-z goes to the direction", l.apply(minus_z()), dd); eqvv(Field, "y goes to up", l.apply(Vector::from_array([con(0), con(1), con(0)])), up); isometry3(|x| l.apply(x)); });
    contract("Linear::look_at, up of any length and angle", FREE, || { unit("d", 3); let (dd, up) = (v::<3>("d"), v::<3>("u")); let c = cross(va(dd), va(up)); let n = dot(&c, &c); assume_pos(n); assume_nonzero(n); let l = Linear::look_at(dd, up); eqvv(Field, "-z goes to the direction", l.apply(minus_z()), dd); isometry3(|x| l.apply(x)); });
    contract("Linear::look_at_any", REAL, || { unit("d", 3); check_defined(); let dd = v::<3>("d"); let l = Linear::look_at_any(dd); eqvv(Field, "-z goes to the direction", l.apply(minus_z()), dd); isometry3(|x| l.apply(x)); });
    contract("Rotation3::look_at_any", REAL, || { unit("d", 3); check_defined(); let dd = v::<3>("d"); let r = Rotation3::look_at_any(dd); eqvv(Field, "-z goes to the direction", r.apply(minus_z()), dd); let q: [E; 4] = r.into_quaternion().into(); field("unit quaternion", dot(&q, &q), con(1)); });
    concrete("look_at_any of f64 directions, special and random", || { let mut ds: Vec<[f64; 3]> = vec![[0.0, 0.0, 1.0], [0.0, 0.0, -1.0], [1.0, 0.0, 0.0], [-1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, -1.0, 0.0], [1.0, 0.0, -0.0], [0.0, -1.0, -0.0], [-0.0, -0.0, -1.0], [-0.0, -0.0, 1.0]]; let mut r = sxcore::rng::Rng::new(seed()); for z in [0.5, -0.5, 0.49999999, 0.50000001, 1e-12, -1e-12, 0.999999, -0.999999, 0.25] { for k in 0..8 { let t = k as f64 * 0.785398163397 + 0.1; let c = (1.0f64 - z * z).sqrt(); ds.push([c * t.cos(), c * t.sin(), z]); } } for _ in 0..200 { let mut f = || r.below(2001) as f64 / 1000.0 - 1.0; let w = [f(), f(), f()]; let n = (w[0] * w[0] + w[1] * w[1] + w[2] * w[2]).sqrt(); if n > 0.1 { ds.push(w.map(|x| x / n)); } }
        for d in ds { let dv = Vector::from_array(d); let mz = Vector::from_array([0.0, 0.0, -1.0]); let g = Rotation3::look_at_any(dv).apply(mz); holds(&format!("Rotation3::look_at_any({:?}) maps -z to {:?}", d, g), (g - dv).length() < 1e-9); let q = Rotation3::look_at_any(dv).into_quaternion(); holds("unit quaternion", (q.norm_sqr() - 1.0).abs() < 1e-9); let l = Linear::look_at_any(dv); let g = l.apply(mz); holds(&format!("Linear::look_at_any({:?}) maps -z to {:?}", d, g), (g - dv).length() < 1e-9); holds("proper", (l.into_matrix().det() - 1.0).abs() < 1e-9); } });
}
fn main() { sxcore::main("C22", || { two(); three(); look(); }) }
