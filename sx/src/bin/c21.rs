use sx::dual::*;
use sx::*;
use vecmat::transform::*;
fn vd<const N: usize>(p: &str, d: &str) -> Vector<D, N> { Vector::from_array(std::array::from_fn(|i| D(s(&format!("{}{}", p, i)), s(&format!("{}{}", d, i))))) }
fn lift<const N: usize>(x: Vector<E, N>) -> Vector<D, N> { x.map(dc) }
fn liftm<const N: usize>(x: Matrix<E, N, N>) -> Matrix<D, N, N> { Matrix::from_array_of_arrays(x.into_array_of_arrays().map(|r| r.map(dc))) }
fn dcx(c: Complex<E>) -> Complex<D> { let a: [E; 2] = c.into(); Complex::from(a.map(dc)) }
fn dqt(c: Quaternion<E>) -> Quaternion<D> { let a: [E; 4] = c.into(); Quaternion::from(a.map(dc)) }
/// the derivative of the point map itself, by dual numbers
fn oracle<T: Transform<Vector<D, N>>, const N: usize>(t: &T) -> Vector<E, N> { spec(|| t.apply(vd::<N>("x", "d")).map(|z| z.1)) }
fn dotn<const N: usize>(a: Vector<E, N>, b: Vector<E, N>) -> E { let (a, b) = (va(a), va(b)); let mut w = con(0); for i in 0..N { w = w + a[i] * b[i]; } w }
fn unit<const N: usize>(p: &str) { if N == 0 { return; } let mut w = con(1); for i in 1..N { let x = s(&format!("{}{}", p, i)); w = w - x * x; } assume_square(s(&format!("{}0", p)), w); }
fn unit2(p: &str) { assume_square(s(&format!("{}r", p)), con(1) - s(&format!("{}i", p)) * s(&format!("{}i", p))); }
fn unit3(p: &str) { let f = |c: &str| s(&format!("{}{}", p, c)); assume_square(f("w"), con(1) - f("x") * f("x") - f("y") * f("y") - f("z") * f("z")); }
fn deriv<A: Transform<Vector<E, N>>, B: Transform<Vector<D, N>>, const N: usize>(name: &str, a: impl Fn() -> A, b: impl Fn() -> B) { contract(&format!("{}: derivative", name), FREE, || { let g = a().deriv(v::<N>("x"), v::<N>("d")); let w = oracle::<B, N>(&b()); eqvv(Field, "directional derivative of the point map", g, w); }); }
/// a unit direction is carried to the normalised derivative along it
fn dir<A: Directional<Vector<E, N>>, const N: usize>(name: &str, a: impl Fn() -> A, pre: impl Fn(), sign: bool) { contract(&format!("{}: unit directions", name), FREE, || { unit::<N>("d"); pre(); let t = a(); let (x, d) = (v::<N>("x"), v::<N>("d")); let g = t.apply_dir(x, d); let w = t.deriv(x, d); let (ga, wa) = (va(g), va(w)); field("length one", dotn(g, g), con(1)); for i in 0..N { for j in 0..i { field(&format!("parallel to the derivative, components {} and {}", i, j), ga[i] * wa[j], ga[j] * wa[i]); } } if sign { positive("same direction as the derivative", dotn(g, w)); } }); }
/// a unit normal stays unit and perpendicular to the image of every perpendicular direction
fn normal<A: Directional<Vector<E, N>>, const N: usize>(name: &str, a: impl Fn() -> A, pre: impl Fn(), conformal: bool) { contract(&format!("{}: unit normals", name), FREE, || { unit::<N>("n"); pre(); let t = a(); let (x, n) = (v::<N>("x"), v::<N>("n")); let w = v::<N>("w"); let d = w - n * dotn(w, n); let g = t.apply_normal(x, n); field("length one", dotn(g, g), con(1)); field("perpendicular to the derivative of every perpendicular direction", dotn(g, t.deriv(x, d)), con(0)); if conformal { eqvv(Field, "equal to the carried direction", g, t.apply_dir(x, n)); } }); }
fn lin<const N: usize>() -> Linear<E, N> { Linear::from(m::<N, N>("a")) }
fn lind<const N: usize>() -> Linear<D, N> { Linear::from(liftm(m::<N, N>("a"))) }
fn sh<const N: usize>() -> Shift<E, N> { Shift::from(v::<N>("s")) }
fn shd<const N: usize>() -> Shift<D, N> { Shift::from(lift(v::<N>("s"))) }
fn nd<const N: usize>() { if N > 0 { assume_nonzero(m::<N, N>("a").det()); } }
type Ch<A, B, T, const N: usize> = Chain<A, B, Vector<T, N>>;
fn all<const N: usize>() {
    deriv::<_, _, N>(&format!("Shift<{}>", N), sh::<N>, shd::<N>); deriv::<_, _, N>(&format!("Linear<{}>", N), lin::<N>, lind::<N>); deriv::<_, _, N>(&format!("Scale on {}", N), || Scale::from(s("k")), || Scale::from(dc(s("k"))));
    deriv::<_, _, N>(&format!("Affine<{}>", N), || Affine::new(sh::<N>(), lin::<N>()), || Affine::new(shd::<N>(), lind::<N>())); deriv::<_, _, N>(&format!("Chain<Linear<{}>, Shift>", N), || Ch::<_, _, E, N>::new(lin::<N>(), sh::<N>()), || Ch::<_, _, D, N>::new(lind::<N>(), shd::<N>())); deriv::<_, _, N>(&format!("Chain<Shift<{}>, Scale>", N), || Ch::<_, _, E, N>::new(sh::<N>(), Scale::from(s("k"))), || Ch::<_, _, D, N>::new(shd::<N>(), Scale::from(dc(s("k"))))); deriv::<_, _, N>(&format!("Chain<Scale, Shift<{}>>", N), || Ch::<_, _, E, N>::new(Scale::from(s("k")), sh::<N>()), || Ch::<_, _, D, N>::new(Scale::from(dc(s("k"))), shd::<N>()));
    dir::<_, N>(&format!("Shift<{}>", N), sh::<N>, || {}, true); normal::<_, N>(&format!("Shift<{}>", N), sh::<N>, || {}, true);
    for (l, f) in [("positive magnitude", 1), ("negative magnitude", -1)] { let k = move || if f == 1 { assume_pos(s("k")) } else { assume_pos(-s("k")); known_if("scale-negative-direction", "same direction as the derivative", "Scale::apply_dir returns the direction unchanged for a negative magnitude, so it points against the derivative (Scale::deriv)") };
        dir::<_, N>(&format!("Scale on {}, {}", N, l), || Scale::from(s("k")), k, true); }
    for (l, f) in [("positive magnitude", 1), ("negative magnitude", -1)] { let k = move || if f == 1 { assume_pos(s("k")) } else { assume_pos(-s("k")) }; normal::<_, N>(&format!("Scale on {}, {}", N, l), || Scale::from(s("k")), k, true); }
    dir::<_, N>(&format!("Chain<Shift<{}>, Scale>", N), || Ch::<_, _, E, N>::new(sh::<N>(), Scale::from(s("k"))), || assume_pos(s("k")), true); normal::<_, N>(&format!("Chain<Shift<{}>, Scale>", N), || Ch::<_, _, E, N>::new(sh::<N>(), Scale::from(s("k"))), || assume_nonzero(s("k")), true); }
fn lins<const N: usize>() {
    dir::<_, N>(&format!("Linear<{}>", N), lin::<N>, || nd::<N>(), false); normal::<_, N>(&format!("Linear<{}>", N), lin::<N>, || nd::<N>(), false); dir::<_, N>(&format!("Affine<{}>", N), || Affine::new(sh::<N>(), lin::<N>()), || nd::<N>(), false); normal::<_, N>(&format!("Affine<{}>", N), || Affine::new(sh::<N>(), lin::<N>()), || nd::<N>(), false);
    dir::<_, N>(&format!("Chain<Linear<{}>, Shift>", N), || Ch::<_, _, E, N>::new(lin::<N>(), sh::<N>()), || nd::<N>(), false); normal::<_, N>(&format!("Chain<Linear<{}>, Shift>", N), || Ch::<_, _, E, N>::new(lin::<N>(), sh::<N>()), || nd::<N>(), false);
    contract(&format!("Linear<{}>: carried direction is the normalised derivative", N), FREE, || { unit::<N>("d"); let t = lin::<N>(); let w = t.deriv(v::<N>("x"), v::<N>("d")); let l = dotn(w, w); assume_pos(l); assume_nonzero(l); let g = va(t.apply_dir(v::<N>("x"), v::<N>("d"))); let w = va(w); for i in 0..N { field(&format!("component {}", i), g[i] * l.sqrt(), w[i]); } });
    contract(&format!("Affine<{}>: carried direction is the normalised derivative", N), FREE, || { unit::<N>("d"); let t = Affine::new(sh::<N>(), lin::<N>()); let w = t.deriv(v::<N>("x"), v::<N>("d")); let l = dotn(w, w); assume_pos(l); assume_nonzero(l); let g = va(t.apply_dir(v::<N>("x"), v::<N>("d"))); let w = va(w); for i in 0..N { field(&format!("component {}", i), g[i] * l.sqrt(), w[i]); } }); }
fn normal_transform<const N: usize>() { contract(&format!("Linear<{}>::normal_transform is the inverse transpose", N), FREE, || { nd::<N>(); check_defined(); let r: Matrix<E, N, N> = lin::<N>().normal_transform().into(); let p: Matrix<E, N, N> = r.transpose().dot(m::<N, N>("a")); eqmm(Field, "inverse transpose", p, Matrix::one()); }); }
fn numeric<const N: usize>() { concrete(&format!("normals and directions of Linear<f64,{}> and its chains", N), || { let mut r = sxcore::rng::Rng::new(seed() + N as u64); let mut f = || (r.below(2001) as f64 - 1000.0) / 300.0; for _ in 0..60 { let a: [[f64; N]; N] = std::array::from_fn(|_| std::array::from_fn(|_| f())); let mm = Matrix::from_array_of_arrays(a); if mm.det().abs() < 0.5 { continue; } let sv = Vector::from_array(std::array::from_fn::<f64, N, _>(|_| f())); let x = Vector::from_array(std::array::from_fn::<f64, N, _>(|_| f())); let n = Vector::from_array(std::array::from_fn::<f64, N, _>(|_| f())).normalize(); let w = Vector::from_array(std::array::from_fn::<f64, N, _>(|_| f())); let d = w - n * w.dot(n);
        fn go<T: Directional<Vector<f64, N>>, const N: usize>(l: &str, t: T, x: Vector<f64, N>, n: Vector<f64, N>, d: Vector<f64, N>) { let g = t.apply_normal(x, n); let td = t.deriv(x, d); holds(&format!("{}: normal of length one", l), (g.dot(g) - 1.0).abs() < 1e-9); holds(&format!("{}: normal perpendicular", l), g.dot(td).abs() < 1e-8 * (1.0 + td.length())); let h = t.apply_dir(x, n); let tn = t.deriv(x, n); holds(&format!("{}: direction", l), (h * tn.length() - tn).length() < 1e-9 * (1.0 + tn.length())); }
        go("Linear", Linear::from(mm), x, n, d); go("Affine", Affine::new(Shift::from(sv), Linear::from(mm)), x, n, d); go("Chain<Linear, Shift>", Chain::<_, _, Vector<f64, N>>::new(Linear::from(mm), Shift::from(sv)), x, n, d); } }); }
fn rots() {
    let r2 = || Rotation2::from(cx("q")); let r2d = || Rotation2::from(dcx(cx("q"))); let r3 = || Rotation3::from(qt("q")); let r3d = || Rotation3::from(dqt(qt("q")));
    deriv::<_, _, 2>("Rotation2", r2, r2d); deriv::<_, _, 3>("Rotation3", r3, r3d); deriv::<_, _, 2>("Chain<Shift, Rotation2>", || Ch::<_, _, E, 2>::new(sh::<2>(), r2()), || Ch::<_, _, D, 2>::new(shd::<2>(), r2d())); deriv::<_, _, 3>("Chain<Shift, Rotation3>", || Ch::<_, _, E, 3>::new(sh::<3>(), r3()), || Ch::<_, _, D, 3>::new(shd::<3>(), r3d())); deriv::<_, _, 2>("Chain<Rotation2, Shift>", || Ch::<_, _, E, 2>::new(r2(), sh::<2>()), || Ch::<_, _, D, 2>::new(r2d(), shd::<2>())); deriv::<_, _, 3>("Chain<Rotation3, Shift>", || Ch::<_, _, E, 3>::new(r3(), sh::<3>()), || Ch::<_, _, D, 3>::new(r3d(), shd::<3>()));
    for (l, k) in [("Rotation2", 0), ("Chain<Shift, Rotation2>", 1), ("Chain<Rotation2, Shift>", 2)] { let p = || unit2("q"); match k { 0 => { dir::<_, 2>(l, r2, p, false); normal::<_, 2>(l, r2, p, true); eqdir::<_, 2>(l, r2, p) } 1 => { let c = || Ch::<_, _, E, 2>::new(sh::<2>(), r2()); dir::<_, 2>(l, c, p, false); normal::<_, 2>(l, c, p, true); eqdir::<_, 2>(l, c, p) } _ => { let c = || Ch::<_, _, E, 2>::new(r2(), sh::<2>()); dir::<_, 2>(l, c, p, false); normal::<_, 2>(l, c, p, true); eqdir::<_, 2>(l, c, p) } } }
    for (l, k) in [("Rotation3", 0), ("Chain<Shift, Rotation3>", 1), ("Chain<Rotation3, Shift>", 2)] { let p = || unit3("q"); match k { 0 => { dir::<_, 3>(l, r3, p, false); normal::<_, 3>(l, r3, p, true); eqdir::<_, 3>(l, r3, p) } 1 => { let c = || Ch::<_, _, E, 3>::new(sh::<3>(), r3()); dir::<_, 3>(l, c, p, false); normal::<_, 3>(l, c, p, true); eqdir::<_, 3>(l, c, p) } _ => { let c = || Ch::<_, _, E, 3>::new(r3(), sh::<3>()); dir::<_, 3>(l, c, p, false); normal::<_, 3>(l, c, p, true); eqdir::<_, 3>(l, c, p) } } } }
/// isometries: the carried direction is the derivative itself
fn eqdir<A: Directional<Vector<E, N>>, const N: usize>(name: &str, a: impl Fn() -> A, pre: impl Fn()) { contract(&format!("{}: isometric directions", name), FREE, || { unit::<N>("d"); pre(); let t = a(); eqvv(Field, "direction", t.apply_dir(v::<N>("x"), v::<N>("d")), t.deriv(v::<N>("x"), v::<N>("d"))); }); }
fn mob() -> Moebius<Complex<E>> { Moebius::new(cx("a"), cx("b"), cx("c"), cx("d")) }
fn mobd() -> Moebius<Complex<D>> { Moebius::new(dcx(cx("a")), dcx(cx("b")), dcx(cx("c")), dcx(cx("d"))) }
fn nrm(a: Complex<E>) -> E { let a: [E; 2] = a.into(); a[0] * a[0] + a[1] * a[1] }
fn moebius() {
    contract("Moebius on complex points: derivative", FREE, || { let (x, d) = (cx("x"), cx("v")); let den = cx("c") * x + cx("d"); assume_nonzero(nrm(den)); check_defined(); let (xa, va): ([E; 2], [E; 2]) = (x.into(), d.into()); let w: [D; 2] = spec(|| Transform::apply(&mobd(), Complex::new(D(xa[0], va[0]), D(xa[1], va[1])))).into(); let w = Complex::new(w[0].1, w[1].1);
        eqc(Field, "Transform::deriv", Transform::deriv(&mob(), x, d), w); eqc(Field, "inherent deriv times direction", mob().deriv(x) * d, w); });
    contract("Moebius on quaternion points: derivative", FREE, || { let (x, d) = (qt("x"), qt("v")); let den: [E; 4] = (cx("c") * x + cx("d")).into(); let n = den.iter().fold(con(0), |w, e| w + *e * *e); assume_nonzero(n); let (xa, va): ([E; 4], [E; 4]) = (x.into(), d.into()); let w: [D; 4] = spec(|| Transform::apply(&mobd(), Quaternion::from([D(xa[0], va[0]), D(xa[1], va[1]), D(xa[2], va[2]), D(xa[3], va[3])]))).into(); let w = Quaternion::from(w.map(|z| z.1));
        eqq(Field, "Transform::deriv", Transform::deriv(&mob(), x, d), w); eqq(Field, "deriv_dir", mob().deriv_dir(x, d), w); });
    contract("Moebius on complex points: directions and normals", FREE, || { let (x, d) = (cx("x"), cx("v")); unit2("v"); let t = mob(); let w = Transform::deriv(&t, x, d); let l = nrm(w); assume_pos(l); assume_nonzero(l); let g: Complex<E> = t.apply_dir(x, d); eqc(Field, "carried direction", g * l.sqrt(), w); field("length one", nrm(g), con(1)); eqc(Field, "conformal: normals as directions", t.apply_normal(x, d), g);
        let n: [E; 2] = d.into(); let pd = Complex::new(-n[1], n[0]); let h: [E; 2] = Transform::deriv(&t, x, pd).into(); let gn: [E; 2] = t.apply_normal(x, d).into(); field("normal perpendicular", gn[0] * h[0] + gn[1] * h[1], con(0)); });
    concrete("Moebius on quaternion points: directions and normals", || { let mut r = sxcore::rng::Rng::new(seed() + 5); let mut f = || (r.below(2001) as f64 - 1000.0) / 400.0; for _ in 0..200 { let mut c = || Complex::new(f(), f()); let t = Moebius::new(c(), c(), c(), c()); let mut q = || Quaternion::new(f(), f(), f(), f()); let (x, n, w) = (q(), q().normalize(), q()); let den = (t.c() * x + t.d()).norm(); if den < 0.3 || t.det().norm() < 0.1 { continue; } let d = w - n * w.dot(n); let tn = Transform::deriv(&t, x, n); let g: Quaternion<f64> = t.apply_dir(x, n); let l = tn.norm(); if l < 1e-3 { continue; } holds("carried direction", (g * l - tn).norm() < 1e-8 * (1.0 + l)); let h = t.apply_normal(x, n); let td = Transform::deriv(&t, x, d); holds("normal of length one", (h.norm_sqr() - 1.0).abs() < 1e-9); holds(&format!("normal perpendicular: {}", h.dot(td)), h.dot(td).abs() < 1e-7 * (1.0 + td.norm())); holds("conformal: normals as directions", (h - g).norm() < 1e-9);
        let e = 1e-6; let fd = (Transform::apply(&t, x + n * e) - Transform::apply(&t, x - n * e)) / (2.0 * e); holds("derivative", (fd - tn).norm() < 1e-4 * (1.0 + l) * (1.0 + 1.0 / den.powi(4))); } });
    let m0: fn() -> () = || {}; m0();
}
fn main() { sxcore::main("C21", || { all::<1>(); all::<2>(); all::<3>(); all::<4>(); all::<6>(); lins::<1>(); lins::<2>(); lins::<3>(); normal_transform::<1>(); normal_transform::<2>(); normal_transform::<3>(); normal_transform::<4>(); numeric::<1>(); numeric::<2>(); numeric::<3>(); numeric::<4>(); numeric::<5>(); rots(); moebius(); }) }
