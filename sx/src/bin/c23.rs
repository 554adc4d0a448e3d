use sx::q::{F, P};
use sx::*;
use vecmat::transform::*;
fn nrm(a: Complex<E>) -> E { let a: [E; 2] = a.into(); a[0] * a[0] + a[1] * a[1] }
fn nrq(a: Quaternion<E>) -> E { let a: [E; 4] = a.into(); a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3] }
fn mr(p: &str) -> Moebius<E> { Moebius::new(s(&format!("{}a", p)), s(&format!("{}b", p)), s(&format!("{}c", p)), s(&format!("{}d", p))) }
fn mc(p: &str) -> Moebius<Complex<E>> { let f = |c: &str| cx(&format!("{}{}", p, c)); Moebius::new(f("a"), f("b"), f("c"), f("d")) }
fn real() {
    contract("Moebius with scalar coefficients", FREE, || { let x = s("x"); let (f, g) = (mr("f"), mr("g")); let ap = |m: &Moebius<E>, x: E| (m.a() * x + m.b()) / (m.c() * x + m.d()); field("apply", f.apply(x), ap(&f, x)); field("chain", f.chain(g).apply(x), ap(&f, ap(&g, x))); field("identity", Moebius::<E>::identity().apply(x), x); field("det", f.det(), f.a() * f.d() - f.b() * f.c()); field("normalize", Normalize::normalize(f).apply(x), f.apply(x)); });
    contract("Moebius with scalar coefficients: inverse", FREE, || { let x = s("x"); let f = mr("f"); assume_nonzero(f.a() * f.d() - f.b() * f.c()); assume_nonzero(f.c() * x + f.d()); field("inverse on the left", f.inv().apply(f.apply(x)), x); field("inverse on the right", f.apply(f.inv().apply(x)), x); });
}
fn cplx() {
    contract("Moebius with complex coefficients, complex points", FREE, || { let x = cx("x"); let f = mc("f"); let w = (f.a() * x + f.b()) / (f.c() * x + f.d()); eqc(Field, "apply", f.apply(x), w); eqc(Field, "Transform::apply", Transform::apply(&f, x), w); eqc(Field, "identity", Moebius::<Complex<E>>::identity().apply(x), x); eqc(Field, "Transform::identity", Transform::apply(&<Moebius<Complex<E>> as Transform<Complex<E>>>::identity(), x), x); eqc(Field, "det", f.det(), f.a() * f.d() - f.b() * f.c()); });
    contract("Moebius with complex coefficients, quaternion points", FREE, || { let x = qt("x"); let f = mc("f"); let em = |c: Complex<E>| { let a: [E; 2] = c.into(); Quaternion::new(a[0], a[1], con(0), con(0)) }; let w = (em(f.a()) * x + em(f.b())) * (em(f.c()) * x + em(f.d())).inv(); eqq(Field, "apply", f.apply(x), w); eqq(Field, "Transform::apply", Transform::apply(&f, x), w); eqq(Field, "identity", Moebius::<Complex<E>>::identity().apply(x), x); eqq(Field, "Transform::identity", Transform::apply(&<Moebius<Complex<E>> as Transform<Quaternion<E>>>::identity(), x), x); });
    contract("Moebius with complex coefficients: definedness", FREE, || { let x = cx("x"); let f = mc("f"); assume_nonzero(nrm(f.c() * x + f.d())); check_defined(); eqc(Field, "apply", f.apply(x) * (f.c() * x + f.d()), f.a() * x + f.b()); });
    contract("Moebius with complex coefficients, quaternion points: definedness", FREE, || { let x = qt("x"); let f = mc("f"); assume_nonzero(nrq(f.c() * x + f.d())); check_defined(); eqq(Field, "apply", f.apply(x) * (f.c() * x + f.d()), f.a() * x + f.b()); });
}
fn parts() {
    contract("Moebius constructors, accessors, conversions", FREE, || { let k = [[s("a"), s("b")], [s("c"), s("d")]]; let [[a, b], [c, d]] = k; let ok = |l: &str, m: Moebius<E>| { for (n, g, w) in [("a", m.a(), a), ("b", m.b(), b), ("c", m.c(), c), ("d", m.d(), d)] { exact(&format!("{}: {}", l, n), g, w); } }; let pr = |l: &str, g: [[E; 2]; 2]| for i in 0..2 { for j in 0..2 { exact(&format!("{}: ({},{})", l, i, j), g[i][j], k[i][j]); } };
        ok("new", Moebius::new(a, b, c, d)); ok("from_array", Moebius::from_array(k)); ok("From<array>", k.into()); ok("from_tuple", Moebius::from_tuple((a, b, c, d))); ok("from_matrix", Moebius::from_matrix(Matrix::from_array_of_arrays(k))); ok("From<Matrix>", Matrix::from_array_of_arrays(k).into()); let m = Moebius::from_array(k); pr("into_array", m.into_array()); pr("Into<array>", m.into()); let t = m.into_tuple(); pr("into_tuple", [[t.0, t.1], [t.2, t.3]]); pr("into_matrix", m.into_matrix().into_array_of_arrays()); let t: Matrix<E, 2, 2> = m.into(); pr("Into<Matrix>", t.into_array_of_arrays()); pr("as_matrix", *m.as_matrix().as_array_of_arrays()); pr("as_array_of_arrays", *m.as_array_of_arrays()); let r: &Matrix<E, 2, 2> = (&m).into(); pr("&Matrix", *r.as_array_of_arrays()); let r: &[[E; 2]; 2] = (&m).into(); pr("&array", *r); pr("refs", [[*m.a_ref(), *m.b_ref()], [*m.c_ref(), *m.d_ref()]]);
        for i in 0..2 { for j in 0..2 { let mut o = k; o[i][j] = s("other"); let w = k[i][j]; let f: [fn(&mut Moebius<E>) -> &mut E; 4] = [Moebius::a_mut, Moebius::b_mut, Moebius::c_mut, Moebius::d_mut]; let mut m = Moebius::from_array(o); *f[2 * i + j](&mut m) = w; pr("component access", m.into_array()); let mut m = Moebius::from_array(o); m.as_mut_array_of_arrays()[i][j] = w; pr("as_mut_array_of_arrays", m.into_array()); let mut m = Moebius::from_array(o); m.as_mut_matrix()[(i, j)] = w; pr("as_mut_matrix", m.into_array()); let mut m = Moebius::from_array(o); { let r: &mut [[E; 2]; 2] = (&mut m).into(); r[i][j] = w; } pr("&mut array", m.into_array()); let mut m = Moebius::from_array(o); { let r: &mut Matrix<E, 2, 2> = (&mut m).into(); r[(i, j)] = w; } pr("&mut Matrix", m.into_array()); } } });
    concrete("Moebius of non-Copy parts", || { let st = |i: usize| i.to_string(); let m = Moebius::new(st(1), st(2), st(3), st(4)); same("refs", [m.a_ref().clone(), m.b_ref().clone(), m.c_ref().clone(), m.d_ref().clone()], [st(1), st(2), st(3), st(4)]); same("tuple", m.clone().into_tuple(), (st(1), st(2), st(3), st(4))); same("array", m.into_array(), [[st(1), st(2)], [st(3), st(4)]]); });
    contract("Moebius equality", REAL, || { let (f, g) = (mr("f"), mr("g")); let w = f.a() == g.a() && f.b() == g.b() && f.c() == g.c() && f.d() == g.d(); holds("==", (f == g) == w); });
}
type Cf = Complex<F>; type Qf = Quaternion<F>;
fn lin_q(c: Cf) -> Qf { let a = c.into_array(); Quaternion::new(a[0], a[1], F(0), F(0)) }
fn zc(c: Cf) -> bool { c.norm_sqr().0 == 0 }
fn zq(c: Qf) -> bool { c.norm_sqr().0 == 0 }
/// rational identities tested at random points of a prime field (degree < 100, so a wrong identity survives a sample with probability < 1e-4)
fn random() { concrete("Moebius identities modulo a prime", || { let mut r = sxcore::rng::Rng::new(seed()); let mut f = || F((r.next() >> 11) % P); let mut done = [0usize; 5]; for t in 0..400 { let mut c = || if t % 4 == 3 { Complex::new(f(), F(0)) } else { Complex::new(f(), f()) };
        let (m, n) = (Moebius::new(c(), c(), c(), c()), Moebius::new(c(), c(), c(), c())); let x = c(); let y = Quaternion::new(f(), f(), f(), f());
        let ap = |m: &Moebius<Cf>, x: Cf| -> Option<Cf> { let d = m.c() * x + m.d(); if zc(d) { None } else { Some((m.a() * x + m.b()) * d.inv()) } }; let aq = |m: &Moebius<Cf>, x: Qf| -> Option<Qf> { let d = lin_q(m.c()) * x + lin_q(m.d()); if zq(d) { None } else { Some((lin_q(m.a()) * x + lin_q(m.b())) * d.inv()) } };
        if let Some(w) = ap(&n, x).and_then(|z| ap(&m, z)) { done[0] += 1; same("chain on complex points", m.chain(n).apply(x).into_array(), w.into_array()); same("Transform::chain on complex points", <Moebius<Cf> as Transform<Cf>>::chain(m, n).apply(x).into_array(), w.into_array()); }
        if let Some(w) = aq(&n, y).and_then(|z| aq(&m, z)) { done[1] += 1; same("chain on quaternion points", m.chain(n).apply(y).into_array(), w.into_array()); }
        if !zc(m.det()) { if let Some(z) = ap(&m, x) { let i = m.inv(); if ap(&i, z).is_some() { done[2] += 1; same("inverse on the left", i.apply(z).into_array(), x.into_array()); same("Transform::inv", <Moebius<Cf> as Transform<Cf>>::inv(m).apply(z).into_array(), x.into_array()); } if let Some(u) = ap(&i, x) { if ap(&m, u).is_some() { same("inverse on the right", m.apply(u).into_array(), x.into_array()); } } same("normalised map", Normalize::normalize(m).apply(x).into_array(), z.into_array()); }
            if let Some(z) = aq(&m, y) { let i = m.inv(); if aq(&i, z).is_some() { done[3] += 1; same("inverse on quaternion points", i.apply(z).into_array(), y.into_array()); } } }
        let mut q = || Quaternion::new(f(), f(), f(), f()); let (m, n) = (Moebius::new(q(), q(), q(), q()), Moebius::new(q(), q(), q(), q())); let ap = |m: &Moebius<Qf>, x: Qf| -> Option<Qf> { let d = m.c() * x + m.d(); if zq(d) { None } else { Some((m.a() * x + m.b()) * d.inv()) } };
        if let Some(z) = ap(&m, y) { same("apply, quaternion coefficients", m.apply(y).into_array(), z.into_array()); } if let Some(w) = ap(&n, y).and_then(|z| ap(&m, z)) { done[4] += 1; same("chain, quaternion coefficients", m.chain(n).apply(y).into_array(), w.into_array()); } same("identity, quaternion coefficients", Moebius::<Qf>::identity().apply(y).into_array(), y.into_array()); }
        holds("enough samples", done.iter().all(|d| *d > 100)); }); }
fn main() { sxcore::main("C23", || { real(); cplx(); parts(); random(); }) }
