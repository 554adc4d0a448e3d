use sx::*;
use vecmat::transform::*;
type V<const N: usize> = Vector<E, N>;
fn lin<const N: usize>(p: &str) -> Linear<E, N> { Linear::from_matrix(m::<N, N>(p)) }
fn shift<const N: usize>(p: &str) -> Shift<E, N> { Shift::from_vector(v::<N>(p)) }
fn scale(p: &str) -> Scale<E> { Scale::from_mag(s(p)) }
fn rot2(p: &str) -> Rotation2<E> { Rotation2::from_complex(cx(p)) }
fn rot3(p: &str) -> Rotation3<E> { Rotation3::from_quaternion(qt(p)) }
fn unit2(p: &str) { assume_square(s(&format!("{}r", p)), spec(|| con(1) - s(&format!("{}i", p)) * s(&format!("{}i", p)))); }
fn unit3(p: &str) { let f = |c: &str| s(&format!("{}{}", p, c)); assume_square(f("w"), con(1) - f("x") * f("x") - f("y") * f("y") - f("z") * f("z")); }
fn nolaw(_: &str) {}
fn nondeg<const N: usize>(p: &str) { if N > 0 { assume_nonzero(m::<N, N>(p).det()); } }
fn nz(p: &str) { assume_nonzero(s(p)); }
/// identity and composition, no precondition
fn compose<T: Transform<V<N>> + Copy, const N: usize>(name: &str, mk: fn(&str) -> T, pre: fn(&str)) { contract(&format!("{}: identity and chaining", name), FREE, || { pre("a"); pre("b"); let (a, b) = (mk("a"), mk("b")); let x = v::<N>("x"); eqvv(Field, "the identity fixes x", T::identity().apply(x), x); eqvv(Field, "(A chain B)(x) = A(B(x))", a.chain(b).apply(x), a.apply(b.apply(x))); eqvv(Field, "identity chained on the left", T::identity().chain(a).apply(x), a.apply(x)); eqvv(Field, "identity chained on the right", a.chain(T::identity()).apply(x), a.apply(x)); }); }
fn inverse<T: Transform<V<N>> + Copy, const N: usize>(name: &str, mk: fn(&str) -> T, pre: fn(&str)) { contract(&format!("{}: inverse", name), FREE, || { pre("a"); let a = mk("a"); let x = v::<N>("x"); check_defined(); eqvv(Field, "A^-1(A(x))", a.inv().apply(a.apply(x)), x); eqvv(Field, "A(A^-1(x))", a.apply(a.inv().apply(x)), x); eqvv(Field, "(A chain A^-1)(x)", a.chain(a.inv()).apply(x), x); eqvv(Field, "(A^-1 chain A)(x)", a.inv().chain(a).apply(x), x); eqvv(Field, "A^-1^-1(x)", a.inv().inv().apply(x), a.apply(x)); }); }
fn reorder<A: Transform<V<N>> + Reorder<B, V<N>> + Copy, B: Transform<V<N>> + Copy, const N: usize>(name: &str, ma: fn(&str) -> A, mb: fn(&str) -> B, pre: fn(&str)) { contract(&format!("{}: reordering", name), FREE, || { pre("a"); pre("b"); let (a, b) = (ma("a"), mb("b")); let x = v::<N>("x"); let (b1, a1) = a.reorder(b); eqvv(Field, "A(B(x)) = B'(A'(x))", b1.apply(a1.apply(x)), a.apply(b.apply(x))); }); }
fn parts<A: Transform<V<N>> + Reorder<B, V<N>> + Copy, B: Transform<V<N>> + Reorder<A, V<N>> + Copy, const N: usize>(name: &str, ma: fn(&str) -> A, mb: fn(&str) -> B) { contract(&format!("{}: parts of a chain", name), FREE, || { let (a, b) = (ma("a"), mb("b")); let x = v::<N>("x"); let w = a.apply(b.apply(x)); let c: Chain<A, B, V<N>> = Chain::new(a, b); eqvv(Field, "apply: inner first", c.apply(x), w);
        let same_parts = |l: &str, a1: A, b1: B| { eqvv(Field, &format!("{}: outer", l), a1.apply(x), a.apply(x)); eqvv(Field, &format!("{}: inner", l), b1.apply(x), b.apply(x)); };
        let (a1, b1) = c.split(); same_parts("split", a1, b1); let (a1, b1): (A, B) = c.into(); same_parts("Into<tuple>", a1, b1); same_parts("accessors", *c.outer(), *c.inner()); let d: Chain<A, B, V<N>> = (a, b).into(); same_parts("From<tuple>", *d.outer(), *d.inner());
        let mut d = c; *d.outer_mut() = ma("e"); same_parts("outer_mut", { eqvv(Field, "outer_mut", d.outer().apply(x), ma("e").apply(x)); a }, *d.inner()); let mut d = c; *d.inner_mut() = mb("e"); same_parts("inner_mut", *d.outer(), { eqvv(Field, "inner_mut", d.inner().apply(x), mb("e").apply(x)); b }); }); }
fn ch<A, B, T>(a: A, b: B) -> Chain<A, B, T> { Chain::new(a, b) }
fn shifts<const N: usize>() { compose::<_, N>(&format!("Shift<{}>", N), shift::<N>, nolaw); inverse::<_, N>(&format!("Shift<{}>", N), shift::<N>, nolaw);
    contract(&format!("Shift<{}>: the shift is added", N), FREE, || { let x = v::<N>("x"); let (a, y) = (va(v::<N>("a")), va(x)); eqv(Field, shift::<N>("a").apply(x), |i| y[i] + a[i]); eqvv(Exact, "into_vector", shift::<N>("a").into_vector(), v::<N>("a")); let w: V<N> = Shift::from(v::<N>("a")).into(); eqvv(Exact, "From", w, v::<N>("a")); });
    compose::<_, N>(&format!("Scale on {} dimensions", N), scale, nolaw); inverse::<_, N>(&format!("Scale on {} dimensions", N), scale, nz);
    contract(&format!("Scale on {} dimensions: multiplies every component", N), FREE, || { let x = v::<N>("x"); let y = va(x); let g: V<N> = scale("a").apply(x); eqv(Field, g, |i| y[i] * s("a")); exact("mag", scale("a").into_mag(), s("a")); exact("From", Scale::from(s("a")).into_mag(), s("a")); });
    reorder::<_, _, N>(&format!("Shift<{}>, Scale", N), shift::<N>, scale, nz); reorder::<_, _, N>(&format!("Scale, Shift<{}>", N), scale, shift::<N>, nz); parts::<_, _, N>(&format!("Chain<Shift<{}>, Scale>", N), shift::<N>, scale);
    let f: fn(&str) -> Chain<Shift<E, N>, Scale<E>, V<N>> = |p| ch(shift::<N>(&format!("{}s", p)), scale(&format!("{}m", p))); let pre: fn(&str) = |p| nz(&format!("{}m", p)); compose::<_, N>(&format!("Chain<Shift<{}>, Scale>", N), f, pre); inverse::<_, N>(&format!("Chain<Shift<{}>, Scale>", N), f, pre);
    let f: fn(&str) -> Chain<Scale<E>, Shift<E, N>, V<N>> = |p| ch(scale(&format!("{}m", p)), shift::<N>(&format!("{}s", p))); compose::<_, N>(&format!("Chain<Scale, Shift<{}>>", N), f, pre); inverse::<_, N>(&format!("Chain<Scale, Shift<{}>>", N), f, pre); }
fn linears<const N: usize>() { if N == 0 { return; } let n = format!("Linear<{}>", N); compose::<_, N>(&n, lin::<N>, nolaw);
    contract(&format!("{}: applies its matrix", n), FREE, || { let x = v::<N>("x"); let (y, a) = (va(x), ma(m::<N, N>("a"))); eqv(Field, lin::<N>("a").apply(x), |i| { let mut w = a[i][0] * y[0]; for j in 1..N { w = w + a[i][j] * y[j]; } w }); eqmm(Exact, "into_matrix", lin::<N>("a").into_matrix(), m::<N, N>("a")); let w: Matrix<E, N, N> = Linear::from(m::<N, N>("a")).into(); eqmm(Exact, "From", w, m::<N, N>("a")); });
    parts::<_, _, N>(&format!("Chain<Shift<{}>, Linear>", N), shift::<N>, lin::<N>); parts::<_, _, N>(&format!("Chain<Linear<{}>, Shift>", N), lin::<N>, shift::<N>); reorder::<_, _, N>(&format!("{}, Shift", n), lin::<N>, shift::<N>, nolaw);
    let f: fn(&str) -> Affine<E, N> = |p| Affine::new(shift::<N>(&format!("{}s", p)), lin::<N>(&format!("{}l", p))); let pre: fn(&str) = |p| nondeg::<N>(&format!("{}l", p)); compose::<_, N>(&format!("Affine<{}>", N), f, nolaw);
    contract(&format!("Affine<{}> accessors", N), FREE, || { let a = Affine::<E, N>::new(shift::<N>("s"), lin::<N>("l")); eqmm(Exact, "linear", a.linear().into_matrix(), m::<N, N>("l")); eqvv(Exact, "shift", a.shift().into_vector(), v::<N>("s")); });
    if N <= 3 { inverse::<_, N>(&n, lin::<N>, nondeg::<N>); reorder::<_, _, N>(&format!("Shift, {}", n), shift::<N>, lin::<N>, nondeg::<N>); if N <= 2 { inverse::<_, N>(&format!("Affine<{}>", N), f, pre); let f: fn(&str) -> Chain<Linear<E, N>, Shift<E, N>, V<N>> = |p| ch(lin::<N>(&format!("{}l", p)), shift::<N>(&format!("{}s", p))); compose::<_, N>(&format!("Chain<Linear<{}>, Shift>", N), f, pre); inverse::<_, N>(&format!("Chain<Linear<{}>, Shift>", N), f, pre); } }
    if N <= 5 { modp::<N>(); } }
/// larger or denser instances: exact arithmetic modulo a prime
fn modp<const N: usize>() { use sx::q::*; concrete(&format!("affine inverse, chaining and reordering modulo a prime, size {}", N), || { let mut r = sxcore::rng::Rng::new(seed() + 77 * N as u64); let mut t = 0; while t < 12 { let mut f = || F((r.next() >> 9) % P); let l: [[F; N]; N] = std::array::from_fn(|_| std::array::from_fn(|_| f())); let l2: [[F; N]; N] = std::array::from_fn(|_| std::array::from_fn(|_| f())); if det_f(l).0 == 0 || det_f(l2).0 == 0 { continue; } t += 1;
        let sv = Vector::from_array(std::array::from_fn::<F, N, _>(|_| f())); let s2 = Vector::from_array(std::array::from_fn::<F, N, _>(|_| f())); let x = Vector::from_array(std::array::from_fn::<F, N, _>(|_| f())); let a = Affine::new(Shift::from(sv), Linear::from(Matrix::from_array_of_arrays(l))); let b = Affine::new(Shift::from(s2), Linear::from(Matrix::from_array_of_arrays(l2)));
        let eq = |k: &str, p: Vector<F, N>, q: Vector<F, N>| same(k, p.into_array(), q.into_array()); eq("inverse left", a.inv().apply(a.apply(x)), x); eq("inverse right", a.apply(a.inv().apply(x)), x); eq("chain", a.chain(b).apply(x), a.apply(b.apply(x))); eq("inverse of a chain", a.chain(b).inv().apply(a.apply(b.apply(x))), x);
        let (p, q) = a.shift().reorder(b.linear()); eq("reorder shift, linear", p.apply(q.apply(x)), a.shift().apply(b.linear().apply(x))); let (p, q) = a.linear().reorder(b.shift()); eq("reorder linear, shift", p.apply(q.apply(x)), a.linear().apply(b.shift().apply(x)));
        let c = Chain::<_, _, Vector<F, N>>::new(a.linear(), a.shift()); let d = Chain::<_, _, Vector<F, N>>::new(b.linear(), b.shift()); eq("chain of linear after shift", c.chain(d).apply(x), c.apply(d.apply(x))); eq("its inverse", c.inv().apply(c.apply(x)), x); } }); }
fn main() { sxcore::main("C20", || {
    shifts::<0>(); shifts::<1>(); shifts::<2>(); shifts::<3>(); shifts::<4>(); shifts::<5>(); shifts::<6>(); shifts::<8>(); linears::<1>(); linears::<2>(); linears::<3>(); linears::<4>(); linears::<5>(); if thorough() { linears::<6>(); }
    contract("Rotation2: applies complex multiplication", FREE, || { let x = v::<2>("x"); let y = va(x); let (r, i) = (s("ar"), s("ai")); eqv(Field, rot2("a").apply(x), |k| [r * y[0] - i * y[1], r * y[1] + i * y[0]][k]); eqc(Exact, "into_complex", rot2("a").into_complex(), cx("a")); let c: Complex<E> = Rotation2::from(cx("a")).into(); eqc(Exact, "From", c, cx("a")); });
    contract("Rotation3: conjugates by its quaternion", FREE, || { let x = v::<3>("x"); let y = va(x); let q = qt("a"); let w: [E; 4] = (q * Quaternion::new(con(0), y[0], y[1], y[2]) * q.conj()).into(); eqv(Field, rot3("a").apply(x), |k| w[k + 1]); eqq(Exact, "into_quaternion", rot3("a").into_quaternion(), q); let c: Quaternion<E> = Rotation3::from(q).into(); eqq(Exact, "From", c, q); });
    compose::<_, 2>("Rotation2", rot2, nolaw); inverse::<_, 2>("Rotation2", rot2, unit2); reorder::<_, _, 2>("Shift, Rotation2", shift::<2>, rot2, unit2); reorder::<_, _, 2>("Rotation2, Shift", rot2, shift::<2>, unit2); parts::<_, _, 2>("Chain<Shift, Rotation2>", shift::<2>, rot2); parts::<_, _, 2>("Chain<Rotation2, Shift>", rot2, shift::<2>);
    { let f: fn(&str) -> Chain<Shift<E, 2>, Rotation2<E>, V<2>> = |p| ch(shift::<2>(&format!("{}s", p)), rot2(&format!("{}q", p))); let pre: fn(&str) = |p| unit2(&format!("{}q", p)); compose::<_, 2>("Chain<Shift, Rotation2>", f, pre); inverse::<_, 2>("Chain<Shift, Rotation2>", f, pre); let f: fn(&str) -> Chain<Rotation2<E>, Shift<E, 2>, V<2>> = |p| ch(rot2(&format!("{}q", p)), shift::<2>(&format!("{}s", p))); compose::<_, 2>("Chain<Rotation2, Shift>", f, pre); inverse::<_, 2>("Chain<Rotation2, Shift>", f, pre); }
    compose::<_, 3>("Rotation3", rot3, nolaw_if_unit); inverse::<_, 3>("Rotation3", rot3, unit3); reorder::<_, _, 3>("Shift, Rotation3", shift::<3>, rot3, unit3); reorder::<_, _, 3>("Rotation3, Shift", rot3, shift::<3>, unit3); parts::<_, _, 3>("Chain<Shift, Rotation3>", shift::<3>, rot3); parts::<_, _, 3>("Chain<Rotation3, Shift>", rot3, shift::<3>);
    { let f: fn(&str) -> Chain<Shift<E, 3>, Rotation3<E>, V<3>> = |p| ch(shift::<3>(&format!("{}s", p)), rot3(&format!("{}q", p))); let pre: fn(&str) = |p| unit3(&format!("{}q", p)); compose::<_, 3>("Chain<Shift, Rotation3>", f, pre); inverse::<_, 3>("Chain<Shift, Rotation3>", f, pre); let f: fn(&str) -> Chain<Rotation3<E>, Shift<E, 3>, V<3>> = |p| ch(rot3(&format!("{}q", p)), shift::<3>(&format!("{}s", p))); compose::<_, 3>("Chain<Rotation3, Shift>", f, pre); inverse::<_, 3>("Chain<Rotation3, Shift>", f, pre); }
    // conversions also for parts that are not numbers
    concrete("conversions of non-Copy parts", || { let st = |i: usize| i.to_string(); same("Shift", Shift::from_vector(Vector::from_array([st(1), st(2)])).into_vector().into_array(), [st(1), st(2)]); same("Linear", Linear::from_matrix(Matrix::from_array_of_arrays([[st(1), st(2)], [st(3), st(4)]])).into_matrix().into_array_of_arrays(), [[st(1), st(2)], [st(3), st(4)]]); same("Scale", Scale::from_mag(st(7)).into_mag(), st(7)); same("Rotation2", Rotation2::from_complex(Complex::new(st(1), st(2))).into_complex().into_array(), [st(1), st(2)]); same("Rotation3", Rotation3::from_quaternion(Quaternion::new(st(1), st(2), st(3), st(4))).into_quaternion().into_array(), [st(1), st(2), st(3), st(4)]); });
}) }
fn nolaw_if_unit(p: &str) { unit3(p) }
