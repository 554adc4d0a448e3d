### verbatim
// ------------------------------------------------ C21: derivatives, directions and normals
pub open spec fn tr_d<A: Transform<P>, P>(a: A, x: P, d: P) -> P { <A as Transform<P>>::tr_deriv(&a, x, d) }
// linear in the direction
pub open spec fn d_linear<A: Transform<Vector<T, N>>, T: Copy + Num, const N: usize>() -> bool {
    forall|a: A, x: Vector<T, N>, u: Vector<T, N>, v: Vector<T, N>| #[trigger] tr_d::<A, Vector<T, N>>(a, x, v_add(u, v)) == v_add(tr_d::<A, Vector<T, N>>(a, x, u), tr_d::<A, Vector<T, N>>(a, x, v))
}
pub open spec fn d_homog<A: Transform<Vector<T, N>>, T: Copy + Num, const N: usize>() -> bool {
    forall|a: A, x: Vector<T, N>, v: Vector<T, N>, t: T| #[trigger] tr_d::<A, Vector<T, N>>(a, x, v_muls(v, t)) == v_muls(tr_d::<A, Vector<T, N>>(a, x, v), t)
}
// the map is its value at a point plus its derivative along the difference, exactly
pub open spec fn d_affine<A: Transform<Vector<T, N>>, T: Copy + Num, const N: usize>() -> bool {
    forall|a: A, x: Vector<T, N>, v: Vector<T, N>| #[trigger] tr_a::<A, Vector<T, N>>(a, v_add(x, v)) == v_add(tr_a::<A, Vector<T, N>>(a, x), tr_d::<A, Vector<T, N>>(a, x, v))
}
// the chain rule
pub open spec fn d_chain<A: Transform<P>, P>() -> bool { forall|a: A, b: A, x: P, d: P| #[trigger] tr_d::<A, P>(tr_c::<A, P>(a, b), x, d) == tr_d::<A, P>(a, tr_a::<A, P>(b, x), tr_d::<A, P>(b, x, d)) }
pub fn law_deriv<A: Copy + Transform<Vector<T, N>>, T: Copy + Num, const N: usize>(a: A, b: A, x: Vector<T, N>, u: Vector<T, N>, v: Vector<T, N>, t: T)
    requires <A as Transform<Vector<T, N>>>::tr_req(), tot_vec::<T>(), d_linear::<A, T, N>(), d_homog::<A, T, N>(), d_affine::<A, T, N>(), d_chain::<A, Vector<T, N>>(), tot_vec::<T>()
{
    let s = u + v; let l = a.deriv(x, s); let p = a.deriv(x, u); let q = a.deriv(x, v); let r = p + q; proof { v_ext(s, v_add(u, v)); v_ext(r, v_add(p, q)); assert(tr_d::<A, Vector<T, N>>(a, x, v_add(u, v)) == r); assert(l == r); }
    let s = v * t; let l = a.deriv(x, s); let r = q * t; proof { v_ext(s, v_muls(v, t)); v_ext(r, v_muls(q, t)); assert(tr_d::<A, Vector<T, N>>(a, x, v_muls(v, t)) == r); assert(l == r); }
    let s = x + v; let l = a.apply(s); let y = a.apply(x); let r = y + q; proof { v_ext(s, v_add(x, v)); v_ext(r, v_add(y, q)); assert(tr_a::<A, Vector<T, N>>(a, v_add(x, v)) == r); assert(l == r); }
    let c = a.chain(b); let l = c.deriv(x, v); let y = b.apply(x); let w = b.deriv(x, v); let r = a.deriv(y, w); proof { assert(tr_d::<A, Vector<T, N>>(tr_c::<A, Vector<T, N>>(a, b), x, v) == r); assert(l == r); }
}
// the derivatives of a chain of two such transforms
pub proof fn chain_deriv<A: Copy + Transform<Vector<T, N>> + Reorder<B, Vector<T, N>>, B: Copy + Transform<Vector<T, N>> + Reorder<A, Vector<T, N>>, T: Copy + Num, const N: usize>()
    requires d_linear::<A, T, N>(), d_homog::<A, T, N>(), d_affine::<A, T, N>(), d_linear::<B, T, N>(), d_homog::<B, T, N>(), d_affine::<B, T, N>()
    ensures d_linear::<Chain<A, B, Vector<T, N>>, T, N>(), d_homog::<Chain<A, B, Vector<T, N>>, T, N>(), d_affine::<Chain<A, B, Vector<T, N>>, T, N>()
{
    assert forall|c: Chain<A, B, Vector<T, N>>, x: Vector<T, N>, u: Vector<T, N>, v: Vector<T, N>| #[trigger] tr_d::<Chain<A, B, Vector<T, N>>, Vector<T, N>>(c, x, v_add(u, v)) == v_add(tr_d::<Chain<A, B, Vector<T, N>>, Vector<T, N>>(c, x, u), tr_d::<Chain<A, B, Vector<T, N>>, Vector<T, N>>(c, x, v)) by {
        let (a, b) = (c.outer, c.inner); let y = tr_a::<B, Vector<T, N>>(b, x); let (p, q) = (tr_d::<B, Vector<T, N>>(b, x, u), tr_d::<B, Vector<T, N>>(b, x, v)); assert(tr_d::<B, Vector<T, N>>(b, x, v_add(u, v)) == v_add(p, q)); assert(tr_d::<A, Vector<T, N>>(a, y, v_add(p, q)) == v_add(tr_d::<A, Vector<T, N>>(a, y, p), tr_d::<A, Vector<T, N>>(a, y, q)));
    }
    assert forall|c: Chain<A, B, Vector<T, N>>, x: Vector<T, N>, v: Vector<T, N>, t: T| #[trigger] tr_d::<Chain<A, B, Vector<T, N>>, Vector<T, N>>(c, x, v_muls(v, t)) == v_muls(tr_d::<Chain<A, B, Vector<T, N>>, Vector<T, N>>(c, x, v), t) by {
        let (a, b) = (c.outer, c.inner); let y = tr_a::<B, Vector<T, N>>(b, x); let q = tr_d::<B, Vector<T, N>>(b, x, v); assert(tr_d::<B, Vector<T, N>>(b, x, v_muls(v, t)) == v_muls(q, t)); assert(tr_d::<A, Vector<T, N>>(a, y, v_muls(q, t)) == v_muls(tr_d::<A, Vector<T, N>>(a, y, q), t));
    }
    assert forall|c: Chain<A, B, Vector<T, N>>, x: Vector<T, N>, v: Vector<T, N>| #[trigger] tr_a::<Chain<A, B, Vector<T, N>>, Vector<T, N>>(c, v_add(x, v)) == v_add(tr_a::<Chain<A, B, Vector<T, N>>, Vector<T, N>>(c, x), tr_d::<Chain<A, B, Vector<T, N>>, Vector<T, N>>(c, x, v)) by {
        let (a, b) = (c.outer, c.inner); let y = tr_a::<B, Vector<T, N>>(b, x); let q = tr_d::<B, Vector<T, N>>(b, x, v); assert(tr_a::<B, Vector<T, N>>(b, v_add(x, v)) == v_add(y, q)); assert(tr_a::<A, Vector<T, N>>(a, v_add(y, q)) == v_add(tr_a::<A, Vector<T, N>>(a, y), tr_d::<A, Vector<T, N>>(a, y, q)));
    }
}
// reordering keeps the derivative too
pub open spec fn d_reorders<A: Reorder<B, P>, B: Transform<P>, P>(a: A, b: B) -> bool {
    let p = <A as Reorder<B, P>>::ro(a, b); forall|x: P, d: P| tr_d::<A, P>(a, tr_a::<B, P>(b, x), #[trigger] tr_d::<B, P>(b, x, d)) == tr_d::<B, P>(p.0, tr_a::<A, P>(p.1, x), tr_d::<A, P>(p.1, x, d))
}
pub proof fn chain_rule<A: Copy + Transform<P> + Reorder<B, P>, B: Copy + Transform<P> + Reorder<A, P>, P: Copy>() requires is_action::<A, P>(), is_action::<B, P>(), d_chain::<A, P>(), d_chain::<B, P>(), forall|b: B, a: A| reorders::<B, A, P>(b, a), forall|b: B, a: A| d_reorders::<B, A, P>(b, a) ensures d_chain::<Chain<A, B, P>, P>()
{
    assert forall|c: Chain<A, B, P>, d: Chain<A, B, P>, x: P, v: P| #[trigger] tr_d::<Chain<A, B, P>, P>(tr_c::<Chain<A, B, P>, P>(c, d), x, v) == tr_d::<Chain<A, B, P>, P>(c, tr_a::<Chain<A, B, P>, P>(d, x), tr_d::<Chain<A, B, P>, P>(d, x, v)) by {
        let p = <B as Reorder<A, P>>::ro(c.inner, d.outer); let y = tr_a::<B, P>(d.inner, x); let w = tr_d::<B, P>(d.inner, x, v);
        assert(reorders::<B, A, P>(c.inner, d.outer)); assert(d_reorders::<B, A, P>(c.inner, d.outer)); let z = tr_a::<A, P>(d.outer, y); let k = tr_d::<A, P>(d.outer, y, w);
        assert(tr_a::<B, P>(c.inner, z) == tr_a::<A, P>(p.0, tr_a::<B, P>(p.1, y)));
        assert(tr_d::<B, P>(c.inner, z, k) == tr_d::<A, P>(p.0, tr_a::<B, P>(p.1, y), tr_d::<B, P>(p.1, y, w)));
        let q = tr_c::<B, P>(p.1, d.inner); let u = tr_a::<B, P>(q, x); assert(u == tr_a::<B, P>(p.1, y)); let uv = tr_d::<B, P>(q, x, v); assert(uv == tr_d::<B, P>(p.1, y, w));
        let o = tr_c::<A, P>(c.outer, p.0); assert(tr_d::<A, P>(o, u, uv) == tr_d::<A, P>(c.outer, tr_a::<A, P>(p.0, u), tr_d::<A, P>(p.0, u, uv)));
        assert(tr_c::<Chain<A, B, P>, P>(c, d).outer == o); assert(tr_c::<Chain<A, B, P>, P>(c, d).inner == q);
    }
}
pub proof fn shift_d<T: Copy + Neg<Output = T> + Num, const N: usize>() requires is_cring::<T>() ensures d_linear::<Shift<T, N>, T, N>(), d_homog::<Shift<T, N>, T, N>(), d_affine::<Shift<T, N>, T, N>(), d_chain::<Shift<T, N>, Vector<T, N>>()
{
    assert forall|a: Shift<T, N>, x: Vector<T, N>, v: Vector<T, N>| #[trigger] tr_a::<Shift<T, N>, Vector<T, N>>(a, v_add(x, v)) == v_add(tr_a::<Shift<T, N>, Vector<T, N>>(a, x), tr_d::<Shift<T, N>, Vector<T, N>>(a, x, v)) by {
        let l = tr_a::<Shift<T, N>, Vector<T, N>>(a, v_add(x, v)); let r = v_add(tr_a::<Shift<T, N>, Vector<T, N>>(a, x), tr_d::<Shift<T, N>, Vector<T, N>>(a, x, v));
        assert forall|i: int| 0 <= i < N implies #[trigger] l@[i] == r@[i] by { r_assoc(x@[i], v@[i], a.pos@[i]); r_comm(v@[i], a.pos@[i]); r_assoc(x@[i], a.pos@[i], v@[i]); } v_ext(l, r);
    }
}
pub proof fn linear_d<T: Copy + Neg<Output = T> + Num, const N: usize>() requires is_cring::<T>(), N >= 1
    ensures d_linear::<Linear<T, N>, T, N>(), d_homog::<Linear<T, N>, T, N>(), d_affine::<Linear<T, N>, T, N>(), d_chain::<Linear<T, N>, Vector<T, N>>(), forall|b: Linear<T, N>, a: Shift<T, N>| #[trigger] d_reorders::<Linear<T, N>, Shift<T, N>, Vector<T, N>>(b, a)
{
    assert forall|a: Linear<T, N>, x: Vector<T, N>, u: Vector<T, N>, v: Vector<T, N>| #[trigger] tr_d::<Linear<T, N>, Vector<T, N>>(a, x, v_add(u, v)) == v_add(tr_d::<Linear<T, N>, Vector<T, N>>(a, x, u), tr_d::<Linear<T, N>, Vector<T, N>>(a, x, v)) by { lin_add(a.lin, u, v); }
    assert forall|a: Linear<T, N>, x: Vector<T, N>, v: Vector<T, N>, t: T| #[trigger] tr_d::<Linear<T, N>, Vector<T, N>>(a, x, v_muls(v, t)) == v_muls(tr_d::<Linear<T, N>, Vector<T, N>>(a, x, v), t) by { lin_scale(a.lin, v, t); }
    assert forall|a: Linear<T, N>, x: Vector<T, N>, v: Vector<T, N>| #[trigger] tr_a::<Linear<T, N>, Vector<T, N>>(a, v_add(x, v)) == v_add(tr_a::<Linear<T, N>, Vector<T, N>>(a, x), tr_d::<Linear<T, N>, Vector<T, N>>(a, x, v)) by { lin_add(a.lin, x, v); }
    assert forall|a: Linear<T, N>, b: Linear<T, N>, x: Vector<T, N>, d: Vector<T, N>| #[trigger] tr_d::<Linear<T, N>, Vector<T, N>>(tr_c::<Linear<T, N>, Vector<T, N>>(a, b), x, d) == tr_d::<Linear<T, N>, Vector<T, N>>(a, tr_a::<Linear<T, N>, Vector<T, N>>(b, x), tr_d::<Linear<T, N>, Vector<T, N>>(b, x, d)) by { lin_assoc(a.lin, b.lin, d); }
}
pub proof fn scale_d<T: Copy + Neg<Output = T> + Num + Inv<Output = T>, const N: usize>() requires is_cring::<T>() ensures d_linear::<Scale<T>, T, N>(), d_homog::<Scale<T>, T, N>(), d_affine::<Scale<T>, T, N>(), d_chain::<Scale<T>, Vector<T, N>>()
{
    assert forall|t: T, x: Vector<T, N>, y: Vector<T, N>| #[trigger] v_muls(v_add(x, y), t) == v_add(v_muls(x, t), v_muls(y, t)) by { let l = v_muls(v_add(x, y), t); let r = v_add(v_muls(x, t), v_muls(y, t)); assert forall|i: int| 0 <= i < N implies #[trigger] l@[i] == r@[i] by { r_distr(x@[i], y@[i], t); } v_ext(l, r); }
    assert forall|t: T, s: T, x: Vector<T, N>| #[trigger] v_muls(v_muls(x, s), t) == v_muls(v_muls(x, t), s) && v_muls(x, sp_mul(t, s)) == v_muls(v_muls(x, s), t) by {
        let l = v_muls(v_muls(x, s), t); let r = v_muls(v_muls(x, t), s); let m = v_muls(x, sp_mul(t, s));
        assert forall|i: int| 0 <= i < N implies #[trigger] l@[i] == r@[i] && m@[i] == l@[i] by { r_massoc(x@[i], s, t); r_massoc(x@[i], t, s); r_mcomm(s, t); } v_ext(l, r); v_ext(m, l);
    }
    assert forall|a: Scale<T>, b: Scale<T>, x: Vector<T, N>, d: Vector<T, N>| #[trigger] tr_d::<Scale<T>, Vector<T, N>>(tr_c::<Scale<T>, Vector<T, N>>(a, b), x, d) == tr_d::<Scale<T>, Vector<T, N>>(a, tr_a::<Scale<T>, Vector<T, N>>(b, x), tr_d::<Scale<T>, Vector<T, N>>(b, x, d)) by { let u = v_muls(v_muls(d, b.mag), a.mag); }
}
pub proof fn rotation_d<T: Copy + Neg<Output = T> + Num>() requires is_cring::<T>()
    ensures d_linear::<Rotation2<T>, T, 2>(), d_homog::<Rotation2<T>, T, 2>(), d_affine::<Rotation2<T>, T, 2>(), d_chain::<Rotation2<T>, Vector<T, 2>>(), d_linear::<Rotation3<T>, T, 3>(), d_homog::<Rotation3<T>, T, 3>(), d_affine::<Rotation3<T>, T, 3>(), d_chain::<Rotation3<T>, Vector<T, 3>>()
{
    let o = T::one_spec();
    assert forall|q: Complex<T>, x: Vector<T, 2>, y: Vector<T, 2>| #[trigger] rot2(q, v_add(x, y)) == v_add(rot2(q, x), rot2(q, y)) by { rot2_laws(q, q, x, y, o); }
    assert forall|q: Complex<T>, x: Vector<T, 2>, t: T| #[trigger] rot2(q, v_muls(x, t)) == v_muls(rot2(q, x), t) by { rot2_laws(q, q, x, x, t); }
    assert forall|a: Complex<T>, b: Complex<T>, x: Vector<T, 2>| #[trigger] rot2(c_mul(a, b), x) == rot2(a, rot2(b, x)) by { rot2_laws(a, b, x, x, o); }
    assert forall|q: Quaternion<T>, x: Vector<T, 3>, y: Vector<T, 3>| #[trigger] rot3(q, v_add(x, y)) == v_add(rot3(q, x), rot3(q, y)) by { rot3_laws(q, x, y, o); }
    assert forall|q: Quaternion<T>, x: Vector<T, 3>, t: T| #[trigger] rot3(q, v_muls(x, t)) == v_muls(rot3(q, x), t) by { rot3_laws(q, x, x, t); }
    assert forall|a: Quaternion<T>, b: Quaternion<T>, x: Vector<T, 3>| #[trigger] rot3(q_mul(a, b), x) == rot3(a, rot3(b, x)) by { rot3_comp(a, b, x); }
}
pub fn law_derivs<T: Copy + Neg<Output = T> + Num + Inv<Output = T>, const N: usize>(s: Shift<T, N>, s1: Shift<T, N>, l: Linear<T, N>, l1: Linear<T, N>, k: Scale<T>, k1: Scale<T>, f: Affine<T, N>, f1: Affine<T, N>, x: Vector<T, N>, u: Vector<T, N>, v: Vector<T, N>, r: Rotation2<T>, r1: Rotation2<T>, x2: Vector<T, 2>, u2: Vector<T, 2>, v2: Vector<T, 2>, q: Rotation3<T>, q1: Rotation3<T>, x3: Vector<T, 3>, u3: Vector<T, 3>, v3: Vector<T, 3>, t: T)
    requires is_cring::<T>(), tot_lin::<T>(N), inv_is_rcp::<T>()
{
    proof { cr_tot::<T>(); shift_d::<T, N>(); linear_d::<T, N>(); scale_d::<T, N>(); rotation_d::<T>(); shift_laws::<T, N>(); linear_laws::<T, N>(); chain_deriv::<Shift<T, N>, Linear<T, N>, T, N>(); chain_rule::<Shift<T, N>, Linear<T, N>, Vector<T, N>>(); }
    law_deriv(s, s1, x, u, v, t); law_deriv(l, l1, x, u, v, t); law_deriv(k, k1, x, u, v, t); law_deriv(f, f1, x, u, v, t); law_deriv(r, r1, x2, u2, v2, t); law_deriv(q, q1, x3, u3, v3, t);
}
// ------------------------------------------------ directions and normals
pub proof fn dot_scale<T: Copy + Neg<Output = T> + Num, const N: usize>(a: Vector<T, N>, b: Vector<T, N>, y: T) requires is_cring::<T>(), N >= 1 ensures vdot(v_muls(a, y)@, b@) == sp_mul(vdot(a@, b@), y), vdot(v_muls(a, y)@, v_muls(a, y)@) == sp_mul(vdot(a@, a@), sp_mul(y, y))
{
    let s = v_muls(a, y); vdot_sg(a@, b@); vdot_sg(s@, b@); vdot_sg(a@, a@); vdot_sg(s@, s@);
    let f = |i: int| sp_mul(a@[i], b@[i]); let g = |i: int| sp_mul(s@[i], b@[i]); let h = |i: int| sp_mul(f(i), y); sg_mulr(N as int, y, f);
    assert forall|i: int| 0 <= i < N implies #[trigger] g(i) == h(i) by { r_massoc(a@[i], y, b@[i]); r_mcomm(y, b@[i]); r_massoc(a@[i], b@[i], y); }
    sg_ext(N as int, g, h);
    let yy = sp_mul(y, y); let f = |i: int| sp_mul(a@[i], a@[i]); let g = |i: int| sp_mul(s@[i], s@[i]); let h = |i: int| sp_mul(f(i), yy); sg_mulr(N as int, yy, f);
    assert forall|i: int| 0 <= i < N implies #[trigger] g(i) == h(i) by { let p = a@[i]; r_massoc(p, y, sp_mul(p, y)); r_mcomm(y, sp_mul(p, y)); r_massoc(p, y, y); r_massoc(p, p, yy); }
    sg_ext(N as int, g, h);
}
// dividing by the square root of the squared length makes the length one and turns nothing
pub open spec fn unit_of<T: Float, const N: usize>(v: Vector<T, N>, r: Vector<T, N>) -> bool { exists|n: T| #[trigger] T::sqrt_r(vdot(v@, v@), n) && r == v_divs(v, n) }
pub proof fn unit_laws_of<T: Float, const N: usize>(v: Vector<T, N>, r: Vector<T, N>, b: Vector<T, N>) requires is_field::<T>(), is_real::<T>(), N >= 1, unit_of(v, r), vdot(v@, v@) != T::zero_spec() ensures vdot(r@, r@) == T::one_spec(), vdot(v@, b@) == T::zero_spec() ==> vdot(r@, b@) == T::zero_spec()
{
    let vv = vdot(v@, v@); let n = choose|n: T| #[trigger] T::sqrt_r(vv, n) && r == v_divs(v, n); assert(T::sqrt_r(vv, n) && r == v_divs(v, n)); let k = rcp(n);
    e_nn_self(v); e_sqrt(vv, n); if n == T::zero_spec() { r_mul0(n); } f_rcp(n); assert forall|i: int| 0 <= i < N implies #[trigger] r@[i] == v_muls(v, k)@[i] by { f_div(v@[i], n); } v_ext(r, v_muls(v, k)); dot_scale(v, b, k);
    r_massoc(n, n, sp_mul(k, k)); r_massoc(n, k, k); r_one(k); r_mul0(k);
}
pub proof fn e_nn_self<T: Float, const N: usize>(v: Vector<T, N>) requires is_field::<T>(), is_real::<T>(), N >= 1 ensures nn(vdot(v@, v@)) { vdot_sg(v@, v@); e_nn_sg(N as int, v); }
pub proof fn e_nn_sg<T: Float, const N: usize>(n: int, v: Vector<T, N>) requires is_field::<T>(), is_real::<T>(), 0 <= n <= N ensures nn(sg(n, |i: int| sp_mul(v@[i], v@[i]))) decreases n
{ let f = |i: int| sp_mul(v@[i], v@[i]); reveal(is_real); if n > 0 { e_nn_sg(n - 1, v); assert(nn(f(n - 1))); assert(nn(sp_add(sg(n - 1, f), f(n - 1)))); } }
pub proof fn normal_orth<T: Copy + Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>, n: Vector<T, N>, d: Vector<T, N>) requires is_cring::<T>(), N >= 1, lin_ok(a) ensures vdot(m_v(m_tr(inv_spec(a)), n)@, m_v(a, d)@) == vdot(n@, d@)
{
    let b = inv_spec(a); let y = m_v(a, d); let l = m_v(m_tr(b), n);
    assert forall|j: int| 0 <= j < N implies #[trigger] l@[j] == mapd(n@, b)[j] by { assert(m_tr(b).data@[j]@ =~= colq(b, j)); dot_rev(colq(b, j), n@); }
    assert(l@ =~= mapd(n@, b)); dot_assoc(n@, b, y@); assert(mapr(b, y@) =~= m_v(b, y)@); lin_assoc(b, a, d); lin_id(d);
}
pub fn law_linear_directions<T: Float, const N: usize>(l: Linear<T, N>, x: Vector<T, N>, d: Vector<T, N>, n: Vector<T, N>)
    requires is_field::<T>(), is_real::<T>(), tot_lin::<T>(N), lin_ok(l.lin)
{
    proof { f_tot::<T>(); cr_tot::<T>(); e_tot::<T>(); normal_orth(l.lin, n, d); let nv = m_v(m_tr(inv_spec(l.lin)), n); dot_rev(nv@, m_v(l.lin, d)@); }
    let ghost nv = m_v(m_tr(inv_spec(l.lin)), n); let ghost z = T::zero_spec();
    let w = l.deriv(x, d); let u = l.apply_dir(x, d); let m = l.apply_normal(x, n); let p = m.dot(w); let q = u.dot(u); let k = m.dot(m);
    proof {
        assert(unit_of(w, u)); assert(unit_of(nv, m));
        if vdot(w@, w@) != z { unit_laws_of(w, u, w); assert(q == T::one_spec()); }
        if vdot(nv@, nv@) != z { unit_laws_of(nv, m, w); assert(k == T::one_spec()); assert(vdot(n@, d@) == z ==> p == z); }
    }
}
pub fn law_scale_directions<T: Float + Inv<Output = T>, const N: usize>(s: Scale<T>, x: Vector<T, N>, d: Vector<T, N>, n: Vector<T, N>)
    requires is_field::<T>(), is_real::<T>(), N >= 1, <Scale<T> as Transform<Vector<T, N>>>::tr_req(), vdot(d@, d@) == T::one_spec(), vdot(n@, n@) == T::one_spec(), nn(s.mag), s.mag != T::zero_spec()
{
    proof { f_tot::<T>(); cr_tot::<T>(); e_tot::<T>(); }
    let w = s.deriv(x, d); let m = s.apply_dir(x, d); let u = w.normalize(); let k = s.apply_normal(x, n); let p = w.dot(k);
    proof {
        let g = s.mag; let vv = vdot(w@, w@); dot_scale(d, n, g); r_one(sp_mul(g, g)); let l = choose|l: T| #[trigger] T::sqrt_r(vv, l) && u == v_divs(w, l); assert(T::sqrt_r(vv, l) && u == v_divs(w, l)); e_nn_self(w); e_sqrt(vv, l); e_root_unique(l, g);
        let kr = rcp(g); f_rcp(g); assert forall|i: int| 0 <= i < N implies #[trigger] u@[i] == d@[i] by { f_div(sp_mul(d@[i], g), g); r_massoc(d@[i], g, kr); r_one(d@[i]); } v_ext(u, d); assert(m == u);
        r_mul0(g); dot_rev(d@, n@); assert(vdot(n@, d@) == T::zero_spec() ==> p == T::zero_spec());
    }
}
pub proof fn rot2_iso<T: Copy + Neg<Output = T> + Num>(c: Complex<T>, x: Vector<T, 2>, y: Vector<T, 2>) requires is_cring::<T>(), rot2_ok(c) ensures vdot(rot2(c, x)@, rot2(c, y)@) == vdot(x@, y@)
{ pl_rot2iso(cre(c), cim(c), x@[0], x@[1], y@[0], y@[1]); vdot2(rot2(c, x)@, rot2(c, y)@); vdot2(x@, y@); r_one(vdot(x@, y@)); }
pub fn law_rotation_directions<T: Float>(r: Rotation2<T>, q: Rotation3<T>, x: Vector<T, 2>, d: Vector<T, 2>, n: Vector<T, 2>, y: Vector<T, 3>, e: Vector<T, 3>, m: Vector<T, 3>)
    requires is_field::<T>(), is_real::<T>(), rot2_ok(r.comp), rot3_ok(q.quat), vdot(d@, d@) == T::one_spec(), vdot(n@, n@) == T::one_spec(), vdot(e@, e@) == T::one_spec(), vdot(m@, m@) == T::one_spec()
{
    proof { f_tot::<T>(); cr_tot::<T>(); e_tot::<T>(); rot2_iso(r.comp, d, d); rot2_iso(r.comp, n, d); rot2_iso(r.comp, n, n); rot3_iso(q.quat, e, e); rot3_iso(q.quat, m, e); rot3_iso(q.quat, m, m); }
    let o = T::one(); let w = r.deriv(x, d); let u = r.apply_dir(x, d); let k = r.apply_normal(x, n); let a = u.dot(u); let b = k.dot(k); let c = k.dot(w); let g = n.dot(d); proof { assert(u == w && a == o && b == o && c == g); }
    let w = q.deriv(y, e); let u = q.apply_dir(y, e); let k = q.apply_normal(y, m); let a = u.dot(u); let b = k.dot(k); let c = k.dot(w); let g = m.dot(e); proof { assert(u == w && a == o && b == o && c == g); }
}
// ------------------------------------------------ the derivative of a Moebius map on the complex plane
pub proof fn cd_deriv<T: Copy + Neg<Output = T> + Num>(m: Moebius<Complex<T>>, x: Complex<T>) requires is_field::<T>(), c_nsq(mo_den(m, x)) != T::zero_spec()
    ensures c_mul(mo_deriv(m, x), mo_den(m, x)) == c_sub(ma(m), c_mul(c_f(m, x), mc(m))), c_mul(c_f(m, x), mo_den(m, x)) == mo_num(m, x)
{
    let (a, c) = (ma(m), mc(m)); let n = mo_num(m, x); let d = mo_den(m, x); let v = c_inv(d); let dd = c_mul(d, d); let w = c_inv(dd); let f = c_f(m, x);
    c_laws(d, d, d); if c_nsq(dd) == T::zero_spec() { f_nonzero(c_nsq(d), c_nsq(d)); } c_rcp(d); c_rcp(dd);
    // w d = v
    c_laws(d, d, w); c_laws(v, d, c_mul(d, w)); c_laws(c_mul(d, w), v, v); c_laws(d, w, w);
    assert(c_mul(d, w) == v);
    // (a d - n c) w d = (a d - n c) v = a - f c
    let p = c_sub(c_mul(a, d), c_mul(n, c)); c_laws(p, w, d); c_laws(w, d, d); c_sublaws(c_mul(a, d), c_mul(n, c), v); c_laws(a, d, v); c_laws(a, a, a); c_laws(n, c, v); c_laws(c, v, v); c_laws(n, v, c);
    assert(c_mul(c_mul(p, w), d) == c_sub(a, c_mul(f, c)));
    c_laws(n, v, d); c_laws(n, n, n);
}
pub open spec fn c_f<T: Neg<Output = T> + Num>(m: Moebius<Complex<T>>, x: Complex<T>) -> Complex<T> { c_mul(mo_num(m, x), c_inv(mo_den(m, x))) }
pub proof fn c_sublaws<T: Neg<Output = T> + Num>(a: Complex<T>, b: Complex<T>, c: Complex<T>) requires is_cring::<T>()
    ensures c_mul(c_sub(a, b), c) == c_sub(c_mul(a, c), c_mul(b, c)), c_mul(c, c_sub(a, b)) == c_sub(c_mul(c, a), c_mul(c, b)), c_sub(c_plus(c, a), c_plus(c, b)) == c_sub(a, b)
{ pl_c_sublin(cre(a), cim(a), cre(b), cim(b), cre(c), cim(c)); c_ext(c_sub(c_plus(c, a), c_plus(c, b)), c_sub(a, b)); }
// (f(x + h) - f(x)) D(x + h) = f'(x) h D(x): the difference quotient, up to the continuous factor D(x) / D(x + h)
pub proof fn cd_diff<T: Copy + Neg<Output = T> + Num>(m: Moebius<Complex<T>>, x: Complex<T>, h: Complex<T>) requires is_field::<T>(), c_nsq(mo_den(m, x)) != T::zero_spec(), c_nsq(mo_den(m, c_plus(x, h))) != T::zero_spec()
    ensures c_mul(c_sub(c_f(m, c_plus(x, h)), c_f(m, x)), mo_den(m, c_plus(x, h))) == c_mul(c_mul(mo_deriv(m, x), h), mo_den(m, x))
{
    let y = c_plus(x, h); let (a, b, c, e) = (ma(m), mb(m), mc(m), md(m)); let n = mo_num(m, x); let d = mo_den(m, x); let (ny, dy) = (mo_num(m, y), mo_den(m, y)); let f = c_f(m, x); let (ah, ch) = (c_mul(a, h), c_mul(c, h)); let g = mo_deriv(m, x);
    cd_deriv(m, x); cd_deriv(m, y); c_sublaws(c_f(m, y), f, dy);
    // ny = n + a h, dy = d + c h
    c_laws(a, x, h); c_laws(c_mul(a, x), ah, b); c_laws(ah, b, b); c_laws(c_mul(a, x), b, ah); c_laws(c, x, h); c_laws(c_mul(c, x), ch, e); c_laws(ch, e, e); c_laws(c_mul(c, x), e, ch);
    c_ext(mo_num(m, y), c_plus(c_mul(a, y), b)); c_ext(mo_den(m, y), c_plus(c_mul(c, y), e)); c_ext(n, c_plus(c_mul(a, x), b)); c_ext(d, c_plus(c_mul(c, x), e));
    assert(ny == c_plus(n, ah)); assert(dy == c_plus(d, ch));
    c_laws(f, d, ch); c_sublaws(ah, c_mul(f, ch), n);
    assert(c_mul(c_sub(c_f(m, y), f), dy) == c_sub(ah, c_mul(f, ch)));
    // g h d = (g d) h = (a - f c) h
    c_laws(g, h, d); c_laws(h, d, d); c_laws(g, d, h); c_sublaws(a, c_mul(f, c), h); c_laws(f, c, h);
}
pub fn law_moebius_deriv<T: Copy + Neg<Output = T> + Num>(m: Moebius<Complex<T>>, g: Moebius<Complex<T>>, x: Complex<T>, h: Complex<T>, k: Complex<T>, t: T) requires is_field::<T>(), two_squares::<T>()
{
    proof { f_tot::<T>(); cr_tot::<T>(); c_ext(mo_den(m, x), c_plus(c_mul(mc(m), x), md(m))); }
    let y = x + h; let fx = <Moebius<Complex<T>> as Transform<Complex<T>>>::apply(&m, x); let fy = <Moebius<Complex<T>> as Transform<Complex<T>>>::apply(&m, y); let dx = m.c() * x + m.d(); let dy = m.c() * y + m.d(); let v = <Moebius<Complex<T>> as Transform<Complex<T>>>::deriv(&m, x, h); let l = (fy - fx) * dy; let r = v * dx;
    proof { c_ext(y, c_plus(x, h)); c_ext(dx, mo_den(m, x)); c_ext(dy, mo_den(m, y)); if c_nsq(dx) != T::zero_spec() && c_nsq(dy) != T::zero_spec() { cd_diff(m, x, h); assert(fx == c_f(m, x)); assert(fy == c_f(m, y)); assert(v == c_mul(mo_deriv(m, x), h)); assert(l == r); } }
}
// ------------------------------------------------ the derivative of a Moebius map on the quaternions
pub open spec fn q_minus<T: Sub<Output = T>>(a: Quaternion<T>, b: Quaternion<T>) -> Quaternion<T> { q_sub(a, b) }
pub open spec fn qm_num<T: Neg<Output = T> + Num>(m: Moebius<Complex<T>>, p: Quaternion<T>) -> Quaternion<T> { q_addc(cq_mul(ma(m), p), mb(m)) }
pub open spec fn qm_den<T: Neg<Output = T> + Num>(m: Moebius<Complex<T>>, p: Quaternion<T>) -> Quaternion<T> { q_addc(cq_mul(mc(m), p), md(m)) }
pub open spec fn q_f<T: Neg<Output = T> + Num>(m: Moebius<Complex<T>>, p: Quaternion<T>) -> Quaternion<T> { q_mul(qm_num(m, p), q_inv(qm_den(m, p))) }
pub proof fn q_sublaws<T: Neg<Output = T> + Num>(a: Quaternion<T>, b: Quaternion<T>, c: Quaternion<T>) requires is_cring::<T>()
    ensures q_mul(q_sub(a, b), c) == q_sub(q_mul(a, c), q_mul(b, c)), q_mul(c, q_sub(a, b)) == q_sub(q_mul(c, a), q_mul(c, b)), q_sub(q_plus(c, a), q_plus(c, b)) == q_sub(a, b), q_mul(c, q_neg(a)) == q_neg(q_mul(c, a)), q_plus(a, q_neg(b)) == q_sub(a, b)
{
    let (a0, a1, a2, a3) = (qw(a), qx(a), qy(a), qz(a)); let (b0, b1, b2, b3) = (qw(b), qx(b), qy(b), qz(b)); let (c0, c1, c2, c3) = (qw(c), qx(c), qy(c), qz(c));
    pl_q_sublin(a0, a1, a2, a3, b0, b1, b2, b3, c0, c1, c2, c3); pl_q_negmul(c0, c1, c2, c3, a0, a1, a2, a3);
    q_ext(q_sub(q_plus(c, a), q_plus(c, b)), q_sub(a, b)); q_ext(q_mul(c, q_neg(a)), q_neg(q_mul(c, a))); q_ext(q_plus(a, q_neg(b)), q_sub(a, b));
}
pub open spec fn q_swing<T: Neg<Output = T> + Num>(d: Quaternion<T>, w: Quaternion<T>, two: T) -> Quaternion<T> { q_divs(q_sub(q_conj(w), q_muls(q_conj(d), sp_div(sp_mul(q_dot(d, w), two), q_nsq(d)))), q_nsq(d)) }
pub proof fn q_dg<T: Neg<Output = T> + Num>(d: Quaternion<T>, w: Quaternion<T>) requires is_field::<T>(), q_nsq(d) != T::zero_spec()
    ensures q_mul(q_swing(d, w, two::<T>()), d) == q_neg(q_mul(q_inv(d), w))
{
    let n = q_nsq(d); let y = rcp(n); let s = sp_mul(q_dot(d, w), two::<T>()); let c = q_conj(d); let x = q_sub(q_conj(w), q_muls(c, sp_div(s, n))); let g = q_divs(x, n); let sy = sp_mul(s, y);
    f_rcp(n); f_div(s, n); f_div(qw(x), n); f_div(qx(x), n); f_div(qy(x), n); f_div(qz(x), n); f_div(qw(c), n); f_div(qx(c), n); f_div(qy(c), n); f_div(qz(c), n);
    pl_qdg(qw(d), qx(d), qy(d), qz(d), qw(w), qx(w), qy(w), qz(w), y); r_sub(T::one_spec(), sp_mul(n, y)); r_neg(T::one_spec()); r_mul0(sy);
    let l = q_mul(g, d); let r = q_neg(q_mul(q_inv(d), w)); r_zero(qw(r)); r_zero(qx(r)); r_zero(qy(r)); r_zero(qz(r));
    q_ext(l, r);
}
pub proof fn q_lin<T: Neg<Output = T> + Num>(m: Moebius<Complex<T>>, x: Quaternion<T>, h: Quaternion<T>) requires is_cring::<T>()
    ensures qm_num(m, x) == q_plus(q_mul(q_emb(ma(m)), x), q_emb(mb(m))), qm_den(m, x) == q_plus(q_mul(q_emb(mc(m)), x), q_emb(md(m))), qm_num(m, q_plus(x, h)) == q_plus(qm_num(m, x), q_mul(q_emb(ma(m)), h)), qm_den(m, q_plus(x, h)) == q_plus(qm_den(m, x), q_mul(q_emb(mc(m)), h))
{
    let y = q_plus(x, h); q_lin1(ma(m), mb(m), x, h); q_lin1(mc(m), md(m), x, h);
}
pub proof fn q_lin1<T: Neg<Output = T> + Num>(a: Complex<T>, b: Complex<T>, x: Quaternion<T>, h: Quaternion<T>) requires is_cring::<T>()
    ensures q_addc(cq_mul(a, x), b) == q_plus(q_mul(q_emb(a), x), q_emb(b)), q_addc(cq_mul(a, q_plus(x, h)), b) == q_plus(q_addc(cq_mul(a, x), b), q_mul(q_emb(a), h))
{
    let y = q_plus(x, h); let (ea, eb) = (q_emb(a), q_emb(b)); let (ax, ah) = (q_mul(ea, x), q_mul(ea, h)); q_mixed(x, a, T::zero_spec()); q_mixed(y, a, T::zero_spec()); q_laws(ea, x, h);
    let (cx, cy) = (cq_mul(a, x), cq_mul(a, y)); r_zero(qy(cx)); r_zero(qz(cx)); r_zero(qy(cy)); r_zero(qz(cy)); q_ext(q_addc(cx, b), q_plus(cx, eb)); q_ext(q_addc(cy, b), q_plus(cy, eb));
    q_addlaws(ax, ah, eb); q_addlaws(ah, eb, eb); q_addlaws(ax, eb, ah);
}
pub proof fn qd_deriv<T: Neg<Output = T> + Num>(m: Moebius<Complex<T>>, x: Quaternion<T>, v: Quaternion<T>) requires is_field::<T>(), q_nsq(qm_den(m, x)) != T::zero_spec()
    ensures q_mul(q_f(m, x), qm_den(m, x)) == qm_num(m, x), q_mul(mo_qderiv(m, x, v, two::<T>()), qm_den(m, x)) == q_sub(q_mul(q_emb(ma(m)), v), q_mul(q_f(m, x), q_mul(q_emb(mc(m)), v)))
{
    let u = qm_num(m, x); let d = qm_den(m, x); let i = q_inv(d); let f = q_f(m, x); let (ea, ec) = (q_emb(ma(m)), q_emb(mc(m))); let (av, w) = (q_mul(ea, v), q_mul(ec, v)); let g = q_swing(d, w, two::<T>());
    q_mixed(v, ma(m), T::zero_spec()); q_mixed(v, mc(m), T::zero_spec()); q_rcp(d); q_laws(u, i, d); q_laws(u, u, u);
    let g1 = q_mul(av, i); let ug = q_mul(u, g);
    assert(mo_qderiv(m, x, v, two::<T>()) == q_plus(g1, ug));
    q_laws(d, g1, ug); q_laws(av, i, d); q_laws(av, av, av); q_dg(d, w); q_laws(u, g, d); q_laws(u, i, w); q_sublaws(q_mul(i, w), u, u); q_sublaws(av, q_mul(f, w), u);
}
pub proof fn q_cancel<T: Neg<Output = T> + Num>(a: Quaternion<T>, b: Quaternion<T>, d: Quaternion<T>) requires is_field::<T>(), q_nsq(d) != T::zero_spec(), q_mul(a, d) == q_mul(b, d) ensures a == b
{ let i = q_inv(d); q_rcp(d); q_laws(a, d, i); q_laws(b, d, i); q_laws(a, a, a); q_laws(b, b, b); }
// (f(x + h) - f(x)) D(x + h) = f'(x)[h] D(x)
pub proof fn qd_diff<T: Neg<Output = T> + Num>(m: Moebius<Complex<T>>, x: Quaternion<T>, h: Quaternion<T>) requires is_field::<T>(), q_nsq(qm_den(m, x)) != T::zero_spec(), q_nsq(qm_den(m, q_plus(x, h))) != T::zero_spec()
    ensures q_mul(q_sub(q_f(m, q_plus(x, h)), q_f(m, x)), qm_den(m, q_plus(x, h))) == q_mul(mo_qderiv(m, x, h, two::<T>()), qm_den(m, x))
{
    let y = q_plus(x, h); let f = q_f(m, x); let d = qm_den(m, x); let dy = qm_den(m, y); let (ah, ch) = (q_mul(q_emb(ma(m)), h), q_mul(q_emb(mc(m)), h));
    q_lin(m, x, h); qd_deriv(m, x, h); qd_deriv(m, y, h); q_sublaws(q_f(m, y), f, dy); q_laws(f, d, ch); q_sublaws(ah, q_mul(f, ch), qm_num(m, x));
}
pub proof fn q_emb_laws<T: Copy + Neg<Output = T> + Num>(a: Complex<T>, b: Complex<T>) requires is_cring::<T>() ensures q_emb(c_mul(a, b)) == q_mul(q_emb(a), q_emb(b)), q_emb(c_plus(a, b)) == q_plus(q_emb(a), q_emb(b))
{
    q_mixed(q_emb(b), a, T::zero_spec()); let z = T::zero_spec(); r_zero(z); r_mul0(cre(a)); r_mul0(cim(a)); r_sub(z, z); r_neg0::<T>();
    q_ext(q_emb(c_plus(a, b)), q_plus(q_emb(a), q_emb(b))); q_ext(cq_mul(a, q_emb(b)), q_emb(c_mul(a, b)));
}
// the differential is linear
pub proof fn qd_linear<T: Neg<Output = T> + Num>(m: Moebius<Complex<T>>, x: Quaternion<T>, h: Quaternion<T>, k: Quaternion<T>, t: T) requires is_field::<T>(), q_nsq(qm_den(m, x)) != T::zero_spec()
    ensures mo_qderiv(m, x, q_plus(h, k), two::<T>()) == q_plus(mo_qderiv(m, x, h, two::<T>()), mo_qderiv(m, x, k, two::<T>())), mo_qderiv(m, x, q_muls(h, t), two::<T>()) == q_muls(mo_qderiv(m, x, h, two::<T>()), t)
{
    let d = qm_den(m, x); let f = q_f(m, x); let (a, c) = (q_emb(ma(m)), q_emb(mc(m))); let tt = q_real(t); let (dh, dk) = (mo_qderiv(m, x, h, two::<T>()), mo_qderiv(m, x, k, two::<T>())); let s = q_plus(h, k); let r = q_muls(h, t);
    qd_deriv(m, x, h); qd_deriv(m, x, k); qd_deriv(m, x, s); qd_deriv(m, x, r);
    qd_step(a, c, f, h); qd_step(a, c, f, k); qd_step(a, c, f, s); qd_step(a, c, f, r); let p = q_sub(a, q_mul(f, c));
    q_laws(p, h, k); q_laws(d, dh, dk); q_cancel(mo_qderiv(m, x, s, two::<T>()), q_plus(dh, dk), d);
    q_mixed(h, mkc(t, t), t); q_mixed(dh, mkc(t, t), t); q_laws(p, h, tt); q_mixed(d, mkc(t, t), t); q_mixed(q_mul(p, h), mkc(t, t), t); q_laws(tt, dh, d);
    q_cancel(mo_qderiv(m, x, r, two::<T>()), q_muls(dh, t), d);
}
// a v - f (c v) = (a - f c) v
pub proof fn qd_step<T: Neg<Output = T> + Num>(a: Quaternion<T>, c: Quaternion<T>, f: Quaternion<T>, v: Quaternion<T>) requires is_cring::<T>() ensures q_sub(q_mul(a, v), q_mul(f, q_mul(c, v))) == q_mul(q_sub(a, q_mul(f, c)), v)
{ q_laws(f, c, v); q_sublaws(a, q_mul(f, c), v); }
// and conformal: it keeps angles, up to the factor |A - f C|^2 / |D|^2
pub proof fn qd_conformal<T: Neg<Output = T> + Num>(m: Moebius<Complex<T>>, x: Quaternion<T>, h: Quaternion<T>, k: Quaternion<T>) requires is_field::<T>(), q_nsq(qm_den(m, x)) != T::zero_spec()
    ensures sp_mul(q_dot(mo_qderiv(m, x, h, two::<T>()), mo_qderiv(m, x, k, two::<T>())), q_nsq(qm_den(m, x))) == sp_mul(q_nsq(q_sub(q_emb(ma(m)), q_mul(q_f(m, x), q_emb(mc(m))))), q_dot(h, k))
{
    let d = qm_den(m, x); let f = q_f(m, x); let (a, c) = (q_emb(ma(m)), q_emb(mc(m))); let p = q_sub(a, q_mul(f, c)); let (u, v) = (mo_qderiv(m, x, h, two::<T>()), mo_qderiv(m, x, k, two::<T>()));
    qd_deriv(m, x, h); qd_deriv(m, x, k); qd_step(a, c, f, h); qd_step(a, c, f, k);
    pl_qdot(qw(d), qx(d), qy(d), qz(d), qw(u), qx(u), qy(u), qz(u), qw(v), qx(v), qy(v), qz(v));
    pl_qdot(qw(p), qx(p), qy(p), qz(p), qw(h), qx(h), qy(h), qz(h), qw(k), qx(k), qy(k), qz(k));
    assert(q_mul(u, d) == q_mul(p, h) && q_mul(v, d) == q_mul(p, k));
    assert(q_dot(q_mul(u, d), q_mul(v, d)) == sp_mul(q_dot(u, v), q_nsq(d)));
    assert(q_dot(q_mul(p, h), q_mul(p, k)) == sp_mul(q_nsq(p), q_dot(h, k)));
}
pub open spec fn q_unit_of<T: Float>(v: Quaternion<T>, r: Quaternion<T>) -> bool { exists|n: T| #[trigger] T::sqrt_r(q_nsq(v), n) && r == q_divs(v, n) }
pub proof fn q_unit_laws<T: Float>(v: Quaternion<T>, r: Quaternion<T>, b: Quaternion<T>) requires is_field::<T>(), is_real::<T>(), q_unit_of(v, r), q_nsq(v) != T::zero_spec() ensures q_nsq(r) == T::one_spec(), q_dot(v, b) == T::zero_spec() ==> q_dot(r, b) == T::zero_spec()
{
    let vv = q_nsq(v); let n = choose|n: T| #[trigger] T::sqrt_r(vv, n) && r == q_divs(v, n); assert(T::sqrt_r(vv, n) && r == q_divs(v, n)); let k = rcp(n);
    q_nn(v); e_sqrt(vv, n); if n == T::zero_spec() { r_mul0(n); } f_rcp(n); f_div(qw(v), n); f_div(qx(v), n); f_div(qy(v), n); f_div(qz(v), n);
    pl_qnscale(qw(v), qx(v), qy(v), qz(v), k); pl_qdotscale(qw(v), qx(v), qy(v), qz(v), qw(b), qx(b), qy(b), qz(b), k);
    r_massoc(n, n, sp_mul(k, k)); r_massoc(n, k, k); r_one(k); r_mul0(k);
}
pub proof fn q_nn<T: Float>(a: Quaternion<T>) requires is_real::<T>() ensures nn(q_nsq(a))
{ reveal(is_real); let (p, q, r, s) = (sp_mul(qw(a), qw(a)), sp_mul(qx(a), qx(a)), sp_mul(qy(a), qy(a)), sp_mul(qz(a), qz(a))); assert(nn(p) && nn(q) && nn(r) && nn(s)); assert(nn(sp_add(p, q))); assert(nn(sp_add(sp_add(p, q), r))); assert(nn(q_nsq(a))); }
pub fn law_moebius_quaternion_deriv<T: Copy + Neg<Output = T> + Num + NumCast>(m: Moebius<Complex<T>>, x: Quaternion<T>, h: Quaternion<T>, k: Quaternion<T>, t: T) requires is_field::<T>(), T::cast_of(2.0f64) == Some(two::<T>())
{
    proof { f_tot::<T>(); cr_tot::<T>(); }
    let ghost z = T::zero_spec();
    let y = x + h; let fx = <Moebius<Complex<T>> as Transform<Quaternion<T>>>::apply(&m, x); let fy = <Moebius<Complex<T>> as Transform<Quaternion<T>>>::apply(&m, y); let dx = m.c() * x + m.d(); let dy = m.c() * y + m.d();
    let v = <Moebius<Complex<T>> as Transform<Quaternion<T>>>::deriv(&m, x, h); let w = <Moebius<Complex<T>> as Transform<Quaternion<T>>>::deriv(&m, x, k); let s = <Moebius<Complex<T>> as Transform<Quaternion<T>>>::deriv(&m, x, h + k); let r = <Moebius<Complex<T>> as Transform<Quaternion<T>>>::deriv(&m, x, h * t);
    let l = (fy - fx) * dy; let g = v * dx; let vw = v + w; let vt = v * t;
    proof {
        if q_nsq(dx) != z { qd_linear(m, x, h, k, t); assert(s == vw); assert(r == vt); }
        if q_nsq(dx) != z && q_nsq(dy) != z { qd_diff(m, x, h); assert(fx == q_f(m, x)); assert(fy == q_f(m, y)); assert(l == g); }
    }
}
pub fn law_moebius_directions<T: Float>(m: Moebius<Complex<T>>, x: Quaternion<T>, d: Quaternion<T>, n: Quaternion<T>) requires is_field::<T>(), is_real::<T>()
{
    proof { f_tot::<T>(); cr_tot::<T>(); e_tot::<T>(); }
    let ghost z = T::zero_spec();
    let dx = m.c() * x + m.d(); let w = <Moebius<Complex<T>> as Transform<Quaternion<T>>>::deriv(&m, x, d); let u = <Moebius<Complex<T>> as Directional<Quaternion<T>>>::apply_dir(&m, x, d); let k = <Moebius<Complex<T>> as Directional<Quaternion<T>>>::apply_normal(&m, x, n);
    let p = k.dot(w); let q = u.dot(u); let e = k.dot(k);
    proof {
        let v = mo_qderiv(m, x, n, two::<T>()); assert(q_unit_of(w, u)); assert(q_unit_of(v, k));
        if q_nsq(w) != z { q_unit_laws(w, u, w); assert(q == T::one_spec()); }
        if q_nsq(v) != z { q_unit_laws(v, k, w); assert(e == T::one_spec()); }
        if q_nsq(dx) != z && q_nsq(v) != z && q_dot(n, d) == z { qd_conformal(m, x, n, d); r_mul0(q_nsq(q_sub(q_emb(ma(m)), q_mul(q_f(m, x), q_emb(mc(m)))))); if q_dot(v, w) != z { f_nonzero(q_dot(v, w), q_nsq(dx)); } assert(p == z); }
    }
}
// ------------------------------------------------ the chain rule, and the complex plane inside the quaternions
pub proof fn q_move<T: Neg<Output = T> + Num>(p: Quaternion<T>, q: Quaternion<T>, r: Quaternion<T>, s: Quaternion<T>) requires is_cring::<T>(), q_plus(p, q) == q_plus(r, s) ensures q_sub(p, r) == q_sub(s, q)
{
    let (a0, a1, a2, a3) = (qw(p), qx(p), qy(p), qz(p)); let (b0, b1, b2, b3) = (qw(q), qx(q), qy(q), qz(q)); let (c0, c1, c2, c3) = (qw(r), qx(r), qy(r), qz(r)); let (d0, d1, d2, d3) = (qw(s), qx(s), qy(s), qz(s));
    pl_q_sub4b(a0, a1, a2, a3, b0, b1, b2, b3, c0, c1, c2, c3, d0, d1, d2, d3); let t = q_plus(p, q); r_selfsub(qw(t)); r_selfsub(qx(t)); r_selfsub(qy(t)); r_selfsub(qz(t));
    let u = q_sub(s, q); let z = T::zero_spec(); r_zero(qw(u)); r_zero(qx(u)); r_zero(qy(u)); r_zero(qz(u)); r_comm(z, qw(u)); r_comm(z, qx(u)); r_comm(z, qy(u)); r_comm(z, qz(u));
    q_ext(q_sub(p, r), u);
}
pub proof fn r_selfsub<T: Neg<Output = T> + Num>(a: T) requires is_cring::<T>() ensures sp_sub(a, a) == T::zero_spec() { r_sub(a, a); r_neg(a); }
// c N + d D = (c p + d r) x + (c q + d s)
pub proof fn q_comb<T: Neg<Output = T> + Num>(c: Quaternion<T>, d: Quaternion<T>, p: Quaternion<T>, q: Quaternion<T>, r: Quaternion<T>, s: Quaternion<T>, x: Quaternion<T>) requires is_cring::<T>()
    ensures q_plus(q_mul(c, q_plus(q_mul(p, x), q)), q_mul(d, q_plus(q_mul(r, x), s))) == q_plus(q_mul(q_plus(q_mul(c, p), q_mul(d, r)), x), q_plus(q_mul(c, q), q_mul(d, s)))
{
    let (cpx, drx) = (q_mul(c, q_mul(p, x)), q_mul(d, q_mul(r, x))); let (cq, ds) = (q_mul(c, q), q_mul(d, s));
    q_laws(c, q_mul(p, x), q); q_laws(d, q_mul(r, x), s); q_laws(c, p, x); q_laws(d, r, x); q_laws(x, q_mul(c, p), q_mul(d, r));
    q_addlaws(cpx, cq, q_plus(drx, ds)); q_addlaws(cq, drx, ds); q_addlaws(drx, cq, ds); q_addlaws(cpx, drx, q_plus(cq, ds)); 
}
pub proof fn qd_chain<T: Copy + Neg<Output = T> + Num>(m: Moebius<Complex<T>>, g: Moebius<Complex<T>>, x: Quaternion<T>, v: Quaternion<T>)
    requires is_field::<T>(), q_nsq(qm_den(g, x)) != T::zero_spec(), q_nsq(qm_den(m, q_f(g, x))) != T::zero_spec()
    ensures mo_qderiv(mo_chain(m, g), x, v, two::<T>()) == mo_qderiv(m, q_f(g, x), mo_qderiv(g, x, v, two::<T>()), two::<T>()), q_f(mo_chain(m, g), x) == q_f(m, q_f(g, x)), q_nsq(qm_den(mo_chain(m, g), x)) != T::zero_spec()
{
    let h = mo_chain(m, g); let y = q_f(g, x); let w = mo_qderiv(g, x, v, two::<T>()); let (ng, dg) = (qm_num(g, x), qm_den(g, x)); let dm = qm_den(m, y); let f = q_f(m, y); let e = qm_den(h, x);
    let (ca, cb, cc, cd) = (q_emb(ma(m)), q_emb(mb(m)), q_emb(mc(m)), q_emb(md(m))); let (a, b, c, d) = (q_emb(ma(g)), q_emb(mb(g)), q_emb(mc(g)), q_emb(md(g)));
    f_tot::<T>(); cr_tot::<T>();
    q_emb_laws(ma(m), ma(g)); q_emb_laws(mb(m), mc(g)); q_emb_laws(ma(m), mb(g)); q_emb_laws(mb(m), md(g)); q_emb_laws(mc(m), ma(g)); q_emb_laws(md(m), mc(g)); q_emb_laws(mc(m), mb(g)); q_emb_laws(md(m), md(g));
    q_emb_laws(c_mul(ma(m), ma(g)), c_mul(mb(m), mc(g))); q_emb_laws(c_mul(ma(m), mb(g)), c_mul(mb(m), md(g))); q_emb_laws(c_mul(mc(m), ma(g)), c_mul(md(m), mc(g))); q_emb_laws(c_mul(mc(m), mb(g)), c_mul(md(m), md(g)));
    let (ah, ch) = (q_plus(q_mul(ca, a), q_mul(cb, c)), q_plus(q_mul(cc, a), q_mul(cd, c)));
    assert(q_emb(ma(h)) == ah && q_emb(mc(h)) == ch);
    assert(q_emb(mb(h)) == q_plus(q_mul(ca, b), q_mul(cb, d)) && q_emb(md(h)) == q_plus(q_mul(cc, b), q_mul(cd, d)));
    q_lin(g, x, x); q_lin(m, y, y); q_lin(h, x, x); q_comb(ca, cb, a, b, c, d, x); q_comb(cc, cd, a, b, c, d, x); qd_deriv(g, x, v); qd_deriv(m, y, w);
    // N_h = N_m D_g, D_h = D_m D_g
    q_laws(ca, y, dg); q_laws(cc, y, dg); q_laws(dg, q_mul(ca, y), cb); q_laws(dg, q_mul(cc, y), cd);
    assert(qm_num(h, x) == q_mul(qm_num(m, y), dg)); assert(e == q_mul(dm, dg));
    q_laws(dm, dg, dg); if q_nsq(e) == T::zero_spec() { f_nonzero(q_nsq(dm), q_nsq(dg)); }
    qd_deriv(h, x, v); q_laws(f, dm, dg); q_cancel(q_f(h, x), f, e);
    // both sides times D_h
    let p = q_sub(ca, q_mul(f, cc)); let r = mo_qderiv(m, y, w, two::<T>()); qd_step(ca, cc, f, w); q_laws(r, dm, dg); q_laws(p, w, dg);
    let (av, cv) = (q_mul(a, v), q_mul(c, v)); q_sublaws(av, q_mul(y, cv), p); q_laws(p, y, cv);
    // p y = f d - b
    q_sublaws(ca, q_mul(f, cc), y); q_laws(f, cc, y); q_laws(f, q_mul(cc, y), cd); q_move(q_mul(ca, y), cb, q_mul(f, q_mul(cc, y)), q_mul(f, cd));
    assert(q_mul(p, y) == q_sub(q_mul(f, cd), cb));
    q_sublaws(q_mul(f, cd), cb, cv); q_sublaws(ca, q_mul(f, cc), av);
    let (x1, y1, z1, w1) = (q_mul(ca, av), q_mul(q_mul(f, cc), av), q_mul(q_mul(f, cd), cv), q_mul(cb, cv));
    assert(q_mul(r, e) == q_sub(q_sub(x1, y1), q_sub(z1, w1)));
    pl_q_sub4b(qw(x1), qx(x1), qy(x1), qz(x1), qw(y1), qx(y1), qy(y1), qz(y1), qw(z1), qx(z1), qy(z1), qz(z1), qw(w1), qx(w1), qy(w1), qz(w1));
    q_ext(q_sub(q_sub(x1, y1), q_sub(z1, w1)), q_sub(q_plus(x1, w1), q_plus(y1, z1)));
    q_laws(ca, a, v); q_laws(cb, c, v); q_laws(v, q_mul(ca, a), q_mul(cb, c)); q_laws(cc, a, v); q_laws(cd, c, v); q_laws(v, q_mul(cc, a), q_mul(cd, c)); q_laws(f, cc, av); q_laws(f, cd, cv); q_laws(f, q_mul(cc, av), q_mul(cd, cv));
    q_cancel(mo_qderiv(h, x, v, two::<T>()), r, e);
}
pub proof fn qd_emb<T: Copy + Neg<Output = T> + Num>(m: Moebius<Complex<T>>, x: Complex<T>, v: Complex<T>) requires is_field::<T>(), c_nsq(mo_den(m, x)) != T::zero_spec()
    ensures qm_den(m, q_emb(x)) == q_emb(mo_den(m, x)), q_nsq(qm_den(m, q_emb(x))) == c_nsq(mo_den(m, x)), q_f(m, q_emb(x)) == q_emb(c_f(m, x)), mo_qderiv(m, q_emb(x), q_emb(v), two::<T>()) == q_emb(c_mul(mo_deriv(m, x), v))
{
    let (a, b, c, d) = (ma(m), mb(m), mc(m), md(m)); let (n, e) = (mo_num(m, x), mo_den(m, x)); let f = c_f(m, x); let g = mo_deriv(m, x); let (ee, ex, ev) = (q_emb(e), q_emb(x), q_emb(v)); let z = T::zero_spec();
    q_lin(m, ex, ex); q_emb_laws(a, x); q_emb_laws(c, x); q_emb_laws(c_mul(a, x), b); q_emb_laws(c_mul(c, x), d); c_ext(n, c_plus(c_mul(a, x), b)); c_ext(e, c_plus(c_mul(c, x), d));
    q_mixed(ee, e, z); cd_deriv(m, x); q_emb_laws(f, e); qd_deriv(m, ex, ev); q_cancel(q_f(m, ex), q_emb(f), ee);
    // g v e = (a - f c) v
    let gv = c_mul(g, v); q_emb_laws(gv, e); c_laws(g, v, e); c_laws(v, e, e); c_laws(g, e, v); c_sublaws(a, c_mul(f, c), v); c_laws(f, c, v); let (av, cv) = (c_mul(a, v), c_mul(c, v));
    assert(c_mul(gv, e) == c_sub(av, c_mul(f, cv)));
    q_emb_laws(a, v); q_emb_laws(c, v); q_emb_laws(f, cv); r_selfsub(z); q_ext(q_emb(c_sub(av, c_mul(f, cv))), q_sub(q_emb(av), q_emb(c_mul(f, cv))));
    q_cancel(mo_qderiv(m, ex, ev, two::<T>()), q_emb(gv), ee);
}
pub proof fn cd_chain<T: Copy + Neg<Output = T> + Num>(m: Moebius<Complex<T>>, g: Moebius<Complex<T>>, x: Complex<T>, v: Complex<T>)
    requires is_field::<T>(), c_nsq(mo_den(g, x)) != T::zero_spec(), c_nsq(mo_den(m, c_f(g, x))) != T::zero_spec()
    ensures c_mul(mo_deriv(mo_chain(m, g), x), v) == c_mul(mo_deriv(m, c_f(g, x)), c_mul(mo_deriv(g, x), v)), c_f(mo_chain(m, g), x) == c_f(m, c_f(g, x)), c_nsq(mo_den(mo_chain(m, g), x)) != T::zero_spec()
{
    let h = mo_chain(m, g); let y = c_f(g, x); let w = c_mul(mo_deriv(g, x), v); qd_emb(g, x, v); qd_emb(m, y, w); qd_chain(m, g, q_emb(x), q_emb(v));
    let ex = q_emb(x); let e = mo_den(h, x); q_lin(h, ex, ex); q_emb_laws(mc(h), x); q_emb_laws(c_mul(mc(h), x), md(h)); c_ext(e, c_plus(c_mul(mc(h), x), md(h))); q_mixed(q_emb(e), e, T::zero_spec());
    qd_emb(h, x, v); emb_inj(c_mul(mo_deriv(h, x), v), c_mul(mo_deriv(m, y), w)); emb_inj(c_f(h, x), c_f(m, y));
}
pub proof fn emb_inj<T: Num>(a: Complex<T>, b: Complex<T>) requires q_emb(a) == q_emb(b) ensures a == b { assert(qw(q_emb(a)) == cre(a) && qx(q_emb(a)) == cim(a) && qw(q_emb(b)) == cre(b) && qx(q_emb(b)) == cim(b)); c_ext(a, b); }
pub fn law_moebius_chain_rule<T: Copy + Neg<Output = T> + Num + NumCast>(m: Moebius<Complex<T>>, g: Moebius<Complex<T>>, x: Complex<T>, v: Complex<T>, p: Quaternion<T>, u: Quaternion<T>) requires is_field::<T>(), T::cast_of(2.0f64) == Some(two::<T>())
{
    proof { f_tot::<T>(); cr_tot::<T>(); }
    let ghost z = T::zero_spec();
    let h = <Moebius<Complex<T>> as Transform<Complex<T>>>::chain(m, g); let y = <Moebius<Complex<T>> as Transform<Complex<T>>>::apply(&g, x); let dg = g.c() * x + g.d(); let dm = m.c() * y + m.d();
    let l = <Moebius<Complex<T>> as Transform<Complex<T>>>::deriv(&h, x, v); let r = <Moebius<Complex<T>> as Transform<Complex<T>>>::deriv(&m, y, <Moebius<Complex<T>> as Transform<Complex<T>>>::deriv(&g, x, v));
    proof { c_ext(dg, mo_den(g, x)); c_ext(dm, mo_den(m, y)); if c_nsq(dg) != z && c_nsq(dm) != z { assert(y == c_f(g, x)); cd_chain(m, g, x, v); assert(l == r); } }
    let k = <Moebius<Complex<T>> as Transform<Quaternion<T>>>::chain(m, g); let q = <Moebius<Complex<T>> as Transform<Quaternion<T>>>::apply(&g, p); let eg = g.c() * p + g.d(); let em = m.c() * q + m.d();
    let s = <Moebius<Complex<T>> as Transform<Quaternion<T>>>::deriv(&k, p, u); let t = <Moebius<Complex<T>> as Transform<Quaternion<T>>>::deriv(&m, q, <Moebius<Complex<T>> as Transform<Quaternion<T>>>::deriv(&g, p, u));
    proof { if q_nsq(eg) != z && q_nsq(em) != z { assert(q == q_f(g, p)); qd_chain(m, g, p, u); assert(s == t); } }
}
