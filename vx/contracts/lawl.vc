### verbatim
// ------------------------------------------------ C22: look-at over exact real arithmetic
pub open spec fn look_laws<T: Float + FloatConst>() -> bool {
    let h = T::cast_of(0.5f64)->0;
    sp_lt(T::zero_spec(), h) && !sp_lt(T::one_spec(), h) && (forall|x: T, a: T| #[trigger] T::abs_r(x, a) ==> nn(a) && sp_mul(a, a) == sp_mul(x, x)) && (forall|a: T| #[trigger] sp_lt(a, T::zero_spec()) ==> nn(sp_neg(a)))
    && (forall|c: T| #[trigger] T::cos_r(T::pi_spec(), c) ==> c == sp_neg(T::one_spec())) && (forall|s: T| #[trigger] T::sin_r(T::pi_spec(), s) ==> s == T::zero_spec())
}
#[verifier::opaque] pub open spec fn is_look<T: Float + FloatConst>() -> bool { look_laws::<T>() }
pub open spec fn lc3<T: Num>(e: Vector<T, 3>, f: Vector<T, 3>, g: Vector<T, 3>, x: Vector<T, 3>) -> Vector<T, 3> { v_add(v_add(v_muls(e, x@[0]), v_muls(f, x@[1])), v_muls(g, x@[2])) }
pub open spec fn vd<T: Num>(a: Vector<T, 3>, b: Vector<T, 3>) -> T { vdot(a@, b@) }
// an orthonormal right-handed frame keeps products and orientation
pub open spec fn frame<T: Neg<Output = T> + Num>(e: Vector<T, 3>, f: Vector<T, 3>, g: Vector<T, 3>) -> bool {
    let (o, z) = (T::one_spec(), T::zero_spec());
    vd(e, e) == o && vd(f, f) == o && vd(g, g) == o && vd(e, f) == z && vd(e, g) == z && vd(f, g) == z && v_cross(f, g) == e && v_cross(g, e) == f && v_cross(e, f) == g
}
pub proof fn frame_iso<T: Copy + Neg<Output = T> + Num>(e: Vector<T, 3>, f: Vector<T, 3>, g: Vector<T, 3>, x: Vector<T, 3>, y: Vector<T, 3>) requires is_cring::<T>(), frame(e, f, g)
    ensures vd(lc3(e, f, g, x), lc3(e, f, g, y)) == vd(x, y), v_cross(lc3(e, f, g, x), lc3(e, f, g, y)) == lc3(e, f, g, v_cross(x, y))
{
    pl_frame(e@[0], e@[1], e@[2], f@[0], f@[1], f@[2], g@[0], g@[1], g@[2], x@[0], x@[1], x@[2], y@[0], y@[1], y@[2]);
    pl_framex(e@[0], e@[1], e@[2], f@[0], f@[1], f@[2], g@[0], g@[1], g@[2], x@[0], x@[1], x@[2], y@[0], y@[1], y@[2]);
    let (p, q) = (lc3(e, f, g, x), lc3(e, f, g, y)); vd3(p@, q@); vd3(x@, y@); vd3(e@, e@); vd3(f@, f@); vd3(g@, g@); vd3(e@, f@); vd3(e@, g@); vd3(f@, g@);
    let (a, b, c) = (sp_mul(x@[0], y@[0]), sp_mul(x@[1], y@[1]), sp_mul(x@[2], y@[2])); let s = sp_add(sp_add(a, b), c); let (u, v, w) = (sp_add(sp_mul(x@[0], y@[1]), sp_mul(x@[1], y@[0])), sp_add(sp_mul(x@[0], y@[2]), sp_mul(x@[2], y@[0])), sp_add(sp_mul(x@[1], y@[2]), sp_mul(x@[2], y@[1])));
    r_one(a); r_one(b); r_one(c); r_mul0(u); r_mul0(v); r_mul0(w); r_zero(s);
    v3_ext(v_cross(p, q), lc3(v_cross(f, g), v_cross(g, e), v_cross(e, f), v_cross(x, y)));
}
pub proof fn frame_of<T: Copy + Neg<Output = T> + Num>(r: Vector<T, 3>, d: Vector<T, 3>) requires is_cring::<T>(), vd(r, r) == T::one_spec(), vd(d, d) == T::one_spec(), vd(r, d) == T::zero_spec() ensures frame(r, v_cross(r, d), v_neg(d))
{
    let (f, g) = (v_cross(r, d), v_neg(d)); pl_frame3(r@[0], r@[1], r@[2], d@[0], d@[1], d@[2]);
    vd3(r@, r@); vd3(d@, d@); vd3(r@, d@); vd3(f@, f@); vd3(g@, g@); vd3(r@, f@); vd3(r@, g@); vd3(f@, g@);
    let z = T::zero_spec(); let o = T::one_spec(); r_one(o); r_mul0(z); r_neg0::<T>(); r_sub(o, z); r_zero(o);
    assert forall|i: int| 0 <= i < 3 implies sp_sub(sp_mul(#[trigger] r@[i], o), sp_mul(d@[i], z)) == r@[i] && sp_sub(sp_mul(r@[i], z), sp_mul(d@[i], o)) == sp_neg(d@[i]) by {
        r_one(r@[i]); r_one(d@[i]); r_mul0(r@[i]); r_mul0(d@[i]); r_sub(r@[i], z); r_sub(z, d@[i]); r_zero(r@[i]); r_zero(sp_neg(d@[i])); r_comm(z, sp_neg(d@[i]));
    }
    let (r0, r1, r2) = (r@[0], r@[1], r@[2]);
    v3_ext(v_cross(f, g), r); v3_ext(v_cross(g, r), f); v3_ext(v_cross(r, f), g);
}
pub open spec fn ey<T: Num>() -> Vector<T, 3> { mkv3(T::zero_spec(), T::one_spec(), T::zero_spec()) }
pub proof fn lc3_axes<T: Copy + Float>(e: Vector<T, 3>, f: Vector<T, 3>, g: Vector<T, 3>) requires is_cring::<T>() ensures lc3(e, f, g, ey::<T>()) == f, lc3(e, f, g, lac_z::<T>()) == v_neg(g)
{
    let (o, z) = (T::one_spec(), T::zero_spec()); let (p, q) = (lc3(e, f, g, ey::<T>()), lc3(e, f, g, lac_z::<T>()));
    assert forall|i: int| 0 <= i < 3 implies #[trigger] p@[i] == f@[i] && q@[i] == sp_neg(g@[i]) by {
        r_mul0(e@[i]); r_mul0(f@[i]); r_mul0(g@[i]); r_one(f@[i]); r_one(g@[i]); r_zero(z); r_zero(f@[i]); r_comm(z, f@[i]); r_negmul(g@[i], o); r_zero(sp_neg(g@[i])); r_comm(z, sp_neg(g@[i]));
    }
    v_ext(p, f); v_ext(q, v_neg(g));
}
pub proof fn v_negneg<T: Copy + Float>(x: Vector<T, 3>) requires is_cring::<T>() ensures v_neg(v_neg(x)) == x { r_negneg(x@[0]); r_negneg(x@[1]); r_negneg(x@[2]); v3_ext(v_neg(v_neg(x)), x); }
// what look_at builds is such a frame
pub proof fn lookat_laws<T: Float>(dir: Vector<T, 3>, up: Vector<T, 3>, l: Linear<T, 3>, x: Vector<T, 3>, y: Vector<T, 3>)
    requires is_field::<T>(), is_real::<T>(), lookat(dir, up, l), vd(dir, dir) == T::one_spec(), vd(v_cross(dir, up), v_cross(dir, up)) != T::zero_spec()
    ensures m_v(l.lin, lac_z::<T>()) == dir, vd(m_v(l.lin, x), m_v(l.lin, y)) == vd(x, y), v_cross(m_v(l.lin, x), m_v(l.lin, y)) == m_v(l.lin, v_cross(x, y)),
        vd(up, up) == T::one_spec() && vd(dir, up) == T::zero_spec() ==> m_v(l.lin, ey::<T>()) == up
{
    let (o, z) = (T::one_spec(), T::zero_spec()); let c = v_cross(dir, up); let cc = vd(c, c);
    let n = choose|n: T| #[trigger] T::sqrt_r(cc, n) && { let right = v_divs(c, n); let su = v_cross(right, dir);
        l.lin.data@[0]@[0] == right@[0] && l.lin.data@[1]@[0] == right@[1] && l.lin.data@[2]@[0] == right@[2]
        && l.lin.data@[0]@[1] == su@[0] && l.lin.data@[1]@[1] == su@[1] && l.lin.data@[2]@[1] == su@[2]
        && l.lin.data@[0]@[2] == sp_neg(dir@[0]) && l.lin.data@[1]@[2] == sp_neg(dir@[1]) && l.lin.data@[2]@[2] == sp_neg(dir@[2]) };
    let r = v_divs(c, n); let su = v_cross(r, dir); let g = v_neg(dir); let k = rcp(n);
    assert(T::sqrt_r(cc, n)); e_nn_dot(c); e_sqrt(cc, n); if n == z { r_mul0(n); }
    f_div(c@[0], n); f_div(c@[1], n); f_div(c@[2], n); f_rcp(n); v3_ext(r, v_muls(c, k));
    pl_dotscale(c@[0], c@[1], c@[2], c@[0], c@[1], c@[2], k); pl_dotscale(c@[0], c@[1], c@[2], dir@[0], dir@[1], dir@[2], k); vd3(r@, r@); vd3(c@, c@); vd3(r@, dir@); vd3(c@, dir@);
    // (n n) (k k) = 1
    r_massoc(n, n, sp_mul(k, k)); r_massoc(n, k, k); r_one(k); assert(vd(r, r) == o);
    pl_cross_orth(dir@[0], dir@[1], dir@[2], up@[0], up@[1], up@[2]); vd3(dir@, c@); r_mcomm(dir@[0], c@[0]); r_mcomm(dir@[1], c@[1]); r_mcomm(dir@[2], c@[2]); assert(vd(c, dir) == z); r_mul0(k); assert(vd(r, dir) == z);
    frame_of(r, dir);
    let m = l.lin;
    assert forall|x: Vector<T, 3>| #[trigger] m_v(m, x) == lc3(r, su, g, x) by { vd3(m.data@[0]@, x@); vd3(m.data@[1]@, x@); vd3(m.data@[2]@, x@); v3_ext(m_v(m, x), lc3(r, su, g, x)); }
    frame_iso(r, su, g, x, y); lc3_axes(r, su, g); v_negneg(dir); assert(m_v(m, v_cross(x, y)) == lc3(r, su, g, v_cross(x, y)));
    if vd(up, up) == o && vd(dir, up) == z {
        pl_lagrange(dir@[0], dir@[1], dir@[2], up@[0], up@[1], up@[2]); vd3(dir@, dir@); vd3(up@, up@); vd3(dir@, up@); r_one(o); r_mul0(z); r_sub(o, z); r_neg0::<T>(); r_zero(o); assert(cc == o); e_sqrt1(n);
        f_unique(o, o); r_one(c@[0]); r_one(c@[1]); r_one(c@[2]); v3_ext(r, c);
        pl_triple(dir@[0], dir@[1], dir@[2], up@[0], up@[1], up@[2]);
        assert forall|i: int| 0 <= i < 3 implies sp_sub(sp_mul(#[trigger] up@[i], o), sp_mul(dir@[i], z)) == up@[i] by { r_one(up@[i]); r_mul0(dir@[i]); r_sub(up@[i], z); r_zero(up@[i]); }
        let (a0, a1, a2) = (up@[0], up@[1], up@[2]); v3_ext(su, up);
    }
}
pub fn law_look_at<T: Float>(dir: Vector<T, 3>, up: Vector<T, 3>, x: Vector<T, 3>, y: Vector<T, 3>, z: Vector<T, 3>, yy: Vector<T, 3>)
    requires is_field::<T>(), is_real::<T>(), vd(dir, dir) == T::one_spec(), vd(v_cross(dir, up), v_cross(dir, up)) != T::zero_spec(), z == lac_z::<T>(), yy == ey::<T>()
{
    proof { e_tot::<T>(); cr_tot::<T>(); }
    let l = Linear::<T, 3>::look_at(dir, up); proof { lookat_laws(dir, up, l, x, y); }
    let a = l.apply(z); proof { assert(a == dir); }
    let v = l.apply(x); let w = l.apply(y); let p = v.dot(w); let q = x.dot(y); proof { assert(p == q); }
    let p = v.cross(w); let q = x.cross(y); let q = l.apply(q); proof { v3_ext(p, v_cross(v, w)); assert(p == q); }
    let b = l.apply(yy); proof { assert(vd(up, up) == T::one_spec() && vd(dir, up) == T::zero_spec() ==> b == up); }
}
// a coordinate of a unit vector whose square is one leaves nothing for the others
pub proof fn unit_rest<T: Float>(a: T, b: T, c: T) requires is_field::<T>(), is_real::<T>(), sp_add(sp_add(sp_mul(a, a), sp_mul(b, b)), sp_mul(c, c)) == T::one_spec(), sp_mul(c, c) == T::one_spec() ensures a == T::zero_spec(), b == T::zero_spec()
{
    let (p, q, o, z) = (sp_mul(a, a), sp_mul(b, b), T::one_spec(), T::zero_spec()); let s = sp_add(p, q);
    r_neg(o); r_assoc(s, o, sp_neg(o)); r_zero(s); assert(s == z); e_nnsq(a); e_nnsq(b); e_nn2(p, q); r_comm(p, q); e_nn2(q, p); e_sq0(a); e_sq0(b);
}
pub proof fn e_nnsq<T: Float>(a: T) requires is_real::<T>() ensures nn(sp_mul(a, a)) { reveal(is_real); }
pub open spec fn any_up<T: Float>(a: T) -> Vector<T, 3> { if sp_lt(a, T::cast_of(0.5f64)->0) { mkv3(T::zero_spec(), T::zero_spec(), T::one_spec()) } else { ey::<T>() } }
pub proof fn any_ok<T: Float + FloatConst>(dir: Vector<T, 3>, a: T) requires is_field::<T>(), is_real::<T>(), is_look::<T>(), vd(dir, dir) == T::one_spec(), T::abs_r(dir@[2], a) ensures vd(v_cross(dir, any_up(a)), v_cross(dir, any_up(a))) != T::zero_spec()
{
    let up = any_up(a); let (o, z) = (T::one_spec(), T::zero_spec()); let c = v_cross(dir, up); let h = T::cast_of(0.5f64)->0;
    assert(sp_lt(z, h) && !sp_lt(o, h) && nn(a) && sp_mul(a, a) == sp_mul(dir@[2], dir@[2])) by { reveal(is_look); }
    assert(nn(o)) by { reveal(is_real); }
    let k = if sp_lt(a, h) { dir@[2] } else { dir@[1] };
    pl_lagrange(dir@[0], dir@[1], dir@[2], up@[0], up@[1], up@[2]); vd3(c@, c@); vd3(dir@, dir@); vd3(up@, up@); vd3(dir@, up@); 
    r_mul0(z); r_one(o); r_zero(z); r_zero(o); r_comm(z, o); r_mul0(dir@[0]); r_mul0(dir@[1]); r_mul0(dir@[2]); r_one(dir@[1]); r_one(dir@[2]); r_zero(dir@[1]); r_zero(dir@[2]); r_comm(z, dir@[1]); r_comm(z, dir@[2]);
    assert(vd(up, up) == o); assert(vd(dir, up) == k); assert(vd(c, c) == sp_sub(o, sp_mul(k, k)));
    if vd(c, c) == z {
        let kk = sp_mul(k, k); r_sub(o, kk); r_neg_unique(o, sp_neg(kk)); r_negneg(o); r_negneg(kk); assert(kk == o);
        let (p, q, w) = (sp_mul(dir@[0], dir@[0]), sp_mul(dir@[1], dir@[1]), sp_mul(dir@[2], dir@[2]));
        if sp_lt(a, h) { e_root_unique(a, o); assert(false); }
        else { r_assoc(p, q, w); r_comm(q, w); r_assoc(p, w, q); unit_rest(dir@[0], dir@[2], dir@[1]); assert(sp_mul(a, a) == z); e_sq0(a); assert(false); }
    }
}
pub fn law_look_at_any<T: Float + FloatConst>(dir: Vector<T, 3>, x: Vector<T, 3>, y: Vector<T, 3>, z: Vector<T, 3>)
    requires is_field::<T>(), is_real::<T>(), is_look::<T>(), vd(dir, dir) == T::one_spec(), z == lac_z::<T>()
{
    proof { e_tot::<T>(); cr_tot::<T>(); }
    let l = Linear::<T, 3>::look_at_any(dir);
    proof { let a = choose|a: T| #[trigger] T::abs_r(dir@[2], a) && lookat(dir, any_up(a), l); assert(T::abs_r(dir@[2], a) && lookat(dir, any_up(a), l)); any_ok(dir, a); lookat_laws(dir, any_up(a), l, x, y); }
    let a = l.apply(z); proof { assert(a == dir); }
    let v = l.apply(x); let w = l.apply(y); let p = v.dot(w); let q = x.dot(y); proof { assert(p == q); }
    let p = v.cross(w); let q = x.cross(y); let q = l.apply(q); proof { v3_ext(p, v_cross(v, w)); assert(p == q); }
}
// twice a number tells it
pub proof fn f_two<T: Float>(a: T, b: T) requires is_field::<T>(), is_real::<T>(), sp_mul(two::<T>(), a) == sp_mul(two::<T>(), b) ensures a == b { e_tot::<T>(); let w = two::<T>(); f_rcp(w); r_massoc(rcp(w), w, a); r_massoc(rcp(w), w, b); r_one(a); r_one(b); }
pub proof fn half_of<T: Float>(a: T) requires is_field::<T>(), is_real::<T>() ensures sp_mul(two::<T>(), sp_div(a, two::<T>())) == a { e_tot::<T>(); let w = two::<T>(); f_div(a, w); f_rcp(w); r_mcomm(w, sp_mul(a, rcp(w))); r_massoc(a, rcp(w), w); r_one(a); }
// the rotation of the half angle takes -z to the direction
pub proof fn lac_laws<T: Float>(dir: Vector<T, 3>, r: Rotation3<T>) requires is_field::<T>(), is_real::<T>(), vd(dir, dir) == T::one_spec(), nn(lac_dot(dir)), lac(dir, r) ensures rot3(r.quat, lac_z::<T>()) == dir, rot3_ok(r.quat)
{
    e_tot::<T>(); let (o, z, w) = (T::one_spec(), T::zero_spec(), two::<T>()); let zz = lac_z::<T>(); let x = v_cross(zz, dir); let d = lac_dot(dir); let e = sp_add(o, d);
    let c = choose|c: T| #[trigger] T::sqrt_r(sp_div(sp_add(T::one_spec(), lac_dot(dir)), w), c) && { let m = sp_div(T::one_spec(), sp_mul(w, c)); r.quat == mkq(c, sp_mul(x@[0], m), sp_mul(x@[1], m), sp_mul(x@[2], m)) };
    let m = sp_div(o, sp_mul(w, c)); let cc = sp_mul(c, c); let mm = sp_mul(m, m);
    assert(T::sqrt_r(sp_div(e, w), c) && r.quat == axq(c, m, x));
    assert(nn(o) && nn(e) && (e == z ==> o == z) && nn(rcp(w))) by { reveal(is_real); }
    assert(o != z) by { reveal(has_div); }
    f_div(e, w); assert(nn(sp_div(e, w))) by { reveal(is_real); }
    e_sqrt(sp_div(e, w), c); half_of(e); assert(sp_mul(w, cc) == e);
    if c == z { r_mul0(z); r_mul0(w); assert(false); }
    if sp_mul(w, c) == z { f_nonzero(w, c); assert(false); }
    f_rcp(sp_mul(w, c)); assert(sp_mul(sp_mul(w, c), m) == o);
    // the axis is as long as the sine of the angle
    r_mul0(z); r_one(o); r_zero(z); r_zero(o); r_comm(z, o); r_neg0::<T>(); r_negmul(o, sp_neg(o)); r_negmul(o, o); r_negneg(o); vd3(zz@, zz@); vd3(zz@, dir@); vd3(dir@, dir@); vd3(x@, x@);
    assert(vd(zz, zz) == o);
    pl_lagrange(zz@[0], zz@[1], zz@[2], dir@[0], dir@[1], dir@[2]); let xx = vd(x, x); assert(xx == sp_sub(o, sp_mul(d, d)));
    pl_look(c, m, d); let t = sp_mul(mm, xx); let f = sp_sub(o, d);
    // 2 m^2 xx = 1 - d
    assert(sp_mul(w, t) == f) by {
        // w (mm xx) == (w m m e) f ; w m m e == w m m w c c == (w c m)^2
        assert(sp_mul(sp_mul(sp_mul(w, c), m), sp_mul(sp_mul(w, c), m)) == o);
        assert(sp_mul(sp_mul(sp_mul(w, m), m), e) == o); r_one(f);
    }
    pl_two(cc, t); pl_half(d);
    rod_rot3(c, m, x, zz); 
    assert(q_nsq(r.quat) == sp_add(cc, t)); assert(sp_mul(w, sp_add(cc, t)) == sp_mul(w, o)); f_two(sp_add(cc, t), o);
    let p = sp_sub(cc, t); assert(sp_mul(w, p) == sp_mul(w, d)); f_two(p, d);
    pl_cross_orth(zz@[0], zz@[1], zz@[2], dir@[0], dir@[1], dir@[2]); vd3(x@, zz@); r_mcomm(x@[0], zz@[0]); r_mcomm(x@[1], zz@[1]); r_mcomm(x@[2], zz@[2]); assert(vd(x, zz) == z);
    pl_triple(zz@[0], zz@[1], zz@[2], dir@[0], dir@[1], dir@[2]); let k = v_cross(x, zz); let y = rodrigues(c, m, x, zz); let q3 = sp_mul(sp_mul(w, m), m); r_mul0(q3);
    assert(sp_mul(sp_mul(w, c), m) == o);
    assert forall|i: int| 0 <= i < 3 implies #[trigger] y@[i] == dir@[i] by {
        let (a, b) = (zz@[i], dir@[i]); r_one(b); r_mul0(x@[i]); r_one(k@[i]); assert(k@[i] == sp_sub(b, sp_mul(a, d))); let g = sp_mul(a, d);
        r_sub(b, g); r_comm(b, sp_neg(g)); r_assoc(g, sp_neg(g), b); r_neg(g); r_zero(b); r_comm(z, b);
        assert(y@[i] == sp_add(sp_add(sp_mul(a, p), sp_mul(k@[i], sp_mul(sp_mul(w, c), m))), sp_mul(x@[i], sp_mul(q3, vd(x, zz)))));
    }
    v_ext(y, dir);
}
// half a turn about x turns z round
pub proof fn turn_x<T: Float + FloatConst>(q: Quaternion<T>, cp: T, sp: T) requires is_field::<T>(), is_real::<T>(), is_trig::<T>(), is_look::<T>(), q_axang(half_ax::<T>(), T::pi_spec(), q), T::cos_r(T::pi_spec(), cp), T::sin_r(T::pi_spec(), sp)
    ensures rot3(q, lac_z::<T>()) == v_neg(lac_z::<T>()), rot3_ok(q)
{
    e_tot::<T>(); let (o, z, w) = (T::one_spec(), T::zero_spec(), two::<T>()); let u = half_ax::<T>(); let zz = lac_z::<T>(); let pi = T::pi_spec(); let h = sp_div(pi, w);
    let c = choose|c: T| exists|s: T| #[trigger] T::cos_r(h, c) && #[trigger] T::sin_r(h, s) && q == axq(c, s, u); let s = choose|s: T| T::cos_r(h, c) && #[trigger] T::sin_r(h, s) && q == axq(c, s, u);
    assert(T::cos_r(h, c) && T::sin_r(h, s) && q == axq(c, s, u));
    assert(cp == sp_neg(o) && sp == z) by { reveal(is_look); }
    g_one(h, c, s); g_half(pi, c, s, cp, sp);
    vd3(u@, u@); vd3(u@, zz@); r_one(o); r_mul0(o); r_mul0(z); r_zero(z); r_zero(o); r_comm(z, o); r_neg0::<T>(); r_negmul(o, o); r_mul0(sp_neg(o)); r_one(sp_neg(o)); r_zero(sp_neg(o)); r_comm(z, sp_neg(o)); r_mul0(sp_mul(sp_mul(w, s), s)); r_one(sp_mul(s, s));
    assert(vd(u, u) == o); assert(vd(u, zz) == z);
    rod_rot3(c, s, u, zz); let y = rodrigues(c, s, u, zz); let k = v_cross(u, zz); let n = v_neg(zz);
    assert forall|i: int| 0 <= i < 3 implies #[trigger] y@[i] == n@[i] by {
        r_mul0(k@[i]); r_mul0(u@[i]); r_negmul(zz@[i], o); r_one(zz@[i]); r_zero(sp_neg(zz@[i]));
        assert(y@[i] == sp_add(sp_add(sp_mul(zz@[i], sp_neg(o)), sp_mul(k@[i], z)), sp_mul(u@[i], z)));
    }
    v_ext(y, n);
}
pub proof fn rot3_neg<T: Float>(q: Quaternion<T>, x: Vector<T, 3>) requires is_cring::<T>() ensures rot3(q, v_neg(x)) == v_neg(rot3(q, x))
{
    let m = sp_neg(T::one_spec()); rot3_laws(q, x, x, m); let y = rot3(q, x);
    assert forall|i: int| 0 <= i < 3 implies sp_mul(#[trigger] x@[i], m) == sp_neg(x@[i]) && sp_mul(y@[i], m) == sp_neg(y@[i]) by { r_negmul(x@[i], T::one_spec()); r_one(x@[i]); r_negmul(y@[i], T::one_spec()); r_one(y@[i]); }
    let (x0, x1, x2) = (x@[0], x@[1], x@[2]); v3_ext(v_muls(x, m), v_neg(x)); v3_ext(v_muls(y, m), v_neg(y));
}
pub fn law_rotation3_look_at_any<T: Float + FloatConst>(dir: Vector<T, 3>, z: Vector<T, 3>, x: Vector<T, 3>, y: Vector<T, 3>)
    requires is_field::<T>(), is_real::<T>(), is_trig::<T>(), is_look::<T>(), vd(dir, dir) == T::one_spec(), z == lac_z::<T>()
{
    proof { e_tot::<T>(); cr_tot::<T>(); }
    let pi = T::PI(); let cp = pi.cos(); let sp = pi.sin();
    let r = Rotation3::<T>::look_at_any(dir);
    proof { lookany_laws(dir, r, cp, sp); rot3_iso(r.quat, x, y); }
    let a = r.apply(z); proof { assert(a == dir); }
    let v = r.apply(x); let w = r.apply(y); let p = v.dot(w); let q = x.dot(y); proof { assert(p == q); }
    let p = v.cross(w); let q = x.cross(y); let q = r.apply(q); proof { v3_ext(p, v_cross(v, w)); assert(p == q); }
}
pub proof fn lookany_laws<T: Float + FloatConst>(dir: Vector<T, 3>, r: Rotation3<T>, cp: T, sp: T)
    requires is_field::<T>(), is_real::<T>(), is_trig::<T>(), is_look::<T>(), vd(dir, dir) == T::one_spec(), T::cos_r(T::pi_spec(), cp), T::sin_r(T::pi_spec(), sp),
        sp_lt(dir@[2], T::zero_spec()) && !sp_lt(lac_dot(dir), T::zero_spec()) ==> lac(dir, r),
        !sp_lt(dir@[2], T::zero_spec()) && !sp_lt(lac_dot(v_neg(dir)), T::zero_spec()) ==> exists|m: Rotation3<T>, h: Rotation3<T>| #[trigger] lac(v_neg(dir), m) && #[trigger] q_axang(half_ax::<T>(), T::pi_spec(), h.quat) && r.quat == q_mul(m.quat, h.quat),
    ensures rot3(r.quat, lac_z::<T>()) == dir, rot3_ok(r.quat)
{
    let (o, z) = (T::one_spec(), T::zero_spec()); let zz = lac_z::<T>(); let nd = v_neg(dir); let dz = dir@[2];
    vd3(zz@, dir@); vd3(zz@, nd@); vd3(nd@, nd@); vd3(dir@, dir@); r_zero(z); r_comm(z, sp_neg(dz)); r_zero(sp_neg(dz)); r_comm(z, dz); r_zero(dz); r_negneg(dz); r_one(dz); r_one(sp_neg(dz)); r_mcomm(sp_neg(o), dz); r_mcomm(sp_neg(o), sp_neg(dz)); r_negmul(dz, o); r_negmul(sp_neg(dz), o);
    r_mul0(dir@[0]); r_mul0(dir@[1]); r_mul0(nd@[0]); r_mul0(nd@[1]);
    assert(lac_dot(dir) == sp_neg(dz)); assert(lac_dot(nd) == dz);
    if sp_lt(dz, z) { assert(nn(sp_neg(dz))) by { reveal(is_look); } lac_laws(dir, r); }
    else {
        let m = choose|m: Rotation3<T>| exists|h: Rotation3<T>| #[trigger] lac(nd, m) && #[trigger] q_axang(half_ax::<T>(), T::pi_spec(), h.quat) && r.quat == q_mul(m.quat, h.quat);
        let h = choose|h: Rotation3<T>| lac(nd, m) && #[trigger] q_axang(half_ax::<T>(), T::pi_spec(), h.quat) && r.quat == q_mul(m.quat, h.quat);
        assert(lac(nd, m) && q_axang(half_ax::<T>(), T::pi_spec(), h.quat) && r.quat == q_mul(m.quat, h.quat));
        r_negmul(dir@[0], dir@[0]); r_negmul(dir@[1], dir@[1]); r_negmul(dz, dz); r_negmul(dir@[0], nd@[0]); r_negmul(dir@[1], nd@[1]); r_negmul(dz, nd@[2]); r_negneg(sp_mul(dir@[0], dir@[0])); r_negneg(sp_mul(dir@[1], dir@[1])); r_negneg(sp_mul(dz, dz));
        assert(vd(nd, nd) == o); lac_laws(nd, m); turn_x(h.quat, cp, sp); rot3_comp(m.quat, h.quat, zz); rot3_neg(m.quat, zz); v_negneg(dir);
        q_laws(m.quat, h.quat, h.quat); r_one(o);
    }
}
