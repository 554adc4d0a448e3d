### verbatim
// ------------------------------------------------ C22: rotations over exact real arithmetic
// what the scalar functions are taken to be
pub open spec fn nn<T: Float>(a: T) -> bool { !sp_lt(a, T::zero_spec()) }
pub open spec fn two<T: Num>() -> T { sp_add(T::one_spec(), T::one_spec()) }
pub open spec fn real_laws<T: Float>() -> bool {
    two::<T>() != T::zero_spec() && T::cast_of(2.0f64) == Some(two::<T>()) && T::cast_of(2i32) == Some(two::<T>()) && T::cast_of(0.5f64) is Some && T::obeys_partial_cmp_spec()
    && nn(T::one_spec()) && nn(T::zero_spec()) && (forall|a: T, b: T| nn(a) && nn(b) ==> nn(#[trigger] sp_add(a, b)) && (sp_add(a, b) == T::zero_spec() ==> a == T::zero_spec())) && (forall|a: T, b: T| nn(a) && nn(b) ==> nn(#[trigger] sp_mul(a, b))) && (forall|a: T| nn(#[trigger] sp_mul(a, a))) && nn(rcp(two::<T>()))
    && (forall|a: T, n: T| #[trigger] T::sqrt_r(a, n) && nn(a) ==> sp_mul(n, n) == a && nn(n)) && (forall|n: T| #[trigger] T::sqrt_r(T::one_spec(), n) ==> n == T::one_spec())
}
#[verifier::opaque] pub open spec fn is_real<T: Float>() -> bool { real_laws::<T>() }
pub open spec fn trig_laws<T: Float>() -> bool {
    (forall|x: T, c: T, s: T| #[trigger] T::cos_r(x, c) && #[trigger] T::sin_r(x, s) ==> sp_add(sp_mul(c, c), sp_mul(s, s)) == T::one_spec())
    && (forall|x: T, c: T, s: T, d: T, e: T| #[trigger] T::cos_r(sp_div(x, two::<T>()), c) && #[trigger] T::sin_r(sp_div(x, two::<T>()), s) && #[trigger] T::cos_r(x, d) && #[trigger] T::sin_r(x, e) ==> d == sp_sub(sp_mul(c, c), sp_mul(s, s)) && e == sp_mul(sp_mul(two::<T>(), c), s))
    && (forall|x: T, s: T, c: T, d: T, e: T| #[trigger] T::atan2_r(s, c, x) && sp_add(sp_mul(c, c), sp_mul(s, s)) == T::one_spec() && #[trigger] T::cos_r(x, d) && #[trigger] T::sin_r(x, e) ==> d == c && e == s)
}
#[verifier::opaque] pub open spec fn is_trig<T: Float>() -> bool { trig_laws::<T>() }
pub proof fn g_one<T: Float>(x: T, c: T, s: T) requires is_trig::<T>(), T::cos_r(x, c), T::sin_r(x, s) ensures sp_add(sp_mul(c, c), sp_mul(s, s)) == T::one_spec() { reveal(is_trig); }
pub proof fn g_half<T: Float>(x: T, c: T, s: T, d: T, e: T) requires is_trig::<T>(), T::cos_r(sp_div(x, two::<T>()), c), T::sin_r(sp_div(x, two::<T>()), s), T::cos_r(x, d), T::sin_r(x, e) ensures d == sp_sub(sp_mul(c, c), sp_mul(s, s)), e == sp_mul(sp_mul(two::<T>(), c), s) { reveal(is_trig); }
pub proof fn g_atan<T: Float>(s: T, c: T, x: T, d: T, e: T) requires is_trig::<T>(), T::atan2_r(s, c, x), sp_add(sp_mul(c, c), sp_mul(s, s)) == T::one_spec(), T::cos_r(x, d), T::sin_r(x, e) ensures d == c, e == s { reveal(is_trig); }
pub proof fn e_tot<T: Float>() requires is_field::<T>(), is_real::<T>() ensures tot_float::<T>(), T::cast_of(2.0f64) == Some(two::<T>()), T::cast_of(2i32) == Some(two::<T>()), two::<T>() != T::zero_spec() { f_tot::<T>(); cr_tot::<T>(); reveal(is_real); }
pub proof fn e_sqrt<T: Float>(a: T, n: T) requires is_real::<T>(), T::sqrt_r(a, n), nn(a) ensures sp_mul(n, n) == a, nn(n) { reveal(is_real); }
pub proof fn e_sqrt1<T: Float>(n: T) requires is_real::<T>(), T::sqrt_r(T::one_spec(), n) ensures n == T::one_spec() { reveal(is_real); }
pub proof fn e_nn_dot<T: Float>(x: Vector<T, 3>) requires is_real::<T>(), is_cring::<T>() ensures nn(vdot(x@, x@)) { reveal(is_real); vd3(x@, x@); let (a, b, c) = (sp_mul(x@[0], x@[0]), sp_mul(x@[1], x@[1]), sp_mul(x@[2], x@[2])); assert(nn(a) && nn(b) && nn(c)); assert(nn(sp_add(a, b))); }
pub proof fn vd3<T: Add<Output = T> + Mul<Output = T>>(a: Seq<T>, b: Seq<T>) requires a.len() == 3, b.len() == 3
    ensures vdot(a, b) == sp_add(sp_add(sp_mul(a[0], b[0]), sp_mul(a[1], b[1])), sp_mul(a[2], b[2]))
{ let p = Seq::new(a.len(), |i: int| sp_mul(a[i], b[i])); let t = p.subrange(1, 3); let u = t.drop_last(); reveal_with_fuel(vfold, 4); assert(t.last() == p[2]); assert(u.last() == p[1]); assert(u.drop_last().len() == 0); }
pub proof fn v2_ext<T>(a: Vector<T, 2>, b: Vector<T, 2>) requires a@[0] == b@[0], a@[1] == b@[1] ensures a == b { assert forall|i: int| 0 <= i < 2 implies #[trigger] a@[i] == b@[i] by { assert(i == 0 || i == 1); } v_ext(a, b); }
pub proof fn v3_ext<T>(a: Vector<T, 3>, b: Vector<T, 3>) requires a@[0] == b@[0], a@[1] == b@[1], a@[2] == b@[2] ensures a == b { assert forall|i: int| 0 <= i < 3 implies #[trigger] a@[i] == b@[i] by { assert(i == 0 || i == 1 || i == 2); } v_ext(a, b); }
// a rotation of the plane by an angle turns by it, counter-clockwise
pub fn law_rotation2<T: Float>(t: T, x: Vector<T, 2>, y: Vector<T, 2>) requires is_field::<T>(), is_real::<T>(), is_trig::<T>()
{
    proof { e_tot::<T>(); cr_tot::<T>(); }
    let r = Rotation2::<T>::new(t); let v = r.apply(x); let w = r.apply(y); let ghost c = cre(r.comp); let ghost s = cim(r.comp);
    proof { g_one(t, c, s); pl_rot2iso(c, s, x@[0], x@[1], y@[0], y@[1]); r_mcomm(x@[0], c); r_mcomm(x@[1], s); r_mcomm(x@[1], c); r_mcomm(x@[0], s); assert(T::cos_r(t, c) && T::sin_r(t, s) && v@[0] == sp_sub(sp_mul(c, x@[0]), sp_mul(s, x@[1])) && v@[1] == sp_add(sp_mul(s, x@[0]), sp_mul(c, x@[1]))); }
    let l = v.dot(w); let m = x.dot(y); proof { vdot2(v@, w@); vdot2(x@, y@); r_one(m); assert(l == m); }
    let l = v.cross(w); let m = x.cross(y); proof { r_one(m); assert(l == m); }
    let m = r.to_linear(); let u = m.apply(x); proof { vdot2(m.lin.data@[0]@, x@); vdot2(m.lin.data@[1]@, x@); v2_ext(u, v); assert(u == v); }
    let a = r.angle(); let q = Rotation2::<T>::new(a); proof { g_atan(s, c, a, cre(q.comp), cim(q.comp)); c_ext(q.comp, r.comp); assert(q == r); }
}
// a unit quaternion keeps products and orientation
pub proof fn rot3_iso<T: Copy + Neg<Output = T> + Num>(q: Quaternion<T>, a: Vector<T, 3>, b: Vector<T, 3>) requires is_cring::<T>(), rot3_ok(q)
    ensures v_cross(rot3(q, a), rot3(q, b)) == rot3(q, v_cross(a, b)), vdot(rot3(q, a)@, rot3(q, b)@) == vdot(a@, b@)
{
    let (pa, pb, k) = (q_pure(a), q_pure(b), q_conj(q)); let (qa, qb) = (q_mul(q, pa), q_mul(q, pb)); let (ra, rb) = (rot3(q, a), rot3(q, b)); let x = v_cross(a, b); let px = q_pure(x);
    rot3_pure(q, a); rot3_pure(q, b); rot3_pure(q, x);
    let w = sp_neg(vdot(a@, b@)); let qr = q_real(w); let ab = q_mul(pa, pb); let z = T::zero_spec();
    pl_qpure(a@[0], a@[1], a@[2], b@[0], b@[1], b@[2]); vd3(a@, b@); r_zero(w); r_zero(x@[0]); r_zero(x@[1]); r_zero(x@[2]); r_comm(z, x@[0]); r_comm(z, x@[1]); r_comm(z, x@[2]);
    q_ext(ab, q_plus(qr, px));
    // (qa k) (qb k) = (q ab) k
    q_laws(qa, k, q_mul(qb, k)); q_laws(k, qb, k); q_laws(k, q, pb); q_laws(q, q, q); q_laws(pb, pb, pb); q_laws(qa, pb, k); q_laws(q, pa, pb);
    assert(q_mul(k, q) == q_one::<T>());
    assert(q_mul(q_mul(qa, k), q_mul(qb, k)) == q_mul(q_mul(q, ab), k));
    q_laws(q, qr, px); q_laws(k, q_mul(q, qr), q_mul(q, px)); q_mixed(q, c_one(), w); q_laws(qr, q, k); q_laws(qr, qr, qr);
    assert(q_mul(q_mul(q, ab), k) == q_plus(qr, q_pure(rot3(q, x))));
    pl_qpure(ra@[0], ra@[1], ra@[2], rb@[0], rb@[1], rb@[2]); vd3(ra@, rb@); let y = rot3(q, x);
    let (pr, py) = (q_mul(q_pure(ra), q_pure(rb)), q_plus(qr, q_pure(y))); assert(pr == py);
    r_zero(y@[0]); r_zero(y@[1]); r_zero(y@[2]); r_comm(z, y@[0]); r_comm(z, y@[1]); r_comm(z, y@[2]);
    r_negneg(vdot(a@, b@)); r_negneg(vdot(ra@, rb@));
    let d = vdot(ra@, rb@);
    assert(qw(pr) == sp_neg(d)); assert(qw(py) == sp_add(w, z));
    assert(qx(pr) == v_cross(ra, rb)@[0]); assert(qx(py) == y@[0]); assert(qy(pr) == v_cross(ra, rb)@[1]); assert(qy(py) == y@[1]); assert(qz(pr) == v_cross(ra, rb)@[2]); assert(qz(py) == y@[2]);
    v3_ext(v_cross(ra, rb), y);
}
pub open spec fn rodrigues<T: Copy + Neg<Output = T> + Num>(c: T, s: T, u: Vector<T, 3>, x: Vector<T, 3>) -> Vector<T, 3> {
    let k = v_cross(u, x); let p = sp_sub(sp_mul(c, c), sp_mul(sp_mul(s, s), vdot(u@, u@))); let q = sp_mul(sp_mul(two::<T>(), c), s); let r = sp_mul(sp_mul(sp_mul(two::<T>(), s), s), vdot(u@, x@));
    v_add(v_add(v_muls(x, p), v_muls(k, q)), v_muls(u, r))
}
pub open spec fn axq<T: Mul<Output = T>>(c: T, s: T, u: Vector<T, 3>) -> Quaternion<T> { mkq(c, sp_mul(u@[0], s), sp_mul(u@[1], s), sp_mul(u@[2], s)) }
pub proof fn rod_rot3<T: Copy + Neg<Output = T> + Num>(c: T, s: T, u: Vector<T, 3>, x: Vector<T, 3>) requires is_cring::<T>()
    ensures rot3(axq(c, s, u), x) == rodrigues(c, s, u, x), rot3(axq(c, s, u), u) == v_muls(u, sp_add(sp_mul(c, c), sp_mul(sp_mul(s, s), vdot(u@, u@)))), q_nsq(axq(c, s, u)) == sp_add(sp_mul(c, c), sp_mul(sp_mul(s, s), vdot(u@, u@)))
{
    vd3(u@, u@); vd3(u@, x@); pl_rod(c, s, u@[0], u@[1], u@[2], x@[0], x@[1], x@[2]); pl_axself(c, s, u@[0], u@[1], u@[2]); pl_axnsq(c, s, u@[0], u@[1], u@[2]);
    v3_ext(rot3(axq(c, s, u), x), rodrigues(c, s, u, x)); v3_ext(rot3(axq(c, s, u), u), v_muls(u, sp_add(sp_mul(c, c), sp_mul(sp_mul(s, s), vdot(u@, u@)))));
}
pub proof fn v_mul1<T: Copy + Neg<Output = T> + Num>(x: Vector<T, 3>) requires is_cring::<T>() ensures v_muls(x, T::one_spec()) == x { r_one(x@[0]); r_one(x@[1]); r_one(x@[2]); v3_ext(v_muls(x, T::one_spec()), x); }
pub proof fn rmat_rot3<T: Copy + Neg<Output = T> + Num>(q: Quaternion<T>, x: Vector<T, 3>) requires is_cring::<T>(), rot3_ok(q) ensures m_v(rot3_lin(q, two::<T>()), x) == rot3(q, x)
{
    let m = rot3_lin(q, two::<T>()); pl_rmat(qw(q), qx(q), qy(q), qz(q), x@[0], x@[1], x@[2]); vd3(m.data@[0]@, x@); vd3(m.data@[1]@, x@); vd3(m.data@[2]@, x@);
    v3_ext(m_v(m, x), rot3(q, x));
}
// a rotation about a unit axis fixes it, turns perpendicular vectors by the angle, right-handed, and is proper
pub fn law_rotation3<T: Float>(u: Vector<T, 3>, t: T, x: Vector<T, 3>, y: Vector<T, 3>) requires is_field::<T>(), is_real::<T>(), is_trig::<T>(), vdot(u@, u@) == T::one_spec()
{
    proof { e_tot::<T>(); cr_tot::<T>(); }
    let r = Rotation3::<T>::new(u, t); let cc = t.cos(); let ss = t.sin();
    let ghost h = sp_div(t, two::<T>()); let ghost c = choose|c: T| exists|s: T| #[trigger] T::cos_r(h, c) && #[trigger] T::sin_r(h, s) && r.quat == axq(c, s, u); let ghost s = choose|s: T| T::cos_r(h, c) && #[trigger] T::sin_r(h, s) && r.quat == axq(c, s, u);
    proof {
        assert(q_axang(u, t, r.quat)); assert(T::cos_r(h, c) && T::sin_r(h, s) && r.quat == axq(c, s, u));
        g_one(h, c, s); g_half(t, c, s, cc, ss); r_one(sp_mul(s, s)); rod_rot3(c, s, u, x); v_mul1(u); assert(rot3_ok(r.quat));
    }
    let f = r.apply(u); proof { assert(f == u); }
    let v = r.apply(x); let w = r.apply(y); let ux = u.dot(x); let k = u.cross(x); let p = x * cc; let q = k * ss; let n = p + q;
    proof {
        if ux == T::zero_spec() {
            let z = sp_mul(sp_mul(sp_mul(two::<T>(), s), s), ux); r_mul0(sp_mul(sp_mul(two::<T>(), s), s)); r_mul0(u@[0]); r_mul0(u@[1]); r_mul0(u@[2]); 
            r_zero(n@[0]); r_zero(n@[1]); r_zero(n@[2]); v3_ext(v, n);
        }
        assert(ux == T::zero_spec() ==> v == n);
        rot3_iso(r.quat, x, y);
    }
    let l = v.dot(w); let m = x.dot(y); proof { assert(l == m); }
    let l = v.cross(w); let m = x.cross(y); let m = r.apply(m); proof { v3_ext(l, v_cross(v, w)); assert(l == m); }
    let m = r.to_linear(); let l = m.apply(x); proof { rmat_rot3(r.quat, x); assert(l == v); }
}
// axis and angle read back give the rotation again
pub fn law_rotation3_back<T: Float>(r: Rotation3<T>) requires is_field::<T>(), is_real::<T>(), is_trig::<T>(), rot3_ok(r.quat), !(qx(r.quat) == T::zero_spec() && qy(r.quat) == T::zero_spec() && qz(r.quat) == T::zero_spec())
{
    proof { e_tot::<T>(); cr_tot::<T>(); }
    let u = r.axis(); let t = r.angle(); let b = Rotation3::<T>::new(u, t);
    proof {
        let q = r.quat; let v = mkv3(qx(q), qy(q), qz(q)); let d = vdot(v@, v@); vd3(v@, v@); e_nn_dot(v);
        let n1 = choose|n: T| #[trigger] T::sqrt_r(d, n) && u == v_divs(v, n); assert(T::sqrt_r(d, n1) && u == v_divs(v, n1));
        let n2 = choose|n: T| exists|h: T| #[trigger] T::sqrt_r(d, n) && #[trigger] T::atan2_r(n, qw(q), h) && t == sp_mul(two::<T>(), h); let h = choose|h: T| T::sqrt_r(d, n2) && #[trigger] T::atan2_r(n2, qw(q), h) && t == sp_mul(two::<T>(), h);
        assert(T::sqrt_r(d, n2) && T::atan2_r(n2, qw(q), h) && t == sp_mul(two::<T>(), h));
        e_sqrt(d, n1); e_sqrt(d, n2);
        f_half(h); assert(sp_div(t, two::<T>()) == h);
        assert(q_axang(u, t, b.quat)); let c = choose|c: T| exists|s: T| #[trigger] T::cos_r(h, c) && #[trigger] T::sin_r(h, s) && b.quat == axq(c, s, u); let s = choose|s: T| T::cos_r(h, c) && #[trigger] T::sin_r(h, s) && b.quat == axq(c, s, u);
        assert(T::cos_r(h, c) && T::sin_r(h, s) && b.quat == axq(c, s, u));
        let ww = sp_mul(qw(q), qw(q)); r_assoc(ww, sp_mul(qx(q), qx(q)), sp_mul(qy(q), qy(q))); r_assoc(ww, sp_add(sp_mul(qx(q), qx(q)), sp_mul(qy(q), qy(q))), sp_mul(qz(q), qz(q)));
        assert(sp_add(ww, d) == T::one_spec());
        g_atan(n2, qw(q), h, c, s);
        e_root_unique(n1, n2);
        if n1 == T::zero_spec() { r_mul0(n1); e_dot_zero(v); assert(false); }
        f_back(qx(q), n1); f_back(qy(q), n1); f_back(qz(q), n1); q_ext(b.quat, q); assert(b == r);
    }
}
pub proof fn f_back<T: Copy + Neg<Output = T> + Num>(a: T, n: T) requires is_field::<T>(), n != T::zero_spec() ensures sp_mul(sp_div(a, n), n) == a { f_div(a, n); f_rcp(n); r_massoc(a, rcp(n), n); r_one(a); }
pub proof fn f_half<T: Float>(h: T) requires is_field::<T>(), is_real::<T>() ensures sp_div(sp_mul(two::<T>(), h), two::<T>()) == h { e_tot::<T>(); let w = two::<T>(); f_div(sp_mul(w, h), w); f_rcp(w); r_mcomm(w, h); r_massoc(h, w, rcp(w)); r_one(h); }
pub proof fn e_nn2<T: Float>(n: T, m: T) requires is_real::<T>(), nn(n), nn(m), sp_add(n, m) == T::zero_spec() ensures n == T::zero_spec() { reveal(is_real); }
pub proof fn e_dot_zero<T: Float>(x: Vector<T, 3>) requires is_real::<T>(), is_field::<T>(), vdot(x@, x@) == T::zero_spec() ensures x@[0] == T::zero_spec(), x@[1] == T::zero_spec(), x@[2] == T::zero_spec()
{
    vd3(x@, x@); let (a, b, c) = (sp_mul(x@[0], x@[0]), sp_mul(x@[1], x@[1]), sp_mul(x@[2], x@[2])); let z = T::zero_spec();
    assert(nn(a) && nn(b) && nn(c) && nn(sp_add(a, b))) by { reveal(is_real); }
    e_nn2(sp_add(a, b), c); e_nn2(a, b); r_zero(b); r_comm(z, b); r_zero(c); r_comm(z, c);
    e_sq0(x@[0]); e_sq0(x@[1]); e_sq0(x@[2]);
}
pub proof fn e_sq0<T: Float>(x: T) requires is_field::<T>(), sp_mul(x, x) == T::zero_spec() ensures x == T::zero_spec() { if x != T::zero_spec() { f_nonzero(x, x); } }
// n^2 = m^2 with both not negative
pub proof fn e_root_unique<T: Float>(n: T, m: T) requires is_real::<T>(), is_field::<T>(), nn(n), nn(m), sp_mul(n, n) == sp_mul(m, m) ensures n == m
{
    let a = sp_sub(n, m); let b = sp_add(n, m); pl_diffsq(n, m); r_neg(sp_mul(n, n)); r_sub(sp_mul(n, n), sp_mul(m, m));
    assert(sp_mul(a, b) == T::zero_spec());
    if a != T::zero_spec() { f_nonzero(a, b); assert(b == T::zero_spec()); r_comm(n, m); e_nn2(n, m); e_nn2(m, n); }
    else { r_sub(n, m); r_neg_unique(n, sp_neg(m)); r_negneg(n); r_negneg(m); }
}
