### verbatim
// ------------------------------------------------ C23: Moebius transforms over a division ring, not assumed commutative, whose points the coefficients act on through an embedding
pub open spec fn dr_laws<U: Num>() -> bool {
    tot_div::<U, U>() && (forall|a: U, b: U| #[trigger] sp_div(a, b) == sp_mul(a, sp_div(U::one_spec(), b))) && U::one_spec() != U::zero_spec()
    && (forall|b: U| b != U::zero_spec() ==> sp_mul(b, #[trigger] sp_div(U::one_spec(), b)) == U::one_spec() && sp_mul(sp_div(U::one_spec(), b), b) == U::one_spec())
}
#[verifier::opaque] pub open spec fn has_rcp<U: Num>() -> bool { dr_laws::<U>() }
pub open spec fn is_divring<U: Num>() -> bool { is_ring::<U>() && is_unit::<U>() && has_rcp::<U>() }
pub open spec fn rc<U: Num>(b: U) -> U { sp_div(U::one_spec(), b) }
pub proof fn d_div<U: Num>(a: U, b: U) requires has_rcp::<U>() ensures sp_div(a, b) == sp_mul(a, rc(b)) { reveal(has_rcp); }
pub proof fn d_rcp<U: Num>(b: U) requires has_rcp::<U>(), b != U::zero_spec() ensures sp_mul(b, rc(b)) == U::one_spec(), sp_mul(rc(b), b) == U::one_spec() { reveal(has_rcp); }
pub proof fn d_one_ne_zero<U: Num>() requires has_rcp::<U>() ensures U::one_spec() != U::zero_spec() { reveal(has_rcp); }
pub proof fn d_unique<U: Num>(z: U, w: U) requires is_divring::<U>(), sp_mul(z, w) == U::one_spec() ensures z != U::zero_spec(), w == rc(z)
{ d_one_ne_zero::<U>(); r_mul0(w); d_rcp(z); r_massoc(rc(z), z, w); r_one(w); r_one(rc(z)); }
// (X k) / (Y k) = X / Y for k not zero
pub proof fn d_cancel<U: Num>(x: U, y: U, k: U) requires is_divring::<U>(), k != U::zero_spec(), y != U::zero_spec() ensures sp_div(sp_mul(x, k), sp_mul(y, k)) == sp_div(x, y), sp_mul(y, k) != U::zero_spec()
{
    let kr = rc(k); let yr = rc(y); let w = sp_mul(kr, yr); d_rcp(k); d_rcp(y);
    r_massoc(y, k, w); r_massoc(k, kr, yr); r_one(yr); d_unique(sp_mul(y, k), w); d_div(sp_mul(x, k), sp_mul(y, k)); d_div(x, y); r_massoc(x, k, w);
}
// the coefficients act through e
pub open spec fn act_laws<T: Num, U: Num + Add<T, Output = U>>(e: spec_fn(T) -> U) -> bool where T: Mul<U, Output = U> {
    tot_vec::<T>() && tot_mul::<T, U>() && tot_add::<U, T>() && (forall|t: T, u: U| #[trigger] sp_mul::<T, U>(t, u) == sp_mul(e(t), u)) && (forall|t: T, u: U| #[trigger] sp_add::<U, T>(u, t) == sp_add(u, e(t)))
    && (forall|a: T, b: T| e(#[trigger] sp_mul(a, b)) == sp_mul(e(a), e(b))) && (forall|a: T, b: T| e(#[trigger] sp_add(a, b)) == sp_add(e(a), e(b))) && e(T::one_spec()) == U::one_spec() && e(T::zero_spec()) == U::zero_spec()
}
#[verifier::opaque] pub open spec fn acts<T: Num, U: Num + Add<T, Output = U>>(e: spec_fn(T) -> U) -> bool where T: Mul<U, Output = U> { act_laws(e) }
pub proof fn a_tot<T: Num, U: Num + Add<T, Output = U>>(e: spec_fn(T) -> U) where T: Mul<U, Output = U> requires acts::<T, U>(e), has_rcp::<U>() ensures tot_vec::<T>(), tot_mul::<T, U>(), tot_add::<U, T>(), tot_div::<U, U>() { reveal(acts); reveal(has_rcp); }
pub open spec fn m_num<T: Mul<U, Output = U>, U: Add<T, Output = U>>(m: Moebius<T>, x: U) -> U { sp_add(sp_mul(ma(m), x), mb(m)) }
pub open spec fn m_den<T: Mul<U, Output = U>, U: Add<T, Output = U>>(m: Moebius<T>, x: U) -> U { sp_add(sp_mul(mc(m), x), md(m)) }
// a (N / D) + b = (a N + b D) / D and a N + b D = (a p + b r) x + (a q + b s)
pub proof fn m_step<T: Num, U: Num + Add<T, Output = U>>(e: spec_fn(T) -> U, a: T, b: T, g: Moebius<T>, x: U) where T: Mul<U, Output = U>
    requires is_divring::<U>(), acts::<T, U>(e), m_den(g, x) != U::zero_spec()
    ensures ({ let y = sp_div(m_num(g, x), m_den(g, x)); let z = sp_add(sp_mul::<T, U>(sp_add(sp_mul(a, ma(g)), sp_mul(b, mc(g))), x), sp_add(sp_mul(a, mb(g)), sp_mul(b, md(g)))); sp_add::<U, T>(sp_mul::<T, U>(a, y), b) == sp_mul(z, rc(m_den(g, x))) && sp_mul(sp_add::<U, T>(sp_mul::<T, U>(a, y), b), m_den(g, x)) == z })
{
    let (p, q, r, s) = (ma(g), mb(g), mc(g), md(g)); let n = m_num(g, x); let d = m_den(g, x); let k = rc(d); let y = sp_div(n, d);
    let (ea, eb, ep, eq, er, es) = (e(a), e(b), e(p), e(q), e(r), e(s));
    let z1 = sp_add(sp_mul(a, p), sp_mul(b, r)); let z2 = sp_add(sp_mul(a, q), sp_mul(b, s)); let z = sp_add::<U, T>(sp_mul::<T, U>(z1, x), z2);
    assert(n == sp_add(sp_mul(ep, x), eq) && d == sp_add(sp_mul(er, x), es) && sp_add::<U, T>(sp_mul::<T, U>(a, y), b) == sp_add(sp_mul(ea, y), eb)
        && z == sp_add(sp_mul(sp_add(sp_mul(ea, ep), sp_mul(eb, er)), x), sp_add(sp_mul(ea, eq), sp_mul(eb, es)))) by { reveal(acts); }
    // a n + b d
    let an = sp_mul(ea, n); let bd = sp_mul(eb, d);
    r_distr(sp_mul(ep, x), eq, ea); r_distr(sp_mul(er, x), es, eb); r_massoc(ea, ep, x); r_massoc(eb, er, x);
    r_distr(sp_mul(ea, ep), sp_mul(eb, er), x); r_swap4(sp_mul(sp_mul(ea, ep), x), sp_mul(ea, eq), sp_mul(sp_mul(eb, er), x), sp_mul(eb, es));
    assert(sp_add(an, bd) == z);
    d_div(n, d); d_rcp(d); r_massoc(ea, n, k); r_massoc(eb, d, k); r_one(eb); r_distr(an, bd, k);
    assert(sp_add(sp_mul(ea, y), eb) == sp_mul(z, k));
    r_massoc(z, k, d); r_one(z);
}
pub proof fn m_chain<T: Num, U: Num + Add<T, Output = U>>(e: spec_fn(T) -> U, f: Moebius<T>, g: Moebius<T>, x: U) where T: Mul<U, Output = U>
    requires is_divring::<U>(), acts::<T, U>(e), m_den(g, x) != U::zero_spec(),
    ensures m_den(f, mo_apply(g, x)) != U::zero_spec() ==> mo_apply(mo_chain(f, g), x) == mo_apply(f, mo_apply(g, x)), m_den(mo_chain(f, g), x) != U::zero_spec() ==> m_den(f, mo_apply(g, x)) != U::zero_spec()
{
    let h = mo_chain(f, g); let d = m_den(g, x); let y = mo_apply(g, x); let k = rc(d); let l = m_den(f, y); let r = m_den(h, x);
    m_step(e, ma(f), mb(f), g, x); m_step(e, mc(f), md(f), g, x); d_rcp(d); d_unique(k, d); r_mul0(k); r_mul0(d);
    assert(sp_mul(l, d) == r);
    if l != U::zero_spec() {
        assert(l == sp_mul(r, k));
        assert(r != U::zero_spec());
        d_cancel(m_num(h, x), r, k);
    }
}
pub proof fn m_ident<T: Num, U: Num + Add<T, Output = U>>(e: spec_fn(T) -> U, x: U) where T: Mul<U, Output = U>
    requires is_divring::<U>(), acts::<T, U>(e),
    ensures ({ let i = mkmo(T::one_spec(), T::zero_spec(), T::zero_spec(), T::one_spec()); mo_apply(i, x) == x && m_den(i, x) == U::one_spec() })
{
    let (o, z) = (U::one_spec(), U::zero_spec()); let i = mkmo(T::one_spec(), T::zero_spec(), T::zero_spec(), T::one_spec());
    assert(m_num(i, x) == sp_add(sp_mul(o, x), z) && m_den(i, x) == sp_add(sp_mul(z, x), o)) by { reveal(acts); }
    r_one(x); r_one(o); r_mul0(x); r_zero(x); r_zero(o); r_comm(z, o); d_one_ne_zero::<U>(); d_unique(o, o); d_div(x, o);
}
pub fn law_moebius_chain<T, U>(f: Moebius<T>, g: Moebius<T>, h: Moebius<T>, x: U, Ghost(e): Ghost<spec_fn(T) -> U>) where T: Copy + Num + Mul<U, Output = U>, U: Copy + Num + Add<T, Output = U>
    requires is_divring::<U>(), acts::<T, U>(e), T::obeys_one(), T::obeys_zero(), T::one_req()
{
    proof { a_tot::<T, U>(e); m_ident(e, x); if m_den(g, x) != U::zero_spec() { m_chain(e, f, g, x); } }
    let y = g.apply(x); let l = f.apply(y); let c = f.chain(g); let r = c.apply(x);
    proof { assert(m_den(g, x) != U::zero_spec() && m_den(f, y) != U::zero_spec() ==> l == r); }
    let i = Moebius::<T>::identity(); let z = i.apply(x); proof { assert(z == x); }
}
pub open spec fn mo_id<T: Num>() -> Moebius<T> { mkmo(T::one_spec(), T::zero_spec(), T::zero_spec(), T::one_spec()) }
pub proof fn m_inverse<T: Neg<Output = T> + Num>(m: Moebius<T>) requires is_field::<T>(), mo_det(m) != T::zero_spec() ensures mo_chain(m, mo_inv(m)) == mo_id::<T>(), mo_chain(mo_inv(m), m) == mo_id::<T>()
{
    let d = mo_det(m); let y = rcp(d); f_rcp(d); f_div(mo_one(md(m)), d); f_div(sp_neg(mo_one(mb(m))), d); f_div(sp_neg(mo_one(mc(m))), d); f_div(mo_one(ma(m)), d);
    pl_mo_inv(ma(m), mb(m), mc(m), md(m), y);
}
pub fn law_moebius_inverse<T, U>(m: Moebius<T>, g: Moebius<T>, x: U, Ghost(e): Ghost<spec_fn(T) -> U>) where T: Copy + Neg<Output = T> + Num + Mul<U, Output = U>, U: Copy + Num + Add<T, Output = U>
    requires is_field::<T>(), is_divring::<U>(), acts::<T, U>(e)
{
    proof { f_tot::<T>(); cr_tot::<T>(); a_tot::<T, U>(e); d_one_ne_zero::<U>(); m_ident(e, x); }
    let ghost ok = mo_det(m) != T::zero_spec();
    let v = m.inv(); let l = v.chain(m); let r = m.chain(v); let i = Moebius::<T>::identity();
    proof { if ok { m_inverse(m); assert(l == i && r == i); } }
    let y = m.apply(x); let z = v.apply(y);
    proof { if ok && m_den(m, x) != U::zero_spec() { m_chain(e, v, m, x); assert(z == x); } }
    let y = v.apply(x); let z = m.apply(y);
    proof { if ok && m_den(v, x) != U::zero_spec() { m_chain(e, m, v, x); assert(z == x); } }
    // the determinant
    let d = m.det(); let a = m.a(); let b = m.b(); let c = m.c(); let k = m.d(); let p = a * k; let q = b * c; let s = p - q;
    proof { pl_mo_det(a, b, c, k); assert(d == s); }
    let h = m.chain(g); let l = h.det(); let dg = g.det(); let r = d * dg;
    proof { pl_mo_detmul(ma(m), mb(m), mc(m), md(m), ma(g), mb(g), mc(g), md(g)); assert(l == r); }
    proof { pl_mo_det(a, b, c, k); assert(mo_det(mo_id::<T>()) == T::one_spec()); }
}
// dividing by the determinant does not move a point that commutes with the coefficients
pub proof fn d_comm_rcp<U: Num>(k: U, y: U) requires is_divring::<U>(), y != U::zero_spec(), sp_mul(k, y) == sp_mul(y, k) ensures sp_mul(k, rc(y)) == sp_mul(rc(y), k)
{
    let r = rc(y); d_rcp(y); r_massoc(r, y, k); r_massoc(r, k, y); r_one(k);
    // r (k y) = r (y k) = k, so (r k) y = k and r k = k r
    r_massoc(sp_mul(r, k), y, r); r_one(sp_mul(r, k));
}
pub proof fn d_cancel_comm<U: Num>(k: U, x: U, y: U) requires is_divring::<U>(), k != U::zero_spec(), y != U::zero_spec(), sp_mul(k, x) == sp_mul(x, k), sp_mul(k, y) == sp_mul(y, k) ensures sp_div(sp_mul(k, x), sp_mul(k, y)) == sp_div(x, y)
{ d_cancel(x, y, k); }
pub fn law_moebius_normalize<T, U>(m: Moebius<T>, x: U, Ghost(e): Ghost<spec_fn(T) -> U>) where T: Copy + Neg<Output = T> + Num + Mul<U, Output = U>, U: Copy + Num + Add<T, Output = U>
    requires is_field::<T>(), is_divring::<U>(), acts::<T, U>(e), forall|t: T| sp_mul(#[trigger] e(t), x) == sp_mul(x, e(t))
{
    proof { f_tot::<T>(); cr_tot::<T>(); a_tot::<T, U>(e); }
    let n = m.normalize(); let l = n.apply(x); let r = m.apply(x);
    proof { if mo_det(m) != T::zero_spec() && m_den(m, x) != U::zero_spec() { m_scale(e, m, mo_det(m), x); assert(l == r); } }
}
pub proof fn m_scale_row<T, U>(e: spec_fn(T) -> U, a: T, b: T, d: T, x: U) where T: Neg<Output = T> + Num + Mul<U, Output = U>, U: Num + Add<T, Output = U>
    requires is_field::<T>(), is_ring::<U>(), acts::<T, U>(e), d != T::zero_spec(), sp_mul(e(rcp(d)), x) == sp_mul(x, e(rcp(d)))
    ensures ({ let k = e(rcp(d)); let s = sp_add::<U, T>(sp_mul::<T, U>(a, x), b); sp_add::<U, T>(sp_mul::<T, U>(sp_div(a, d), x), sp_div(b, d)) == sp_mul(k, s) && sp_mul(k, s) == sp_mul(s, k) })
{
    let y = rcp(d); let k = e(y); f_div(a, d); f_div(b, d); r_mcomm(a, y); r_mcomm(b, y);
    let (ea, eb) = (e(a), e(b)); let s = sp_add(sp_mul(ea, x), eb);
    assert(sp_add::<U, T>(sp_mul::<T, U>(a, x), b) == s && sp_add::<U, T>(sp_mul::<T, U>(sp_div(a, d), x), sp_div(b, d)) == sp_add(sp_mul(sp_mul(k, ea), x), sp_mul(k, eb)) && sp_mul(k, ea) == sp_mul(ea, k) && sp_mul(k, eb) == sp_mul(eb, k)) by { reveal(acts); }
    r_massoc(k, ea, x); r_distr(sp_mul(ea, x), eb, k); r_massoc(ea, k, x); r_massoc(ea, x, k);
}
pub proof fn m_scale<T, U>(e: spec_fn(T) -> U, m: Moebius<T>, d: T, x: U) where T: Neg<Output = T> + Num + Mul<U, Output = U>, U: Num + Add<T, Output = U>
    requires is_field::<T>(), is_divring::<U>(), acts::<T, U>(e), d != T::zero_spec(), m_den(m, x) != U::zero_spec(), forall|t: T| sp_mul(#[trigger] e(t), x) == sp_mul(x, e(t))
    ensures mo_apply(mkmo(sp_div(ma(m), d), sp_div(mb(m), d), sp_div(mc(m), d), sp_div(md(m), d)), x) == mo_apply(m, x)
{
    m_scale_row(e, ma(m), mb(m), d, x); m_scale_row(e, mc(m), md(m), d, x); let y = rcp(d); let k = e(y); f_rcp(d);
    assert(sp_mul(e(d), k) == U::one_spec()) by { reveal(acts); }
    r_mul0(e(d)); d_one_ne_zero::<U>(); assert(k != U::zero_spec());
    d_cancel_comm(k, m_num(m, x), m_den(m, x));
}
// the instances: scalars over themselves, complex coefficients on complex and on quaternion points
pub proof fn inst_scalar<T: Neg<Output = T> + Num>() requires is_field::<T>() ensures is_divring::<T>(), acts::<T, T>(|t: T| t)
{ f_tot::<T>(); cr_tot::<T>(); reveal(has_rcp); reveal(acts); reveal(has_div); assert forall|b: T| b != T::zero_spec() implies sp_mul(b, #[trigger] sp_div(T::one_spec(), b)) == T::one_spec() && sp_mul(sp_div(T::one_spec(), b), b) == T::one_spec() by { f_rcp(b); } }
pub proof fn inst_complex_ring<T: Copy + Neg<Output = T> + Num>() requires is_cring::<T>() ensures is_cring::<Complex<T>>()
{
    cr_tot::<T>();
    let z = Complex::<T>::zero_spec(); let o = Complex::<T>::one_spec();
    assert forall|a: Complex<T>, b: Complex<T>, c: Complex<T>| #[trigger] sp_add(sp_add(a, b), c) == sp_add(a, sp_add(b, c)) by { c_laws(a, b, c); }
    assert forall|a: Complex<T>, b: Complex<T>| #[trigger] sp_add(a, b) == sp_add(b, a) by { c_laws(a, b, a); }
    assert forall|a: Complex<T>| #[trigger] sp_add(a, z) == a by { c_laws(a, a, a); }
    assert forall|a: Complex<T>, b: Complex<T>, c: Complex<T>| #[trigger] sp_mul(sp_mul(a, b), c) == sp_mul(a, sp_mul(b, c)) by { c_laws(a, b, c); }
    assert forall|a: Complex<T>, b: Complex<T>, c: Complex<T>| #[trigger] sp_mul(sp_add(a, b), c) == sp_add(sp_mul(a, c), sp_mul(b, c)) by { c_laws(c, a, b); }
    assert forall|a: Complex<T>, b: Complex<T>, c: Complex<T>| #[trigger] sp_mul(c, sp_add(a, b)) == sp_add(sp_mul(c, a), sp_mul(c, b)) by { c_laws(c, a, b); }
    assert forall|a: Complex<T>| #[trigger] sp_mul(a, z) == z && sp_mul(z, a) == z by { c_laws(a, a, a); }
    assert forall|a: Complex<T>| #[trigger] sp_mul(a, o) == a && sp_mul(o, a) == a by { c_laws(a, a, a); }
    assert forall|a: Complex<T>, b: Complex<T>| #[trigger] sp_mul(a, b) == sp_mul(b, a) by { c_laws(a, b, a); }
    assert forall|a: Complex<T>, b: Complex<T>| #[trigger] sp_sub(a, b) == sp_add(a, sp_neg(b)) by { c_laws(a, b, a); }
    assert forall|a: Complex<T>| sp_add(a, #[trigger] sp_neg(a)) == z by { c_laws(a, a, a); }
    reveal(is_ring); reveal(is_unit); reveal(is_comm); reveal(has_sub);
}
pub proof fn inst_complex_field<T: Copy + Neg<Output = T> + Num>() requires is_field::<T>(), two_squares::<T>() ensures is_field::<Complex<T>>(), is_divring::<Complex<T>>(), acts::<Complex<T>, Complex<T>>(|t: Complex<T>| t)
{
    f_tot::<T>(); cr_tot::<T>(); inst_complex_ring::<T>();
    let z = Complex::<T>::zero_spec(); let o = Complex::<T>::one_spec();
    assert forall|a: Complex<T>, b: Complex<T>| #[trigger] sp_div(a, b) == sp_mul(a, sp_div(o, b)) by { c_laws(o, c_inv(b), a); c_laws(c_inv(b), a, a); }
    assert forall|b: Complex<T>| b != z implies sp_mul(b, #[trigger] sp_div(o, b)) == o by { c_laws(c_inv(b), b, b); if c_nsq(b) == T::zero_spec() { assert(two_squares::<T>()); c_ext(b, z); assert(false); } c_rcp(b); }
    assert(T::one_spec() != T::zero_spec()) by { reveal(has_div); }
    assert(cre(o) != cre(z));
    reveal(has_div);
    inst_scalar::<Complex<T>>();
}
pub proof fn inst_quaternion<T: Copy + Neg<Output = T> + Num>() requires is_field::<T>(), two_squares::<T>(), four_squares::<T>()
    ensures is_divring::<Quaternion<T>>(), is_field::<Complex<T>>(), acts::<Complex<T>, Quaternion<T>>(|t: Complex<T>| q_emb(t))
{
    f_tot::<T>(); cr_tot::<T>(); inst_complex_field::<T>(); cr_tot::<Complex<T>>();
    let z = Quaternion::<T>::zero_spec(); let o = Quaternion::<T>::one_spec();
    assert forall|a: Quaternion<T>, b: Quaternion<T>, c: Quaternion<T>| #[trigger] sp_add(sp_add(a, b), c) == sp_add(a, sp_add(b, c)) by { q_addlaws(a, b, c); }
    assert forall|a: Quaternion<T>, b: Quaternion<T>| #[trigger] sp_add(a, b) == sp_add(b, a) by { q_addlaws(a, b, a); }
    assert forall|a: Quaternion<T>| #[trigger] sp_add(a, z) == a by { q_addlaws(a, a, a); }
    assert forall|a: Quaternion<T>, b: Quaternion<T>, c: Quaternion<T>| #[trigger] sp_mul(sp_mul(a, b), c) == sp_mul(a, sp_mul(b, c)) by { q_laws(a, b, c); }
    assert forall|a: Quaternion<T>, b: Quaternion<T>, c: Quaternion<T>| #[trigger] sp_mul(sp_add(a, b), c) == sp_add(sp_mul(a, c), sp_mul(b, c)) by { q_laws(c, a, b); }
    assert forall|a: Quaternion<T>, b: Quaternion<T>, c: Quaternion<T>| #[trigger] sp_mul(c, sp_add(a, b)) == sp_add(sp_mul(c, a), sp_mul(c, b)) by { q_laws(c, a, b); }
    assert forall|a: Quaternion<T>| #[trigger] sp_mul(a, z) == z && sp_mul(z, a) == z by { q_addlaws(a, a, a); }
    assert forall|a: Quaternion<T>| #[trigger] sp_mul(a, o) == a && sp_mul(o, a) == a by { q_laws(a, a, a); }
    assert forall|a: Quaternion<T>, b: Quaternion<T>| #[trigger] sp_div(a, b) == sp_mul(a, sp_div(o, b)) by { q_laws(q_inv(b), q_inv(b), q_inv(b)); }
    assert forall|b: Quaternion<T>| b != z implies sp_mul(b, #[trigger] sp_div(o, b)) == o && sp_mul(sp_div(o, b), b) == o by {
        q_laws(q_inv(b), b, b); if q_nsq(b) == T::zero_spec() { assert(four_squares::<T>()); assert(!q_nonzero(b)); q_ext(b, z); assert(false); } q_rcp(b);
    }
    assert(T::one_spec() != T::zero_spec()) by { reveal(has_div); }
    assert(qw(o) != qw(z));
    reveal(is_ring); reveal(is_unit); reveal(has_rcp);
    inst_acts_quaternion::<T>();
}
pub proof fn inst_acts_quaternion<T: Copy + Neg<Output = T> + Num>() requires is_cring::<T>(), tot_vec::<Complex<T>>() ensures acts::<Complex<T>, Quaternion<T>>(|t: Complex<T>| q_emb(t))
{
    cr_tot::<T>();
    assert forall|t: Complex<T>, u: Quaternion<T>| #[trigger] sp_mul::<Complex<T>, Quaternion<T>>(t, u) == sp_mul(q_emb(t), u) by { q_mixed(u, t, T::zero_spec()); }
    assert forall|t: Complex<T>, u: Quaternion<T>| #[trigger] sp_add::<Quaternion<T>, Complex<T>>(u, t) == sp_add(u, q_emb(t)) by { r_zero(qy(u)); r_zero(qz(u)); }
    assert forall|a: Complex<T>, b: Complex<T>| q_emb(#[trigger] sp_mul(a, b)) == sp_mul(q_emb(a), q_emb(b)) by { pl_qc_emul(cre(a), cim(a), cre(b), cim(b)); q_ext(q_emb(sp_mul(a, b)), sp_mul(q_emb(a), q_emb(b))); }
    assert forall|a: Complex<T>, b: Complex<T>| q_emb(#[trigger] sp_add(a, b)) == sp_add(q_emb(a), q_emb(b)) by { r_zero(T::zero_spec()); q_ext(q_emb(sp_add(a, b)), sp_add(q_emb(a), q_emb(b))); }
    q_ext(q_emb(Complex::<T>::one_spec()), Quaternion::<T>::one_spec()); q_ext(q_emb(Complex::<T>::zero_spec()), Quaternion::<T>::zero_spec());
    reveal(acts);
}
pub fn law_moebius_instances<T: Copy + Neg<Output = T> + Num>(f: Moebius<Complex<T>>, g: Moebius<Complex<T>>, h: Moebius<T>, k: Moebius<T>, x: T, z: Complex<T>, p: Quaternion<T>) requires is_field::<T>(), two_squares::<T>(), four_squares::<T>()
{
    proof { inst_scalar::<T>(); inst_complex_field::<T>(); inst_quaternion::<T>(); f_tot::<T>(); f_tot::<Complex<T>>(); cr_tot::<Complex<T>>(); }
    law_moebius_chain::<T, T>(h, k, h, x, Ghost(|t: T| t)); law_moebius_inverse::<T, T>(h, k, x, Ghost(|t: T| t));
    law_moebius_chain::<Complex<T>, Complex<T>>(f, g, f, z, Ghost(|t: Complex<T>| t)); law_moebius_inverse::<Complex<T>, Complex<T>>(f, g, z, Ghost(|t: Complex<T>| t));
    law_moebius_chain::<Complex<T>, Quaternion<T>>(f, g, f, p, Ghost(|t: Complex<T>| q_emb(t))); law_moebius_inverse::<Complex<T>, Quaternion<T>>(f, g, p, Ghost(|t: Complex<T>| q_emb(t)));
}
