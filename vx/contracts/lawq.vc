### verbatim
// ------------------------------------------------ C19: quaternions over a commutative ring
pub open spec fn q_zero<T: Num>() -> Quaternion<T> { mkq(T::zero_spec(), T::zero_spec(), T::zero_spec(), T::zero_spec()) }
pub open spec fn q_one<T: Num>() -> Quaternion<T> { mkq(T::one_spec(), T::zero_spec(), T::zero_spec(), T::zero_spec()) }
pub open spec fn q_plus<T: Add<Output = T>>(a: Quaternion<T>, b: Quaternion<T>) -> Quaternion<T> { mkq(sp_add(qw(a), qw(b)), sp_add(qx(a), qx(b)), sp_add(qy(a), qy(b)), sp_add(qz(a), qz(b))) }
pub open spec fn q_emb<T: Num>(c: Complex<T>) -> Quaternion<T> { mkq(cre(c), cim(c), T::zero_spec(), T::zero_spec()) }
pub open spec fn q_real<T: Num>(t: T) -> Quaternion<T> { mkq(t, T::zero_spec(), T::zero_spec(), T::zero_spec()) }
pub proof fn q_laws<T: Neg<Output = T> + Num>(a: Quaternion<T>, b: Quaternion<T>, c: Quaternion<T>) requires is_cring::<T>()
    ensures
        q_mul(q_mul(a, b), c) == q_mul(a, q_mul(b, c)), q_mul(a, q_plus(b, c)) == q_plus(q_mul(a, b), q_mul(a, c)), q_mul(q_plus(b, c), a) == q_plus(q_mul(b, a), q_mul(c, a)),
        q_mul(q_one(), a) == a, q_mul(a, q_one()) == a,
        q_conj(q_mul(a, b)) == q_mul(q_conj(b), q_conj(a)), q_mul(a, q_conj(a)) == q_real(q_nsq(a)), q_mul(q_conj(a), a) == q_real(q_nsq(a)), q_nsq(q_mul(a, b)) == sp_mul(q_nsq(a), q_nsq(b)), q_conj(q_conj(a)) == a,
{
    let (a0, a1, a2, a3) = (qw(a), qx(a), qy(a), qz(a)); let (b0, b1, b2, b3) = (qw(b), qx(b), qy(b), qz(b)); let (c0, c1, c2, c3) = (qw(c), qx(c), qy(c), qz(c));
    pl_q_assoc(a0, a1, a2, a3, b0, b1, b2, b3, c0, c1, c2, c3); pl_q_distr(a0, a1, a2, a3, b0, b1, b2, b3, c0, c1, c2, c3); pl_q_unit(a0, a1, a2, a3); pl_q_conj(a0, a1, a2, a3, b0, b1, b2, b3); pl_q_nsq(a0, a1, a2, a3, b0, b1, b2, b3);
    r_negneg(a1); r_negneg(a2); r_negneg(a3);
    q_ext(q_mul(q_one(), a), a); q_ext(q_mul(a, q_one()), a); q_ext(q_conj(q_conj(a)), a);
}
pub proof fn q_addlaws<T: Neg<Output = T> + Num>(a: Quaternion<T>, b: Quaternion<T>, c: Quaternion<T>) requires is_cring::<T>()
    ensures q_plus(q_plus(a, b), c) == q_plus(a, q_plus(b, c)), q_plus(a, b) == q_plus(b, a), q_plus(a, q_zero()) == a, q_mul(a, q_zero()) == q_zero::<T>(), q_mul(q_zero(), a) == q_zero::<T>()
{
    r_assoc(qw(a), qw(b), qw(c)); r_assoc(qx(a), qx(b), qx(c)); r_assoc(qy(a), qy(b), qy(c)); r_assoc(qz(a), qz(b), qz(c));
    r_comm(qw(a), qw(b)); r_comm(qx(a), qx(b)); r_comm(qy(a), qy(b)); r_comm(qz(a), qz(b)); r_zero(qw(a)); r_zero(qx(a)); r_zero(qy(a)); r_zero(qz(a));
    q_ext(q_plus(a, q_zero()), a); pl_q_zero(qw(a), qx(a), qy(a), qz(a));
}
pub proof fn q_rcp<T: Neg<Output = T> + Num>(a: Quaternion<T>) requires is_field::<T>(), q_nsq(a) != T::zero_spec() ensures q_mul(a, q_inv(a)) == q_one::<T>(), q_mul(q_inv(a), a) == q_one::<T>()
{
    let n = q_nsq(a); let y = rcp(n); let k = q_conj(a); f_rcp(n); f_div(qw(k), n); f_div(qx(k), n); f_div(qy(k), n); f_div(qz(k), n); pl_q_mulinv(qw(a), qx(a), qy(a), qz(a), y);
}
pub proof fn q_mixed<T: Neg<Output = T> + Num>(a: Quaternion<T>, c: Complex<T>, t: T) requires is_cring::<T>()
    ensures qc_mul(a, c) == q_mul(a, q_emb(c)), cq_mul(c, a) == q_mul(q_emb(c), a), q_muls(a, t) == q_mul(a, q_real(t)), q_muls(a, t) == q_mul(q_real(t), a), q_nsq(q_emb(c)) == c_nsq(c),
{ pl_qc_embed(qw(a), qx(a), qy(a), qz(a), cre(c), cim(c)); pl_q_real(qw(a), qx(a), qy(a), qz(a), t); pl_qc_nsq(cre(c), cim(c)); }
pub proof fn q_inv_emb<T: Neg<Output = T> + Num>(c: Complex<T>) requires is_field::<T>() ensures q_inv(q_emb(c)) == q_emb(c_inv(c))
{ q_mixed(q_emb(c), c, T::zero_spec()); r_neg0::<T>(); let n = c_nsq(c); f_div(T::zero_spec(), n); r_mul0(rcp(n)); q_ext(q_inv(q_emb(c)), q_emb(c_inv(c))); }
pub open spec fn q_nonzero<T: Neg<Output = T> + Num>(a: Quaternion<T>) -> bool { !(qw(a) == T::zero_spec() && qx(a) == T::zero_spec() && qy(a) == T::zero_spec() && qz(a) == T::zero_spec()) }
pub open spec fn four_squares<T: Neg<Output = T> + Num>() -> bool { forall|a: Quaternion<T>| #[trigger] q_nsq(a) == T::zero_spec() ==> !q_nonzero(a) }
pub fn law_quaternion_algebra<T: Copy + Neg<Output = T> + Num>(a: Quaternion<T>, b: Quaternion<T>, c: Quaternion<T>) requires is_cring::<T>()
{
    proof { cr_tot::<T>(); q_laws(a, b, c); }
    let l = (a * b) * c; let r = a * (b * c); proof { assert(l == r); }
    let s = b + c; let l = a * s; let p = a * b; let q = a * c; let r = p + q; proof { q_ext(s, q_plus(b, c)); q_ext(r, q_plus(p, q)); assert(l == r); }
    let l = s * a; let p = b * a; let q = c * a; let r = p + q; proof { q_ext(r, q_plus(p, q)); assert(l == r); }
    let o = Quaternion::<T>::one(); let l = o * a; let r = a * o; proof { assert(l == a && r == a); }
    let ab = a * b; let l = ab.conj(); let ac = a.conj(); let bc = b.conj(); let r = bc * ac; let t = ac.conj(); proof { assert(l == r); assert(t == a); }
    let l = ab.norm_sqr(); let x = a.norm_sqr(); let y = b.norm_sqr(); let r = x * y; proof { assert(l == r); }
    let i = Quaternion::<T>::i(); let j = Quaternion::<T>::j(); let k = Quaternion::<T>::k(); let m = -o;
    let ij = i * j; let jk = j * k; let ki = k * i; let ii = i * i; let jj = j * j; let kk = k * k; let ijk = ij * k;
    proof { pl_q_table(qw(a), qx(a), qy(a), qz(a)); r_neg0::<T>(); assert(ij == k && jk == i && ki == j); assert(ii == m && jj == m && kk == m && ijk == m); }
}
pub fn law_quaternion_division<T: Copy + Neg<Output = T> + Num>(a: Quaternion<T>, b: Quaternion<T>, c: Complex<T>, t: T) requires is_field::<T>(), four_squares::<T>()
{
    proof { f_tot::<T>(); q_laws(a, q_inv(b), b); q_laws(b, b, b); q_laws(a, a, a); q_mixed(a, c, t); q_mixed(b, c, t); q_inv_emb(c); if q_nonzero(a) { q_rcp(a); } if q_nonzero(b) { q_rcp(b); } }
    let o = Quaternion::<T>::one(); let v = a.inv(); let l = a * v; let r = v * a; proof { assert(q_nonzero(a) ==> l == o && r == o); }
    let w = b.inv(); let q = a / b; let s = a * w; let p = q * b; proof { assert(q == s); assert(q_nonzero(b) ==> p == a); }
    // mixing with complex numbers and scalars is the operation on the embedded quaternion
    let x = a * c; let y = c * a; let z = a / c; let u = c / b; let k = a * t; let m = a / t;
    proof {
        assert(x == q_mul(a, q_emb(c)) && y == q_mul(q_emb(c), a));
        q_mixed(a, c_inv(c), t); q_mixed(q_inv(b), c, t); assert(z == q_mul(a, q_inv(q_emb(c)))); assert(u == q_mul(q_emb(c), q_inv(b)));
        assert(k == q_mul(a, q_real(t)));
        f_div(qw(a), t); f_div(qx(a), t); f_div(qy(a), t); f_div(qz(a), t); q_mixed(a, c, rcp(t)); assert(m == q_mul(a, q_real(rcp(t))));
    }
}
// the 4x4 form acts as left multiplication
pub fn law_quaternion_matrix<T: Copy + Neg<Output = T> + Num>(a: Quaternion<T>, b: Quaternion<T>) requires is_cring::<T>()
{
    proof { cr_tot::<T>(); pl_q_mat(qw(a), qx(a), qy(a), qz(a), qw(b), qx(b), qy(b), qz(b)); }
    let p = a * b; let l = p.into_vector(); let m = a.into_matrix(); let v = b.into_vector(); let r = m.dot(v);
    proof { vdot4(m.data@[0]@, v@); vdot4(m.data@[1]@, v@); vdot4(m.data@[2]@, v@); vdot4(m.data@[3]@, v@); assert forall|i: int| 0 <= i < 4 implies #[trigger] l@[i] == r@[i] by { assert(i == 0 || i == 1 || i == 2 || i == 3); } vec_ext(l, r); assert(l == r); }
}
