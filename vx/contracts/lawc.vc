### verbatim
// ------------------------------------------------ C18: the complex numbers over a commutative ring are a commutative ring, over a field with no zero of the norm a field
pub open spec fn c_zero<T: Num>() -> Complex<T> { mkc(T::zero_spec(), T::zero_spec()) }
pub open spec fn c_one<T: Num>() -> Complex<T> { mkc(T::one_spec(), T::zero_spec()) }
pub open spec fn c_plus<T: Add<Output = T>>(a: Complex<T>, b: Complex<T>) -> Complex<T> { mkc(sp_add(cre(a), cre(b)), sp_add(cim(a), cim(b))) }
pub open spec fn c_minus<T: Sub<Output = T>>(a: Complex<T>, b: Complex<T>) -> Complex<T> { mkc(sp_sub(cre(a), cre(b)), sp_sub(cim(a), cim(b))) }
pub open spec fn c_opp<T: Neg<Output = T>>(a: Complex<T>) -> Complex<T> { mkc(sp_neg(cre(a)), sp_neg(cim(a))) }
pub proof fn c_laws<T: Neg<Output = T> + Num>(a: Complex<T>, b: Complex<T>, c: Complex<T>) requires is_cring::<T>()
    ensures
        c_mul(c_mul(a, b), c) == c_mul(a, c_mul(b, c)), c_mul(a, b) == c_mul(b, a), c_plus(a, b) == c_plus(b, a), c_plus(c_plus(a, b), c) == c_plus(a, c_plus(b, c)),
        c_mul(a, c_plus(b, c)) == c_plus(c_mul(a, b), c_mul(a, c)), c_mul(c_plus(b, c), a) == c_plus(c_mul(b, a), c_mul(c, a)),
        c_mul(c_one(), a) == a, c_mul(a, c_one()) == a, c_plus(a, c_zero()) == a, c_plus(a, c_opp(a)) == c_zero::<T>(), c_minus(a, b) == c_plus(a, c_opp(b)),
        c_mul(a, c_zero()) == c_zero::<T>(), c_mul(c_zero(), a) == c_zero::<T>(),
        c_mul(mkc(T::zero_spec(), T::one_spec()), mkc(T::zero_spec(), T::one_spec())) == c_opp(c_one::<T>()),
        c_conj(c_mul(a, b)) == c_mul(c_conj(a), c_conj(b)), c_mul(a, c_conj(a)) == mkc(c_nsq(a), T::zero_spec()), c_conj(c_conj(a)) == a, c_nsq(c_mul(a, b)) == sp_mul(c_nsq(a), c_nsq(b)),
{
    let (a0, a1) = (cre(a), cim(a)); let (b0, b1) = (cre(b), cim(b)); let (c0, c1) = (cre(c), cim(c));
    pl_c_assoc(a0, a1, b0, b1, c0, c1); pl_c_comm(a0, a1, b0, b1); pl_c_addassoc(a0, a1, b0, b1, c0, c1); pl_c_distr(a0, a1, b0, b1, c0, c1); pl_c_unit(a0, a1); pl_c_sub(a0, a1, b0, b1); pl_c_conj(a0, a1, b0, b1); pl_c_nsq(a0, a1, b0, b1); pl_c_zero(a0, a1); r_neg0::<T>(); 
    c_ext(c_mul(c_one(), a), a); c_ext(c_mul(a, c_one()), a); c_ext(c_plus(a, c_zero()), a); c_ext(c_conj(c_conj(a)), a);
}
pub proof fn c_rcp<T: Neg<Output = T> + Num>(a: Complex<T>) requires is_field::<T>(), c_nsq(a) != T::zero_spec() ensures c_mul(a, c_inv(a)) == c_one::<T>(), c_mul(c_inv(a), a) == c_one::<T>()
{
    let n = c_nsq(a); let y = rcp(n); f_rcp(n); f_div(cre(c_conj(a)), n); f_div(cim(c_conj(a)), n); pl_c_mulinv(cre(a), cim(a), y);
}
// a complex number is zero when its squared norm is, if a sum of two squares vanishes only for zeros
pub open spec fn two_squares<T: Neg<Output = T> + Num>() -> bool { forall|x: T, y: T| #[trigger] sp_add(sp_mul(x, x), sp_mul(y, y)) == T::zero_spec() ==> x == T::zero_spec() && y == T::zero_spec() }
pub fn law_complex_field<T: Copy + Neg<Output = T> + Num>(a: Complex<T>, b: Complex<T>, c: Complex<T>) requires is_field::<T>(), two_squares::<T>()
{
    proof { f_tot::<T>(); c_laws(a, b, c); }
    let l = (a * b) * c; let r = a * (b * c); proof { assert(l == r); }
    let l = a * b; let r = b * a; proof { assert(l == r); }
    let l = a + b; let r = b + a; proof { c_ext(l, r); assert(l == r); }
    let l = (a + b) + c; let r = a + (b + c); proof { c_ext(l, r); assert(l == r); }
    let s = b + c; let l = a * s; let p = a * b; let q = a * c; let r = p + q; proof { c_ext(s, c_plus(b, c)); c_ext(r, c_plus(c_mul(a, b), c_mul(a, c))); assert(l == r); }
    let l = s * a; let p = b * a; let q = c * a; let r = p + q; proof { c_ext(r, c_plus(c_mul(b, a), c_mul(c, a))); assert(l == r); }
    let o = Complex::<T>::one(); let l = o * a; let r = a * o; proof { assert(l == a && r == a); }
    let z = Complex::<T>::zero(); let l = a + z; let n = -a; let r = a + n; let m = a * z; let d = a - b; let nb = -b; let e = a + nb; proof { c_ext(l, a); c_ext(r, c_zero()); c_ext(n, c_opp(a)); c_ext(nb, c_opp(b)); c_ext(d, c_minus(a, b)); c_ext(e, c_plus(a, c_opp(b))); assert(l == a && r == z && m == z && d == e); }
    let i = Complex::<T>::i(); let m = i * i; let n = -o; proof { c_ext(n, c_opp(c_one())); c_laws(i, i, i); assert(m == n); }
    let ab = a * b; let l = ab.conj(); let ac = a.conj(); let bc = b.conj(); let r = ac * bc; let t = ac.conj(); proof { assert(l == r); assert(t == a); }
    let l = ab.norm_sqr(); let x = a.norm_sqr(); let y = b.norm_sqr(); let r = x * y; proof { assert(l == r); }
    let p = a * ac; proof { assert(p == mkc(x, T::zero_spec())); }
    proof { assert(is_nonzero(a) ==> c_nsq(a) != T::zero_spec()); if is_nonzero(a) { c_rcp(a); } if is_nonzero(b) { c_rcp(b); c_laws(c_mul(a, c_inv(b)), b, a); c_laws(a, c_inv(b), b); c_laws(a, b, c); } }
    let v = a.inv(); let l = a * v; let r = v * a; proof { assert(is_nonzero(a) ==> l == o && r == o); }
    let q = a / b; let l = q * b; proof { assert(is_nonzero(b) ==> l == a); }
}
pub open spec fn is_nonzero<T: Neg<Output = T> + Num>(a: Complex<T>) -> bool { !(cre(a) == T::zero_spec() && cim(a) == T::zero_spec()) }
// the 2x2 form turns products into products
pub fn law_complex_matrix<T: Copy + Neg<Output = T> + Num>(a: Complex<T>, b: Complex<T>) requires is_cring::<T>()
{
    proof { cr_tot::<T>(); reveal(is_ring); pl_c_mat(cre(a), cim(a), cre(b), cim(b)); }
    let ab = a * b; let l = ab.into_matrix(); let x = a.into_matrix(); let y = b.into_matrix(); let r = x.dot(y);
    proof {
        assert forall|i: int, j: int| 0 <= i < 2 && 0 <= j < 2 implies #[trigger] l.data@[i]@[j] == r.data@[i]@[j] by { vdot2(x.data@[i]@, colq(y, j)); assert(i == 0 || i == 1); assert(j == 0 || j == 1); }
        mat_ext(l, r); assert(l == r);
    }
}
