### verbatim
// ------------------------------------------------ polynomial identities over a commutative ring, decided by normalisation (reflection)
pub open spec fn sub_laws<T: Neg<Output = T> + Num>() -> bool {
    tot_sub::<T, T>() && tot_neg::<T>() && (forall|a: T, b: T| #[trigger] sp_sub(a, b) == sp_add(a, sp_neg(b))) && (forall|a: T| sp_add(a, #[trigger] sp_neg(a)) == T::zero_spec())
}
#[verifier::opaque] pub open spec fn has_sub<T: Neg<Output = T> + Num>() -> bool { sub_laws::<T>() }
pub open spec fn is_cring<T: Neg<Output = T> + Num>() -> bool { is_ring::<T>() && is_unit::<T>() && is_comm::<T>() && has_sub::<T>() }
pub proof fn r_sub<T: Neg<Output = T> + Num>(a: T, b: T) requires has_sub::<T>() ensures sp_sub(a, b) == sp_add(a, sp_neg(b)) { reveal(has_sub); }
pub proof fn r_neg<T: Neg<Output = T> + Num>(a: T) requires has_sub::<T>() ensures sp_add(a, sp_neg(a)) == T::zero_spec() { reveal(has_sub); }
pub proof fn r_neg_unique<T: Neg<Output = T> + Num>(a: T, b: T) requires is_cring::<T>(), sp_add(a, b) == T::zero_spec() ensures b == sp_neg(a)
{ r_neg(a); let n = sp_neg(a); r_zero(b); r_zero(n); r_comm(a, n); r_assoc(n, a, b); }
pub proof fn r_negneg<T: Neg<Output = T> + Num>(a: T) requires is_cring::<T>() ensures sp_neg(sp_neg(a)) == a { r_neg(a); r_comm(a, sp_neg(a)); r_neg_unique(sp_neg(a), a); }
pub proof fn r_neg0<T: Neg<Output = T> + Num>() requires is_cring::<T>() ensures sp_neg(T::zero_spec()) == T::zero_spec() { r_zero(T::zero_spec()); r_neg_unique(T::zero_spec(), T::zero_spec()); }
pub proof fn r_negadd<T: Neg<Output = T> + Num>(a: T, b: T) requires is_cring::<T>() ensures sp_neg(sp_add(a, b)) == sp_add(sp_neg(a), sp_neg(b))
{ r_swap4(a, b, sp_neg(a), sp_neg(b)); r_neg(a); r_neg(b); r_zero(T::zero_spec()); r_neg_unique(sp_add(a, b), sp_add(sp_neg(a), sp_neg(b))); }
pub proof fn r_negmul<T: Neg<Output = T> + Num>(a: T, b: T) requires is_cring::<T>() ensures sp_mul(sp_neg(a), b) == sp_neg(sp_mul(a, b)), sp_mul(a, sp_neg(b)) == sp_neg(sp_mul(a, b))
{
    r_neg(a); r_neg(b); r_distr(a, sp_neg(a), b); r_mul0(b); r_neg_unique(sp_mul(a, b), sp_mul(sp_neg(a), b));
    r_distr(b, sp_neg(b), a); r_mul0(a); r_neg_unique(sp_mul(a, b), sp_mul(a, sp_neg(b)));
}
// expressions; a word is a product of variables, a list a sum of signed words
pub enum Ex { V(int), Z, I, Add(Box<Ex>, Box<Ex>), Sub(Box<Ex>, Box<Ex>), Mul(Box<Ex>, Box<Ex>), Neg(Box<Ex>) }
pub enum Wd { E, C(int, Box<Wd>) }
pub enum Li { E, C(bool, Wd, Box<Li>) }
pub open spec fn xa(a: Ex, b: Ex) -> Ex { Ex::Add(Box::new(a), Box::new(b)) }
pub open spec fn xs(a: Ex, b: Ex) -> Ex { Ex::Sub(Box::new(a), Box::new(b)) }
pub open spec fn xm(a: Ex, b: Ex) -> Ex { Ex::Mul(Box::new(a), Box::new(b)) }
pub open spec fn xn(a: Ex) -> Ex { Ex::Neg(Box::new(a)) }
pub open spec fn ev<T: Neg<Output = T> + Num>(e: Ex, v: Seq<T>) -> T decreases e {
    match e {
        Ex::V(i) => v[i], Ex::Z => T::zero_spec(), Ex::I => T::one_spec(),
        Ex::Add(a, b) => sp_add(ev(*a, v), ev(*b, v)), Ex::Sub(a, b) => sp_sub(ev(*a, v), ev(*b, v)), Ex::Mul(a, b) => sp_mul(ev(*a, v), ev(*b, v)), Ex::Neg(a) => sp_neg(ev(*a, v)),
    }
}
pub open spec fn wv<T: Neg<Output = T> + Num>(w: Wd, v: Seq<T>) -> T decreases w { match w { Wd::E => T::one_spec(), Wd::C(i, r) => sp_mul(v[i], wv(*r, v)) } }
pub open spec fn sgx<T: Neg<Output = T>>(n: bool, x: T) -> T { if n { sp_neg(x) } else { x } }
pub open spec fn lv<T: Neg<Output = T> + Num>(l: Li, v: Seq<T>) -> T decreases l { match l { Li::E => T::zero_spec(), Li::C(n, w, r) => sp_add(sgx(n, wv(w, v)), lv(*r, v)) } }
// normalisation
pub open spec fn wins(i: int, w: Wd) -> Wd decreases w { match w { Wd::E => Wd::C(i, Box::new(w)), Wd::C(k, r) => if i <= k { Wd::C(i, Box::new(w)) } else { Wd::C(k, Box::new(wins(i, *r))) } } }
pub open spec fn wcat(a: Wd, b: Wd) -> Wd decreases a { match a { Wd::E => b, Wd::C(i, r) => wins(i, wcat(*r, b)) } }
// -1, 0, 1: a before b, the same, a after b
pub open spec fn wcmp(a: Wd, b: Wd) -> int decreases a {
    match a {
        Wd::E => match b { Wd::E => 0, Wd::C(_, _) => -1 },
        Wd::C(i, r) => match b { Wd::E => 1, Wd::C(k, s) => if i < k { -1 } else if i > k { 1 } else { wcmp(*r, *s) } },
    }
}
pub open spec fn lins(n: bool, w: Wd, l: Li) -> Li decreases l {
    match l {
        Li::E => Li::C(n, w, Box::new(l)),
        Li::C(m, u, r) => { let c = wcmp(w, u); if c == 0 && n != m { *r } else if c <= 0 { Li::C(n, w, Box::new(l)) } else { Li::C(m, u, Box::new(lins(n, w, *r))) } },
    }
}
pub open spec fn ladd(s: bool, a: Li, b: Li) -> Li decreases a { match a { Li::E => b, Li::C(n, w, r) => lins(n != s, w, ladd(s, *r, b)) } }
pub open spec fn lmul1(n: bool, w: Wd, l: Li, acc: Li) -> Li decreases l { match l { Li::E => acc, Li::C(m, u, r) => lins(n != m, wcat(w, u), lmul1(n, w, *r, acc)) } }
pub open spec fn lmul(a: Li, b: Li) -> Li decreases a { match a { Li::E => Li::E, Li::C(n, w, r) => lmul1(n, w, b, lmul(*r, b)) } }
pub open spec fn nf(e: Ex) -> Li decreases e {
    match e {
        Ex::V(i) => Li::C(false, Wd::C(i, Box::new(Wd::E)), Box::new(Li::E)), Ex::Z => Li::E, Ex::I => Li::C(false, Wd::E, Box::new(Li::E)),
        Ex::Add(a, b) => ladd(false, nf(*a), nf(*b)), Ex::Sub(a, b) => ladd(true, nf(*b), nf(*a)), Ex::Mul(a, b) => lmul(nf(*a), nf(*b)), Ex::Neg(a) => ladd(true, nf(*a), Li::E),
    }
}
// soundness
pub proof fn p_wins<T: Neg<Output = T> + Num>(i: int, w: Wd, v: Seq<T>) requires is_cring::<T>() ensures wv(wins(i, w), v) == sp_mul(v[i], wv(w, v)) decreases w
{
    match w { Wd::E => {}, Wd::C(k, r) => if i > k { p_wins(i, *r, v); let x = wv(*r, v); r_massoc(v[k], v[i], x); r_massoc(v[i], v[k], x); r_mcomm(v[k], v[i]); } }
}
pub proof fn p_wcat<T: Neg<Output = T> + Num>(a: Wd, b: Wd, v: Seq<T>) requires is_cring::<T>() ensures wv(wcat(a, b), v) == sp_mul(wv(a, v), wv(b, v)) decreases a
{
    match a { Wd::E => { r_one(wv(b, v)); }, Wd::C(i, r) => { p_wcat(*r, b, v); p_wins(i, wcat(*r, b), v); r_massoc(v[i], wv(*r, v), wv(b, v)); } }
}
pub proof fn p_wcmp(a: Wd, b: Wd) requires wcmp(a, b) == 0 ensures a == b decreases a
{ match a { Wd::E => {}, Wd::C(i, r) => match b { Wd::E => {}, Wd::C(k, s) => { p_wcmp(*r, *s); } } } }
pub proof fn p_lins<T: Neg<Output = T> + Num>(n: bool, w: Wd, l: Li, v: Seq<T>) requires is_cring::<T>() ensures lv(lins(n, w, l), v) == sp_add(sgx(n, wv(w, v)), lv(l, v)) decreases l
{
    match l {
        Li::E => {},
        Li::C(m, u, r) => {
            let c = wcmp(w, u); let x = sgx(n, wv(w, v)); let y = sgx(m, wv(u, v)); let z = lv(*r, v);
            if c == 0 && n != m {
                p_wcmp(w, u); let p = wv(w, v); r_neg(p); r_comm(p, sp_neg(p)); r_assoc(x, y, z); r_zero(z);
                assert(sp_add(x, y) == T::zero_spec());
            } else if c <= 0 {} else { p_lins(n, w, *r, v); r_assoc(y, x, z); r_assoc(x, y, z); r_comm(x, y); }
        },
    }
}
pub proof fn p_ladd<T: Neg<Output = T> + Num>(s: bool, a: Li, b: Li, v: Seq<T>) requires is_cring::<T>() ensures lv(ladd(s, a, b), v) == sp_add(sgx(s, lv(a, v)), lv(b, v)) decreases a
{
    match a {
        Li::E => { r_neg0::<T>(); r_zero(lv(b, v)); },
        Li::C(n, w, r) => {
            p_ladd(s, *r, b, v); p_lins(n != s, w, ladd(s, *r, b), v);
            let x = wv(w, v); let y = lv(*r, v);
            r_negadd(sgx(n, x), y); r_negneg(x); r_assoc(sgx(n != s, x), sgx(s, y), lv(b, v));
            assert(sgx(s, sp_add(sgx(n, x), y)) == sp_add(sgx(n != s, x), sgx(s, y)));
        },
    }
}
pub proof fn p_lmul1<T: Neg<Output = T> + Num>(n: bool, w: Wd, l: Li, acc: Li, v: Seq<T>) requires is_cring::<T>() ensures lv(lmul1(n, w, l, acc), v) == sp_add(sp_mul(sgx(n, wv(w, v)), lv(l, v)), lv(acc, v)) decreases l
{
    let x = wv(w, v);
    match l {
        Li::E => { r_mul0(sgx(n, x)); r_zero(lv(acc, v)); },
        Li::C(m, u, r) => {
            let y = wv(u, v); let z = lv(*r, v); let t = lmul1(n, w, *r, acc);
            p_lmul1(n, w, *r, acc, v); p_wcat(w, u, v); p_lins(n != m, wcat(w, u), t, v);
            r_distr(sgx(m, y), z, sgx(n, x)); r_negmul(x, y); r_negmul(x, sp_neg(y)); r_negneg(sp_mul(x, y));
            assert(sp_mul(sgx(n, x), sgx(m, y)) == sgx(n != m, sp_mul(x, y)));
            r_assoc(sgx(n != m, sp_mul(x, y)), sp_mul(sgx(n, x), z), lv(acc, v));
        },
    }
}
pub proof fn p_lmul<T: Neg<Output = T> + Num>(a: Li, b: Li, v: Seq<T>) requires is_cring::<T>() ensures lv(lmul(a, b), v) == sp_mul(lv(a, v), lv(b, v)) decreases a
{
    match a {
        Li::E => { r_mul0(lv(b, v)); },
        Li::C(n, w, r) => { p_lmul(*r, b, v); p_lmul1(n, w, b, lmul(*r, b), v); r_distr(sgx(n, wv(w, v)), lv(*r, v), lv(b, v)); },
    }
}
pub proof fn p_nf<T: Neg<Output = T> + Num>(e: Ex, v: Seq<T>) requires is_cring::<T>() ensures lv(nf(e), v) == ev(e, v) decreases e
{
    match e {
        Ex::V(i) => { r_one(v[i]); r_zero(v[i]); assert(wv(Wd::C(i, Box::new(Wd::E)), v) == sp_mul(v[i], wv(Wd::E, v))); assert(lv(Li::E, v) == T::zero_spec()); },
        Ex::Z => {},
        Ex::I => { r_zero(T::one_spec()); assert(lv(Li::E, v) == T::zero_spec()); },
        Ex::Add(a, b) => { p_nf(*a, v); p_nf(*b, v); p_ladd(false, nf(*a), nf(*b), v); },
        Ex::Sub(a, b) => { p_nf(*a, v); p_nf(*b, v); p_ladd(true, nf(*b), nf(*a), v); r_sub(ev(*a, v), ev(*b, v)); r_comm(ev(*a, v), sp_neg(ev(*b, v))); },
        Ex::Mul(a, b) => { p_nf(*a, v); p_nf(*b, v); p_lmul(nf(*a), nf(*b), v); },
        Ex::Neg(a) => { p_nf(*a, v); p_ladd(true, nf(*a), Li::E, v); r_zero(sp_neg(ev(*a, v))); assert(lv(Li::E, v) == T::zero_spec()); },
    }
}
// an identity holds when the difference of the two sides normalises to nothing
pub proof fn poly_eq<T: Neg<Output = T> + Num>(a: Ex, b: Ex, v: Seq<T>) requires is_cring::<T>(), nf(xs(a, b)) == Li::E ensures ev(a, v) == ev(b, v)
{
    p_nf(xs(a, b), v); let x = ev(a, v); let y = ev(b, v); assert(lv(Li::E, v) == T::zero_spec()); assert(ev(xs(a, b), v) == sp_sub(x, y));
    r_sub(x, y); r_comm(x, sp_neg(y)); r_neg_unique(sp_neg(y), x); r_negneg(y);
}
pub proof fn cr_tot<T: Neg<Output = T> + Num>() requires is_cring::<T>() ensures tot_vec::<T>(), tot_ring::<T>(), tot_neg::<T>(), T::obeys_zero(), T::obeys_one(), T::one_req() { reveal(is_ring); reveal(is_unit); reveal(has_sub); }
