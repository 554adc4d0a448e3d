### verbatim
// ------------------------------------------------ alternating multilinear forms: there is only one up to scale, so the determinant is multiplicative
pub open spec fn wr<T>(f: spec_fn(int, int) -> T, i: int, u: spec_fn(int) -> T) -> spec_fn(int, int) -> T { |a: int, b: int| if a == i { u(b) } else { f(a, b) } }
pub open spec fn row<T>(f: spec_fn(int, int) -> T, i: int) -> spec_fn(int) -> T { |b: int| f(i, b) }
pub open spec fn rad<T: Neg<Output = T> + Num>(u: spec_fn(int) -> T, v: spec_fn(int) -> T) -> spec_fn(int) -> T { |b: int| sp_add(u(b), v(b)) }
pub open spec fn rsc<T: Neg<Output = T> + Num>(c: T, u: spec_fn(int) -> T) -> spec_fn(int) -> T { |b: int| sp_mul(c, u(b)) }
pub open spec fn idf<T: Neg<Output = T> + Num>() -> spec_fn(int, int) -> T { |a: int, b: int| if a == b { T::one_spec() } else { T::zero_spec() } }
pub open spec fn same_rows<T>(n: int, f: spec_fn(int, int) -> T, i: int, l: int) -> bool { forall|b: int| 0 <= b < n ==> #[trigger] f(i, b) == f(l, b) }
#[verifier::opaque] pub open spec fn alt<T: Neg<Output = T> + Num>(n: int, ff: spec_fn(spec_fn(int, int) -> T) -> T) -> bool {
    (forall|f: spec_fn(int, int) -> T, g: spec_fn(int, int) -> T| #[trigger] eq_on(n, f, g) ==> ff(f) == ff(g))
    && (forall|f: spec_fn(int, int) -> T, i: int, u: spec_fn(int) -> T, v: spec_fn(int) -> T| 0 <= i < n ==> ff(#[trigger] wr(f, i, rad(u, v))) == sp_add(ff(wr(f, i, u)), ff(wr(f, i, v))))
    && (forall|f: spec_fn(int, int) -> T, i: int, c: T, u: spec_fn(int) -> T| 0 <= i < n ==> ff(#[trigger] wr(f, i, rsc(c, u))) == sp_mul(c, ff(wr(f, i, u))))
    && (forall|f: spec_fn(int, int) -> T, i: int, l: int| 0 <= i < l < n && #[trigger] same_rows(n, f, i, l) ==> ff(f) == T::zero_spec())
}
pub proof fn al_ext<T: Neg<Output = T> + Num>(n: int, ff: spec_fn(spec_fn(int, int) -> T) -> T, f: spec_fn(int, int) -> T, g: spec_fn(int, int) -> T) requires alt(n, ff), eq_on(n, f, g) ensures ff(f) == ff(g) { reveal(alt); }
pub proof fn al_add<T: Neg<Output = T> + Num>(n: int, ff: spec_fn(spec_fn(int, int) -> T) -> T, f: spec_fn(int, int) -> T, i: int, u: spec_fn(int) -> T, v: spec_fn(int) -> T)
    requires alt(n, ff), 0 <= i < n ensures ff(wr(f, i, rad(u, v))) == sp_add(ff(wr(f, i, u)), ff(wr(f, i, v))) { reveal(alt); }
pub proof fn al_scale<T: Neg<Output = T> + Num>(n: int, ff: spec_fn(spec_fn(int, int) -> T) -> T, f: spec_fn(int, int) -> T, i: int, c: T, u: spec_fn(int) -> T)
    requires alt(n, ff), 0 <= i < n ensures ff(wr(f, i, rsc(c, u))) == sp_mul(c, ff(wr(f, i, u))) { reveal(alt); }
pub proof fn al_dup<T: Neg<Output = T> + Num>(n: int, ff: spec_fn(spec_fn(int, int) -> T) -> T, f: spec_fn(int, int) -> T, i: int, l: int)
    requires alt(n, ff), 0 <= i < n, 0 <= l < n, i != l, same_rows(n, f, i, l) ensures ff(f) == T::zero_spec() { reveal(alt); if l < i { assert(same_rows(n, f, l, i)) by { assert forall|b: int| 0 <= b < n implies #[trigger] f(l, b) == f(i, b) by { assert(f(i, b) == f(l, b)); } } } }
pub proof fn al_addrow<T: Neg<Output = T> + Num>(n: int, ff: spec_fn(spec_fn(int, int) -> T) -> T, f: spec_fn(int, int) -> T, i: int, l: int, c: T)
    requires is_cring::<T>(), alt(n, ff), 0 <= i < n, 0 <= l < n, i != l ensures ff(wr(f, i, rad(row(f, i), rsc(c, row(f, l))))) == ff(f)
{
    let (u, v) = (row(f, i), row(f, l)); let w = rsc(c, v); al_add(n, ff, f, i, u, w); al_scale(n, ff, f, i, c, v);
    assert(wr(f, i, u) =~= f); al_dup(n, ff, wr(f, i, v), i, l); r_mul0(c); r_zero(ff(f));
}
pub proof fn al_swap<T: Neg<Output = T> + Num>(n: int, ff: spec_fn(spec_fn(int, int) -> T) -> T, f: spec_fn(int, int) -> T, i: int, l: int)
    requires is_cring::<T>(), alt(n, ff), 0 <= i < n, 0 <= l < n, i != l ensures ff(wr(wr(f, i, row(f, l)), l, row(f, i))) == sp_neg(ff(f))
{
    let (u, v) = (row(f, i), row(f, l)); let s = rad(u, v); let z = T::zero_spec();
    let fu = wr(f, i, u); let fv = wr(f, i, v); let fs = wr(f, i, s);
    let uu = wr(fu, l, u); let uv = wr(fu, l, v); let vu = wr(fv, l, u); let vv = wr(fv, l, v); let su = wr(fs, l, u); let sv = wr(fs, l, v); let ss = wr(fs, l, s);
    al_add(n, ff, fs, l, u, v);
    let (gu, gv) = (wr(f, l, u), wr(f, l, v));
    assert(su =~= wr(gu, i, s)); assert(sv =~= wr(gv, i, s)); assert(uu =~= wr(gu, i, u)); assert(vu =~= wr(gu, i, v)); assert(uv =~= wr(gv, i, u)); assert(vv =~= wr(gv, i, v));
    al_add(n, ff, gu, i, u, v); al_add(n, ff, gv, i, u, v);
    al_dup(n, ff, ss, i, l); al_dup(n, ff, uu, i, l); al_dup(n, ff, vv, i, l);
    assert(uv =~= f);
    r_zero(ff(vu)); r_zero(ff(f)); r_comm(ff(vu), ff(f)); r_neg_unique(ff(f), ff(vu));
}
// the value is linear in the first row
pub open spec fn part<T: Neg<Output = T> + Num>(u: spec_fn(int) -> T, k: int) -> spec_fn(int) -> T { |b: int| if b < k { u(b) } else { T::zero_spec() } }
pub open spec fn unit<T: Neg<Output = T> + Num>(j: int) -> spec_fn(int) -> T { |b: int| if b == j { T::one_spec() } else { T::zero_spec() } }
pub proof fn al_sum<T: Neg<Output = T> + Num>(n: int, ff: spec_fn(spec_fn(int, int) -> T) -> T, f: spec_fn(int, int) -> T, u: spec_fn(int) -> T, k: int)
    requires is_cring::<T>(), alt(n, ff), 0 <= k <= n, 0 < n ensures ff(wr(f, 0, part(u, k))) == sg(k, |j: int| sp_mul(u(j), ff(wr(f, 0, unit(j))))) decreases k
{
    let z = T::zero_spec();
    if k == 0 {
        let r = rsc(z, u); al_scale(n, ff, f, 0, z, u); r_mul0(ff(wr(f, 0, u)));
        assert(eq_on(n, wr(f, 0, part(u, 0)), wr(f, 0, r))) by { assert forall|b: int| 0 <= b implies #[trigger] r(b) == z by { r_mul0(u(b)); } }
        al_ext(n, ff, wr(f, 0, part(u, 0)), wr(f, 0, r));
    } else {
        let m = k - 1; al_sum(n, ff, f, u, m); let e = unit(m); let r = rsc(u(m), e); al_scale(n, ff, f, 0, u(m), e); let s = rad(part(u, m), r); al_add(n, ff, f, 0, part(u, m), r);
        assert(part(u, k) =~= s) by {
            assert forall|b: int| #[trigger] s(b) == part(u, k)(b) by { r_one(u(m)); r_mul0(u(m)); r_zero(part(u, m)(b)); r_zero(u(m)); r_zero(z); }
        }
        let h = |j: int| sp_mul(u(j), ff(wr(f, 0, unit(j)))); assert(sg(k, h) == sp_add(sg(m, h), h(m)));
    }
}
// a form on the smaller matrices: first row and column j of the identity put around them
pub open spec fn em<T: Neg<Output = T> + Num>(j: int, g: spec_fn(int, int) -> T) -> spec_fn(int, int) -> T {
    |a: int, b: int| if a == 0 { if b == j { T::one_spec() } else { T::zero_spec() } } else if b == j { T::zero_spec() } else { g(un(0, a), un(j, b)) }
}
pub open spec fn er<T: Neg<Output = T> + Num>(j: int, u: spec_fn(int) -> T) -> spec_fn(int) -> T { |b: int| if b == j { T::zero_spec() } else { u(un(j, b)) } }
pub open spec fn ef<T: Neg<Output = T> + Num>(ff: spec_fn(spec_fn(int, int) -> T) -> T, j: int) -> spec_fn(spec_fn(int, int) -> T) -> T { |g: spec_fn(int, int) -> T| ff(em(j, g)) }
pub proof fn em_wr<T: Neg<Output = T> + Num>(n: int, j: int, g: spec_fn(int, int) -> T, i: int, u: spec_fn(int) -> T) requires 0 <= i < n - 1 ensures eq_on(n, em(j, wr(g, i, u)), wr(em(j, g), i + 1, er(j, u))) {}
pub proof fn al_em<T: Neg<Output = T> + Num>(n: int, ff: spec_fn(spec_fn(int, int) -> T) -> T, j: int) requires is_cring::<T>(), alt(n, ff), 0 <= j < n ensures alt(n - 1, ef(ff, j))
{
    let gg = ef(ff, j); let z = T::zero_spec();
    assert forall|f: spec_fn(int, int) -> T, g: spec_fn(int, int) -> T| #[trigger] eq_on(n - 1, f, g) implies gg(f) == gg(g) by { assert(eq_on(n, em(j, f), em(j, g))); al_ext(n, ff, em(j, f), em(j, g)); }
    assert forall|f: spec_fn(int, int) -> T, i: int, u: spec_fn(int) -> T, v: spec_fn(int) -> T| 0 <= i < n - 1 implies gg(#[trigger] wr(f, i, rad(u, v))) == sp_add(gg(wr(f, i, u)), gg(wr(f, i, v))) by {
        let e = em(j, f); al_add(n, ff, e, i + 1, er(j, u), er(j, v)); r_zero(z);
        assert(er(j, rad(u, v)) =~= rad(er(j, u), er(j, v)));
        em_wr(n, j, f, i, u); em_wr(n, j, f, i, v); em_wr(n, j, f, i, rad(u, v));
        al_ext(n, ff, em(j, wr(f, i, u)), wr(e, i + 1, er(j, u))); al_ext(n, ff, em(j, wr(f, i, v)), wr(e, i + 1, er(j, v))); al_ext(n, ff, em(j, wr(f, i, rad(u, v))), wr(e, i + 1, er(j, rad(u, v))));
    }
    assert forall|f: spec_fn(int, int) -> T, i: int, c: T, u: spec_fn(int) -> T| 0 <= i < n - 1 implies gg(#[trigger] wr(f, i, rsc(c, u))) == sp_mul(c, gg(wr(f, i, u))) by {
        let e = em(j, f); al_scale(n, ff, e, i + 1, c, er(j, u)); r_mul0(c);
        assert(er(j, rsc(c, u)) =~= rsc(c, er(j, u)));
        em_wr(n, j, f, i, u); em_wr(n, j, f, i, rsc(c, u));
        al_ext(n, ff, em(j, wr(f, i, u)), wr(e, i + 1, er(j, u))); al_ext(n, ff, em(j, wr(f, i, rsc(c, u))), wr(e, i + 1, er(j, rsc(c, u))));
    }
    assert forall|f: spec_fn(int, int) -> T, i: int, l: int| 0 <= i < l < n - 1 && #[trigger] same_rows(n - 1, f, i, l) implies gg(f) == z by {
        let e = em(j, f);
        assert forall|b: int| 0 <= b < n implies #[trigger] e(i + 1, b) == e(l + 1, b) by { if b != j { assert(f(i, un(j, b)) == f(l, un(j, b))); } }
        al_dup(n, ff, e, i + 1, l + 1);
    }
    reveal(alt);
}
// clearing column j below the first row
pub open spec fn hc<T: Neg<Output = T> + Num>(f: spec_fn(int, int) -> T, j: int, k: int) -> spec_fn(int, int) -> T {
    |a: int, b: int| if a == 0 { if b == j { T::one_spec() } else { T::zero_spec() } } else if b == j && a < k { T::zero_spec() } else { f(a, b) }
}
pub proof fn al_clear<T: Neg<Output = T> + Num>(n: int, ff: spec_fn(spec_fn(int, int) -> T) -> T, f: spec_fn(int, int) -> T, j: int, k: int)
    requires is_cring::<T>(), alt(n, ff), 1 <= k <= n, 0 <= j < n ensures ff(hc(f, j, k)) == ff(wr(f, 0, unit(j))) decreases k
{
    if k == 1 { assert(eq_on(n, hc(f, j, 1), wr(f, 0, unit(j)))); al_ext(n, ff, hc(f, j, 1), wr(f, 0, unit(j))); } else {
        let i = k - 1; al_clear(n, ff, f, j, i); let h = hc(f, j, k); let c = f(i, j); al_addrow(n, ff, h, i, 0, c);
        let w = rad(row(h, i), rsc(c, row(h, 0)));
        assert forall|b: int| #[trigger] w(b) == f(i, b) by { r_one(c); r_mul0(c); r_zero(c); r_zero(f(i, b)); }
        assert(wr(h, i, w) =~= hc(f, j, i));
    }
}
pub proof fn al_emid<T: Neg<Output = T> + Num>(n: int, ff: spec_fn(spec_fn(int, int) -> T) -> T, j: int) requires is_cring::<T>(), alt(n, ff), 0 <= j < n
    ensures ff(em(j, idf::<T>())) == sgn(j, ff(idf::<T>())) decreases j
{
    let e = em(j, idf::<T>());
    if j == 0 { assert(eq_on(n, e, idf::<T>())); al_ext(n, ff, e, idf()); } else {
        let d = em(j - 1, idf::<T>()); al_emid(n, ff, j - 1); al_swap(n, ff, d, 0, j); let w = wr(wr(d, 0, row(d, j)), j, row(d, 0));
        assert(eq_on(n, e, w)); al_ext(n, ff, e, w); r_negneg(ff(idf()));
    }
}
pub proof fn al_unique<T: Neg<Output = T> + Num>(n: int, ff: spec_fn(spec_fn(int, int) -> T) -> T, f: spec_fn(int, int) -> T) requires is_cring::<T>(), alt(n, ff), 0 <= n
    ensures ff(f) == sp_mul(dn(n, f), ff(idf())) decreases n
{
    let d = ff(idf());
    if n == 0 { assert(eq_on(0, f, idf::<T>())); al_ext(n, ff, f, idf()); r_one(d); } else {
        let u = row(f, 0); al_sum(n, ff, f, u, n); assert(eq_on(n, f, wr(f, 0, part(u, n)))); al_ext(n, ff, f, wr(f, 0, part(u, n)));
        let l = |j: int| sp_mul(u(j), ff(wr(f, 0, unit(j)))); let t = |j: int| sp_mul(f(0, j), sgn(j, dn(n - 1, mi(f, 0, j)))); let r = |j: int| sp_mul(t(j), d);
        assert forall|j: int| 0 <= j < n implies #[trigger] l(j) == r(j) by {
            let m = mi(f, 0, j); let g = ef(ff, j); al_clear(n, ff, f, j, n); assert(eq_on(n, hc(f, j, n), em(j, m))); al_ext(n, ff, hc(f, j, n), em(j, m));
            al_em(n, ff, j); al_unique(n - 1, g, m); al_emid(n, ff, j); let x = dn(n - 1, m);
            assert(ff(wr(f, 0, unit(j))) == sp_mul(x, sgn(j, d))); r_negmul(x, d); r_massoc(u(j), sgn(j, x), d);
        }
        sg_ext(n, l, r); sg_mulr(n, d, t); d_def(n, f);
    }
}
// the determinant is such a form, also after multiplication with a fixed matrix
pub proof fn d_add<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T, i: int, u: spec_fn(int) -> T, v: spec_fn(int) -> T) requires is_cring::<T>(), 0 <= i < n
    ensures dn(n, wr(f, i, rad(u, v))) == sp_add(dn(n, wr(f, i, u)), dn(n, wr(f, i, v)))
{
    let (a, b, s) = (wr(f, i, u), wr(f, i, v), wr(f, i, rad(u, v))); d_row(n, a, i); d_row(n, b, i); d_row(n, s, i);
    let x = |j: int| sp_mul(a(i, j), cf(n, a, i, j)); let y = |j: int| sp_mul(b(i, j), cf(n, b, i, j)); let z = |j: int| sp_mul(s(i, j), cf(n, s, i, j)); let w = |j: int| sp_add(x(j), y(j));
    assert forall|j: int| 0 <= j < n implies #[trigger] z(j) == w(j) by { assert(mi(a, i, j) =~= mi(s, i, j)); assert(mi(b, i, j) =~= mi(s, i, j)); r_distr(u(j), v(j), cf(n, s, i, j)); }
    sg_ext(n, z, w); sg_add(n, x, y);
}
pub proof fn d_scale<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T, i: int, c: T, u: spec_fn(int) -> T) requires is_cring::<T>(), 0 <= i < n
    ensures dn(n, wr(f, i, rsc(c, u))) == sp_mul(c, dn(n, wr(f, i, u)))
{
    let (a, s) = (wr(f, i, u), wr(f, i, rsc(c, u))); d_row(n, a, i); d_row(n, s, i);
    let x = |j: int| sp_mul(a(i, j), cf(n, a, i, j)); let z = |j: int| sp_mul(s(i, j), cf(n, s, i, j)); let w = |j: int| sp_mul(c, x(j));
    assert forall|j: int| 0 <= j < n implies #[trigger] z(j) == w(j) by { assert(mi(a, i, j) =~= mi(s, i, j)); r_massoc(c, u(j), cf(n, s, i, j)); }
    sg_ext(n, z, w); sg_mull(n, c, x);
}
pub open spec fn dform<T: Neg<Output = T> + Num>(n: int) -> spec_fn(spec_fn(int, int) -> T) -> T { |f: spec_fn(int, int) -> T| dn(n, f) }
pub proof fn d_alt<T: Neg<Output = T> + Num>(n: int) requires is_cring::<T>() ensures alt(n, dform::<T>(n))
{
    let gg = dform::<T>(n);
    assert forall|f: spec_fn(int, int) -> T, g: spec_fn(int, int) -> T| #[trigger] eq_on(n, f, g) implies gg(f) == gg(g) by { d_ext(n, f, g); }
    assert forall|f: spec_fn(int, int) -> T, i: int, u: spec_fn(int) -> T, v: spec_fn(int) -> T| 0 <= i < n implies gg(#[trigger] wr(f, i, rad(u, v))) == sp_add(gg(wr(f, i, u)), gg(wr(f, i, v))) by { d_add(n, f, i, u, v); }
    assert forall|f: spec_fn(int, int) -> T, i: int, c: T, u: spec_fn(int) -> T| 0 <= i < n implies gg(#[trigger] wr(f, i, rsc(c, u))) == sp_mul(c, gg(wr(f, i, u))) by { d_scale(n, f, i, c, u); }
    assert forall|f: spec_fn(int, int) -> T, i: int, l: int| 0 <= i < l < n && #[trigger] same_rows(n, f, i, l) implies gg(f) == T::zero_spec() by { d_dup(n, f, i, l); }
    reveal(alt);
}
pub open spec fn mp<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T, g: spec_fn(int, int) -> T) -> spec_fn(int, int) -> T { |i: int, j: int| sg(n, |k: int| sp_mul(f(i, k), g(k, j))) }
pub open spec fn rp<T: Neg<Output = T> + Num>(n: int, u: spec_fn(int) -> T, g: spec_fn(int, int) -> T) -> spec_fn(int) -> T { |j: int| sg(n, |k: int| sp_mul(u(k), g(k, j))) }
pub open spec fn pform<T: Neg<Output = T> + Num>(n: int, g: spec_fn(int, int) -> T) -> spec_fn(spec_fn(int, int) -> T) -> T { |f: spec_fn(int, int) -> T| dn(n, mp(n, f, g)) }
pub proof fn mp_wr<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T, i: int, u: spec_fn(int) -> T, g: spec_fn(int, int) -> T) ensures mp(n, wr(f, i, u), g) =~= wr(mp(n, f, g), i, rp(n, u, g))
{
    let l = mp(n, wr(f, i, u), g); let r = wr(mp(n, f, g), i, rp(n, u, g));
    assert forall|a: int, j: int| #[trigger] l(a, j) == r(a, j) by {
        let x = |k: int| sp_mul(wr(f, i, u)(a, k), g(k, j)); let y = |k: int| sp_mul(u(k), g(k, j)); let w = |k: int| sp_mul(f(a, k), g(k, j));
        if a == i { assert(x =~= y); } else { assert(x =~= w); }
    }
}
pub proof fn p_alt<T: Neg<Output = T> + Num>(n: int, g: spec_fn(int, int) -> T) requires is_cring::<T>() ensures alt(n, pform(n, g))
{
    let gg = pform(n, g);
    assert forall|f: spec_fn(int, int) -> T, h: spec_fn(int, int) -> T| #[trigger] eq_on(n, f, h) implies gg(f) == gg(h) by {
        let (x, y) = (mp(n, f, g), mp(n, h, g));
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] x(i, j) == y(i, j) by { sg_ext(n, |k: int| sp_mul(f(i, k), g(k, j)), |k: int| sp_mul(h(i, k), g(k, j))); }
        d_ext(n, x, y);
    }
    assert forall|f: spec_fn(int, int) -> T, i: int, u: spec_fn(int) -> T, v: spec_fn(int) -> T| 0 <= i < n implies gg(#[trigger] wr(f, i, rad(u, v))) == sp_add(gg(wr(f, i, u)), gg(wr(f, i, v))) by {
        mp_wr(n, f, i, u, g); mp_wr(n, f, i, v, g); mp_wr(n, f, i, rad(u, v), g); d_add(n, mp(n, f, g), i, rp(n, u, g), rp(n, v, g));
        let (l, r) = (rp(n, rad(u, v), g), rad(rp(n, u, g), rp(n, v, g)));
        assert forall|j: int| #[trigger] l(j) == r(j) by {
            let x = |k: int| sp_mul(u(k), g(k, j)); let y = |k: int| sp_mul(v(k), g(k, j)); let s = |k: int| sp_mul(rad(u, v)(k), g(k, j)); let w = |k: int| sp_add(x(k), y(k));
            assert forall|k: int| 0 <= k < n implies #[trigger] s(k) == w(k) by { r_distr(u(k), v(k), g(k, j)); }
            sg_ext(n, s, w); sg_add(n, x, y);
        }
        assert(l =~= r);
    }
    assert forall|f: spec_fn(int, int) -> T, i: int, c: T, u: spec_fn(int) -> T| 0 <= i < n implies gg(#[trigger] wr(f, i, rsc(c, u))) == sp_mul(c, gg(wr(f, i, u))) by {
        mp_wr(n, f, i, u, g); mp_wr(n, f, i, rsc(c, u), g); d_scale(n, mp(n, f, g), i, c, rp(n, u, g));
        let (l, r) = (rp(n, rsc(c, u), g), rsc(c, rp(n, u, g)));
        assert forall|j: int| #[trigger] l(j) == r(j) by {
            let x = |k: int| sp_mul(u(k), g(k, j)); let s = |k: int| sp_mul(rsc(c, u)(k), g(k, j)); let w = |k: int| sp_mul(c, x(k));
            assert forall|k: int| 0 <= k < n implies #[trigger] s(k) == w(k) by { r_massoc(c, u(k), g(k, j)); }
            sg_ext(n, s, w); sg_mull(n, c, x);
        }
        assert(l =~= r);
    }
    assert forall|f: spec_fn(int, int) -> T, i: int, l: int| 0 <= i < l < n && #[trigger] same_rows(n, f, i, l) implies gg(f) == T::zero_spec() by {
        let x = mp(n, f, g);
        assert forall|j: int| 0 <= j < n implies #[trigger] x(i, j) == x(l, j) by { sg_ext(n, |k: int| sp_mul(f(i, k), g(k, j)), |k: int| sp_mul(f(l, k), g(k, j))); }
        d_dup(n, x, i, l);
    }
    reveal(alt);
}
pub proof fn d_mul<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T, g: spec_fn(int, int) -> T) requires is_cring::<T>(), 0 <= n ensures dn(n, mp(n, f, g)) == sp_mul(dn(n, f), dn(n, g))
{
    p_alt(n, g); al_unique(n, pform(n, g), f); let x = mp(n, idf(), g);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] x(i, j) == g(i, j) by {
        let e = idf::<T>(); let h = |k: int| sp_mul(e(i, k), g(k, j)); assert forall|k: int| 0 <= k < n && k != i implies #[trigger] h(k) == T::zero_spec() by { r_mul0(g(k, j)); }
        sg_single(n, i, h); r_one(g(i, j));
    }
    d_ext(n, x, g);
}
pub proof fn d_id<T: Neg<Output = T> + Num>(n: int) requires is_cring::<T>() ensures dn(n, idf::<T>()) == T::one_spec() decreases n
{
    if n > 0 {
        let e = idf::<T>(); d_def(n, e); let t = |j: int| sp_mul(e(0, j), sgn(j, dn(n - 1, mi(e, 0, j))));
        assert forall|j: int| 0 <= j < n && j != 0 implies #[trigger] t(j) == T::zero_spec() by { r_mul0(sgn(j, dn(n - 1, mi(e, 0, j)))); }
        sg_single(n, 0, t); d_id::<T>(n - 1); assert(mi(e, 0, 0) =~= e); r_one(T::one_spec());
    }
}
pub proof fn d_swap<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T, i: int, l: int) requires is_cring::<T>(), 0 <= i < n, 0 <= l < n, i != l
    ensures dn(n, wr(wr(f, i, row(f, l)), l, row(f, i))) == sp_neg(dn(n, f))
{ d_alt::<T>(n); al_swap(n, dform::<T>(n), f, i, l); }
