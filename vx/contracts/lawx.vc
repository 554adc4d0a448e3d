### verbatim
// ------------------------------------------------ C16, C17: determinants of every size over a commutative ring
pub open spec fn sk(j: int, k: int) -> int { if k < j { k } else { k + 1 } }
pub open spec fn un(j: int, q: int) -> int { if q < j { q } else { q - 1 } }
pub open spec fn mi<T>(f: spec_fn(int, int) -> T, i: int, j: int) -> spec_fn(int, int) -> T { |a: int, b: int| f(sk(i, a), sk(j, b)) }
pub open spec fn tr<T>(f: spec_fn(int, int) -> T) -> spec_fn(int, int) -> T { |a: int, b: int| f(b, a) }
pub open spec fn dn<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T) -> T decreases n, n + 1 { if n <= 0 { T::one_spec() } else { ds(n, f, n) } }
pub open spec fn ds<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T, k: int) -> T decreases n, k {
    if k <= 0 || n <= 0 { T::zero_spec() } else { sp_add(ds(n, f, k - 1), sp_mul(f(0, k - 1), sgn(k - 1, dn(n - 1, mi(f, 0, k - 1))))) }
}
pub open spec fn dt<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T, j: int) -> T { sp_mul(f(0, j), sgn(j, dn(n - 1, mi(f, 0, j)))) }
pub proof fn ds_sg<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T, k: int) requires 0 < n
    ensures ds(n, f, k) == sg(k, |j: int| sp_mul(f(0, j), sgn(j, dn(n - 1, mi(f, 0, j))))) decreases k
{ if k > 0 { ds_sg(n, f, k - 1); let l = |j: int| sp_mul(f(0, j), sgn(j, dn(n - 1, mi(f, 0, j)))); assert(l(k - 1) == dt(n, f, k - 1)); assert(sg(k, l) == sp_add(sg(k - 1, l), l(k - 1))); } }
pub proof fn d_def<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T) requires 0 < n
    ensures dn(n, f) == sg(n, |j: int| sp_mul(f(0, j), sgn(j, dn(n - 1, mi(f, 0, j)))))
{ ds_sg(n, f, n); }
pub open spec fn cf<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T, i: int, j: int) -> T { sgn(i + j, dn(n - 1, mi(f, i, j))) }
pub open spec fn rx<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T, i: int) -> T { sg(n, |j: int| sp_mul(f(i, j), cf(n, f, i, j))) }
pub proof fn sgn_mul<T: Neg<Output = T> + Num>(k: int, c: T, x: T) requires is_cring::<T>() ensures sgn(k, sp_mul(c, x)) == sp_mul(c, sgn(k, x)) { r_negmul(c, x); }
pub proof fn sgn_sgn<T: Neg<Output = T> + Num>(k: int, l: int, x: T) requires is_cring::<T>() ensures sgn(k, sgn(l, x)) == sgn(k + l, x) { r_negneg(x); }
pub proof fn sgn_zero<T: Neg<Output = T> + Num>(k: int) requires is_cring::<T>() ensures sgn(k, T::zero_spec()) == T::zero_spec() { r_neg0::<T>(); }
// c (-1)^s sum g = sum c (-1)^s g
pub proof fn sg_in<T: Neg<Output = T> + Num>(n: int, c: T, s: int, g: spec_fn(int) -> T) requires is_cring::<T>()
    ensures sp_mul(c, sgn(s, sg(n, g))) == sg(n, |k: int| sp_mul(c, sgn(s, g(k)))) decreases n
{
    if n > 0 { sg_in(n - 1, c, s, g); let a = sg(n - 1, g); let b = g(n - 1); r_negadd(a, b); r_distr(sgn(s, a), sgn(s, b), c); } else { sgn_zero::<T>(s); r_mul0(c); }
}
// skipping a zero term
pub proof fn sg_skip<T: Neg<Output = T> + Num>(n: int, j: int, h: spec_fn(int) -> T) requires is_cring::<T>(), 0 <= j < n, h(j) == T::zero_spec()
    ensures sg(n - 1, |k: int| h(sk(j, k))) == sg(n, h) decreases n
{
    let g = |k: int| h(sk(j, k));
    if j == n - 1 { sg_ext(n - 1, g, h); r_zero(sg(n - 1, h)); } else { sg_skip(n - 1, j, h); }
}
pub proof fn sg_first<T: Neg<Output = T> + Num>(n: int, h: spec_fn(int) -> T) requires is_cring::<T>(), n > 0
    ensures sg(n, h) == sp_add(h(0), sg(n - 1, |k: int| h(k + 1))) decreases n
{
    let g = |k: int| h(k + 1);
    if n == 1 { r_zero(h(0)); assert(sg(1, h) == sp_add(sg(0, h), h(0))); } else { sg_first(n - 1, h); r_assoc(h(0), sg(n - 2, g), g(n - 2)); }
}
// two disjoint minors commute
pub proof fn mi_mi<T>(f: spec_fn(int, int) -> T, i: int, p: int, q: int) requires i > 0, p != q ensures mi(mi(f, 0, p), i - 1, un(p, q)) == mi(mi(f, i, q), 0, un(q, p))
{ assert(mi(mi(f, 0, p), i - 1, un(p, q)) =~= mi(mi(f, i, q), 0, un(q, p))); }
// the expansion along any row
pub proof fn d_row<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T, i: int) requires is_cring::<T>(), 0 <= i < n ensures dn(n, f) == rx(n, f, i) decreases n
{
    let z = T::zero_spec();
    let l = |p: int| sp_mul(f(0, p), sgn(p, dn(n - 1, mi(f, 0, p)))); let r = |q: int| sp_mul(f(i, q), cf(n, f, i, q));
    d_def(n, f);
    if i == 0 { sg_ext(n, l, r); } else {
        let x = |p: int, q: int| dn(n - 2, mi(mi(f, 0, p), i - 1, un(p, q)));
        let s = |p: int, q: int| i + p + q + (if p > q { 1int } else { 0int });
        let h = |p: int, q: int| if p == q { z } else { sp_mul(f(0, p), sp_mul(f(i, q), sgn(s(p, q), x(p, q)))) };
        let l2 = |p: int| sg(n, |q: int| h(p, q)); let r2 = |q: int| sg(n, |p: int| h(p, q));
        assert forall|p: int| 0 <= p < n implies #[trigger] l(p) == l2(p) by {
            let e = mi(f, 0, p); d_row(n - 1, e, i - 1);
            let g = |k: int| sp_mul(e(i - 1, k), cf(n - 1, e, i - 1, k)); let hp = |q: int| h(p, q);
            sg_in(n - 1, f(0, p), p, g); let g2 = |k: int| sp_mul(f(0, p), sgn(p, g(k))); let g3 = |k: int| hp(sk(p, k));
            assert forall|k: int| 0 <= k < n - 1 implies #[trigger] g2(k) == g3(k) by {
                let q = sk(p, k); assert(un(p, q) == k); let y = dn(n - 2, mi(e, i - 1, k)); assert(y == x(p, q));
                sgn_mul(p, e(i - 1, k), sgn(i - 1 + k, y)); sgn_sgn(p, i - 1 + k, y); assert(e(i - 1, k) == f(i, q)); assert((p + (i - 1 + k)) % 2 == s(p, q) % 2);
            }
            sg_ext(n - 1, g2, g3); sg_skip(n, p, hp);
        }
        assert forall|q: int| 0 <= q < n implies #[trigger] r(q) == r2(q) by {
            let e = mi(f, i, q);
            let g = |k: int| sp_mul(e(0, k), sgn(k, dn(n - 2, mi(e, 0, k)))); let hq = |p: int| h(p, q);
            d_def(n - 1, e); assert(dn(n - 1, e) == sg(n - 1, g));
            sg_in(n - 1, f(i, q), i + q, g); let g2 = |k: int| sp_mul(f(i, q), sgn(i + q, g(k))); let g3 = |k: int| hq(sk(q, k));
            assert forall|k: int| 0 <= k < n - 1 implies #[trigger] g2(k) == g3(k) by {
                let p = sk(q, k); assert(un(q, p) == k); let y = dn(n - 2, mi(e, 0, k)); mi_mi(f, i, p, q); assert(y == x(p, q));
                sgn_mul(i + q, e(0, k), sgn(k, y)); sgn_sgn(i + q, k, y); assert(e(0, k) == f(0, p)); assert((i + q + k) % 2 == s(p, q) % 2);
                let w = sgn(s(p, q), y); r_massoc(f(i, q), f(0, p), w); r_mcomm(f(i, q), f(0, p)); r_massoc(f(0, p), f(i, q), w);
            }
            sg_ext(n - 1, g2, g3); sg_skip(n, q, hq);
        }
        sg_ext(n, l, l2); sg_ext(n, r, r2); sg_swap(n, n, h);
    }
}
// the expansion along the first column
pub proof fn d_col0<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T) requires is_cring::<T>(), 0 < n
    ensures dn(n, f) == sg(n, |i: int| sp_mul(f(i, 0), sgn(i, dn(n - 1, mi(f, i, 0))))) decreases n
{
    let l = |p: int| sp_mul(f(0, p), sgn(p, dn(n - 1, mi(f, 0, p)))); let r = |i: int| sp_mul(f(i, 0), sgn(i, dn(n - 1, mi(f, i, 0))));
    d_def(n, f); sg_first(n, l); sg_first(n, r);
    let l1 = |p: int| l(p + 1); let r1 = |i: int| r(i + 1);
    let x = |i: int, p: int| dn(n - 2, mi(mi(f, 0, p + 1), i, 0));
    let h = |i: int, p: int| sp_mul(f(0, p + 1), sp_mul(f(i + 1, 0), sgn(i + p + 1, x(i, p))));
    let l2 = |p: int| sg(n - 1, |i: int| h(i, p)); let r2 = |i: int| sg(n - 1, |p: int| h(i, p));
    assert forall|p: int| 0 <= p < n - 1 implies #[trigger] l1(p) == l2(p) by {
        let e = mi(f, 0, p + 1); d_col0(n - 1, e);
        let g = |i: int| sp_mul(e(i, 0), sgn(i, dn(n - 2, mi(e, i, 0))));
        sg_in(n - 1, f(0, p + 1), p + 1, g); let g2 = |i: int| sp_mul(f(0, p + 1), sgn(p + 1, g(i))); let g3 = |i: int| h(i, p);
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] g2(i) == g3(i) by {
            let y = dn(n - 2, mi(e, i, 0)); sgn_mul(p + 1, e(i, 0), sgn(i, y)); sgn_sgn(p + 1, i, y); assert(e(i, 0) == f(i + 1, 0));
        }
        sg_ext(n - 1, g2, g3);
    }
    assert forall|i: int| 0 <= i < n - 1 implies #[trigger] r1(i) == r2(i) by {
        let e = mi(f, i + 1, 0);
        let g = |p: int| sp_mul(e(0, p), sgn(p, dn(n - 2, mi(e, 0, p))));
        d_def(n - 1, e); assert(dn(n - 1, e) == sg(n - 1, g));
        sg_in(n - 1, f(i + 1, 0), i + 1, g); let g2 = |p: int| sp_mul(f(i + 1, 0), sgn(i + 1, g(p))); let g3 = |p: int| h(i, p);
        assert forall|p: int| 0 <= p < n - 1 implies #[trigger] g2(p) == g3(p) by {
            let y = dn(n - 2, mi(e, 0, p)); assert(mi(e, 0, p) =~= mi(mi(f, 0, p + 1), i, 0)); sgn_mul(i + 1, e(0, p), sgn(p, y)); sgn_sgn(i + 1, p, y); assert(e(0, p) == f(0, p + 1));
            let w = sgn(i + p + 1, y); r_massoc(f(i + 1, 0), f(0, p + 1), w); r_mcomm(f(i + 1, 0), f(0, p + 1)); r_massoc(f(0, p + 1), f(i + 1, 0), w);
        }
        sg_ext(n - 1, g2, g3);
    }
    sg_ext(n - 1, l1, l2); sg_ext(n - 1, r1, r2); sg_swap(n - 1, n - 1, h);
    assert(l(0) == r(0));
}
pub proof fn d_tr<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T) requires is_cring::<T>() ensures dn(n, tr(f)) == dn(n, f) decreases n
{
    if n > 0 {
        d_col0(n, f); let g = tr(f); d_def(n, g);
        let l = |j: int| sp_mul(g(0, j), sgn(j, dn(n - 1, mi(g, 0, j)))); let r = |i: int| sp_mul(f(i, 0), sgn(i, dn(n - 1, mi(f, i, 0))));
        assert forall|j: int| 0 <= j < n implies #[trigger] l(j) == r(j) by { d_tr(n - 1, mi(f, j, 0)); assert(mi(g, 0, j) =~= tr(mi(f, j, 0))); }
        sg_ext(n, l, r);
    }
}
pub open spec fn eq_on<T>(n: int, f: spec_fn(int, int) -> T, g: spec_fn(int, int) -> T) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] f(i, j) == g(i, j) }
pub proof fn d_ext<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T, g: spec_fn(int, int) -> T) requires eq_on(n, f, g) ensures dn(n, f) == dn(n, g) decreases n
{
    if n > 0 {
        d_def(n, f); d_def(n, g);
        let l = |j: int| sp_mul(f(0, j), sgn(j, dn(n - 1, mi(f, 0, j)))); let r = |j: int| sp_mul(g(0, j), sgn(j, dn(n - 1, mi(g, 0, j))));
        assert forall|j: int| 0 <= j < n implies #[trigger] l(j) == r(j) by { d_ext(n - 1, mi(f, 0, j), mi(g, 0, j)); }
        sg_ext(n, l, r);
    }
}
// two equal rows
pub proof fn d_dup<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T, i: int, l: int)
    requires is_cring::<T>(), 0 <= i < l < n, forall|j: int| 0 <= j < n ==> #[trigger] f(i, j) == f(l, j) ensures dn(n, f) == T::zero_spec() decreases n
{
    if n == 2 {
        d_def(2, f);
        let a = f(0, 0); let b = f(0, 1); assert(f(0, 0) == f(1, 0) && f(0, 1) == f(1, 1));
        let t = |j: int| sp_mul(f(0, j), sgn(j, dn(1, mi(f, 0, j))));
        d_one(mi(f, 0, 0)); d_one(mi(f, 0, 1)); assert(t(0) == sp_mul(a, b) && t(1) == sp_mul(b, sp_neg(a)));
        assert(sg(2, t) == sp_add(sg(1, t), t(1))); assert(sg(1, t) == sp_add(sg(0, t), t(0))); r_zero(t(0));
        r_negmul(b, a); r_mcomm(a, b); r_neg(sp_mul(a, b));
    } else {
        let r = if i > 0 { 0int } else if l > 1 { 1int } else { 2int };
        d_row(n, f, r); let g = |j: int| sp_mul(f(r, j), cf(n, f, r, j));
        assert forall|j: int| 0 <= j < n implies #[trigger] g(j) == T::zero_spec() by {
            let e = mi(f, r, j); let (a, b) = (un(r, i), un(r, l));
            assert forall|k: int| 0 <= k < n - 1 implies #[trigger] e(a, k) == e(b, k) by { assert(f(i, sk(j, k)) == f(l, sk(j, k))); }
            d_dup(n - 1, e, a, b); sgn_zero::<T>(r + j); r_mul0(f(r, j));
        }
        sg_zero(n, g);
    }
}
pub proof fn d_one<T: Neg<Output = T> + Num>(f: spec_fn(int, int) -> T) requires is_cring::<T>() ensures dn(1, f) == f(0, 0)
{
    d_def(1, f); let t = |j: int| sp_mul(f(0, j), sgn(j, dn(0, mi(f, 0, j)))); assert(sg(1, t) == sp_add(sg(0, t), t(0))); r_zero(t(0)); r_one(f(0, 0)); assert(dn(0, mi(f, 0, 0)) == T::one_spec());
}
// sum_j f(l, j) C(i, j) is the determinant for l = i and zero otherwise
pub open spec fn ax<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T, l: int, i: int) -> T { sg(n, |j: int| sp_mul(f(l, j), cf(n, f, i, j))) }
pub proof fn d_alien<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T, l: int, i: int) requires is_cring::<T>(), 0 <= l < n, 0 <= i < n
    ensures ax(n, f, l, i) == if l == i { dn(n, f) } else { T::zero_spec() }
{
    d_row(n, f, i);
    if l != i {
        let g = |a: int, b: int| if a == i { f(l, b) } else { f(a, b) };
        d_row(n, g, i); let x = |j: int| sp_mul(f(l, j), cf(n, f, i, j)); let y = |j: int| sp_mul(g(i, j), cf(n, g, i, j));
        assert forall|j: int| 0 <= j < n implies #[trigger] x(j) == y(j) by { assert(mi(f, i, j) =~= mi(g, i, j)); }
        sg_ext(n, x, y);
        if l < i { d_dup(n, g, l, i); } else { d_dup(n, g, i, l); }
    }
}
pub proof fn cf_tr<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T, i: int, j: int) requires is_cring::<T>() ensures cf(n, tr(f), i, j) == cf(n, f, j, i)
{ d_tr(n - 1, mi(f, j, i)); assert(mi(tr(f), i, j) =~= tr(mi(f, j, i))); }
// sum_i f(i, l) C(i, j) is the determinant for l = j and zero otherwise
pub open spec fn ay<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T, l: int, j: int) -> T { sg(n, |i: int| sp_mul(f(i, l), cf(n, f, i, j))) }
pub proof fn d_aliencol<T: Neg<Output = T> + Num>(n: int, f: spec_fn(int, int) -> T, l: int, j: int) requires is_cring::<T>(), 0 <= l < n, 0 <= j < n
    ensures ay(n, f, l, j) == if l == j { dn(n, f) } else { T::zero_spec() }
{
    d_alien(n, tr(f), l, j); d_tr(n, f); let g = tr(f);
    let x = |i: int| sp_mul(f(i, l), cf(n, f, i, j)); let y = |i: int| sp_mul(g(l, i), cf(n, g, j, i));
    assert forall|i: int| 0 <= i < n implies #[trigger] x(i) == y(i) by { cf_tr(n, f, j, i); }
    sg_ext(n, x, y);
}
