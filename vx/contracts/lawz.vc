### verbatim
// ------------------------------------------------ C16, C17: the laws of det, adj and inv for every size
pub open spec fn fm<T, const N: usize>(a: Matrix<T, N, N>) -> spec_fn(int, int) -> T { |i: int, j: int| a.data@[i]@[j] }
pub open spec fn fs<T, const N: usize>(a: Matrix<T, N, N>, r: Seq<int>, c: Seq<int>) -> spec_fn(int, int) -> T { |i: int, j: int| a.data@[r[i]]@[c[j]] }
pub proof fn ldet_dn<T: Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>, r: Seq<int>, c: Seq<int>) requires r.len() == c.len() ensures ldet(a, r, c) == dn(r.len() as int, fs(a, r, c)) decreases r.len(), r.len() + 1
{ if r.len() > 0 { lsum_ds(a, r, c, c.len()); } }
pub proof fn lsum_ds<T: Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>, r: Seq<int>, c: Seq<int>, k: nat) requires r.len() == c.len(), k <= c.len(), r.len() > 0
    ensures lsum(a, r, c, k) == ds(r.len() as int, fs(a, r, c), k as int) decreases r.len(), k
{
    if k > 0 {
        lsum_ds(a, r, c, (k - 1) as nat); let j = k - 1; let n = r.len() as int; let (r2, c2) = (r.drop_first(), c.remove(j)); ldet_dn(a, r2, c2);
        let (x, y) = (fs(a, r2, c2), mi(fs(a, r, c), 0, j)); assert(eq_on(n - 1, x, y)); d_ext(n - 1, x, y);
        assert(ldet(a, r2, c2) == dn(n - 1, y)); assert(fs(a, r, c)(0, j) == a.data@[r[0]]@[c[j]]);
        assert(dt(n, fs(a, r, c), j) == sp_mul(a.data@[r[0]]@[c[j]], sgn(j, ldet(a, r2, c2))));
        assert(lsum(a, r, c, k) == sp_add(lsum(a, r, c, (k - 1) as nat), sp_mul(a.data@[r[0]]@[c[j]], sgn(j, ldet(a, r2, c2)))));
    }
}
pub proof fn det_dn<T: Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>) ensures det_spec(a) == dn(N as int, fm(a))
{ ldet_dn(a, idx(N), idx(N)); assert(eq_on(N as int, fs(a, idx(N), idx(N)), fm(a))); d_ext(N as int, fs(a, idx(N), idx(N)), fm(a)); }
pub proof fn cof_cf<T: Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>, i: int, j: int) requires 0 <= i < N, 0 <= j < N ensures cof_spec(a, i, j) == cf(N as int, fm(a), i, j)
{
    let (r, c) = (idx(N).remove(i), idx(N).remove(j)); ldet_dn(a, r, c); let n = N - 1; let (x, y) = (fs(a, r, c), mi(fm(a), i, j));
    assert(eq_on(n, x, y)); d_ext(n, x, y);
}
// products
pub open spec fn mmx<T: Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>, b: Matrix<T, N, N>) -> Matrix<T, N, N> { mk_mat::<T, N, N>(mp(N as int, fm(a), fm(b))) }
pub open spec fn mid<T: Neg<Output = T> + Num, const N: usize>() -> Matrix<T, N, N> { mk_mat::<T, N, N>(idf::<T>()) }
pub proof fn mmx_is<T: Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>, b: Matrix<T, N, N>, p: Matrix<T, N, N>)
    requires is_cring::<T>(), N >= 1, forall|i: int, j: int| 0 <= i < N && 0 <= j < N ==> #[trigger] p.data@[i]@[j] == vdot(a.data@[i]@, colq(b, j)) ensures p == mmx(a, b)
{
    let q = mmx(a, b);
    assert forall|i: int, j: int| 0 <= i < N && 0 <= j < N implies #[trigger] p.data@[i]@[j] == q.data@[i]@[j] by {
        let (u, v) = (a.data@[i]@, colq(b, j)); vdot_sg(u, v); sg_ext(N as int, |k: int| sp_mul(u[k], v[k]), |k: int| sp_mul(fm(a)(i, k), fm(b)(k, j)));
    }
    mat_ext(p, q);
}
pub proof fn mmx_at<T: Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>, b: Matrix<T, N, N>, i: int, j: int) requires 0 <= i < N, 0 <= j < N ensures mmx(a, b).data@[i]@[j] == mp(N as int, fm(a), fm(b))(i, j) {}
pub proof fn mmx_assoc<T: Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>, b: Matrix<T, N, N>, c: Matrix<T, N, N>) requires is_cring::<T>() ensures mmx(mmx(a, b), c) == mmx(a, mmx(b, c))
{
    let n = N as int; let (ab, bc) = (mmx(a, b), mmx(b, c)); let (l, r) = (mmx(ab, c), mmx(a, bc));
    assert forall|i: int, j: int| 0 <= i < N && 0 <= j < N implies #[trigger] l.data@[i]@[j] == r.data@[i]@[j] by {
        let fa = |k: int| fm(a)(i, k); let fb = fm(b); let fc = |m: int| fm(c)(m, j); sg_assoc(n, n, fa, fb, fc);
        let l1 = |m: int| sp_mul(fm(ab)(i, m), fm(c)(m, j)); let l2 = |m: int| sp_mul(sg(n, |k: int| sp_mul(fa(k), fb(k, m))), fc(m));
        assert forall|m: int| 0 <= m < n implies #[trigger] l1(m) == l2(m) by { mmx_at(a, b, i, m); sg_ext(n, |k: int| sp_mul(fm(a)(i, k), fm(b)(k, m)), |k: int| sp_mul(fa(k), fb(k, m))); }
        sg_ext(n, l1, l2);
        let r1 = |k: int| sp_mul(fm(a)(i, k), fm(bc)(k, j)); let r2 = |k: int| sp_mul(fa(k), sg(n, |m: int| sp_mul(fb(k, m), fc(m))));
        assert forall|k: int| 0 <= k < n implies #[trigger] r1(k) == r2(k) by { mmx_at(b, c, k, j); sg_ext(n, |m: int| sp_mul(fm(b)(k, m), fm(c)(m, j)), |m: int| sp_mul(fb(k, m), fc(m))); }
        sg_ext(n, r1, r2); mmx_at(ab, c, i, j); mmx_at(a, bc, i, j);
    }
    mat_ext(l, r);
}
pub proof fn mmx_one<T: Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>) requires is_cring::<T>() ensures mmx(mid(), a) == a, mmx(a, mid()) == a
{
    let n = N as int; let e = mid::<T, N>(); let (l, r) = (mmx(e, a), mmx(a, e));
    assert forall|i: int, j: int| 0 <= i < N && 0 <= j < N implies #[trigger] l.data@[i]@[j] == a.data@[i]@[j] by {
        let h = |k: int| sp_mul(fm(e)(i, k), fm(a)(k, j)); assert forall|k: int| 0 <= k < n && k != i implies #[trigger] h(k) == T::zero_spec() by { r_mul0(fm(a)(k, j)); }
        sg_single(n, i, h); r_one(a.data@[i]@[j]); mmx_at(e, a, i, j);
    }
    assert forall|i: int, j: int| 0 <= i < N && 0 <= j < N implies #[trigger] r.data@[i]@[j] == a.data@[i]@[j] by {
        let h = |k: int| sp_mul(fm(a)(i, k), fm(e)(k, j)); assert forall|k: int| 0 <= k < n && k != j implies #[trigger] h(k) == T::zero_spec() by { r_mul0(fm(a)(i, k)); }
        sg_single(n, j, h); r_one(a.data@[i]@[j]); mmx_at(a, e, i, j);
    }
    mat_ext(l, a); mat_ext(r, a);
}
pub proof fn det_mmx<T: Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>, b: Matrix<T, N, N>) requires is_cring::<T>() ensures det_spec(mmx(a, b)) == sp_mul(det_spec(a), det_spec(b))
{
    let n = N as int; let p = mmx(a, b); det_dn(p); det_dn(a); det_dn(b); d_mul(n, fm(a), fm(b)); let x = mp(n, fm(a), fm(b));
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] fm(p)(i, j) == x(i, j) by { mmx_at(a, b, i, j); }
    d_ext(n, fm(p), x);
}
pub proof fn det_mid<T: Neg<Output = T> + Num, const N: usize>() requires is_cring::<T>() ensures det_spec(mid::<T, N>()) == T::one_spec()
{ let e = mid::<T, N>(); det_dn(e); assert(eq_on(N as int, fm(e), idf::<T>())); d_ext(N as int, fm(e), idf::<T>()); d_id::<T>(N as int); }
pub open spec fn mdiag<T: Neg<Output = T> + Num, const N: usize>(d: T) -> Matrix<T, N, N> { mk_mat::<T, N, N>(|i: int, j: int| if i == j { d } else { T::zero_spec() }) }
pub proof fn adj_mmx<T: Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>) requires is_cring::<T>() ensures mmx(a, adj_spec(a)) == mdiag::<T, N>(det_spec(a)), mmx(adj_spec(a), a) == mdiag::<T, N>(det_spec(a))
{
    let n = N as int; let q = adj_spec(a); let f = fm(a); let (l, r, e) = (mmx(a, q), mmx(q, a), mdiag::<T, N>(det_spec(a))); det_dn(a);
    assert forall|i: int, j: int| 0 <= i < N && 0 <= j < N implies #[trigger] l.data@[i]@[j] == e.data@[i]@[j] by {
        let x = |k: int| sp_mul(f(i, k), fm(q)(k, j)); let y = |k: int| sp_mul(f(i, k), cf(n, f, j, k));
        assert forall|k: int| 0 <= k < n implies #[trigger] x(k) == y(k) by { cof_cf(a, j, k); }
        sg_ext(n, x, y); d_alien(n, f, i, j); mmx_at(a, q, i, j);
    }
    assert forall|i: int, j: int| 0 <= i < N && 0 <= j < N implies #[trigger] r.data@[i]@[j] == e.data@[i]@[j] by {
        let x = |k: int| sp_mul(fm(q)(i, k), f(k, j)); let y = |k: int| sp_mul(f(k, j), cf(n, f, k, i));
        assert forall|k: int| 0 <= k < n implies #[trigger] x(k) == y(k) by { cof_cf(a, k, i); r_mcomm(f(k, j), cf(n, f, k, i)); }
        sg_ext(n, x, y); d_aliencol(n, f, j, i); mmx_at(q, a, i, j);
    }
    mat_ext(l, e); mat_ext(r, e);
}
pub proof fn inv_mmx<T: Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>) requires is_field::<T>(), det_spec(a) != T::zero_spec() ensures mmx(a, inv_spec(a)) == mid::<T, N>(), mmx(inv_spec(a), a) == mid::<T, N>()
{
    let n = N as int; let (q, v) = (adj_spec(a), inv_spec(a)); let d = det_spec(a); let y = rcp(d); let f = fm(a); let (l, r, e) = (mmx(a, v), mmx(v, a), mid::<T, N>()); adj_mmx(a); f_rcp(d); r_mul0(y);
    let (lq, rq, ed) = (mmx(a, q), mmx(q, a), mdiag::<T, N>(d));
    assert forall|i: int, j: int| 0 <= i < N && 0 <= j < N implies #[trigger] l.data@[i]@[j] == e.data@[i]@[j] by {
        let g = |k: int| sp_mul(f(i, k), fm(q)(k, j)); let x = |k: int| sp_mul(f(i, k), fm(v)(k, j)); let w = |k: int| sp_mul(g(k), y);
        assert forall|k: int| 0 <= k < n implies #[trigger] x(k) == w(k) by { f_div(cof_spec(a, j, k), d); r_massoc(f(i, k), fm(q)(k, j), y); }
        sg_ext(n, x, w); sg_mulr(n, y, g); mmx_at(a, q, i, j); mmx_at(a, v, i, j); assert(lq.data@[i]@[j] == ed.data@[i]@[j]);
    }
    assert forall|i: int, j: int| 0 <= i < N && 0 <= j < N implies #[trigger] r.data@[i]@[j] == e.data@[i]@[j] by {
        let g = |k: int| sp_mul(fm(q)(i, k), f(k, j)); let x = |k: int| sp_mul(fm(v)(i, k), f(k, j)); let w = |k: int| sp_mul(g(k), y);
        assert forall|k: int| 0 <= k < n implies #[trigger] x(k) == w(k) by { let c = fm(q)(i, k); f_div(c, d); r_massoc(c, y, f(k, j)); r_mcomm(y, f(k, j)); r_massoc(c, f(k, j), y); }
        sg_ext(n, x, w); sg_mulr(n, y, g); mmx_at(q, a, i, j); mmx_at(v, a, i, j); assert(rq.data@[i]@[j] == ed.data@[i]@[j]);
    }
    mat_ext(l, e); mat_ext(r, e);
}
// a left inverse and a right inverse are equal
pub proof fn inv_same<T: Neg<Output = T> + Num, const N: usize>(l: Matrix<T, N, N>, a: Matrix<T, N, N>, r: Matrix<T, N, N>) requires is_cring::<T>(), mmx(l, a) == mid::<T, N>(), mmx(a, r) == mid::<T, N>() ensures l == r
{ mmx_assoc(l, a, r); mmx_one(l); mmx_one(r); }
pub fn law_adjugate<T: Copy + Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>) requires is_cring::<T>(), 1 <= N <= usize::MAX / 2, N * N <= usize::MAX
{
    proof { cr_tot::<T>(); }
    let d = a.det(); let q = a.adj(); let l = a.dot(q); let r = q.dot(a);
    proof { mmx_is(a, q, l); mmx_is(q, a, r); adj_mmx(a); let e = mdiag::<T, N>(d); assert(l == e && r == e); assert(forall|i: int, j: int| 0 <= i < N && 0 <= j < N ==> #[trigger] l.data@[i]@[j] == if i == j { d } else { T::zero_spec() }); }
}
pub fn law_determinant<T: Copy + Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>, b: Matrix<T, N, N>) requires is_cring::<T>(), 1 <= N <= usize::MAX / 2, N * N <= usize::MAX
{
    proof { cr_tot::<T>(); }
    let p = a.dot(b); let dp = p.det(); let da = a.det(); let db = b.det();
    proof { mmx_is(a, b, p); det_mmx(a, b); assert(dp == sp_mul(da, db)); }
    let t = a.transpose(); let dt = t.det();
    proof { det_dn(a); det_dn(t); d_tr(N as int, fm(a)); assert(eq_on(N as int, fm(t), tr(fm(a)))); d_ext(N as int, fm(t), tr(fm(a))); assert(dt == da); }
    let e: Matrix<T, N, N> = Matrix::<T, N, N>::one(); let de = e.det();
    proof { mat_ext(e, mid::<T, N>()); det_mid::<T, N>(); assert(de == T::one_spec()); }
}
pub fn law_determinant_rows<T: Copy + Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>, b: Matrix<T, N, N>, c: Matrix<T, N, N>, x: Vector<T, N>, i: usize, l: usize)
    requires is_cring::<T>(), 1 <= N <= usize::MAX / 2, N * N <= usize::MAX, i < N, l < N, i != l,
        // b is a with rows i and l exchanged
        forall|r: int, j: int| 0 <= r < N && 0 <= j < N ==> #[trigger] b.data@[r]@[j] == a.data@[if r == i { l as int } else if r == l { i as int } else { r }]@[j],
{
    proof { cr_tot::<T>(); }
    let n: Ghost<int> = Ghost(N as int);
    let da = a.det(); let db = b.det(); let dc = c.det(); let y = x.dot(c);
    proof {
        let n = N as int; det_dn(a); det_dn(b); det_dn(c); let (i, l) = (i as int, l as int); let f = fm(a); d_swap(n, f, i, l); let w = wr(wr(f, i, row(f, l)), l, row(f, i));
        assert(eq_on(n, fm(b), w)); d_ext(n, fm(b), w); assert(db == sp_neg(da));
        if forall|j: int| 0 <= j < N ==> #[trigger] c.data@[i]@[j] == c.data@[l]@[j] {
            let g = fm(c); assert forall|j: int| 0 <= j < n implies #[trigger] g(i, j) == g(l, j) by { assert(c.data@[i]@[j] == c.data@[l]@[j]); }
            if i < l { d_dup(n, g, i, l); } else { assert forall|j: int| 0 <= j < n implies #[trigger] g(l, j) == g(i, j) by { assert(g(i, j) == g(l, j)); } d_dup(n, g, l, i); }
            assert(dc == T::zero_spec());
        }
        // dependent rows
        if forall|j: int| 0 <= j < N ==> #[trigger] y@[j] == T::zero_spec() {
            assert forall|m: int| 0 <= m < N implies #[trigger] sp_mul(x@[m], dc) == T::zero_spec() by { d_dep(c, x@, m, y@); }
        }
    }
}
pub proof fn d_dep<T: Neg<Output = T> + Num, const N: usize>(c: Matrix<T, N, N>, x: Seq<T>, m: int, y: Seq<T>)
    requires is_cring::<T>(), x.len() == N, 0 <= m < N, forall|j: int| 0 <= j < N ==> #[trigger] y[j] == T::zero_spec(), forall|j: int| 0 <= j < N ==> #[trigger] y[j] == vdot(x, colq(c, j)) ensures sp_mul(x[m], det_spec(c)) == T::zero_spec()
{
    let n = N as int; let g = fm(c); det_dn(c); let fa = |k: int| x[k]; let fc = |j: int| cf(n, g, m, j); sg_assoc(n, n, fa, g, fc);
    let l = |j: int| sp_mul(sg(n, |k: int| sp_mul(fa(k), g(k, j))), fc(j));
    assert forall|j: int| 0 <= j < n implies #[trigger] l(j) == T::zero_spec() by {
        let v = colq(c, j); vdot_sg(x, v); sg_ext(n, |k: int| sp_mul(x[k], v[k]), |k: int| sp_mul(fa(k), g(k, j))); assert(y[j] == vdot(x, v)); r_mul0(fc(j));
    }
    sg_zero(n, l);
    let r = |k: int| sp_mul(fa(k), sg(n, |j: int| sp_mul(g(k, j), fc(j))));
    assert forall|k: int| 0 <= k < n implies #[trigger] r(k) == sp_mul(x[k], if k == m { dn(n, g) } else { T::zero_spec() }) by {
        d_alien(n, g, k, m); sg_ext(n, |j: int| sp_mul(g(k, j), fc(j)), |j: int| sp_mul(g(k, j), cf(n, g, m, j)));
    }
    assert forall|k: int| 0 <= k < n && k != m implies #[trigger] r(k) == T::zero_spec() by { r_mul0(x[k]); }
    sg_single(n, m, r);
}
pub fn law_inverse<T: Copy + Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>, b: Matrix<T, N, N>) requires is_field::<T>(), 1 <= N <= usize::MAX / 2, N * N <= usize::MAX
{
    proof { cr_tot::<T>(); f_tot::<T>(); }
    let da = a.det(); let db = b.det(); let e: Matrix<T, N, N> = Matrix::<T, N, N>::one();
    let v = Matrix::<T, N, N>::inv(&a); let l = a.dot(v); let r = v.dot(a); let dv = v.det(); let w = Matrix::<T, N, N>::inv(&v);
    let s = <Matrix<T, N, N> as Inv>::inv(a);
    let u = Matrix::<T, N, N>::inv(&b); let p = a.dot(b); let pi = Matrix::<T, N, N>::inv(&p); let q = u.dot(v);
    proof {
        assert(s == v);
        mat_ext(e, mid::<T, N>()); mmx_is(a, v, l); mmx_is(v, a, r); mmx_is(a, b, p); mmx_is(u, v, q); det_mid::<T, N>(); let (z, o) = (T::zero_spec(), T::one_spec());
        assert(o != z) by { reveal(has_div); }
        if da != z {
            inv_mmx(a); assert(l == e && r == e);
            det_mmx(v, a); r_mul0(da); assert(dv != z);
            inv_mmx(v); inv_same(w, v, a); assert(w == a);
        }
        if da != z && db != z {
            det_mmx(a, b); if det_spec(p) == z { f_nonzero(da, db); }
            inv_mmx(b); inv_mmx(p);
            mmx_assoc(p, u, v); mmx_assoc(a, b, u); mmx_one(a); assert(mmx(p, q) == e);
            inv_same(pi, p, q); assert(pi == q);
        }
    }
}
