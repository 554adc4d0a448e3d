### verbatim
// ------------------------------------------------ C14: laws of the products, for every shape with a nonzero inner dimension and every ring
pub open spec fn mapd<T: Zero + Mul<Output = T>, const L: usize, const M: usize>(a: Seq<T>, b: Matrix<T, L, M>) -> Seq<T> { Seq::new(M as nat, |j: int| vdot(a, colq(b, j))) }
pub open spec fn mapr<T: Zero + Mul<Output = T>, const L: usize, const M: usize>(b: Matrix<T, L, M>, c: Seq<T>) -> Seq<T> { Seq::new(L as nat, |k: int| vdot(b.data@[k]@, c)) }
pub proof fn dot_assoc<T: Zero + Mul<Output = T>, const L: usize, const M: usize>(a: Seq<T>, b: Matrix<T, L, M>, c: Seq<T>)
    requires is_ring::<T>(), L >= 1, M >= 1, a.len() == L, c.len() == M,
    ensures vdot(mapd(a, b), c) == vdot(a, mapr(b, c)),
{
    let l = mapd(a, b); let r = mapr(b, c);
    let fa = |k: int| a[k]; let fb = |k: int, j: int| b.data@[k]@[j]; let fc = |j: int| c[j];
    vdot_sg(l, c); vdot_sg(a, r); sg_assoc(L as int, M as int, fa, fb, fc);
    let l1 = |j: int| sp_mul(l[j], c[j]); let l2 = |j: int| sp_mul(sg(L as int, |k: int| sp_mul(fa(k), fb(k, j))), fc(j));
    let r1 = |k: int| sp_mul(a[k], r[k]); let r2 = |k: int| sp_mul(fa(k), sg(M as int, |j: int| sp_mul(fb(k, j), fc(j))));
    assert forall|j: int| 0 <= j < M implies #[trigger] l1(j) == l2(j) by {
        vdot_sg(a, colq(b, j)); sg_ext(L as int, |k: int| sp_mul(a[k], colq(b, j)[k]), |k: int| sp_mul(fa(k), fb(k, j)));
    }
    sg_ext(M as int, l1, l2);
    assert forall|k: int| 0 <= k < L implies #[trigger] r1(k) == r2(k) by {
        vdot_sg(b.data@[k]@, c); sg_ext(M as int, |j: int| sp_mul(b.data@[k]@[j], c[j]), |j: int| sp_mul(fb(k, j), fc(j)));
    }
    sg_ext(L as int, r1, r2);
}
pub proof fn dot_addr<T: Zero + Mul<Output = T>>(a: Seq<T>, b: Seq<T>, c: Seq<T>) requires is_ring::<T>(), a.len() >= 1, b.len() == a.len(), c.len() == a.len()
    ensures vdot(a, Seq::new(a.len(), |i: int| sp_add(b[i], c[i]))) == sp_add(vdot(a, b), vdot(a, c))
{
    let s = Seq::new(a.len(), |i: int| sp_add(b[i], c[i])); let n = a.len() as int;
    vdot_sg(a, s); vdot_sg(a, b); vdot_sg(a, c);
    let f = |i: int| sp_mul(a[i], s[i]); let g = |i: int| sp_mul(a[i], b[i]); let h = |i: int| sp_mul(a[i], c[i]);
    assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == sp_add(g(i), h(i)) by { r_distr(b[i], c[i], a[i]); }
    sg_ext(n, f, |i: int| sp_add(g(i), h(i))); sg_add(n, g, h);
}
pub proof fn dot_addl<T: Zero + Mul<Output = T>>(b: Seq<T>, c: Seq<T>, a: Seq<T>) requires is_ring::<T>(), a.len() >= 1, b.len() == a.len(), c.len() == a.len()
    ensures vdot(Seq::new(a.len(), |i: int| sp_add(b[i], c[i])), a) == sp_add(vdot(b, a), vdot(c, a))
{
    let s = Seq::new(a.len(), |i: int| sp_add(b[i], c[i])); let n = a.len() as int;
    vdot_sg(s, a); vdot_sg(b, a); vdot_sg(c, a);
    let f = |i: int| sp_mul(s[i], a[i]); let g = |i: int| sp_mul(b[i], a[i]); let h = |i: int| sp_mul(c[i], a[i]);
    assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == sp_add(g(i), h(i)) by { r_distr(b[i], c[i], a[i]); }
    sg_ext(n, f, |i: int| sp_add(g(i), h(i))); sg_add(n, g, h);
}
// a row or column of the identity picks one entry
pub proof fn dot_unitl<T: Zero + One>(e: Seq<T>, k: int, b: Seq<T>) requires is_ring::<T>(), is_unit::<T>(), 0 <= k < e.len(), e.len() == b.len(), forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] == if i == k { T::one_spec() } else { T::zero_spec() }
    ensures vdot(e, b) == b[k]
{
    vdot_sg(e, b); let f = |i: int| sp_mul(e[i], b[i]);
    assert forall|i: int| 0 <= i < e.len() && i != k implies #[trigger] f(i) == T::zero_spec() by { r_mul0(b[i]); }
    sg_single(e.len() as int, k, f); r_one(b[k]);
}
pub proof fn dot_unitr<T: Zero + One>(b: Seq<T>, e: Seq<T>, k: int) requires is_ring::<T>(), is_unit::<T>(), 0 <= k < e.len(), e.len() == b.len(), forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] == if i == k { T::one_spec() } else { T::zero_spec() }
    ensures vdot(b, e) == b[k]
{
    vdot_sg(b, e); let f = |i: int| sp_mul(b[i], e[i]);
    assert forall|i: int| 0 <= i < e.len() && i != k implies #[trigger] f(i) == T::zero_spec() by { r_mul0(b[i]); }
    sg_single(e.len() as int, k, f); r_one(b[k]);
}
pub proof fn dot_rev<T: Zero + Mul<Output = T>>(a: Seq<T>, b: Seq<T>) requires is_ring::<T>(), is_comm::<T>(), a.len() >= 1, b.len() == a.len() ensures vdot(a, b) == vdot(b, a)
{
    vdot_sg(a, b); vdot_sg(b, a); let f = |i: int| sp_mul(a[i], b[i]); let g = |i: int| sp_mul(b[i], a[i]);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] f(i) == g(i) by { r_mcomm(a[i], b[i]); }
    sg_ext(a.len() as int, f, g);
}
// the laws, stated on what the functions of the crate return
pub fn law_product_assoc<T: Copy + Zero + Mul<Output = T>, const K: usize, const L: usize, const M: usize, const N: usize>(a: Matrix<T, K, L>, b: Matrix<T, L, M>, c: Matrix<T, M, N>)
    requires is_ring::<T>(), L >= 1, M >= 1, N >= 1, K * M <= usize::MAX, K * N <= usize::MAX, L * N <= usize::MAX,
{
    proof { r_tot::<T>(); }
    let ab = a.dot(b); let l = ab.dot(c); let bc = b.dot(c); let r = a.dot(bc);
    proof {
        assert forall|i: int, j: int| 0 <= i < K && 0 <= j < N implies #[trigger] l.data@[i]@[j] == r.data@[i]@[j] by {
            dot_assoc(a.data@[i]@, b, colq(c, j)); assert(ab.data@[i]@ =~= mapd(a.data@[i]@, b)); assert(colq(bc, j) =~= mapr(b, colq(c, j)));
        }
        mat_ext(l, r);
        assert(l == r);
    }
}
pub fn law_product_apply<T: Copy + Zero + Mul<Output = T>, const K: usize, const L: usize, const M: usize>(a: Matrix<T, K, L>, b: Matrix<T, L, M>, v: Vector<T, M>, w: Vector<T, K>)
    requires is_ring::<T>(), K >= 1, L >= 1, M >= 1, K * M <= usize::MAX,
{
    proof { r_tot::<T>(); }
    let ab = a.dot(b); let l = ab.dot(v); let bv = b.dot(v); let r = a.dot(bv);
    proof {
        assert forall|i: int| 0 <= i < K implies #[trigger] l@[i] == r@[i] by { dot_assoc(a.data@[i]@, b, v@); assert(ab.data@[i]@ =~= mapd(a.data@[i]@, b)); assert(bv@ =~= mapr(b, v@)); }
        vec_ext(l, r); assert(l == r);
    }
    let l = w.dot(ab); let wa = w.dot(a); let r = wa.dot(b);
    proof {
        assert forall|j: int| 0 <= j < M implies #[trigger] l@[j] == r@[j] by { dot_assoc(w@, a, colq(b, j)); assert(colq(ab, j) =~= mapr(a, colq(b, j))); assert(wa@ =~= mapd(w@, a)); }
        vec_ext(l, r); assert(l == r);
    }
}
pub fn law_product_distributes<T: Copy + Zero + Mul<Output = T>, const L: usize, const M: usize, const N: usize>(a: Matrix<T, L, M>, b: Matrix<T, L, M>, c: Matrix<T, M, N>, d: Matrix<T, M, N>)
    requires is_ring::<T>(), M >= 1, N >= 1, L * N <= usize::MAX,
{
    proof { r_tot::<T>(); }
    let s = a + b; let l = s.dot(c); let r = a.dot(c) + b.dot(c);
    proof {
        assert forall|i: int, j: int| 0 <= i < L && 0 <= j < N implies #[trigger] l.data@[i]@[j] == r.data@[i]@[j] by {
            dot_addl(a.data@[i]@, b.data@[i]@, colq(c, j)); assert(s.data@[i]@ =~= Seq::new(M as nat, |k: int| sp_add(a.data@[i]@[k], b.data@[i]@[k])));
        }
        mat_ext(l, r); assert(l == r);
    }
    let t = c + d; let l = a.dot(t); let r = a.dot(c) + a.dot(d);
    proof {
        assert forall|i: int, j: int| 0 <= i < L && 0 <= j < N implies #[trigger] l.data@[i]@[j] == r.data@[i]@[j] by {
            dot_addr(a.data@[i]@, colq(c, j), colq(d, j)); assert(colq(t, j) =~= Seq::new(M as nat, |k: int| sp_add(colq(c, j)[k], colq(d, j)[k])));
        }
        mat_ext(l, r); assert(l == r);
    }
}
pub fn law_identity_neutral<T: Copy + Zero + One, const M: usize, const N: usize>(a: Matrix<T, M, N>, v: Vector<T, N>)
    requires is_ring::<T>(), is_unit::<T>(), M >= 1, N >= 1, M * N <= usize::MAX, M * M <= usize::MAX, N * N <= usize::MAX,
{
    proof { r_tot::<T>(); reveal(is_unit); }
    let e: Matrix<T, M, M> = Matrix::<T, M, M>::one(); let l = e.dot(a);
    proof {
        assert forall|i: int, j: int| 0 <= i < M && 0 <= j < N implies #[trigger] l.data@[i]@[j] == a.data@[i]@[j] by { dot_unitl(e.data@[i]@, i, colq(a, j)); }
        mat_ext(l, a); assert(l == a);
    }
    let e: Matrix<T, N, N> = Matrix::<T, N, N>::one(); let r = a.dot(e);
    proof {
        assert forall|i: int, j: int| 0 <= i < M && 0 <= j < N implies #[trigger] r.data@[i]@[j] == a.data@[i]@[j] by { dot_unitr(a.data@[i]@, colq(e, j), j); }
        mat_ext(r, a); assert(r == a);
    }
    let x = e.dot(v);
    proof { assert forall|i: int| 0 <= i < N implies #[trigger] x@[i] == v@[i] by { dot_unitl(e.data@[i]@, i, v@); } vec_ext(x, v); assert(x == v); }
    let x = v.dot(e);
    proof { assert forall|i: int| 0 <= i < N implies #[trigger] x@[i] == v@[i] by { dot_unitr(v@, colq(e, i), i); } vec_ext(x, v); assert(x == v); }
}
// ------------------------------------------------ C15
pub fn law_transpose_twice<T, const M: usize, const N: usize>(a: Matrix<T, M, N>) requires M * N <= usize::MAX, N * M <= usize::MAX
{
    let ghost a0 = a;
    let t = a.transpose(); let ghost t0 = t; let b = t.transpose();
    proof { assert forall|i: int, j: int| 0 <= i < M && 0 <= j < N implies #[trigger] b.data@[i]@[j] == a0.data@[i]@[j] by { assert(t0.data@[j]@[i] == a0.data@[i]@[j]); } mat_ext(b, a0); assert(b == a0); }
}
pub fn law_transpose_product<T: Copy + Zero + Mul<Output = T>, const L: usize, const M: usize, const N: usize>(a: Matrix<T, L, M>, b: Matrix<T, M, N>)
    requires is_ring::<T>(), is_comm::<T>(), L >= 1, M >= 1, N >= 1, L * N <= usize::MAX, N * L <= usize::MAX,
{
    proof { r_tot::<T>(); }
    let p = a.dot(b); let l = p.transpose(); let bt = b.transpose(); let at = a.transpose(); let r = bt.dot(at);
    proof {
        assert forall|j: int, i: int| 0 <= j < N && 0 <= i < L implies #[trigger] l.data@[j]@[i] == r.data@[j]@[i] by {
            dot_rev(a.data@[i]@, colq(b, j)); assert(bt.data@[j]@ =~= colq(b, j)); assert(colq(at, i) =~= a.data@[i]@); assert(l.data@[j]@[i] == p.data@[i]@[j]);
        }
        mat_ext(l, r); assert(l == r);
    }
}
// ------------------------------------------------ C12: extrema under a total (pre)order
pub open spec fn total_order<T: PartialOrd>() -> bool {
    T::obeys_partial_cmp_spec() && (forall|a: T, b: T| !(#[trigger] sp_lt(a, b) && sp_lt(b, a))) && (forall|a: T, b: T, c: T| !(#[trigger] sp_lt(a, b)) && !(#[trigger] sp_lt(b, c)) ==> !sp_lt(a, c))
}
pub proof fn o_trans<T: PartialOrd>(a: T, b: T, c: T) requires total_order::<T>(), !sp_lt(a, b), !sp_lt(b, c) ensures !sp_lt(a, c) {}
pub proof fn vmax_is_max<T: PartialOrd>(s: Seq<T>) requires total_order::<T>(), s.len() >= 1
    ensures s.contains(vmax(s)), forall|i: int| 0 <= i < s.len() ==> !sp_lt(vmax(s), #[trigger] s[i]) decreases s.len()
{
    let r = vmax(s); let xs = s.subrange(1, s.len() as int);
    if s.len() == 1 { assert(r == s[0]); assert(!sp_lt(s[0], s[0])); }
    else {
        let p = s.drop_last(); vmax_is_max(p); let q = vmax(p); assert(p.subrange(1, p.len() as int) =~= xs.drop_last()); assert(p[0] == s[0]); let x = s[s.len() - 1]; assert(xs.last() == x);
        assert(r == if sp_lt(q, x) { x } else { q });
        let k = choose|k: int| 0 <= k < p.len() && p[k] == q; assert(s[k] == q);
        assert forall|i: int| 0 <= i < s.len() implies !sp_lt(r, #[trigger] s[i]) by {
            assert(!sp_lt(x, x)); if i < p.len() { assert(!sp_lt(q, p[i])); if sp_lt(q, x) { assert(!sp_lt(x, q)); o_trans(x, q, p[i]); } }
        }
    }
}
pub proof fn vmin_is_min<T: PartialOrd>(s: Seq<T>) requires total_order::<T>(), s.len() >= 1
    ensures s.contains(vmin(s)), forall|i: int| 0 <= i < s.len() ==> !sp_lt(#[trigger] s[i], vmin(s)) decreases s.len()
{
    let r = vmin(s); let xs = s.subrange(1, s.len() as int);
    if s.len() == 1 { assert(r == s[0]); assert(!sp_lt(s[0], s[0])); }
    else {
        let p = s.drop_last(); vmin_is_min(p); let q = vmin(p); assert(p.subrange(1, p.len() as int) =~= xs.drop_last()); assert(p[0] == s[0]); let x = s[s.len() - 1]; assert(xs.last() == x);
        assert(r == if sp_lt(q, x) { q } else { x });
        let k = choose|k: int| 0 <= k < p.len() && p[k] == q; assert(s[k] == q);
        assert forall|i: int| 0 <= i < s.len() implies !sp_lt(#[trigger] s[i], r) by {
            assert(!sp_lt(x, x)); if i < p.len() { assert(!sp_lt(p[i], q)); if !sp_lt(q, x) { o_trans(p[i], q, x); } } else { if sp_lt(q, x) { assert(!sp_lt(x, q)); } }
        }
    }
}
pub fn law_extrema<T: Copy + PartialOrd, const M: usize, const N: usize>(v: Vector<T, N>, m: Matrix<T, M, N>) requires total_order::<T>(), M >= 1, N >= 1, M * N <= usize::MAX
{
    let a = v.max(); let b = v.min(); let c = m.max(); let d = m.min();
    proof {
        vmax_is_max(v@); vmin_is_min(v@); 
        assert(v@.contains(a)); assert(v@.contains(b));
        assert forall|i: int| 0 <= i < N implies !sp_lt(a, #[trigger] v@[i]) && !sp_lt(v@[i], b) by {}
        assert(flat(m).len() == M * N) by { flat_len(m); }
        assert(M * N >= 1) by(nonlinear_arith) requires M >= 1, N >= 1;
        vmax_is_max(flat(m)); vmin_is_min(flat(m));
        assert(flat(m).contains(c)); assert(flat(m).contains(d));
        assert forall|i: int, j: int| 0 <= i < M && 0 <= j < N implies !sp_lt(c, #[trigger] m.data@[i]@[j]) && !sp_lt(m.data@[i]@[j], d) by { flat_idx(m, i, j); assert(flat(m)[fi(i, j, N as int)] == m.data@[i]@[j]); }
    }
}
