### verbatim
// ------------------------------------------------ which rows and columns are still there
pub open spec fn live(m: Seq<bool>) -> Seq<int> decreases m.len() {
    if m.len() == 0 { Seq::empty() } else { let t = live(m.drop_last()); if m.last() { t.push(m.len() - 1) } else { t } }
}
pub proof fn live_props(m: Seq<bool>)
    ensures
        live(m).len() <= m.len(),
        forall|k: int| 0 <= k < live(m).len() ==> 0 <= #[trigger] live(m)[k] < m.len() && m[live(m)[k]],
        forall|k: int, l: int| 0 <= k < l < live(m).len() ==> #[trigger] live(m)[k] < #[trigger] live(m)[l],
        forall|i: int| 0 <= i < m.len() && #[trigger] m[i] ==> live(m).contains(i),
    decreases m.len(),
{
    if m.len() > 0 {
        let p = m.drop_last(); let t = live(p);
        live_props(p);
        assert forall|i: int| 0 <= i < m.len() && #[trigger] m[i] implies live(m).contains(i) by {
            if i < m.len() - 1 { assert(p[i]); assert(t.contains(i)); let k = choose|k: int| 0 <= k < t.len() && t[k] == i; assert(live(m)[k] == i); }
            else { assert(live(m)[t.len() as int] == i); }
        }
        assert forall|k: int| 0 <= k < live(m).len() implies 0 <= #[trigger] live(m)[k] < m.len() && m[live(m)[k]] by {
            if k < t.len() { assert(live(m)[k] == t[k]); assert(p[t[k]]); }
        }
        assert forall|k: int, l: int| 0 <= k < l < live(m).len() implies #[trigger] live(m)[k] < #[trigger] live(m)[l] by {
            assert(live(m)[k] == t[k]); if l < t.len() { assert(live(m)[l] == t[l]); }
        }
    }
}
pub proof fn live_exclude(m: Seq<bool>, k: int)
    requires 0 <= k < live(m).len(),
    ensures live(m.update(live(m)[k], false)) == live(m).remove(k),
    decreases m.len(),
{
    live_props(m);
    let i = live(m)[k]; let n = m.len() - 1; let p = m.drop_last(); let t = live(p); let u = m.update(i, false);
    live_props(p);
    if i == n {
        assert(u.drop_last() =~= p);
        if k < t.len() { assert(live(m)[k] == t[k]); }
        assert(live(m).remove(k) =~= t);
    } else {
        assert(k < t.len()) by { if k == t.len() { assert(m.last()); } }
        assert(live(m)[k] == t[k]);
        live_exclude(p, k);
        assert(u.drop_last() =~= p.update(i, false));
        if m.last() { assert(live(m).remove(k) =~= t.remove(k).push(n)); }
    }
}
pub proof fn live_all(m: Seq<bool>)
    requires forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i],
    ensures live(m) == Seq::new(m.len(), |i: int| i),
    decreases m.len(),
{
    if m.len() > 0 { let p = m.drop_last(); assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] by { assert(m[i]); } live_all(p); assert(m[m.len() - 1]); }
    assert(live(m) =~= Seq::new(m.len(), |i: int| i));
}
// the first surviving index from j on is the k-th of the list
pub proof fn live_find(m: Seq<bool>, k: int, j: int, r: int)
    requires 0 <= k < live(m).len(), (k == 0 && j == 0) || (k > 0 && j == live(m)[k - 1] + 1), j <= r < m.len(), m[r], forall|i: int| j <= i < r ==> !#[trigger] m[i],
    ensures r == live(m)[k],
{
    live_props(m);
    assert(live(m).contains(r)); let q = choose|q: int| 0 <= q < live(m).len() && live(m)[q] == r;
    if q < k { if k > 0 { if q < k - 1 { assert(live(m)[q] < live(m)[k - 1]); } } }
    if q > k { assert(live(m)[k] < live(m)[q]); let i = live(m)[k]; if k > 0 { assert(live(m)[k - 1] < i); } assert(!m[i]); }
}
// ------------------------------------------------ Laplace expansion along the first remaining row
pub open spec fn sgn<T: Neg<Output = T>>(k: int, x: T) -> T { if k % 2 != 0 { sp_neg(x) } else { x } }
pub open spec fn ldet<T: Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>, rows: Seq<int>, cols: Seq<int>) -> T decreases rows.len(), cols.len() + 1 {
    if rows.len() == 0 { T::one_spec() } else { lsum(a, rows, cols, cols.len()) }
}
pub open spec fn lsum<T: Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>, rows: Seq<int>, cols: Seq<int>, k: nat) -> T decreases rows.len(), k {
    if k == 0 || rows.len() == 0 { T::zero_spec() } else {
        sp_add(lsum(a, rows, cols, (k - 1) as nat), sp_mul(a.data@[rows[0]]@[cols[k - 1]], sgn(k - 1, ldet(a, rows.drop_first(), cols.remove(k - 1)))))
    }
}
pub open spec fn idx(n: usize) -> Seq<int> { Seq::new(n as nat, |i: int| i) }
pub open spec fn det_spec<T: Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>) -> T { ldet(a, idx(N), idx(N)) }
pub open spec fn cof_spec<T: Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>, i: int, j: int) -> T { sgn(i + j, ldet(a, idx(N).remove(i), idx(N).remove(j))) }
pub open spec fn adj_spec<T: Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>) -> Matrix<T, N, N> { mk_mat::<T, N, N>(|i: int, j: int| cof_spec(a, j, i)) }
pub open spec fn inv_spec<T: Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>) -> Matrix<T, N, N> { mk_mat::<T, N, N>(|i: int, j: int| sp_div(cof_spec(a, j, i), det_spec(a))) }
pub open spec fn mask_ok<const N: usize>(m: SubmatrixMask<N>) -> bool { m.deg == live(m.col.data@).len() && m.deg == live(m.row.data@).len() }
// ------------------------------------------------ masks
### IndexMask<N>::new
props C16
ens forall|i: int| 0 <= i < N ==> #[trigger] r.data@[i]
### IndexMask<N>::find
props C16
req exists|k: int| $1 <= k < N && #[trigger] self.data@[k]
ens $1 <= r < N && self.data@[r as int]
ens forall|k: int| $1 <= k < r ==> !#[trigger] self.data@[k]
attr #[verifier::loop_isolation(false)]
pre let ghost i0 = $1;
subst break i => return i
loop 0
inv i0 <= $1 <= N
inv exists|k: int| $1 <= k < N && #[trigger] self.data@[k]
inv forall|k: int| i0 <= k < $1 ==> !#[trigger] self.data@[k]
dec N - $1
### verbatim
impl<const N: usize> vstd::std_specs::core::IndexSpecImpl<usize> for IndexMask<N> {
    open spec fn index_req(&self, i: &usize) -> bool { *i < N }
}
### <IndexMask<N> as Index<usize>>::index
props C16
ens *r == self.data@[$1 as int]
### <IndexMask<N> as IndexMut<usize>>::index_mut
props C16
ens *r == old(self).data@[$1 as int]
ens final(self).data@ == old(self).data@.update($1 as int, *final(r))
### SubmatrixMask<N>::new
props C16
ens forall|i: int| 0 <= i < N ==> #[trigger] r.col.data@[i]
ens forall|i: int| 0 <= i < N ==> #[trigger] r.row.data@[i]
ens live(r.col.data@) == idx(N) && live(r.row.data@) == idx(N) && r.deg == N
postr proof { live_all(vx_res.col.data@); live_all(vx_res.row.data@); assert(live(vx_res.col.data@) =~= idx(N)); assert(live(vx_res.row.data@) =~= idx(N)); }
### SubmatrixMask<N>::exclude
props C16
req $1 < N && $2 < N && old(self).deg > 0
ens final(self).col.data@ == old(self).col.data@.update($1 as int, false)
ens final(self).row.data@ == old(self).row.data@.update($2 as int, false)
ens final(self).deg == old(self).deg - 1
### SubmatrixMask<N>::include
props C16
req $1 < N && $2 < N && old(self).deg < usize::MAX
ens final(self).col.data@ == old(self).col.data@.update($1 as int, true)
ens final(self).row.data@ == old(self).row.data@.update($2 as int, true)
ens final(self).deg == old(self).deg + 1
### Determinator<'a,T,N>::new
props C16
ens forall|i: int| 0 <= i < N ==> #[trigger] r.mask.col.data@[i]
ens forall|i: int| 0 <= i < N ==> #[trigger] r.mask.row.data@[i]
ens r.matrix == $1 && mask_ok(r.mask) && live(r.mask.col.data@) == idx(N) && live(r.mask.row.data@) == idx(N)
### Determinator<'a,T,N>::cofactor
props C16
ret q
req tot_cr::<T>() && tot_neg::<T>() && mask_ok(old(self).mask)
req vx_a1.0 < N && vx_a2.0 < N && vx_a1.1 < N && vx_a2.1 < N && N <= usize::MAX / 2
req old(self).mask.col.data@[vx_a1.0 as int] && old(self).mask.row.data@[vx_a2.0 as int]
ens *final(self) == *old(self)
ens exists|k: int, l: int| 0 <= k < live(old(self).mask.col.data@).len() && 0 <= l < live(old(self).mask.row.data@).len() && #[trigger] live(old(self).mask.col.data@)[k] == vx_a1.0 && #[trigger] live(old(self).mask.row.data@)[l] == vx_a2.0 && q == sgn(vx_a1.1 + vx_a2.1, ldet(*old(self).matrix, live(old(self).mask.col.data@).remove(k), live(old(self).mask.row.data@).remove(l)))
fdec old(self).mask.deg as int - 1, 1int
pre let ghost s0 = *self; let ghost c0 = s0.mask.col.data@; let ghost r0 = s0.mask.row.data@;
    proof { live_props(c0); live_props(r0); assert(live(c0).contains(i as int)); assert(live(r0).contains(j as int)); }
    let ghost k = choose|k: int| 0 <= k < live(c0).len() && live(c0)[k] == i; let ghost l = choose|l: int| 0 <= l < live(r0).len() && live(r0)[l] == j;
    proof { live_exclude(c0, k); live_exclude(r0, l); }
post proof { assert(self.mask.col.data@ =~= c0); assert(self.mask.row.data@ =~= r0); assert(self.mask.col.data =~= s0.mask.col.data); assert(self.mask.row.data =~= s0.mask.row.data); assert(live(c0)[k] == i && live(r0)[l] == j); }
### Determinator<'a,T,N>::det
props C16
ret q
req tot_cr::<T>() && tot_neg::<T>() && mask_ok(old(self).mask) && N <= usize::MAX / 2
ens *final(self) == *old(self)
ens q == ldet(*old(self).matrix, live(old(self).mask.col.data@), live(old(self).mask.row.data@))
fdec old(self).mask.deg as int, 0int
pre let ghost s0 = *self; let ghost c0 = live(s0.mask.col.data@); let ghost r0 = live(s0.mask.row.data@); proof { live_props(s0.mask.col.data@); live_props(s0.mask.row.data@); if c0.len() > 0 { assert(s0.mask.col.data@[c0[0]]); } }
loop 0 for rj in 0..self.mask.deg
inv *self == s0 && s0.mask.deg == c0.len() && s0.mask.deg == r0.len() && c0 == live(s0.mask.col.data@) && r0 == live(s0.mask.row.data@) && s0.mask.deg > 0 && s0.mask.deg == old(self).mask.deg
inv tot_cr::<T>() && tot_neg::<T>() && N <= usize::MAX / 2
inv i < N && s0.mask.col.data@[i as int] && c0[0] == i
inv (rj == 0 && j == 0) || (rj > 0 && j == r0[rj - 1] + 1)
inv a == lsum(*s0.matrix, c0, r0, rj as nat)
lpre let ghost j0 = j as int; proof { live_props(s0.mask.row.data@); live_props(s0.mask.col.data@); assert(s0.mask.row.data@[r0[rj as int]]); if rj > 0 { assert(r0[rj - 1] < r0[rj as int]); } }
lpost proof {
    live_find(s0.mask.row.data@, rj as int, j0, j - 1);
    let (k, l) = choose|k: int, l: int| 0 <= k < c0.len() && 0 <= l < r0.len() && #[trigger] c0[k] == i && #[trigger] r0[l] == j - 1 && sp_mul(s0.matrix.data@[i as int]@[j - 1], sgn(rj as int, ldet(*s0.matrix, c0.remove(k), r0.remove(l)))) == sp_mul(s0.matrix.data@[i as int]@[j - 1], sgn(rj as int, ldet(*s0.matrix, c0.remove(k), r0.remove(l))));
    assert(k == 0) by { if k > 0 { assert(c0[0] < c0[k]); } }
    assert(l == rj) by { if l < rj { assert(r0[l] < r0[rj as int]); } if l > rj { assert(r0[rj as int] < r0[l]); } }
    assert(c0.remove(0) =~= c0.drop_first());
}
### Matrix<T,N,N>::cofactor
props C16
ret q
req tot_cr::<T>() && tot_neg::<T>() && $1 < N && $2 < N && N <= usize::MAX / 2
ens q == cof_spec(*self, $1 as int, $2 as int)
### Matrix<T,N,N>::det
props C16
req tot_cr::<T>() && tot_neg::<T>() && N <= usize::MAX / 2
ens r == det_spec(*self)
### Matrix<T,N,N>::adj
props C16 C17
req tot_cr::<T>() && tot_neg::<T>() && 1 <= N <= usize::MAX / 2 && N * N <= usize::MAX
ens r == adj_spec(*self)
closure 0
cret T
creq tot_cr::<T>() && tot_neg::<T>() && N <= usize::MAX / 2 && i < N && j < N
cens vx_r == cof_spec(*self, j as int, i as int)
postr proof { mat_ext(vx_res, adj_spec(*self)); }
### Matrix<T,N,N>::inv
props C17
req tot_field::<T>() && tot_neg::<T>() && 1 <= N <= usize::MAX / 2 && N * N <= usize::MAX
ens r == inv_spec(*self)
postr proof { mat_ext(vx_res, inv_spec(*self)); }
### impl Inv for Matrix<T,N,N>
ghost     open spec fn inv_req(self) -> bool { tot_field::<T>() && tot_neg::<T>() && 1 <= N <= usize::MAX / 2 && N * N <= usize::MAX }
    open spec fn obeys_inv() -> bool { true }
    open spec fn inv_of(self) -> Matrix<T, N, N> { inv_spec(self) }
### <Matrix<T,N,N> as Inv>::inv
props C17
ens r == inv_spec(self)
postr proof { mat_ext(vx_res, inv_spec(self)); }
