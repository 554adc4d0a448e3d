### verbatim
// ------------------------------------------------ finite sums over a ring, not assumed commutative
pub open spec fn ring_laws<T: Zero + Mul<Output = T>>() -> bool {
    tot_vec::<T>() && T::obeys_zero()
    && (forall|a: T, b: T, c: T| #[trigger] sp_add(sp_add(a, b), c) == sp_add(a, sp_add(b, c)))
    && (forall|a: T, b: T| #[trigger] sp_add(a, b) == sp_add(b, a))
    && (forall|a: T| #[trigger] sp_add(a, T::zero_spec()) == a)
    && (forall|a: T, b: T, c: T| #[trigger] sp_mul(sp_mul(a, b), c) == sp_mul(a, sp_mul(b, c)))
    && (forall|a: T, b: T, c: T| #[trigger] sp_mul(sp_add(a, b), c) == sp_add(sp_mul(a, c), sp_mul(b, c)))
    && (forall|a: T, b: T, c: T| #[trigger] sp_mul(c, sp_add(a, b)) == sp_add(sp_mul(c, a), sp_mul(c, b)))
    && (forall|a: T| #[trigger] sp_mul(a, T::zero_spec()) == T::zero_spec() && sp_mul(T::zero_spec(), a) == T::zero_spec())
}
pub open spec fn unit_laws<T: One>() -> bool { T::obeys_one() && T::one_req() && forall|a: T| #[trigger] sp_mul(a, T::one_spec()) == a && sp_mul(T::one_spec(), a) == a }
pub open spec fn comm_laws<T: Mul<Output = T>>() -> bool { forall|a: T, b: T| #[trigger] sp_mul(a, b) == sp_mul(b, a) }
// the laws are used one instance at a time
#[verifier::opaque] pub open spec fn is_ring<T: Zero + Mul<Output = T>>() -> bool { ring_laws::<T>() }
#[verifier::opaque] pub open spec fn is_unit<T: One>() -> bool { unit_laws::<T>() }
#[verifier::opaque] pub open spec fn is_comm<T: Mul<Output = T>>() -> bool { comm_laws::<T>() }
pub proof fn r_tot<T: Zero + Mul<Output = T>>() requires is_ring::<T>() ensures tot_vec::<T>(), T::obeys_zero() { reveal(is_ring); }
pub proof fn r_assoc<T: Zero + Mul<Output = T>>(a: T, b: T, c: T) requires is_ring::<T>() ensures sp_add(sp_add(a, b), c) == sp_add(a, sp_add(b, c)) { reveal(is_ring); }
pub proof fn r_comm<T: Zero + Mul<Output = T>>(a: T, b: T) requires is_ring::<T>() ensures sp_add(a, b) == sp_add(b, a) { reveal(is_ring); }
pub proof fn r_zero<T: Zero + Mul<Output = T>>(a: T) requires is_ring::<T>() ensures sp_add(a, T::zero_spec()) == a, sp_add(T::zero_spec(), a) == a { reveal(is_ring); r_comm(T::zero_spec(), a); }
pub proof fn r_mul0<T: Zero + Mul<Output = T>>(a: T) requires is_ring::<T>() ensures sp_mul(a, T::zero_spec()) == T::zero_spec(), sp_mul(T::zero_spec(), a) == T::zero_spec() { reveal(is_ring); assert(sp_mul(a, T::zero_spec()) == T::zero_spec()); }
pub proof fn r_massoc<T: Zero + Mul<Output = T>>(a: T, b: T, c: T) requires is_ring::<T>() ensures sp_mul(sp_mul(a, b), c) == sp_mul(a, sp_mul(b, c)) { reveal(is_ring); }
pub proof fn r_distr<T: Zero + Mul<Output = T>>(a: T, b: T, c: T) requires is_ring::<T>() ensures sp_mul(sp_add(a, b), c) == sp_add(sp_mul(a, c), sp_mul(b, c)), sp_mul(c, sp_add(a, b)) == sp_add(sp_mul(c, a), sp_mul(c, b)) { reveal(is_ring); assert(sp_mul(c, sp_add(a, b)) == sp_add(sp_mul(c, a), sp_mul(c, b))); }
pub proof fn r_one<T: One>(a: T) requires is_unit::<T>() ensures sp_mul(a, T::one_spec()) == a, sp_mul(T::one_spec(), a) == a { reveal(is_unit); assert(sp_mul(a, T::one_spec()) == a); }
pub proof fn r_mcomm<T: Mul<Output = T>>(a: T, b: T) requires is_comm::<T>() ensures sp_mul(a, b) == sp_mul(b, a) { reveal(is_comm); }
// a + b + (c + d) = a + c + (b + d)
pub proof fn r_swap4<T: Zero + Mul<Output = T>>(a: T, b: T, c: T, d: T) requires is_ring::<T>()
    ensures sp_add(sp_add(a, b), sp_add(c, d)) == sp_add(sp_add(a, c), sp_add(b, d))
{
    r_assoc(a, b, sp_add(c, d)); r_assoc(b, c, d); r_comm(b, c); r_assoc(c, b, d); r_assoc(a, c, sp_add(b, d));
}
// the sum of f(0), ..., f(n - 1), added from the left; zero when there are none
pub open spec fn sg<T: Zero>(n: int, f: spec_fn(int) -> T) -> T decreases n { if n <= 0 { T::zero_spec() } else { sp_add(sg(n - 1, f), f(n - 1)) } }
pub proof fn sg_ext<T: Zero>(n: int, f: spec_fn(int) -> T, g: spec_fn(int) -> T) requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i) ensures sg(n, f) == sg(n, g) decreases n
{ if n > 0 { sg_ext(n - 1, f, g); assert(f(n - 1) == g(n - 1)); } }
pub proof fn sg_add<T: Zero + Mul<Output = T>>(n: int, f: spec_fn(int) -> T, g: spec_fn(int) -> T) requires is_ring::<T>()
    ensures sg(n, |i: int| sp_add(f(i), g(i))) == sp_add(sg(n, f), sg(n, g)) decreases n
{
    if n > 0 { sg_add(n - 1, f, g); r_swap4(sg(n - 1, f), sg(n - 1, g), f(n - 1), g(n - 1)); } else { r_zero(T::zero_spec()); }
}
pub proof fn sg_mull<T: Zero + Mul<Output = T>>(n: int, c: T, f: spec_fn(int) -> T) requires is_ring::<T>()
    ensures sg(n, |i: int| sp_mul(c, f(i))) == sp_mul(c, sg(n, f)) decreases n
{ if n > 0 { sg_mull(n - 1, c, f); r_distr(sg(n - 1, f), f(n - 1), c); } else { r_mul0(c); } }
pub proof fn sg_mulr<T: Zero + Mul<Output = T>>(n: int, c: T, f: spec_fn(int) -> T) requires is_ring::<T>()
    ensures sg(n, |i: int| sp_mul(f(i), c)) == sp_mul(sg(n, f), c) decreases n
{ if n > 0 { sg_mulr(n - 1, c, f); r_distr(sg(n - 1, f), f(n - 1), c); } else { r_mul0(c); } }
pub proof fn sg_zero<T: Zero + Mul<Output = T>>(n: int, f: spec_fn(int) -> T) requires is_ring::<T>(), forall|i: int| 0 <= i < n ==> #[trigger] f(i) == T::zero_spec()
    ensures sg(n, f) == T::zero_spec() decreases n
{ if n > 0 { sg_zero(n - 1, f); assert(f(n - 1) == T::zero_spec()); r_zero(T::zero_spec()); } }
pub proof fn sg_swap<T: Zero + Mul<Output = T>>(m: int, n: int, f: spec_fn(int, int) -> T) requires is_ring::<T>()
    ensures sg(m, |i: int| sg(n, |j: int| f(i, j))) == sg(n, |j: int| sg(m, |i: int| f(i, j))) decreases m
{
    let l = |i: int| sg(n, |j: int| f(i, j)); let r = |j: int| sg(m, |i: int| f(i, j));
    if m > 0 {
        let r1 = |j: int| sg(m - 1, |i: int| f(i, j)); let last = |j: int| f(m - 1, j);
        sg_swap(m - 1, n, f); sg_add(n, r1, last);
        sg_ext(n, r, |j: int| sp_add(r1(j), last(j)));
        assert(l(m - 1) == sg(n, last));
    } else { sg_zero(n, r); }
}
// only the k-th term is not zero
pub proof fn sg_single<T: Zero + Mul<Output = T>>(n: int, k: int, f: spec_fn(int) -> T)
    requires is_ring::<T>(), 0 <= k < n, forall|i: int| 0 <= i < n && i != k ==> #[trigger] f(i) == T::zero_spec(),
    ensures sg(n, f) == f(k) decreases n
{
    if k == n - 1 { sg_zero(n - 1, f); r_zero(f(k)); } else { sg_single(n - 1, k, f); assert(f(n - 1) == T::zero_spec()); r_zero(f(k)); }
}
// sums of non-empty sequences are these sums
pub proof fn vsum_sg<T: Zero + Mul<Output = T>>(s: Seq<T>) requires is_ring::<T>(), s.len() >= 1 ensures vsum(s) == sg(s.len() as int, |i: int| s[i]) decreases s.len()
{
    let g = |a: T, b: T| sp_add(a, b); let xs = s.subrange(1, s.len() as int); let f = |i: int| s[i];
    if s.len() == 1 { assert(vfold(s[0], xs, g) == s[0]); r_zero(s[0]); assert(sg(1, f) == sp_add(sg(0, f), f(0))); }
    else {
        let p = s.drop_last(); vsum_sg(p); assert(p.subrange(1, p.len() as int) =~= xs.drop_last()); assert(xs.last() == s.last());
        sg_ext(p.len() as int, |i: int| p[i], f);
    }
}
pub open spec fn dg<T: Zero + Mul<Output = T>>(n: int, f: spec_fn(int) -> T, g: spec_fn(int) -> T) -> T { sg(n, |i: int| sp_mul(f(i), g(i))) }
pub proof fn vdot_sg<T: Zero + Mul<Output = T>>(a: Seq<T>, b: Seq<T>) requires is_ring::<T>(), a.len() >= 1 ensures vdot(a, b) == sg(a.len() as int, |i: int| sp_mul(a[i], b[i]))
{ let s = Seq::new(a.len(), |i: int| sp_mul(a[i], b[i])); vsum_sg(s); sg_ext(a.len() as int, |i: int| s[i], |i: int| sp_mul(a[i], b[i])); }
// sum_j (sum_k a_k b_kj) c_j = sum_k a_k (sum_j b_kj c_j)
pub proof fn sg_assoc<T: Zero + Mul<Output = T>>(m: int, n: int, a: spec_fn(int) -> T, b: spec_fn(int, int) -> T, c: spec_fn(int) -> T) requires is_ring::<T>()
    ensures sg(n, |j: int| sp_mul(sg(m, |k: int| sp_mul(a(k), b(k, j))), c(j))) == sg(m, |k: int| sp_mul(a(k), sg(n, |j: int| sp_mul(b(k, j), c(j)))))
{
    let t = |k: int, j: int| sp_mul(a(k), sp_mul(b(k, j), c(j)));
    let l = |j: int| sp_mul(sg(m, |k: int| sp_mul(a(k), b(k, j))), c(j)); let l2 = |j: int| sg(m, |k: int| t(k, j));
    let r = |k: int| sp_mul(a(k), sg(n, |j: int| sp_mul(b(k, j), c(j)))); let r2 = |k: int| sg(n, |j: int| t(k, j));
    assert forall|j: int| 0 <= j < n implies #[trigger] l(j) == l2(j) by {
        let f = |k: int| sp_mul(a(k), b(k, j)); let g = |k: int| sp_mul(f(k), c(j)); let h = |k: int| t(k, j);
        sg_mulr(m, c(j), f);
        assert forall|k: int| 0 <= k < m implies #[trigger] g(k) == h(k) by { r_massoc(a(k), b(k, j), c(j)); }
        sg_ext(m, g, h);
    }
    assert forall|k: int| 0 <= k < m implies #[trigger] r(k) == r2(k) by {
        let f = |j: int| sp_mul(b(k, j), c(j)); let g = |j: int| sp_mul(a(k), f(j)); let h = |j: int| t(k, j);
        sg_mull(n, a(k), f);
        assert forall|j: int| 0 <= j < n implies #[trigger] g(j) == h(j) by {}
        sg_ext(n, g, h);
    }
    sg_ext(n, l, l2); sg_ext(m, r, r2);
    sg_swap(m, n, t);
}
