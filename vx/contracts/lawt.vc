### verbatim
// ------------------------------------------------ C20: transforms act as functions do
pub open spec fn tr_a<A: Transform<P>, P>(a: A, x: P) -> P { <A as Transform<P>>::tr_apply(&a, x) }
pub open spec fn tr_c<A: Transform<P>, P>(a: A, b: A) -> A { <A as Transform<P>>::tr_chain(a, b) }
pub open spec fn tr_i<A: Transform<P>, P>(a: A) -> A { <A as Transform<P>>::tr_inv(a) }
pub open spec fn is_action<A: Transform<P>, P>() -> bool {
    (forall|a: A, b: A, x: P| #[trigger] tr_a::<A, P>(tr_c::<A, P>(a, b), x) == tr_a::<A, P>(a, tr_a::<A, P>(b, x))) && (forall|x: P| #[trigger] tr_a::<A, P>(<A as Transform<P>>::tr_id(), x) == x)
}
pub open spec fn undoes<A: Transform<P>, P>(a: A) -> bool {
    (forall|x: P| #[trigger] tr_a::<A, P>(tr_i::<A, P>(a), tr_a::<A, P>(a, x)) == x) && (forall|x: P| #[trigger] tr_a::<A, P>(a, tr_a::<A, P>(tr_i::<A, P>(a), x)) == x)
}
pub open spec fn reorders<A: Reorder<B, P>, B: Transform<P>, P>(a: A, b: B) -> bool {
    let p = <A as Reorder<B, P>>::ro(a, b); forall|x: P| tr_a::<A, P>(a, #[trigger] tr_a::<B, P>(b, x)) == tr_a::<B, P>(p.0, tr_a::<A, P>(p.1, x))
}
// what the functions of the crate return, for any transform with these properties
pub fn law_transform_group<A: Copy + Transform<P>, P: Copy>(a: A, b: A, x: P) requires <A as Transform<P>>::tr_req(), is_action::<A, P>()
{
    let i = <A as Transform<P>>::identity(); let y = i.apply(x); proof { assert(tr_a::<A, P>(i, x) == x); assert(y == x); }
    let c = a.chain(b); let l = c.apply(x); let y = b.apply(x); let r = a.apply(y); proof { assert(tr_a::<A, P>(tr_c::<A, P>(a, b), x) == tr_a::<A, P>(a, tr_a::<A, P>(b, x))); assert(l == r); }
}
pub fn law_transform_inverse<A: Copy + Transform<P>, P: Copy>(a: A, x: P) requires <A as Transform<P>>::tr_req(), undoes::<A, P>(a)
{
    let v = a.inv(); let y = a.apply(x); let l = v.apply(y); let y = v.apply(x); let r = a.apply(y);
    proof { assert(tr_a::<A, P>(tr_i::<A, P>(a), tr_a::<A, P>(a, x)) == x); assert(tr_a::<A, P>(a, tr_a::<A, P>(tr_i::<A, P>(a), x)) == x); assert(l == x && r == x); }
}
pub fn law_transform_reorder<A: Copy + Reorder<B, P>, B: Copy + Transform<P>, P: Copy>(a: A, b: B, x: P) requires <A as Transform<P>>::tr_req(), <B as Transform<P>>::tr_req(), <A as Reorder<B, P>>::ro_req(), reorders::<A, B, P>(a, b)
{
    let y = b.apply(x); let l = a.apply(y); let p = a.reorder(b); let y = p.1.apply(x); let r = p.0.apply(y);
    proof { assert(tr_a::<A, P>(a, tr_a::<B, P>(b, x)) == tr_a::<B, P>(p.0, tr_a::<A, P>(p.1, x))); assert(l == r); }
}
// a chain of two such transforms is one, whatever its parts are
pub proof fn chain_action<A: Transform<P> + Reorder<B, P>, B: Transform<P> + Reorder<A, P>, P: Copy>() requires is_action::<A, P>(), is_action::<B, P>(), forall|b: B, a: A| reorders::<B, A, P>(b, a) ensures is_action::<Chain<A, B, P>, P>()
{
    assert forall|c: Chain<A, B, P>, d: Chain<A, B, P>, x: P| #[trigger] tr_a::<Chain<A, B, P>, P>(tr_c::<Chain<A, B, P>, P>(c, d), x) == tr_a::<Chain<A, B, P>, P>(c, tr_a::<Chain<A, B, P>, P>(d, x)) by {
        let p = <B as Reorder<A, P>>::ro(c.inner, d.outer); let y = tr_a::<B, P>(d.inner, x);
        assert(reorders::<B, A, P>(c.inner, d.outer)); let z = tr_a::<A, P>(d.outer, y);
        assert(tr_a::<B, P>(c.inner, z) == tr_a::<A, P>(p.0, tr_a::<B, P>(p.1, y)));
        let u = tr_a::<B, P>(tr_c::<B, P>(p.1, d.inner), x); assert(u == tr_a::<B, P>(p.1, y));
        assert(tr_a::<A, P>(tr_c::<A, P>(c.outer, p.0), u) == tr_a::<A, P>(c.outer, tr_a::<A, P>(p.0, u)));
    }
    assert forall|x: P| #[trigger] tr_a::<Chain<A, B, P>, P>(<Chain<A, B, P> as Transform<P>>::tr_id(), x) == x by { let u = tr_a::<B, P>(<B as Transform<P>>::tr_id(), x); assert(u == x); assert(tr_a::<A, P>(<A as Transform<P>>::tr_id(), u) == u); }
}
pub proof fn chain_undoes<A: Transform<P> + Reorder<B, P>, B: Transform<P> + Reorder<A, P>, P: Copy>(c: Chain<A, B, P>)
    requires undoes::<A, P>(c.outer), undoes::<B, P>(c.inner), reorders::<B, A, P>(tr_i::<B, P>(c.inner), tr_i::<A, P>(c.outer)) ensures undoes::<Chain<A, B, P>, P>(c)
{
    let (a, b) = (c.outer, c.inner); let (ai, bi) = (tr_i::<A, P>(a), tr_i::<B, P>(b)); let p = <B as Reorder<A, P>>::ro(bi, ai); let ci = tr_i::<Chain<A, B, P>, P>(c);
    assert(ci.outer == p.0 && ci.inner == p.1);
    assert forall|x: P| #[trigger] tr_a::<Chain<A, B, P>, P>(ci, tr_a::<Chain<A, B, P>, P>(c, x)) == x by {
        let y = tr_a::<B, P>(b, x); let z = tr_a::<A, P>(a, y); let w = tr_a::<A, P>(ai, z); assert(w == y);
        assert(tr_a::<B, P>(bi, w) == tr_a::<A, P>(p.0, tr_a::<B, P>(p.1, z))); assert(tr_a::<B, P>(bi, tr_a::<B, P>(b, x)) == x);
    }
    assert forall|x: P| #[trigger] tr_a::<Chain<A, B, P>, P>(c, tr_a::<Chain<A, B, P>, P>(ci, x)) == x by {
        let y = tr_a::<A, P>(ai, x); let z = tr_a::<B, P>(bi, y);
        assert(z == tr_a::<A, P>(p.0, tr_a::<B, P>(p.1, x))); assert(tr_a::<B, P>(b, z) == y); assert(tr_a::<A, P>(a, y) == x);
    }
}
// shifts, over any ring
pub proof fn shift_laws<T: Copy + Neg<Output = T> + Num, const N: usize>() requires is_cring::<T>() ensures is_action::<Shift<T, N>, Vector<T, N>>(), forall|a: Shift<T, N>| #[trigger] undoes::<Shift<T, N>, Vector<T, N>>(a)
{
    assert forall|a: Shift<T, N>, b: Shift<T, N>, x: Vector<T, N>| #[trigger] tr_a::<Shift<T, N>, Vector<T, N>>(tr_c::<Shift<T, N>, Vector<T, N>>(a, b), x) == tr_a::<Shift<T, N>, Vector<T, N>>(a, tr_a::<Shift<T, N>, Vector<T, N>>(b, x)) by {
        let l = v_add(x, v_add(a.pos, b.pos)); let r = v_add(v_add(x, b.pos), a.pos);
        assert forall|i: int| 0 <= i < N implies #[trigger] l@[i] == r@[i] by { r_comm(a.pos@[i], b.pos@[i]); r_assoc(x@[i], b.pos@[i], a.pos@[i]); }
        v_ext(l, r);
    }
    assert forall|x: Vector<T, N>| #[trigger] tr_a::<Shift<T, N>, Vector<T, N>>(<Shift<T, N> as Transform<Vector<T, N>>>::tr_id(), x) == x by {
        let l = tr_a::<Shift<T, N>, Vector<T, N>>(<Shift<T, N> as Transform<Vector<T, N>>>::tr_id(), x);
        assert forall|i: int| 0 <= i < N implies #[trigger] l@[i] == x@[i] by { r_zero(x@[i]); } v_ext(l, x);
    }
    assert forall|a: Shift<T, N>| #[trigger] undoes::<Shift<T, N>, Vector<T, N>>(a) by {
        let v = tr_i::<Shift<T, N>, Vector<T, N>>(a);
        assert forall|x: Vector<T, N>| #[trigger] tr_a::<Shift<T, N>, Vector<T, N>>(v, tr_a::<Shift<T, N>, Vector<T, N>>(a, x)) == x by {
            let l = v_add(v_add(x, a.pos), v_neg(a.pos)); assert forall|i: int| 0 <= i < N implies #[trigger] l@[i] == x@[i] by { r_assoc(x@[i], a.pos@[i], sp_neg(a.pos@[i])); r_neg(a.pos@[i]); r_zero(x@[i]); } v_ext(l, x);
        }
        assert forall|x: Vector<T, N>| #[trigger] tr_a::<Shift<T, N>, Vector<T, N>>(a, tr_a::<Shift<T, N>, Vector<T, N>>(v, x)) == x by {
            let l = v_add(v_add(x, v_neg(a.pos)), a.pos); assert forall|i: int| 0 <= i < N implies #[trigger] l@[i] == x@[i] by { r_assoc(x@[i], sp_neg(a.pos@[i]), a.pos@[i]); r_neg(a.pos@[i]); r_comm(sp_neg(a.pos@[i]), a.pos@[i]); r_zero(x@[i]); } v_ext(l, x);
        }
    }
}
// linear transforms
pub proof fn lin_assoc<T: Copy + Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>, b: Matrix<T, N, N>, x: Vector<T, N>) requires is_cring::<T>(), N >= 1 ensures m_v(m_m(a, b), x) == m_v(a, m_v(b, x))
{
    let p = m_m(a, b); let l = m_v(p, x); let bx = m_v(b, x); let r = m_v(a, bx);
    assert forall|i: int| 0 <= i < N implies #[trigger] l@[i] == r@[i] by { dot_assoc(a.data@[i]@, b, x@); assert(p.data@[i]@ =~= mapd(a.data@[i]@, b)); assert(bx@ =~= mapr(b, x@)); }
    v_ext(l, r);
}
pub proof fn lin_add<T: Copy + Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>, x: Vector<T, N>, y: Vector<T, N>) requires is_cring::<T>(), N >= 1 ensures m_v(a, v_add(x, y)) == v_add(m_v(a, x), m_v(a, y))
{
    let s = v_add(x, y); let l = m_v(a, s); let r = v_add(m_v(a, x), m_v(a, y));
    assert forall|i: int| 0 <= i < N implies #[trigger] l@[i] == r@[i] by { dot_addr(a.data@[i]@, x@, y@); assert(s@ =~= Seq::new(N as nat, |k: int| sp_add(x@[k], y@[k]))); }
    v_ext(l, r);
}
pub proof fn lin_scale<T: Copy + Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>, x: Vector<T, N>, t: T) requires is_cring::<T>(), N >= 1 ensures m_v(a, v_muls(x, t)) == v_muls(m_v(a, x), t)
{
    let s = v_muls(x, t); let l = m_v(a, s); let r = v_muls(m_v(a, x), t);
    assert forall|i: int| 0 <= i < N implies #[trigger] l@[i] == r@[i] by {
        let row = a.data@[i]@; vdot_sg(row, s@); vdot_sg(row, x@); let f = |k: int| sp_mul(row[k], s@[k]); let g = |k: int| sp_mul(row[k], x@[k]); let h = |k: int| sp_mul(g(k), t); sg_mulr(N as int, t, g);
        assert forall|k: int| 0 <= k < N implies #[trigger] f(k) == h(k) by { r_massoc(row[k], x@[k], t); }
        sg_ext(N as int, f, h);
    }
    v_ext(l, r);
}
pub proof fn lin_id<T: Copy + Neg<Output = T> + Num, const N: usize>(x: Vector<T, N>) requires is_cring::<T>(), N >= 1 ensures m_v(Matrix::<T, N, N>::one_spec(), x) == x
{
    let e = Matrix::<T, N, N>::one_spec(); let l = m_v(e, x);
    assert forall|i: int| 0 <= i < N implies #[trigger] l@[i] == x@[i] by { dot_unitl(e.data@[i]@, i, x@); }
    v_ext(l, x);
}
// a matrix whose computed inverse is one (see C17)
pub open spec fn lin_ok<T: Copy + Neg<Output = T> + Num, const N: usize>(a: Matrix<T, N, N>) -> bool { m_m(a, inv_spec(a)) == Matrix::<T, N, N>::one_spec() && m_m(inv_spec(a), a) == Matrix::<T, N, N>::one_spec() }
pub proof fn linear_laws<T: Copy + Neg<Output = T> + Num, const N: usize>() requires is_cring::<T>(), N >= 1
    ensures is_action::<Linear<T, N>, Vector<T, N>>(), forall|a: Linear<T, N>| lin_ok(a.lin) ==> #[trigger] undoes::<Linear<T, N>, Vector<T, N>>(a),
        forall|a: Linear<T, N>, b: Shift<T, N>| #[trigger] reorders::<Linear<T, N>, Shift<T, N>, Vector<T, N>>(a, b), forall|a: Shift<T, N>, b: Linear<T, N>| lin_ok(b.lin) ==> #[trigger] reorders::<Shift<T, N>, Linear<T, N>, Vector<T, N>>(a, b)
{
    assert forall|a: Linear<T, N>, b: Linear<T, N>, x: Vector<T, N>| #[trigger] tr_a::<Linear<T, N>, Vector<T, N>>(tr_c::<Linear<T, N>, Vector<T, N>>(a, b), x) == tr_a::<Linear<T, N>, Vector<T, N>>(a, tr_a::<Linear<T, N>, Vector<T, N>>(b, x)) by { lin_assoc(a.lin, b.lin, x); }
    assert forall|x: Vector<T, N>| #[trigger] tr_a::<Linear<T, N>, Vector<T, N>>(<Linear<T, N> as Transform<Vector<T, N>>>::tr_id(), x) == x by { lin_id(x); }
    assert forall|a: Linear<T, N>| lin_ok(a.lin) implies #[trigger] undoes::<Linear<T, N>, Vector<T, N>>(a) by {
        let v = tr_i::<Linear<T, N>, Vector<T, N>>(a);
        assert forall|x: Vector<T, N>| #[trigger] tr_a::<Linear<T, N>, Vector<T, N>>(v, tr_a::<Linear<T, N>, Vector<T, N>>(a, x)) == x by { lin_assoc(v.lin, a.lin, x); lin_id(x); }
        assert forall|x: Vector<T, N>| #[trigger] tr_a::<Linear<T, N>, Vector<T, N>>(a, tr_a::<Linear<T, N>, Vector<T, N>>(v, x)) == x by { lin_assoc(a.lin, v.lin, x); lin_id(x); }
    }
    assert forall|a: Linear<T, N>, b: Shift<T, N>| #[trigger] reorders::<Linear<T, N>, Shift<T, N>, Vector<T, N>>(a, b) by {
        let p = <Linear<T, N> as Reorder<Shift<T, N>, Vector<T, N>>>::ro(a, b);
        assert forall|x: Vector<T, N>| tr_a::<Linear<T, N>, Vector<T, N>>(a, #[trigger] tr_a::<Shift<T, N>, Vector<T, N>>(b, x)) == tr_a::<Shift<T, N>, Vector<T, N>>(p.0, tr_a::<Linear<T, N>, Vector<T, N>>(p.1, x)) by { lin_add(a.lin, x, b.pos); }
    }
    assert forall|a: Shift<T, N>, b: Linear<T, N>| lin_ok(b.lin) implies #[trigger] reorders::<Shift<T, N>, Linear<T, N>, Vector<T, N>>(a, b) by {
        let p = <Shift<T, N> as Reorder<Linear<T, N>, Vector<T, N>>>::ro(a, b);
        assert forall|x: Vector<T, N>| tr_a::<Shift<T, N>, Vector<T, N>>(a, #[trigger] tr_a::<Linear<T, N>, Vector<T, N>>(b, x)) == tr_a::<Linear<T, N>, Vector<T, N>>(p.0, tr_a::<Shift<T, N>, Vector<T, N>>(p.1, x)) by {
            lin_add(b.lin, x, p.1.pos); lin_assoc(b.lin, inv_spec(b.lin), a.pos); lin_id(a.pos);
        }
    }
}
// scaling
pub open spec fn inv_is_rcp<T: Copy + Neg<Output = T> + Num + Inv<Output = T>>() -> bool { T::obeys_inv() && (forall|x: T| #[trigger] x.inv_req()) && forall|x: T| x != T::zero_spec() ==> sp_mul(x, #[trigger] x.inv_of()) == T::one_spec() }
pub proof fn scale_laws<T: Copy + Neg<Output = T> + Num + Inv<Output = T>, const N: usize>() requires is_cring::<T>(), inv_is_rcp::<T>()
    ensures is_action::<Scale<T>, Vector<T, N>>(), forall|a: Scale<T>| a.mag != T::zero_spec() ==> #[trigger] undoes::<Scale<T>, Vector<T, N>>(a),
        forall|a: Scale<T>, b: Shift<T, N>| #[trigger] reorders::<Scale<T>, Shift<T, N>, Vector<T, N>>(a, b), forall|a: Shift<T, N>, b: Scale<T>| b.mag != T::zero_spec() ==> #[trigger] reorders::<Shift<T, N>, Scale<T>, Vector<T, N>>(a, b)
{
    assert forall|a: Scale<T>, b: Scale<T>, x: Vector<T, N>| #[trigger] tr_a::<Scale<T>, Vector<T, N>>(tr_c::<Scale<T>, Vector<T, N>>(a, b), x) == tr_a::<Scale<T>, Vector<T, N>>(a, tr_a::<Scale<T>, Vector<T, N>>(b, x)) by {
        let l = v_muls(x, sp_mul(a.mag, b.mag)); let r = v_muls(v_muls(x, b.mag), a.mag);
        assert forall|i: int| 0 <= i < N implies #[trigger] l@[i] == r@[i] by { r_mcomm(a.mag, b.mag); r_massoc(x@[i], b.mag, a.mag); } v_ext(l, r);
    }
    assert forall|x: Vector<T, N>| #[trigger] tr_a::<Scale<T>, Vector<T, N>>(<Scale<T> as Transform<Vector<T, N>>>::tr_id(), x) == x by { let l = v_muls(x, T::one_spec()); assert forall|i: int| 0 <= i < N implies #[trigger] l@[i] == x@[i] by { r_one(x@[i]); } v_ext(l, x); }
    assert forall|a: T, x: Vector<T, N>| a != T::zero_spec() implies v_muls(#[trigger] v_muls(x, a), a.inv_of()) == x && v_muls(v_muls(x, a.inv_of()), a) == x by {
        let k = a.inv_of(); let l = v_muls(v_muls(x, a), k); let r = v_muls(v_muls(x, k), a); r_mcomm(a, k);
        assert forall|i: int| 0 <= i < N implies #[trigger] l@[i] == x@[i] by { r_massoc(x@[i], a, k); r_one(x@[i]); } v_ext(l, x);
        assert forall|i: int| 0 <= i < N implies #[trigger] r@[i] == x@[i] by { r_massoc(x@[i], k, a); r_one(x@[i]); } v_ext(r, x);
    }
    assert forall|a: Scale<T>| a.mag != T::zero_spec() implies #[trigger] undoes::<Scale<T>, Vector<T, N>>(a) by {
        let v = tr_i::<Scale<T>, Vector<T, N>>(a);
        assert forall|x: Vector<T, N>| #[trigger] tr_a::<Scale<T>, Vector<T, N>>(v, tr_a::<Scale<T>, Vector<T, N>>(a, x)) == x by { let u = v_muls(x, a.mag); }
        assert forall|x: Vector<T, N>| #[trigger] tr_a::<Scale<T>, Vector<T, N>>(a, tr_a::<Scale<T>, Vector<T, N>>(v, x)) == x by { let u = v_muls(x, a.mag); }
    }
    assert forall|t: T, x: Vector<T, N>, y: Vector<T, N>| #[trigger] v_muls(v_add(x, y), t) == v_add(v_muls(x, t), v_muls(y, t)) by { let l = v_muls(v_add(x, y), t); let r = v_add(v_muls(x, t), v_muls(y, t)); assert forall|i: int| 0 <= i < N implies #[trigger] l@[i] == r@[i] by { r_distr(x@[i], y@[i], t); } v_ext(l, r); }
    assert forall|a: Scale<T>, b: Shift<T, N>| #[trigger] reorders::<Scale<T>, Shift<T, N>, Vector<T, N>>(a, b) by {}
    assert forall|a: Shift<T, N>, b: Scale<T>| b.mag != T::zero_spec() implies #[trigger] reorders::<Shift<T, N>, Scale<T>, Vector<T, N>>(a, b) by {
        let u = v_muls(a.pos, b.mag); assert(v_muls(v_muls(a.pos, b.mag.inv_of()), b.mag) == a.pos);
        assert forall|x: Vector<T, N>| tr_a::<Shift<T, N>, Vector<T, N>>(a, #[trigger] tr_a::<Scale<T>, Vector<T, N>>(b, x)) == v_muls(v_add(x, v_muls(a.pos, b.mag.inv_of())), b.mag) by { assert(v_muls(v_add(x, v_muls(a.pos, b.mag.inv_of())), b.mag) == v_add(v_muls(x, b.mag), v_muls(v_muls(a.pos, b.mag.inv_of()), b.mag))); }
    }
}
// rotations: of unit length
pub open spec fn rot2_ok<T: Copy + Neg<Output = T> + Num>(c: Complex<T>) -> bool { c_nsq(c) == T::one_spec() }
pub proof fn rot2_laws<T: Copy + Neg<Output = T> + Num>(a: Complex<T>, b: Complex<T>, x: Vector<T, 2>, y: Vector<T, 2>, t: T) requires is_cring::<T>()
    ensures rot2(c_mul(a, b), x) == rot2(a, rot2(b, x)), rot2(mkc(T::one_spec(), T::zero_spec()), x) == x, rot2(a, v_add(x, y)) == v_add(rot2(a, x), rot2(a, y)), rot2(a, v_muls(x, t)) == v_muls(rot2(a, x), t),
        rot2_ok(a) ==> rot2(c_conj(a), rot2(a, x)) == x && rot2(a, rot2(c_conj(a), x)) == x
{
    pl_rot2(cre(a), cim(a), cre(b), cim(b), x@[0], x@[1], y@[0], y@[1], t); r_one(x@[0]); r_one(x@[1]);
    v_ext(rot2(c_mul(a, b), x), rot2(a, rot2(b, x))); v_ext(rot2(mkc(T::one_spec(), T::zero_spec()), x), x); v_ext(rot2(a, v_add(x, y)), v_add(rot2(a, x), rot2(a, y))); v_ext(rot2(a, v_muls(x, t)), v_muls(rot2(a, x), t));
    if rot2_ok(a) { v_ext(rot2(c_conj(a), rot2(a, x)), x); v_ext(rot2(a, rot2(c_conj(a), x)), x); }
}
pub open spec fn rot3_ok<T: Copy + Neg<Output = T> + Num>(q: Quaternion<T>) -> bool { q_nsq(q) == T::one_spec() }
pub open spec fn q_pure<T: Num>(x: Vector<T, 3>) -> Quaternion<T> { mkq(T::zero_spec(), x@[0], x@[1], x@[2]) }
pub proof fn rot3_pure<T: Copy + Neg<Output = T> + Num>(q: Quaternion<T>, x: Vector<T, 3>) requires is_cring::<T>() ensures q_pure(rot3(q, x)) == q_mul(q_mul(q, q_pure(x)), q_conj(q))
{ pl_rot3w(qw(q), qx(q), qy(q), qz(q), x@[0], x@[1], x@[2]); q_ext(q_pure(rot3(q, x)), q_mul(q_mul(q, q_pure(x)), q_conj(q))); }
pub proof fn pure_ext<T: Copy + Neg<Output = T> + Num>(x: Vector<T, 3>, y: Vector<T, 3>) requires q_pure(x) == q_pure(y) ensures x == y
{ assert(qx(q_pure(x)) == x@[0] && qy(q_pure(x)) == x@[1] && qz(q_pure(x)) == x@[2]); assert(qx(q_pure(y)) == y@[0] && qy(q_pure(y)) == y@[1] && qz(q_pure(y)) == y@[2]); assert forall|i: int| 0 <= i < 3 implies #[trigger] x@[i] == y@[i] by { assert(i == 0 || i == 1 || i == 2); } v_ext(x, y); }
pub proof fn rot3_comp<T: Copy + Neg<Output = T> + Num>(a: Quaternion<T>, b: Quaternion<T>, x: Vector<T, 3>) requires is_cring::<T>() ensures rot3(q_mul(a, b), x) == rot3(a, rot3(b, x))
{
    let p = q_pure(x); let bc = q_conj(b); let ac = q_conj(a); let ab = q_mul(a, b); let bp = q_mul(b, p);
    rot3_pure(ab, x); rot3_pure(b, x); rot3_pure(a, rot3(b, x));
    q_laws(a, b, p); q_laws(q_mul(ab, p), bc, ac); q_laws(a, bp, bc); 
    pure_ext(rot3(ab, x), rot3(a, rot3(b, x)));
}
pub proof fn rot3_laws<T: Copy + Neg<Output = T> + Num>(a: Quaternion<T>, x: Vector<T, 3>, y: Vector<T, 3>, t: T) requires is_cring::<T>()
    ensures rot3(q_one(), x) == x, rot3(a, v_add(x, y)) == v_add(rot3(a, x), rot3(a, y)), rot3(a, v_muls(x, t)) == v_muls(rot3(a, x), t), rot3_ok(a) ==> rot3(q_conj(a), rot3(a, x)) == x && rot3(a, rot3(q_conj(a), x)) == x
{
    pl_rot3id(x@[0], x@[1], x@[2]); pl_rot3lin(qw(a), qx(a), qy(a), qz(a), x@[0], x@[1], x@[2], y@[0], y@[1], y@[2], t);
    v_ext(rot3(q_one(), x), x); v_ext(rot3(a, v_add(x, y)), v_add(rot3(a, x), rot3(a, y))); v_ext(rot3(a, v_muls(x, t)), v_muls(rot3(a, x), t));
    if rot3_ok(a) { q_laws(a, a, a); rot3_comp(q_conj(a), a, x); rot3_comp(a, q_conj(a), x); }
}
pub proof fn rotation2_laws<T: Copy + Neg<Output = T> + Num>() requires is_cring::<T>()
    ensures is_action::<Rotation2<T>, Vector<T, 2>>(), forall|a: Rotation2<T>| rot2_ok(a.comp) ==> #[trigger] undoes::<Rotation2<T>, Vector<T, 2>>(a),
        forall|a: Rotation2<T>, b: Shift<T, 2>| #[trigger] reorders::<Rotation2<T>, Shift<T, 2>, Vector<T, 2>>(a, b), forall|a: Shift<T, 2>, b: Rotation2<T>| rot2_ok(b.comp) ==> #[trigger] reorders::<Shift<T, 2>, Rotation2<T>, Vector<T, 2>>(a, b)
{
    let o = T::one_spec();
    assert forall|a: Rotation2<T>, b: Rotation2<T>, x: Vector<T, 2>| #[trigger] tr_a::<Rotation2<T>, Vector<T, 2>>(tr_c::<Rotation2<T>, Vector<T, 2>>(a, b), x) == tr_a::<Rotation2<T>, Vector<T, 2>>(a, tr_a::<Rotation2<T>, Vector<T, 2>>(b, x)) by { rot2_laws(a.comp, b.comp, x, x, o); }
    assert forall|x: Vector<T, 2>| #[trigger] tr_a::<Rotation2<T>, Vector<T, 2>>(<Rotation2<T> as Transform<Vector<T, 2>>>::tr_id(), x) == x by { rot2_laws(mkc(o, o), mkc(o, o), x, x, o); }
    assert forall|a: Rotation2<T>| rot2_ok(a.comp) implies #[trigger] undoes::<Rotation2<T>, Vector<T, 2>>(a) by {
        let v = tr_i::<Rotation2<T>, Vector<T, 2>>(a);
        assert forall|x: Vector<T, 2>| #[trigger] tr_a::<Rotation2<T>, Vector<T, 2>>(v, tr_a::<Rotation2<T>, Vector<T, 2>>(a, x)) == x by { rot2_laws(a.comp, a.comp, x, x, o); }
        assert forall|x: Vector<T, 2>| #[trigger] tr_a::<Rotation2<T>, Vector<T, 2>>(a, tr_a::<Rotation2<T>, Vector<T, 2>>(v, x)) == x by { rot2_laws(a.comp, a.comp, x, x, o); }
    }
    assert forall|a: Rotation2<T>, b: Shift<T, 2>| #[trigger] reorders::<Rotation2<T>, Shift<T, 2>, Vector<T, 2>>(a, b) by {
        let p = <Rotation2<T> as Reorder<Shift<T, 2>, Vector<T, 2>>>::ro(a, b);
        assert forall|x: Vector<T, 2>| tr_a::<Rotation2<T>, Vector<T, 2>>(a, #[trigger] tr_a::<Shift<T, 2>, Vector<T, 2>>(b, x)) == tr_a::<Shift<T, 2>, Vector<T, 2>>(p.0, tr_a::<Rotation2<T>, Vector<T, 2>>(p.1, x)) by { rot2_laws(a.comp, a.comp, x, b.pos, o); }
    }
    assert forall|a: Shift<T, 2>, b: Rotation2<T>| rot2_ok(b.comp) implies #[trigger] reorders::<Shift<T, 2>, Rotation2<T>, Vector<T, 2>>(a, b) by {
        let p = <Shift<T, 2> as Reorder<Rotation2<T>, Vector<T, 2>>>::ro(a, b);
        assert forall|x: Vector<T, 2>| tr_a::<Shift<T, 2>, Vector<T, 2>>(a, #[trigger] tr_a::<Rotation2<T>, Vector<T, 2>>(b, x)) == tr_a::<Rotation2<T>, Vector<T, 2>>(p.0, tr_a::<Shift<T, 2>, Vector<T, 2>>(p.1, x)) by { rot2_laws(b.comp, b.comp, x, p.1.pos, o); rot2_laws(b.comp, b.comp, a.pos, a.pos, o); }
    }
}
pub proof fn rotation3_laws<T: Copy + Neg<Output = T> + Num>() requires is_cring::<T>()
    ensures is_action::<Rotation3<T>, Vector<T, 3>>(), forall|a: Rotation3<T>| rot3_ok(a.quat) ==> #[trigger] undoes::<Rotation3<T>, Vector<T, 3>>(a),
        forall|a: Rotation3<T>, b: Shift<T, 3>| #[trigger] reorders::<Rotation3<T>, Shift<T, 3>, Vector<T, 3>>(a, b), forall|a: Shift<T, 3>, b: Rotation3<T>| rot3_ok(b.quat) ==> #[trigger] reorders::<Shift<T, 3>, Rotation3<T>, Vector<T, 3>>(a, b)
{
    let o = T::one_spec();
    assert forall|a: Rotation3<T>, b: Rotation3<T>, x: Vector<T, 3>| #[trigger] tr_a::<Rotation3<T>, Vector<T, 3>>(tr_c::<Rotation3<T>, Vector<T, 3>>(a, b), x) == tr_a::<Rotation3<T>, Vector<T, 3>>(a, tr_a::<Rotation3<T>, Vector<T, 3>>(b, x)) by { rot3_comp(a.quat, b.quat, x); }
    assert forall|x: Vector<T, 3>| #[trigger] tr_a::<Rotation3<T>, Vector<T, 3>>(<Rotation3<T> as Transform<Vector<T, 3>>>::tr_id(), x) == x by { rot3_laws(q_one(), x, x, o); }
    assert forall|a: Rotation3<T>| rot3_ok(a.quat) implies #[trigger] undoes::<Rotation3<T>, Vector<T, 3>>(a) by {
        let v = tr_i::<Rotation3<T>, Vector<T, 3>>(a);
        assert forall|x: Vector<T, 3>| #[trigger] tr_a::<Rotation3<T>, Vector<T, 3>>(v, tr_a::<Rotation3<T>, Vector<T, 3>>(a, x)) == x by { rot3_laws(a.quat, x, x, o); }
        assert forall|x: Vector<T, 3>| #[trigger] tr_a::<Rotation3<T>, Vector<T, 3>>(a, tr_a::<Rotation3<T>, Vector<T, 3>>(v, x)) == x by { rot3_laws(a.quat, x, x, o); }
    }
    assert forall|a: Rotation3<T>, b: Shift<T, 3>| #[trigger] reorders::<Rotation3<T>, Shift<T, 3>, Vector<T, 3>>(a, b) by {
        let p = <Rotation3<T> as Reorder<Shift<T, 3>, Vector<T, 3>>>::ro(a, b);
        assert forall|x: Vector<T, 3>| tr_a::<Rotation3<T>, Vector<T, 3>>(a, #[trigger] tr_a::<Shift<T, 3>, Vector<T, 3>>(b, x)) == tr_a::<Shift<T, 3>, Vector<T, 3>>(p.0, tr_a::<Rotation3<T>, Vector<T, 3>>(p.1, x)) by { rot3_laws(a.quat, x, b.pos, o); }
    }
    assert forall|a: Shift<T, 3>, b: Rotation3<T>| rot3_ok(b.quat) implies #[trigger] reorders::<Shift<T, 3>, Rotation3<T>, Vector<T, 3>>(a, b) by {
        let p = <Shift<T, 3> as Reorder<Rotation3<T>, Vector<T, 3>>>::ro(a, b);
        assert forall|x: Vector<T, 3>| tr_a::<Shift<T, 3>, Vector<T, 3>>(a, #[trigger] tr_a::<Rotation3<T>, Vector<T, 3>>(b, x)) == tr_a::<Rotation3<T>, Vector<T, 3>>(p.0, tr_a::<Shift<T, 3>, Vector<T, 3>>(p.1, x)) by { rot3_laws(b.quat, x, p.1.pos, o); rot3_laws(b.quat, a.pos, a.pos, o); }
    }
}
// the transforms of the crate are such transforms
pub fn law_transforms<T: Copy + Neg<Output = T> + Num + Inv<Output = T>, const N: usize>(s: Shift<T, N>, s1: Shift<T, N>, l: Linear<T, N>, l1: Linear<T, N>, k: Scale<T>, k1: Scale<T>, f: Affine<T, N>, f1: Affine<T, N>, x: Vector<T, N>, r: Rotation2<T>, r1: Rotation2<T>, x2: Vector<T, 2>, q: Rotation3<T>, q1: Rotation3<T>, x3: Vector<T, 3>, s2: Shift<T, 2>, s3: Shift<T, 3>)
    requires is_cring::<T>(), inv_is_rcp::<T>(), tot_lin::<T>(N), lin_ok(l.lin), lin_ok(f.inner.lin), k.mag != T::zero_spec(), rot2_ok(r.comp), rot3_ok(q.quat)
{
    proof { cr_tot::<T>(); shift_laws::<T, N>(); shift_laws::<T, 2>(); shift_laws::<T, 3>(); linear_laws::<T, N>(); scale_laws::<T, N>(); rotation2_laws::<T>(); rotation3_laws::<T>(); chain_action::<Shift<T, N>, Linear<T, N>, Vector<T, N>>(); assert(undoes::<Shift<T, N>, Vector<T, N>>(f.outer)); assert(undoes::<Linear<T, N>, Vector<T, N>>(f.inner)); chain_undoes::<Shift<T, N>, Linear<T, N>, Vector<T, N>>(f); }
    law_transform_group(s, s1, x); law_transform_inverse(s, x);
    law_transform_group(l, l1, x); law_transform_inverse(l, x); law_transform_reorder(l, s, x); law_transform_reorder(s, l, x);
    law_transform_group(k, k1, x); law_transform_inverse(k, x); law_transform_reorder(k, s, x); law_transform_reorder(s, k, x);
    law_transform_group(f, f1, x); law_transform_inverse(f, x);
    law_transform_group(r, r1, x2); law_transform_inverse(r, x2); law_transform_reorder(r, s2, x2); law_transform_reorder(s2, r, x2);
    law_transform_group(q, q1, x3); law_transform_inverse(q, x3); law_transform_reorder(q, s3, x3); law_transform_reorder(s3, q, x3);
}
