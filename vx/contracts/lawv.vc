### verbatim
// ------------------------------------------------ C13: the laws of the dot, cross and outer products over a commutative ring
pub proof fn vdot3<T: Neg<Output = T> + Num>(a: Seq<T>, b: Seq<T>) requires a.len() == 3, b.len() == 3
    ensures vdot(a, b) == sp_add(sp_add(sp_mul(a[0], b[0]), sp_mul(a[1], b[1])), sp_mul(a[2], b[2]))
{ let p = Seq::new(a.len(), |i: int| sp_mul(a[i], b[i])); let t = p.subrange(1, 3); let u = t.drop_last(); reveal_with_fuel(vfold, 4); assert(t.last() == p[2]); assert(u.last() == p[1]); assert(u.drop_last().len() == 0); }
pub proof fn vdotx<T: Neg<Output = T> + Num>(a: Seq<T>, b: Seq<T>) requires a.len() == 4, b.len() == 4
    ensures vdot(a, b) == sp_add(sp_add(sp_add(sp_mul(a[0], b[0]), sp_mul(a[1], b[1])), sp_mul(a[2], b[2])), sp_mul(a[3], b[3]))
{
    let p = Seq::new(a.len(), |i: int| sp_mul(a[i], b[i])); let t = p.subrange(1, 4); let u = t.drop_last(); let w = u.drop_last(); reveal_with_fuel(vfold, 5);
    assert(t.last() == p[3]); assert(u.last() == p[2]); assert(w.last() == p[1]); assert(w.drop_last().len() == 0);
}
pub fn law_cross3<T: Copy + Neg<Output = T> + Num>(a: Vector<T, 3>, b: Vector<T, 3>) requires is_cring::<T>()
{
    proof {
        cr_tot::<T>(); pl_cross_anti(a@[0], a@[1], a@[2], b@[0], b@[1], b@[2]); pl_cross_orth(a@[0], a@[1], a@[2], b@[0], b@[1], b@[2]); pl_lagrange(a@[0], a@[1], a@[2], b@[0], b@[1], b@[2]);
        let c = v_cross(a, b)@; vdot3(a@, c); vdot3(b@, c); vdot3(c, c); vdot3(a@, a@); vdot3(b@, b@); vdot3(a@, b@);
    }
    let c = a.cross(b); let d = b.cross(a); let n = -d; proof { v_ext(c, n); assert(c == n); }
    let x = a.dot(c); let y = b.dot(c); proof { assert(x == T::zero_spec()); assert(y == T::zero_spec()); }
    let l = c.square_length(); let aa = a.square_length(); let bb = b.square_length(); let ab = a.dot(b); let p = aa * bb; let q = ab * ab; let r = p - q;
    proof { assert(l == r); }
}
pub fn law_cross_bilinear<T: Copy + Neg<Output = T> + Num>(a: Vector<T, 3>, b: Vector<T, 3>, c: Vector<T, 3>, t: T) requires is_cring::<T>()
{
    proof { cr_tot::<T>(); pl_cross_bilin(a@[0], a@[1], a@[2], b@[0], b@[1], b@[2], c@[0], c@[1], c@[2], t); }
    let s = b + c; let l = a.cross(s); let x = a.cross(b); let y = a.cross(c); let r = x + y; proof { v_ext(l, r); assert(l == r); }
    let s = b * t; let l = a.cross(s); let r = x * t; proof { v_ext(l, r); assert(l == r); }
}
pub fn law_cross2<T: Copy + Neg<Output = T> + Num>(a: Vector<T, 2>, b: Vector<T, 2>) requires is_cring::<T>()
{
    proof { cr_tot::<T>(); pl_cross2(a@[0], a@[1], b@[0], b@[1]); }
    let c = a.cross(b); let d = b.cross(a); let n = -d; proof { assert(c == n); }
}
pub fn law_cross4<T: Copy + Neg<Output = T> + Num>(a: Vector<T, 4>, b: Vector<T, 4>) requires is_cring::<T>()
{
    proof { cr_tot::<T>(); pl_cross4(a@[0], a@[1], a@[2], a@[3], b@[0], b@[1], b@[2], b@[3]); }
    let c = a.cross(b); let d = b.cross(a); let n = -d; proof { v_ext(c, n); assert(c == n); }
    let x = a.dot(c); let y = b.dot(c); proof { vdotx(a@, c@); vdotx(b@, c@); assert(x == T::zero_spec()); assert(y == T::zero_spec()); }
}
pub fn law_dot_outer<T: Copy + Zero + Mul<Output = T>, const M: usize, const N: usize>(a: Vector<T, N>, b: Vector<T, N>, c: Vector<T, N>, d: Vector<T, M>, t: T)
    requires is_ring::<T>(), is_comm::<T>(), N >= 1, M >= 1, M * N <= usize::MAX,
{
    proof { r_tot::<T>(); }
    // symmetric and linear
    let l = a.dot(b); let r = b.dot(a); proof { dot_rev(a@, b@); assert(l == r); }
    let s = b + c; let l = a.dot(s); let x = a.dot(b); let y = a.dot(c); let r = x + y;
    proof { dot_addr(a@, b@, c@); assert(s@ =~= Seq::new(N as nat, |i: int| sp_add(b@[i], c@[i]))); assert(l == r); }
    let s = b * t; let l = a.dot(s); let r = x * t;
    proof {
        vdot_sg(a@, s@); vdot_sg(a@, b@); let f = |i: int| sp_mul(a@[i], s@[i]); let g = |i: int| sp_mul(a@[i], b@[i]); let h = |i: int| sp_mul(g(i), t);
        sg_mulr(N as int, t, g);
        assert forall|i: int| 0 <= i < N implies #[trigger] f(i) == h(i) by { r_massoc(a@[i], b@[i], t); }
        sg_ext(N as int, f, h); assert(l == r);
    }
    // the outer product applied to a vector: (d a^T) b = d (a.b)
    let o = d.outer(a); let l = o.dot(b); let r = d * x;
    proof {
        assert forall|i: int| 0 <= i < M implies #[trigger] l@[i] == r@[i] by {
            let row = o.data@[i]@; vdot_sg(row, b@); vdot_sg(a@, b@);
            let f = |k: int| sp_mul(row[k], b@[k]); let g = |k: int| sp_mul(a@[k], b@[k]); let h = |k: int| sp_mul(d@[i], g(k)); sg_mull(N as int, d@[i], g);
            assert forall|k: int| 0 <= k < N implies #[trigger] f(k) == h(k) by { r_massoc(d@[i], a@[k], b@[k]); }
            sg_ext(N as int, f, h);
        }
        v_ext(l, r); assert(l == r);
    }
}
