### verbatim
// generated by gen_poly.py
pub proof fn pl_rot2iso<T: Neg<Output = T> + Num>(a0: T, a1: T, x0: T, x1: T, y0: T, y1: T) requires is_cring::<T>()
    ensures
        sp_add(sp_mul(sp_sub(sp_mul(x0, a0), sp_mul(x1, a1)), sp_sub(sp_mul(y0, a0), sp_mul(y1, a1))), sp_mul(sp_add(sp_mul(x0, a1), sp_mul(x1, a0)), sp_add(sp_mul(y0, a1), sp_mul(y1, a0)))) == sp_mul(sp_add(sp_mul(a0, a0), sp_mul(a1, a1)), sp_add(sp_mul(x0, y0), sp_mul(x1, y1))),
        sp_sub(sp_mul(sp_sub(sp_mul(x0, a0), sp_mul(x1, a1)), sp_add(sp_mul(y0, a1), sp_mul(y1, a0))), sp_mul(sp_add(sp_mul(x0, a1), sp_mul(x1, a0)), sp_sub(sp_mul(y0, a0), sp_mul(y1, a1)))) == sp_mul(sp_add(sp_mul(a0, a0), sp_mul(a1, a1)), sp_sub(sp_mul(x0, y1), sp_mul(x1, y0))),
        sp_add(sp_mul(a0, x0), sp_mul(sp_neg(a1), x1)) == sp_sub(sp_mul(x0, a0), sp_mul(x1, a1)),
        sp_add(sp_mul(a1, x0), sp_mul(a0, x1)) == sp_add(sp_mul(x0, a1), sp_mul(x1, a0)),
{
    let v = seq![a0, a1, x0, x1, y0, y1];
    assert(nf(xs(xa(xm(xs(xm(Ex::V(2), Ex::V(0)), xm(Ex::V(3), Ex::V(1))), xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1)))), xm(xa(xm(Ex::V(2), Ex::V(1)), xm(Ex::V(3), Ex::V(0))), xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0))))), xm(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xa(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(3), Ex::V(5)))))) == Li::E) by(compute_only); poly_eq(xa(xm(xs(xm(Ex::V(2), Ex::V(0)), xm(Ex::V(3), Ex::V(1))), xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1)))), xm(xa(xm(Ex::V(2), Ex::V(1)), xm(Ex::V(3), Ex::V(0))), xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0))))), xm(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xa(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(3), Ex::V(5)))), v);
    assert(nf(xs(xs(xm(xs(xm(Ex::V(2), Ex::V(0)), xm(Ex::V(3), Ex::V(1))), xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0)))), xm(xa(xm(Ex::V(2), Ex::V(1)), xm(Ex::V(3), Ex::V(0))), xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1))))), xm(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xs(xm(Ex::V(2), Ex::V(5)), xm(Ex::V(3), Ex::V(4)))))) == Li::E) by(compute_only); poly_eq(xs(xm(xs(xm(Ex::V(2), Ex::V(0)), xm(Ex::V(3), Ex::V(1))), xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0)))), xm(xa(xm(Ex::V(2), Ex::V(1)), xm(Ex::V(3), Ex::V(0))), xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1))))), xm(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xs(xm(Ex::V(2), Ex::V(5)), xm(Ex::V(3), Ex::V(4)))), v);
    assert(nf(xs(xa(xm(Ex::V(0), Ex::V(2)), xm(xn(Ex::V(1)), Ex::V(3))), xs(xm(Ex::V(2), Ex::V(0)), xm(Ex::V(3), Ex::V(1))))) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(0), Ex::V(2)), xm(xn(Ex::V(1)), Ex::V(3))), xs(xm(Ex::V(2), Ex::V(0)), xm(Ex::V(3), Ex::V(1))), v);
    assert(nf(xs(xa(xm(Ex::V(1), Ex::V(2)), xm(Ex::V(0), Ex::V(3))), xa(xm(Ex::V(2), Ex::V(1)), xm(Ex::V(3), Ex::V(0))))) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(1), Ex::V(2)), xm(Ex::V(0), Ex::V(3))), xa(xm(Ex::V(2), Ex::V(1)), xm(Ex::V(3), Ex::V(0))), v);
    reveal_with_fuel(ev, 7);
}
pub proof fn pl_rod<T: Neg<Output = T> + Num>(c: T, s: T, u0: T, u1: T, u2: T, x0: T, x1: T, x2: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_add(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(c, T::zero_spec()), sp_mul(sp_mul(u0, s), x0)), sp_mul(sp_mul(u1, s), x1)), sp_mul(sp_mul(u2, s), x2)), sp_neg(sp_mul(u0, s))), sp_mul(sp_sub(sp_add(sp_add(sp_mul(c, x0), sp_mul(sp_mul(u0, s), T::zero_spec())), sp_mul(sp_mul(u1, s), x2)), sp_mul(sp_mul(u2, s), x1)), c)), sp_mul(sp_add(sp_add(sp_sub(sp_mul(c, x1), sp_mul(sp_mul(u0, s), x2)), sp_mul(sp_mul(u1, s), T::zero_spec())), sp_mul(sp_mul(u2, s), x0)), sp_neg(sp_mul(u2, s)))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(c, x2), sp_mul(sp_mul(u0, s), x1)), sp_mul(sp_mul(u1, s), x0)), sp_mul(sp_mul(u2, s), T::zero_spec())), sp_neg(sp_mul(u1, s)))) == sp_add(sp_add(sp_mul(x0, sp_sub(sp_mul(c, c), sp_mul(sp_mul(s, s), sp_add(sp_add(sp_mul(u0, u0), sp_mul(u1, u1)), sp_mul(u2, u2))))), sp_mul(sp_sub(sp_mul(u1, x2), sp_mul(u2, x1)), sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), c), s))), sp_mul(u0, sp_mul(sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), s), s), sp_add(sp_add(sp_mul(u0, x0), sp_mul(u1, x1)), sp_mul(u2, x2))))),
        sp_add(sp_add(sp_sub(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(c, T::zero_spec()), sp_mul(sp_mul(u0, s), x0)), sp_mul(sp_mul(u1, s), x1)), sp_mul(sp_mul(u2, s), x2)), sp_neg(sp_mul(u1, s))), sp_mul(sp_sub(sp_add(sp_add(sp_mul(c, x0), sp_mul(sp_mul(u0, s), T::zero_spec())), sp_mul(sp_mul(u1, s), x2)), sp_mul(sp_mul(u2, s), x1)), sp_neg(sp_mul(u2, s)))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(c, x1), sp_mul(sp_mul(u0, s), x2)), sp_mul(sp_mul(u1, s), T::zero_spec())), sp_mul(sp_mul(u2, s), x0)), c)), sp_mul(sp_add(sp_sub(sp_add(sp_mul(c, x2), sp_mul(sp_mul(u0, s), x1)), sp_mul(sp_mul(u1, s), x0)), sp_mul(sp_mul(u2, s), T::zero_spec())), sp_neg(sp_mul(u0, s)))) == sp_add(sp_add(sp_mul(x1, sp_sub(sp_mul(c, c), sp_mul(sp_mul(s, s), sp_add(sp_add(sp_mul(u0, u0), sp_mul(u1, u1)), sp_mul(u2, u2))))), sp_mul(sp_sub(sp_mul(u2, x0), sp_mul(u0, x2)), sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), c), s))), sp_mul(u1, sp_mul(sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), s), s), sp_add(sp_add(sp_mul(u0, x0), sp_mul(u1, x1)), sp_mul(u2, x2))))),
        sp_add(sp_sub(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(c, T::zero_spec()), sp_mul(sp_mul(u0, s), x0)), sp_mul(sp_mul(u1, s), x1)), sp_mul(sp_mul(u2, s), x2)), sp_neg(sp_mul(u2, s))), sp_mul(sp_sub(sp_add(sp_add(sp_mul(c, x0), sp_mul(sp_mul(u0, s), T::zero_spec())), sp_mul(sp_mul(u1, s), x2)), sp_mul(sp_mul(u2, s), x1)), sp_neg(sp_mul(u1, s)))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(c, x1), sp_mul(sp_mul(u0, s), x2)), sp_mul(sp_mul(u1, s), T::zero_spec())), sp_mul(sp_mul(u2, s), x0)), sp_neg(sp_mul(u0, s)))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(c, x2), sp_mul(sp_mul(u0, s), x1)), sp_mul(sp_mul(u1, s), x0)), sp_mul(sp_mul(u2, s), T::zero_spec())), c)) == sp_add(sp_add(sp_mul(x2, sp_sub(sp_mul(c, c), sp_mul(sp_mul(s, s), sp_add(sp_add(sp_mul(u0, u0), sp_mul(u1, u1)), sp_mul(u2, u2))))), sp_mul(sp_sub(sp_mul(u0, x1), sp_mul(u1, x0)), sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), c), s))), sp_mul(u2, sp_mul(sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), s), s), sp_add(sp_add(sp_mul(u0, x0), sp_mul(u1, x1)), sp_mul(u2, x2))))),
{
    let v = seq![c, s, u0, u1, u2, x0, x1, x2];
    assert(nf(xs(xs(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(5))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(6))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(7))), xn(xm(Ex::V(2), Ex::V(1)))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(xm(Ex::V(2), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(7))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(6))), Ex::V(0))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(7))), xm(xm(Ex::V(3), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(5))), xn(xm(Ex::V(4), Ex::V(1))))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(6))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(5))), xm(xm(Ex::V(4), Ex::V(1)), Ex::Z)), xn(xm(Ex::V(3), Ex::V(1))))), xa(xa(xm(Ex::V(5), xs(xm(Ex::V(0), Ex::V(0)), xm(xm(Ex::V(1), Ex::V(1)), xa(xa(xm(Ex::V(2), Ex::V(2)), xm(Ex::V(3), Ex::V(3))), xm(Ex::V(4), Ex::V(4)))))), xm(xs(xm(Ex::V(3), Ex::V(7)), xm(Ex::V(4), Ex::V(6))), xm(xm(xa(Ex::I, Ex::I), Ex::V(0)), Ex::V(1)))), xm(Ex::V(2), xm(xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(1)), xa(xa(xm(Ex::V(2), Ex::V(5)), xm(Ex::V(3), Ex::V(6))), xm(Ex::V(4), Ex::V(7)))))))) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(5))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(6))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(7))), xn(xm(Ex::V(2), Ex::V(1)))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(xm(Ex::V(2), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(7))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(6))), Ex::V(0))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(7))), xm(xm(Ex::V(3), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(5))), xn(xm(Ex::V(4), Ex::V(1))))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(6))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(5))), xm(xm(Ex::V(4), Ex::V(1)), Ex::Z)), xn(xm(Ex::V(3), Ex::V(1))))), xa(xa(xm(Ex::V(5), xs(xm(Ex::V(0), Ex::V(0)), xm(xm(Ex::V(1), Ex::V(1)), xa(xa(xm(Ex::V(2), Ex::V(2)), xm(Ex::V(3), Ex::V(3))), xm(Ex::V(4), Ex::V(4)))))), xm(xs(xm(Ex::V(3), Ex::V(7)), xm(Ex::V(4), Ex::V(6))), xm(xm(xa(Ex::I, Ex::I), Ex::V(0)), Ex::V(1)))), xm(Ex::V(2), xm(xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(1)), xa(xa(xm(Ex::V(2), Ex::V(5)), xm(Ex::V(3), Ex::V(6))), xm(Ex::V(4), Ex::V(7)))))), v);
    assert(nf(xs(xa(xa(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(5))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(6))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(7))), xn(xm(Ex::V(3), Ex::V(1)))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(xm(Ex::V(2), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(7))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(6))), xn(xm(Ex::V(4), Ex::V(1))))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(7))), xm(xm(Ex::V(3), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(5))), Ex::V(0))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(6))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(5))), xm(xm(Ex::V(4), Ex::V(1)), Ex::Z)), xn(xm(Ex::V(2), Ex::V(1))))), xa(xa(xm(Ex::V(6), xs(xm(Ex::V(0), Ex::V(0)), xm(xm(Ex::V(1), Ex::V(1)), xa(xa(xm(Ex::V(2), Ex::V(2)), xm(Ex::V(3), Ex::V(3))), xm(Ex::V(4), Ex::V(4)))))), xm(xs(xm(Ex::V(4), Ex::V(5)), xm(Ex::V(2), Ex::V(7))), xm(xm(xa(Ex::I, Ex::I), Ex::V(0)), Ex::V(1)))), xm(Ex::V(3), xm(xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(1)), xa(xa(xm(Ex::V(2), Ex::V(5)), xm(Ex::V(3), Ex::V(6))), xm(Ex::V(4), Ex::V(7)))))))) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(5))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(6))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(7))), xn(xm(Ex::V(3), Ex::V(1)))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(xm(Ex::V(2), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(7))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(6))), xn(xm(Ex::V(4), Ex::V(1))))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(7))), xm(xm(Ex::V(3), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(5))), Ex::V(0))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(6))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(5))), xm(xm(Ex::V(4), Ex::V(1)), Ex::Z)), xn(xm(Ex::V(2), Ex::V(1))))), xa(xa(xm(Ex::V(6), xs(xm(Ex::V(0), Ex::V(0)), xm(xm(Ex::V(1), Ex::V(1)), xa(xa(xm(Ex::V(2), Ex::V(2)), xm(Ex::V(3), Ex::V(3))), xm(Ex::V(4), Ex::V(4)))))), xm(xs(xm(Ex::V(4), Ex::V(5)), xm(Ex::V(2), Ex::V(7))), xm(xm(xa(Ex::I, Ex::I), Ex::V(0)), Ex::V(1)))), xm(Ex::V(3), xm(xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(1)), xa(xa(xm(Ex::V(2), Ex::V(5)), xm(Ex::V(3), Ex::V(6))), xm(Ex::V(4), Ex::V(7)))))), v);
    assert(nf(xs(xa(xs(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(5))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(6))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(7))), xn(xm(Ex::V(4), Ex::V(1)))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(xm(Ex::V(2), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(7))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(6))), xn(xm(Ex::V(3), Ex::V(1))))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(7))), xm(xm(Ex::V(3), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(5))), xn(xm(Ex::V(2), Ex::V(1))))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(6))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(5))), xm(xm(Ex::V(4), Ex::V(1)), Ex::Z)), Ex::V(0))), xa(xa(xm(Ex::V(7), xs(xm(Ex::V(0), Ex::V(0)), xm(xm(Ex::V(1), Ex::V(1)), xa(xa(xm(Ex::V(2), Ex::V(2)), xm(Ex::V(3), Ex::V(3))), xm(Ex::V(4), Ex::V(4)))))), xm(xs(xm(Ex::V(2), Ex::V(6)), xm(Ex::V(3), Ex::V(5))), xm(xm(xa(Ex::I, Ex::I), Ex::V(0)), Ex::V(1)))), xm(Ex::V(4), xm(xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(1)), xa(xa(xm(Ex::V(2), Ex::V(5)), xm(Ex::V(3), Ex::V(6))), xm(Ex::V(4), Ex::V(7)))))))) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(5))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(6))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(7))), xn(xm(Ex::V(4), Ex::V(1)))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(xm(Ex::V(2), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(7))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(6))), xn(xm(Ex::V(3), Ex::V(1))))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(7))), xm(xm(Ex::V(3), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(5))), xn(xm(Ex::V(2), Ex::V(1))))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(6))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(5))), xm(xm(Ex::V(4), Ex::V(1)), Ex::Z)), Ex::V(0))), xa(xa(xm(Ex::V(7), xs(xm(Ex::V(0), Ex::V(0)), xm(xm(Ex::V(1), Ex::V(1)), xa(xa(xm(Ex::V(2), Ex::V(2)), xm(Ex::V(3), Ex::V(3))), xm(Ex::V(4), Ex::V(4)))))), xm(xs(xm(Ex::V(2), Ex::V(6)), xm(Ex::V(3), Ex::V(5))), xm(xm(xa(Ex::I, Ex::I), Ex::V(0)), Ex::V(1)))), xm(Ex::V(4), xm(xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(1)), xa(xa(xm(Ex::V(2), Ex::V(5)), xm(Ex::V(3), Ex::V(6))), xm(Ex::V(4), Ex::V(7)))))), v);
    reveal_with_fuel(ev, 12);
}
pub proof fn pl_axnsq<T: Neg<Output = T> + Num>(c: T, s: T, u0: T, u1: T, u2: T) requires is_cring::<T>()
    ensures
        sp_add(sp_add(sp_add(sp_mul(c, c), sp_mul(sp_mul(u0, s), sp_mul(u0, s))), sp_mul(sp_mul(u1, s), sp_mul(u1, s))), sp_mul(sp_mul(u2, s), sp_mul(u2, s))) == sp_add(sp_mul(c, c), sp_mul(sp_mul(s, s), sp_add(sp_add(sp_mul(u0, u0), sp_mul(u1, u1)), sp_mul(u2, u2)))),
{
    let v = seq![c, s, u0, u1, u2];
    assert(nf(xs(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(xm(Ex::V(2), Ex::V(1)), xm(Ex::V(2), Ex::V(1)))), xm(xm(Ex::V(3), Ex::V(1)), xm(Ex::V(3), Ex::V(1)))), xm(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(4), Ex::V(1)))), xa(xm(Ex::V(0), Ex::V(0)), xm(xm(Ex::V(1), Ex::V(1)), xa(xa(xm(Ex::V(2), Ex::V(2)), xm(Ex::V(3), Ex::V(3))), xm(Ex::V(4), Ex::V(4))))))) == Li::E) by(compute_only); poly_eq(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(xm(Ex::V(2), Ex::V(1)), xm(Ex::V(2), Ex::V(1)))), xm(xm(Ex::V(3), Ex::V(1)), xm(Ex::V(3), Ex::V(1)))), xm(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(4), Ex::V(1)))), xa(xm(Ex::V(0), Ex::V(0)), xm(xm(Ex::V(1), Ex::V(1)), xa(xa(xm(Ex::V(2), Ex::V(2)), xm(Ex::V(3), Ex::V(3))), xm(Ex::V(4), Ex::V(4))))), v);
    reveal_with_fuel(ev, 8);
}
pub proof fn pl_axself<T: Neg<Output = T> + Num>(c: T, s: T, u0: T, u1: T, u2: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_add(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(c, T::zero_spec()), sp_mul(sp_mul(u0, s), u0)), sp_mul(sp_mul(u1, s), u1)), sp_mul(sp_mul(u2, s), u2)), sp_neg(sp_mul(u0, s))), sp_mul(sp_sub(sp_add(sp_add(sp_mul(c, u0), sp_mul(sp_mul(u0, s), T::zero_spec())), sp_mul(sp_mul(u1, s), u2)), sp_mul(sp_mul(u2, s), u1)), c)), sp_mul(sp_add(sp_add(sp_sub(sp_mul(c, u1), sp_mul(sp_mul(u0, s), u2)), sp_mul(sp_mul(u1, s), T::zero_spec())), sp_mul(sp_mul(u2, s), u0)), sp_neg(sp_mul(u2, s)))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(c, u2), sp_mul(sp_mul(u0, s), u1)), sp_mul(sp_mul(u1, s), u0)), sp_mul(sp_mul(u2, s), T::zero_spec())), sp_neg(sp_mul(u1, s)))) == sp_mul(u0, sp_add(sp_mul(c, c), sp_mul(sp_mul(s, s), sp_add(sp_add(sp_mul(u0, u0), sp_mul(u1, u1)), sp_mul(u2, u2))))),
        sp_add(sp_add(sp_sub(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(c, T::zero_spec()), sp_mul(sp_mul(u0, s), u0)), sp_mul(sp_mul(u1, s), u1)), sp_mul(sp_mul(u2, s), u2)), sp_neg(sp_mul(u1, s))), sp_mul(sp_sub(sp_add(sp_add(sp_mul(c, u0), sp_mul(sp_mul(u0, s), T::zero_spec())), sp_mul(sp_mul(u1, s), u2)), sp_mul(sp_mul(u2, s), u1)), sp_neg(sp_mul(u2, s)))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(c, u1), sp_mul(sp_mul(u0, s), u2)), sp_mul(sp_mul(u1, s), T::zero_spec())), sp_mul(sp_mul(u2, s), u0)), c)), sp_mul(sp_add(sp_sub(sp_add(sp_mul(c, u2), sp_mul(sp_mul(u0, s), u1)), sp_mul(sp_mul(u1, s), u0)), sp_mul(sp_mul(u2, s), T::zero_spec())), sp_neg(sp_mul(u0, s)))) == sp_mul(u1, sp_add(sp_mul(c, c), sp_mul(sp_mul(s, s), sp_add(sp_add(sp_mul(u0, u0), sp_mul(u1, u1)), sp_mul(u2, u2))))),
        sp_add(sp_sub(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(c, T::zero_spec()), sp_mul(sp_mul(u0, s), u0)), sp_mul(sp_mul(u1, s), u1)), sp_mul(sp_mul(u2, s), u2)), sp_neg(sp_mul(u2, s))), sp_mul(sp_sub(sp_add(sp_add(sp_mul(c, u0), sp_mul(sp_mul(u0, s), T::zero_spec())), sp_mul(sp_mul(u1, s), u2)), sp_mul(sp_mul(u2, s), u1)), sp_neg(sp_mul(u1, s)))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(c, u1), sp_mul(sp_mul(u0, s), u2)), sp_mul(sp_mul(u1, s), T::zero_spec())), sp_mul(sp_mul(u2, s), u0)), sp_neg(sp_mul(u0, s)))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(c, u2), sp_mul(sp_mul(u0, s), u1)), sp_mul(sp_mul(u1, s), u0)), sp_mul(sp_mul(u2, s), T::zero_spec())), c)) == sp_mul(u2, sp_add(sp_mul(c, c), sp_mul(sp_mul(s, s), sp_add(sp_add(sp_mul(u0, u0), sp_mul(u1, u1)), sp_mul(u2, u2))))),
{
    let v = seq![c, s, u0, u1, u2];
    assert(nf(xs(xs(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(2))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(3))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(4))), xn(xm(Ex::V(2), Ex::V(1)))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(2)), xm(xm(Ex::V(2), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(4))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(3))), Ex::V(0))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(3)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(4))), xm(xm(Ex::V(3), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(2))), xn(xm(Ex::V(4), Ex::V(1))))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(4)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(3))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(2))), xm(xm(Ex::V(4), Ex::V(1)), Ex::Z)), xn(xm(Ex::V(3), Ex::V(1))))), xm(Ex::V(2), xa(xm(Ex::V(0), Ex::V(0)), xm(xm(Ex::V(1), Ex::V(1)), xa(xa(xm(Ex::V(2), Ex::V(2)), xm(Ex::V(3), Ex::V(3))), xm(Ex::V(4), Ex::V(4)))))))) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(2))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(3))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(4))), xn(xm(Ex::V(2), Ex::V(1)))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(2)), xm(xm(Ex::V(2), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(4))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(3))), Ex::V(0))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(3)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(4))), xm(xm(Ex::V(3), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(2))), xn(xm(Ex::V(4), Ex::V(1))))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(4)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(3))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(2))), xm(xm(Ex::V(4), Ex::V(1)), Ex::Z)), xn(xm(Ex::V(3), Ex::V(1))))), xm(Ex::V(2), xa(xm(Ex::V(0), Ex::V(0)), xm(xm(Ex::V(1), Ex::V(1)), xa(xa(xm(Ex::V(2), Ex::V(2)), xm(Ex::V(3), Ex::V(3))), xm(Ex::V(4), Ex::V(4)))))), v);
    assert(nf(xs(xa(xa(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(2))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(3))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(4))), xn(xm(Ex::V(3), Ex::V(1)))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(2)), xm(xm(Ex::V(2), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(4))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(3))), xn(xm(Ex::V(4), Ex::V(1))))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(3)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(4))), xm(xm(Ex::V(3), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(2))), Ex::V(0))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(4)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(3))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(2))), xm(xm(Ex::V(4), Ex::V(1)), Ex::Z)), xn(xm(Ex::V(2), Ex::V(1))))), xm(Ex::V(3), xa(xm(Ex::V(0), Ex::V(0)), xm(xm(Ex::V(1), Ex::V(1)), xa(xa(xm(Ex::V(2), Ex::V(2)), xm(Ex::V(3), Ex::V(3))), xm(Ex::V(4), Ex::V(4)))))))) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(2))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(3))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(4))), xn(xm(Ex::V(3), Ex::V(1)))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(2)), xm(xm(Ex::V(2), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(4))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(3))), xn(xm(Ex::V(4), Ex::V(1))))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(3)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(4))), xm(xm(Ex::V(3), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(2))), Ex::V(0))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(4)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(3))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(2))), xm(xm(Ex::V(4), Ex::V(1)), Ex::Z)), xn(xm(Ex::V(2), Ex::V(1))))), xm(Ex::V(3), xa(xm(Ex::V(0), Ex::V(0)), xm(xm(Ex::V(1), Ex::V(1)), xa(xa(xm(Ex::V(2), Ex::V(2)), xm(Ex::V(3), Ex::V(3))), xm(Ex::V(4), Ex::V(4)))))), v);
    assert(nf(xs(xa(xs(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(2))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(3))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(4))), xn(xm(Ex::V(4), Ex::V(1)))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(2)), xm(xm(Ex::V(2), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(4))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(3))), xn(xm(Ex::V(3), Ex::V(1))))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(3)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(4))), xm(xm(Ex::V(3), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(2))), xn(xm(Ex::V(2), Ex::V(1))))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(4)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(3))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(2))), xm(xm(Ex::V(4), Ex::V(1)), Ex::Z)), Ex::V(0))), xm(Ex::V(4), xa(xm(Ex::V(0), Ex::V(0)), xm(xm(Ex::V(1), Ex::V(1)), xa(xa(xm(Ex::V(2), Ex::V(2)), xm(Ex::V(3), Ex::V(3))), xm(Ex::V(4), Ex::V(4)))))))) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(2))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(3))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(4))), xn(xm(Ex::V(4), Ex::V(1)))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(2)), xm(xm(Ex::V(2), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(4))), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(3))), xn(xm(Ex::V(3), Ex::V(1))))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(3)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(4))), xm(xm(Ex::V(3), Ex::V(1)), Ex::Z)), xm(xm(Ex::V(4), Ex::V(1)), Ex::V(2))), xn(xm(Ex::V(2), Ex::V(1))))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(4)), xm(xm(Ex::V(2), Ex::V(1)), Ex::V(3))), xm(xm(Ex::V(3), Ex::V(1)), Ex::V(2))), xm(xm(Ex::V(4), Ex::V(1)), Ex::Z)), Ex::V(0))), xm(Ex::V(4), xa(xm(Ex::V(0), Ex::V(0)), xm(xm(Ex::V(1), Ex::V(1)), xa(xa(xm(Ex::V(2), Ex::V(2)), xm(Ex::V(3), Ex::V(3))), xm(Ex::V(4), Ex::V(4)))))), v);
    reveal_with_fuel(ev, 12);
}
pub proof fn pl_rmat<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T, x0: T, x1: T, x2: T) requires is_cring::<T>()
    ensures
        sp_add(sp_add(sp_mul(sp_sub(sp_sub(sp_add(sp_add(sp_add(sp_mul(a0, a0), sp_mul(a1, a1)), sp_mul(a2, a2)), sp_mul(a3, a3)), sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), a2), a2)), sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), a3), a3)), x0), sp_mul(sp_sub(sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), a1), a2), sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), a3), a0)), x1)), sp_mul(sp_add(sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), a1), a3), sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), a2), a0)), x2)) == sp_sub(sp_add(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, x0)), sp_mul(a2, x1)), sp_mul(a3, x2)), sp_neg(a1)), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, x0), sp_mul(a1, T::zero_spec())), sp_mul(a2, x2)), sp_mul(a3, x1)), a0)), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, x1), sp_mul(a1, x2)), sp_mul(a2, T::zero_spec())), sp_mul(a3, x0)), sp_neg(a3))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, x2), sp_mul(a1, x1)), sp_mul(a2, x0)), sp_mul(a3, T::zero_spec())), sp_neg(a2))),
        sp_add(sp_add(sp_mul(sp_add(sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), a1), a2), sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), a3), a0)), x0), sp_mul(sp_sub(sp_sub(sp_add(sp_add(sp_add(sp_mul(a0, a0), sp_mul(a1, a1)), sp_mul(a2, a2)), sp_mul(a3, a3)), sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), a1), a1)), sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), a3), a3)), x1)), sp_mul(sp_sub(sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), a2), a3), sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), a1), a0)), x2)) == sp_add(sp_add(sp_sub(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, x0)), sp_mul(a2, x1)), sp_mul(a3, x2)), sp_neg(a2)), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, x0), sp_mul(a1, T::zero_spec())), sp_mul(a2, x2)), sp_mul(a3, x1)), sp_neg(a3))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, x1), sp_mul(a1, x2)), sp_mul(a2, T::zero_spec())), sp_mul(a3, x0)), a0)), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, x2), sp_mul(a1, x1)), sp_mul(a2, x0)), sp_mul(a3, T::zero_spec())), sp_neg(a1))),
        sp_add(sp_add(sp_mul(sp_sub(sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), a1), a3), sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), a2), a0)), x0), sp_mul(sp_add(sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), a2), a3), sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), a1), a0)), x1)), sp_mul(sp_sub(sp_sub(sp_add(sp_add(sp_add(sp_mul(a0, a0), sp_mul(a1, a1)), sp_mul(a2, a2)), sp_mul(a3, a3)), sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), a1), a1)), sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), a2), a2)), x2)) == sp_add(sp_sub(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, x0)), sp_mul(a2, x1)), sp_mul(a3, x2)), sp_neg(a3)), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, x0), sp_mul(a1, T::zero_spec())), sp_mul(a2, x2)), sp_mul(a3, x1)), sp_neg(a2))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, x1), sp_mul(a1, x2)), sp_mul(a2, T::zero_spec())), sp_mul(a3, x0)), sp_neg(a1))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, x2), sp_mul(a1, x1)), sp_mul(a2, x0)), sp_mul(a3, T::zero_spec())), a0)),
{
    let v = seq![a0, a1, a2, a3, x0, x1, x2];
    assert(nf(xs(xa(xa(xm(xs(xs(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))), xm(xm(xa(Ex::I, Ex::I), Ex::V(2)), Ex::V(2))), xm(xm(xa(Ex::I, Ex::I), Ex::V(3)), Ex::V(3))), Ex::V(4)), xm(xs(xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(2)), xm(xm(xa(Ex::I, Ex::I), Ex::V(3)), Ex::V(0))), Ex::V(5))), xm(xa(xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(3)), xm(xm(xa(Ex::I, Ex::I), Ex::V(2)), Ex::V(0))), Ex::V(6))), xs(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(6))), xn(Ex::V(1))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(5))), Ex::V(0))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), xn(Ex::V(3)))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(2)))))) == Li::E) by(compute_only); poly_eq(xa(xa(xm(xs(xs(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))), xm(xm(xa(Ex::I, Ex::I), Ex::V(2)), Ex::V(2))), xm(xm(xa(Ex::I, Ex::I), Ex::V(3)), Ex::V(3))), Ex::V(4)), xm(xs(xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(2)), xm(xm(xa(Ex::I, Ex::I), Ex::V(3)), Ex::V(0))), Ex::V(5))), xm(xa(xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(3)), xm(xm(xa(Ex::I, Ex::I), Ex::V(2)), Ex::V(0))), Ex::V(6))), xs(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(6))), xn(Ex::V(1))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(5))), Ex::V(0))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), xn(Ex::V(3)))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(2)))), v);
    assert(nf(xs(xa(xa(xm(xa(xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(2)), xm(xm(xa(Ex::I, Ex::I), Ex::V(3)), Ex::V(0))), Ex::V(4)), xm(xs(xs(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))), xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(1))), xm(xm(xa(Ex::I, Ex::I), Ex::V(3)), Ex::V(3))), Ex::V(5))), xm(xs(xm(xm(xa(Ex::I, Ex::I), Ex::V(2)), Ex::V(3)), xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(0))), Ex::V(6))), xa(xa(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(6))), xn(Ex::V(2))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(5))), xn(Ex::V(3)))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), Ex::V(0))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(1)))))) == Li::E) by(compute_only); poly_eq(xa(xa(xm(xa(xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(2)), xm(xm(xa(Ex::I, Ex::I), Ex::V(3)), Ex::V(0))), Ex::V(4)), xm(xs(xs(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))), xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(1))), xm(xm(xa(Ex::I, Ex::I), Ex::V(3)), Ex::V(3))), Ex::V(5))), xm(xs(xm(xm(xa(Ex::I, Ex::I), Ex::V(2)), Ex::V(3)), xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(0))), Ex::V(6))), xa(xa(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(6))), xn(Ex::V(2))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(5))), xn(Ex::V(3)))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), Ex::V(0))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(1)))), v);
    assert(nf(xs(xa(xa(xm(xs(xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(3)), xm(xm(xa(Ex::I, Ex::I), Ex::V(2)), Ex::V(0))), Ex::V(4)), xm(xa(xm(xm(xa(Ex::I, Ex::I), Ex::V(2)), Ex::V(3)), xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(0))), Ex::V(5))), xm(xs(xs(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))), xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(1))), xm(xm(xa(Ex::I, Ex::I), Ex::V(2)), Ex::V(2))), Ex::V(6))), xa(xs(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(6))), xn(Ex::V(3))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(5))), xn(Ex::V(2)))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), xn(Ex::V(1)))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), Ex::V(0))))) == Li::E) by(compute_only); poly_eq(xa(xa(xm(xs(xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(3)), xm(xm(xa(Ex::I, Ex::I), Ex::V(2)), Ex::V(0))), Ex::V(4)), xm(xa(xm(xm(xa(Ex::I, Ex::I), Ex::V(2)), Ex::V(3)), xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(0))), Ex::V(5))), xm(xs(xs(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))), xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(1))), xm(xm(xa(Ex::I, Ex::I), Ex::V(2)), Ex::V(2))), Ex::V(6))), xa(xs(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(6))), xn(Ex::V(3))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(5))), xn(Ex::V(2)))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), xn(Ex::V(1)))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), Ex::V(0))), v);
    reveal_with_fuel(ev, 12);
}
pub proof fn pl_qpure<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, b0: T, b1: T, b2: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_sub(sp_sub(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(a0, b0)), sp_mul(a1, b1)), sp_mul(a2, b2)) == sp_neg(sp_add(sp_add(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, b2))),
        sp_sub(sp_add(sp_add(sp_mul(T::zero_spec(), b0), sp_mul(a0, T::zero_spec())), sp_mul(a1, b2)), sp_mul(a2, b1)) == sp_sub(sp_mul(a1, b2), sp_mul(a2, b1)),
        sp_add(sp_add(sp_sub(sp_mul(T::zero_spec(), b1), sp_mul(a0, b2)), sp_mul(a1, T::zero_spec())), sp_mul(a2, b0)) == sp_sub(sp_mul(a2, b0), sp_mul(a0, b2)),
        sp_add(sp_sub(sp_add(sp_mul(T::zero_spec(), b2), sp_mul(a0, b1)), sp_mul(a1, b0)), sp_mul(a2, T::zero_spec())) == sp_sub(sp_mul(a0, b1), sp_mul(a1, b0)),
        sp_add(sp_add(sp_add(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(a0, b0)), sp_mul(a1, b1)), sp_mul(a2, b2)) == sp_add(sp_add(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, b2)),
{
    let v = seq![a0, a1, a2, b0, b1, b2];
    assert(nf(xs(xs(xs(xs(xm(Ex::Z, Ex::Z), xm(Ex::V(0), Ex::V(3))), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xn(xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5)))))) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(Ex::Z, Ex::Z), xm(Ex::V(0), Ex::V(3))), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xn(xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5)))), v);
    assert(nf(xs(xs(xa(xa(xm(Ex::Z, Ex::V(3)), xm(Ex::V(0), Ex::Z)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))))) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(Ex::Z, Ex::V(3)), xm(Ex::V(0), Ex::Z)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), v);
    assert(nf(xs(xa(xa(xs(xm(Ex::Z, Ex::V(4)), xm(Ex::V(0), Ex::V(5))), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(3))), xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))))) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(Ex::Z, Ex::V(4)), xm(Ex::V(0), Ex::V(5))), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(3))), xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), v);
    assert(nf(xs(xa(xs(xa(xm(Ex::Z, Ex::V(5)), xm(Ex::V(0), Ex::V(4))), xm(Ex::V(1), Ex::V(3))), xm(Ex::V(2), Ex::Z)), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))))) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(Ex::Z, Ex::V(5)), xm(Ex::V(0), Ex::V(4))), xm(Ex::V(1), Ex::V(3))), xm(Ex::V(2), Ex::Z)), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), v);
    assert(nf(xs(xa(xa(xa(xm(Ex::Z, Ex::Z), xm(Ex::V(0), Ex::V(3))), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))))) == Li::E) by(compute_only); poly_eq(xa(xa(xa(xm(Ex::Z, Ex::Z), xm(Ex::V(0), Ex::V(3))), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), v);
    reveal_with_fuel(ev, 7);
}
pub proof fn pl_diffsq<T: Neg<Output = T> + Num>(n: T, m: T) requires is_cring::<T>()
    ensures
        sp_mul(sp_sub(n, m), sp_add(n, m)) == sp_sub(sp_mul(n, n), sp_mul(m, m)),
{
    let v = seq![n, m];
    assert(nf(xs(xm(xs(Ex::V(0), Ex::V(1)), xa(Ex::V(0), Ex::V(1))), xs(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))))) == Li::E) by(compute_only); poly_eq(xm(xs(Ex::V(0), Ex::V(1)), xa(Ex::V(0), Ex::V(1))), xs(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), v);
    reveal_with_fuel(ev, 5);
}
pub proof fn pl_frame<T: Neg<Output = T> + Num>(e0: T, e1: T, e2: T, f0: T, f1: T, f2: T, g0: T, g1: T, g2: T, x0: T, x1: T, x2: T, y0: T, y1: T, y2: T) requires is_cring::<T>()
    ensures
        sp_add(sp_add(sp_mul(sp_add(sp_add(sp_mul(e0, x0), sp_mul(f0, x1)), sp_mul(g0, x2)), sp_add(sp_add(sp_mul(e0, y0), sp_mul(f0, y1)), sp_mul(g0, y2))), sp_mul(sp_add(sp_add(sp_mul(e1, x0), sp_mul(f1, x1)), sp_mul(g1, x2)), sp_add(sp_add(sp_mul(e1, y0), sp_mul(f1, y1)), sp_mul(g1, y2)))), sp_mul(sp_add(sp_add(sp_mul(e2, x0), sp_mul(f2, x1)), sp_mul(g2, x2)), sp_add(sp_add(sp_mul(e2, y0), sp_mul(f2, y1)), sp_mul(g2, y2)))) == sp_add(sp_add(sp_add(sp_add(sp_add(sp_mul(sp_mul(x0, y0), sp_add(sp_add(sp_mul(e0, e0), sp_mul(e1, e1)), sp_mul(e2, e2))), sp_mul(sp_mul(x1, y1), sp_add(sp_add(sp_mul(f0, f0), sp_mul(f1, f1)), sp_mul(f2, f2)))), sp_mul(sp_mul(x2, y2), sp_add(sp_add(sp_mul(g0, g0), sp_mul(g1, g1)), sp_mul(g2, g2)))), sp_mul(sp_add(sp_mul(x0, y1), sp_mul(x1, y0)), sp_add(sp_add(sp_mul(e0, f0), sp_mul(e1, f1)), sp_mul(e2, f2)))), sp_mul(sp_add(sp_mul(x0, y2), sp_mul(x2, y0)), sp_add(sp_add(sp_mul(e0, g0), sp_mul(e1, g1)), sp_mul(e2, g2)))), sp_mul(sp_add(sp_mul(x1, y2), sp_mul(x2, y1)), sp_add(sp_add(sp_mul(f0, g0), sp_mul(f1, g1)), sp_mul(f2, g2)))),
{
    let v = seq![e0, e1, e2, f0, f1, f2, g0, g1, g2, x0, x1, x2, y0, y1, y2];
    assert(nf(xs(xa(xa(xm(xa(xa(xm(Ex::V(0), Ex::V(9)), xm(Ex::V(3), Ex::V(10))), xm(Ex::V(6), Ex::V(11))), xa(xa(xm(Ex::V(0), Ex::V(12)), xm(Ex::V(3), Ex::V(13))), xm(Ex::V(6), Ex::V(14)))), xm(xa(xa(xm(Ex::V(1), Ex::V(9)), xm(Ex::V(4), Ex::V(10))), xm(Ex::V(7), Ex::V(11))), xa(xa(xm(Ex::V(1), Ex::V(12)), xm(Ex::V(4), Ex::V(13))), xm(Ex::V(7), Ex::V(14))))), xm(xa(xa(xm(Ex::V(2), Ex::V(9)), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(8), Ex::V(11))), xa(xa(xm(Ex::V(2), Ex::V(12)), xm(Ex::V(5), Ex::V(13))), xm(Ex::V(8), Ex::V(14))))), xa(xa(xa(xa(xa(xm(xm(Ex::V(9), Ex::V(12)), xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2)))), xm(xm(Ex::V(10), Ex::V(13)), xa(xa(xm(Ex::V(3), Ex::V(3)), xm(Ex::V(4), Ex::V(4))), xm(Ex::V(5), Ex::V(5))))), xm(xm(Ex::V(11), Ex::V(14)), xa(xa(xm(Ex::V(6), Ex::V(6)), xm(Ex::V(7), Ex::V(7))), xm(Ex::V(8), Ex::V(8))))), xm(xa(xm(Ex::V(9), Ex::V(13)), xm(Ex::V(10), Ex::V(12))), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))))), xm(xa(xm(Ex::V(9), Ex::V(14)), xm(Ex::V(11), Ex::V(12))), xa(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(8))))), xm(xa(xm(Ex::V(10), Ex::V(14)), xm(Ex::V(11), Ex::V(13))), xa(xa(xm(Ex::V(3), Ex::V(6)), xm(Ex::V(4), Ex::V(7))), xm(Ex::V(5), Ex::V(8))))))) == Li::E) by(compute_only); poly_eq(xa(xa(xm(xa(xa(xm(Ex::V(0), Ex::V(9)), xm(Ex::V(3), Ex::V(10))), xm(Ex::V(6), Ex::V(11))), xa(xa(xm(Ex::V(0), Ex::V(12)), xm(Ex::V(3), Ex::V(13))), xm(Ex::V(6), Ex::V(14)))), xm(xa(xa(xm(Ex::V(1), Ex::V(9)), xm(Ex::V(4), Ex::V(10))), xm(Ex::V(7), Ex::V(11))), xa(xa(xm(Ex::V(1), Ex::V(12)), xm(Ex::V(4), Ex::V(13))), xm(Ex::V(7), Ex::V(14))))), xm(xa(xa(xm(Ex::V(2), Ex::V(9)), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(8), Ex::V(11))), xa(xa(xm(Ex::V(2), Ex::V(12)), xm(Ex::V(5), Ex::V(13))), xm(Ex::V(8), Ex::V(14))))), xa(xa(xa(xa(xa(xm(xm(Ex::V(9), Ex::V(12)), xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2)))), xm(xm(Ex::V(10), Ex::V(13)), xa(xa(xm(Ex::V(3), Ex::V(3)), xm(Ex::V(4), Ex::V(4))), xm(Ex::V(5), Ex::V(5))))), xm(xm(Ex::V(11), Ex::V(14)), xa(xa(xm(Ex::V(6), Ex::V(6)), xm(Ex::V(7), Ex::V(7))), xm(Ex::V(8), Ex::V(8))))), xm(xa(xm(Ex::V(9), Ex::V(13)), xm(Ex::V(10), Ex::V(12))), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))))), xm(xa(xm(Ex::V(9), Ex::V(14)), xm(Ex::V(11), Ex::V(12))), xa(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(8))))), xm(xa(xm(Ex::V(10), Ex::V(14)), xm(Ex::V(11), Ex::V(13))), xa(xa(xm(Ex::V(3), Ex::V(6)), xm(Ex::V(4), Ex::V(7))), xm(Ex::V(5), Ex::V(8))))), v);
    reveal_with_fuel(ev, 12);
}
pub proof fn pl_framex<T: Neg<Output = T> + Num>(e0: T, e1: T, e2: T, f0: T, f1: T, f2: T, g0: T, g1: T, g2: T, x0: T, x1: T, x2: T, y0: T, y1: T, y2: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_mul(sp_add(sp_add(sp_mul(e1, x0), sp_mul(f1, x1)), sp_mul(g1, x2)), sp_add(sp_add(sp_mul(e2, y0), sp_mul(f2, y1)), sp_mul(g2, y2))), sp_mul(sp_add(sp_add(sp_mul(e2, x0), sp_mul(f2, x1)), sp_mul(g2, x2)), sp_add(sp_add(sp_mul(e1, y0), sp_mul(f1, y1)), sp_mul(g1, y2)))) == sp_add(sp_add(sp_mul(sp_sub(sp_mul(f1, g2), sp_mul(f2, g1)), sp_sub(sp_mul(x1, y2), sp_mul(x2, y1))), sp_mul(sp_sub(sp_mul(g1, e2), sp_mul(g2, e1)), sp_sub(sp_mul(x2, y0), sp_mul(x0, y2)))), sp_mul(sp_sub(sp_mul(e1, f2), sp_mul(e2, f1)), sp_sub(sp_mul(x0, y1), sp_mul(x1, y0)))),
        sp_sub(sp_mul(sp_add(sp_add(sp_mul(e2, x0), sp_mul(f2, x1)), sp_mul(g2, x2)), sp_add(sp_add(sp_mul(e0, y0), sp_mul(f0, y1)), sp_mul(g0, y2))), sp_mul(sp_add(sp_add(sp_mul(e0, x0), sp_mul(f0, x1)), sp_mul(g0, x2)), sp_add(sp_add(sp_mul(e2, y0), sp_mul(f2, y1)), sp_mul(g2, y2)))) == sp_add(sp_add(sp_mul(sp_sub(sp_mul(f2, g0), sp_mul(f0, g2)), sp_sub(sp_mul(x1, y2), sp_mul(x2, y1))), sp_mul(sp_sub(sp_mul(g2, e0), sp_mul(g0, e2)), sp_sub(sp_mul(x2, y0), sp_mul(x0, y2)))), sp_mul(sp_sub(sp_mul(e2, f0), sp_mul(e0, f2)), sp_sub(sp_mul(x0, y1), sp_mul(x1, y0)))),
        sp_sub(sp_mul(sp_add(sp_add(sp_mul(e0, x0), sp_mul(f0, x1)), sp_mul(g0, x2)), sp_add(sp_add(sp_mul(e1, y0), sp_mul(f1, y1)), sp_mul(g1, y2))), sp_mul(sp_add(sp_add(sp_mul(e1, x0), sp_mul(f1, x1)), sp_mul(g1, x2)), sp_add(sp_add(sp_mul(e0, y0), sp_mul(f0, y1)), sp_mul(g0, y2)))) == sp_add(sp_add(sp_mul(sp_sub(sp_mul(f0, g1), sp_mul(f1, g0)), sp_sub(sp_mul(x1, y2), sp_mul(x2, y1))), sp_mul(sp_sub(sp_mul(g0, e1), sp_mul(g1, e0)), sp_sub(sp_mul(x2, y0), sp_mul(x0, y2)))), sp_mul(sp_sub(sp_mul(e0, f1), sp_mul(e1, f0)), sp_sub(sp_mul(x0, y1), sp_mul(x1, y0)))),
{
    let v = seq![e0, e1, e2, f0, f1, f2, g0, g1, g2, x0, x1, x2, y0, y1, y2];
    assert(nf(xs(xs(xm(xa(xa(xm(Ex::V(1), Ex::V(9)), xm(Ex::V(4), Ex::V(10))), xm(Ex::V(7), Ex::V(11))), xa(xa(xm(Ex::V(2), Ex::V(12)), xm(Ex::V(5), Ex::V(13))), xm(Ex::V(8), Ex::V(14)))), xm(xa(xa(xm(Ex::V(2), Ex::V(9)), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(8), Ex::V(11))), xa(xa(xm(Ex::V(1), Ex::V(12)), xm(Ex::V(4), Ex::V(13))), xm(Ex::V(7), Ex::V(14))))), xa(xa(xm(xs(xm(Ex::V(4), Ex::V(8)), xm(Ex::V(5), Ex::V(7))), xs(xm(Ex::V(10), Ex::V(14)), xm(Ex::V(11), Ex::V(13)))), xm(xs(xm(Ex::V(7), Ex::V(2)), xm(Ex::V(8), Ex::V(1))), xs(xm(Ex::V(11), Ex::V(12)), xm(Ex::V(9), Ex::V(14))))), xm(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), xs(xm(Ex::V(9), Ex::V(13)), xm(Ex::V(10), Ex::V(12))))))) == Li::E) by(compute_only); poly_eq(xs(xm(xa(xa(xm(Ex::V(1), Ex::V(9)), xm(Ex::V(4), Ex::V(10))), xm(Ex::V(7), Ex::V(11))), xa(xa(xm(Ex::V(2), Ex::V(12)), xm(Ex::V(5), Ex::V(13))), xm(Ex::V(8), Ex::V(14)))), xm(xa(xa(xm(Ex::V(2), Ex::V(9)), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(8), Ex::V(11))), xa(xa(xm(Ex::V(1), Ex::V(12)), xm(Ex::V(4), Ex::V(13))), xm(Ex::V(7), Ex::V(14))))), xa(xa(xm(xs(xm(Ex::V(4), Ex::V(8)), xm(Ex::V(5), Ex::V(7))), xs(xm(Ex::V(10), Ex::V(14)), xm(Ex::V(11), Ex::V(13)))), xm(xs(xm(Ex::V(7), Ex::V(2)), xm(Ex::V(8), Ex::V(1))), xs(xm(Ex::V(11), Ex::V(12)), xm(Ex::V(9), Ex::V(14))))), xm(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), xs(xm(Ex::V(9), Ex::V(13)), xm(Ex::V(10), Ex::V(12))))), v);
    assert(nf(xs(xs(xm(xa(xa(xm(Ex::V(2), Ex::V(9)), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(8), Ex::V(11))), xa(xa(xm(Ex::V(0), Ex::V(12)), xm(Ex::V(3), Ex::V(13))), xm(Ex::V(6), Ex::V(14)))), xm(xa(xa(xm(Ex::V(0), Ex::V(9)), xm(Ex::V(3), Ex::V(10))), xm(Ex::V(6), Ex::V(11))), xa(xa(xm(Ex::V(2), Ex::V(12)), xm(Ex::V(5), Ex::V(13))), xm(Ex::V(8), Ex::V(14))))), xa(xa(xm(xs(xm(Ex::V(5), Ex::V(6)), xm(Ex::V(3), Ex::V(8))), xs(xm(Ex::V(10), Ex::V(14)), xm(Ex::V(11), Ex::V(13)))), xm(xs(xm(Ex::V(8), Ex::V(0)), xm(Ex::V(6), Ex::V(2))), xs(xm(Ex::V(11), Ex::V(12)), xm(Ex::V(9), Ex::V(14))))), xm(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), xs(xm(Ex::V(9), Ex::V(13)), xm(Ex::V(10), Ex::V(12))))))) == Li::E) by(compute_only); poly_eq(xs(xm(xa(xa(xm(Ex::V(2), Ex::V(9)), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(8), Ex::V(11))), xa(xa(xm(Ex::V(0), Ex::V(12)), xm(Ex::V(3), Ex::V(13))), xm(Ex::V(6), Ex::V(14)))), xm(xa(xa(xm(Ex::V(0), Ex::V(9)), xm(Ex::V(3), Ex::V(10))), xm(Ex::V(6), Ex::V(11))), xa(xa(xm(Ex::V(2), Ex::V(12)), xm(Ex::V(5), Ex::V(13))), xm(Ex::V(8), Ex::V(14))))), xa(xa(xm(xs(xm(Ex::V(5), Ex::V(6)), xm(Ex::V(3), Ex::V(8))), xs(xm(Ex::V(10), Ex::V(14)), xm(Ex::V(11), Ex::V(13)))), xm(xs(xm(Ex::V(8), Ex::V(0)), xm(Ex::V(6), Ex::V(2))), xs(xm(Ex::V(11), Ex::V(12)), xm(Ex::V(9), Ex::V(14))))), xm(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), xs(xm(Ex::V(9), Ex::V(13)), xm(Ex::V(10), Ex::V(12))))), v);
    assert(nf(xs(xs(xm(xa(xa(xm(Ex::V(0), Ex::V(9)), xm(Ex::V(3), Ex::V(10))), xm(Ex::V(6), Ex::V(11))), xa(xa(xm(Ex::V(1), Ex::V(12)), xm(Ex::V(4), Ex::V(13))), xm(Ex::V(7), Ex::V(14)))), xm(xa(xa(xm(Ex::V(1), Ex::V(9)), xm(Ex::V(4), Ex::V(10))), xm(Ex::V(7), Ex::V(11))), xa(xa(xm(Ex::V(0), Ex::V(12)), xm(Ex::V(3), Ex::V(13))), xm(Ex::V(6), Ex::V(14))))), xa(xa(xm(xs(xm(Ex::V(3), Ex::V(7)), xm(Ex::V(4), Ex::V(6))), xs(xm(Ex::V(10), Ex::V(14)), xm(Ex::V(11), Ex::V(13)))), xm(xs(xm(Ex::V(6), Ex::V(1)), xm(Ex::V(7), Ex::V(0))), xs(xm(Ex::V(11), Ex::V(12)), xm(Ex::V(9), Ex::V(14))))), xm(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), xs(xm(Ex::V(9), Ex::V(13)), xm(Ex::V(10), Ex::V(12))))))) == Li::E) by(compute_only); poly_eq(xs(xm(xa(xa(xm(Ex::V(0), Ex::V(9)), xm(Ex::V(3), Ex::V(10))), xm(Ex::V(6), Ex::V(11))), xa(xa(xm(Ex::V(1), Ex::V(12)), xm(Ex::V(4), Ex::V(13))), xm(Ex::V(7), Ex::V(14)))), xm(xa(xa(xm(Ex::V(1), Ex::V(9)), xm(Ex::V(4), Ex::V(10))), xm(Ex::V(7), Ex::V(11))), xa(xa(xm(Ex::V(0), Ex::V(12)), xm(Ex::V(3), Ex::V(13))), xm(Ex::V(6), Ex::V(14))))), xa(xa(xm(xs(xm(Ex::V(3), Ex::V(7)), xm(Ex::V(4), Ex::V(6))), xs(xm(Ex::V(10), Ex::V(14)), xm(Ex::V(11), Ex::V(13)))), xm(xs(xm(Ex::V(6), Ex::V(1)), xm(Ex::V(7), Ex::V(0))), xs(xm(Ex::V(11), Ex::V(12)), xm(Ex::V(9), Ex::V(14))))), xm(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), xs(xm(Ex::V(9), Ex::V(13)), xm(Ex::V(10), Ex::V(12))))), v);
    reveal_with_fuel(ev, 8);
}
pub proof fn pl_frame3<T: Neg<Output = T> + Num>(r0: T, r1: T, r2: T, d0: T, d1: T, d2: T) requires is_cring::<T>()
    ensures
        sp_add(sp_add(sp_mul(sp_sub(sp_mul(r1, d2), sp_mul(r2, d1)), sp_sub(sp_mul(r1, d2), sp_mul(r2, d1))), sp_mul(sp_sub(sp_mul(r2, d0), sp_mul(r0, d2)), sp_sub(sp_mul(r2, d0), sp_mul(r0, d2)))), sp_mul(sp_sub(sp_mul(r0, d1), sp_mul(r1, d0)), sp_sub(sp_mul(r0, d1), sp_mul(r1, d0)))) == sp_sub(sp_mul(sp_add(sp_add(sp_mul(r0, r0), sp_mul(r1, r1)), sp_mul(r2, r2)), sp_add(sp_add(sp_mul(d0, d0), sp_mul(d1, d1)), sp_mul(d2, d2))), sp_mul(sp_add(sp_add(sp_mul(r0, d0), sp_mul(r1, d1)), sp_mul(r2, d2)), sp_add(sp_add(sp_mul(r0, d0), sp_mul(r1, d1)), sp_mul(r2, d2)))),
        sp_add(sp_add(sp_mul(sp_neg(d0), sp_neg(d0)), sp_mul(sp_neg(d1), sp_neg(d1))), sp_mul(sp_neg(d2), sp_neg(d2))) == sp_add(sp_add(sp_mul(d0, d0), sp_mul(d1, d1)), sp_mul(d2, d2)),
        sp_add(sp_add(sp_mul(r0, sp_sub(sp_mul(r1, d2), sp_mul(r2, d1))), sp_mul(r1, sp_sub(sp_mul(r2, d0), sp_mul(r0, d2)))), sp_mul(r2, sp_sub(sp_mul(r0, d1), sp_mul(r1, d0)))) == T::zero_spec(),
        sp_add(sp_add(sp_mul(r0, sp_neg(d0)), sp_mul(r1, sp_neg(d1))), sp_mul(r2, sp_neg(d2))) == sp_neg(sp_add(sp_add(sp_mul(r0, d0), sp_mul(r1, d1)), sp_mul(r2, d2))),
        sp_add(sp_add(sp_mul(sp_sub(sp_mul(r1, d2), sp_mul(r2, d1)), sp_neg(d0)), sp_mul(sp_sub(sp_mul(r2, d0), sp_mul(r0, d2)), sp_neg(d1))), sp_mul(sp_sub(sp_mul(r0, d1), sp_mul(r1, d0)), sp_neg(d2))) == T::zero_spec(),
        sp_sub(sp_mul(sp_sub(sp_mul(r2, d0), sp_mul(r0, d2)), sp_neg(d2)), sp_mul(sp_sub(sp_mul(r0, d1), sp_mul(r1, d0)), sp_neg(d1))) == sp_sub(sp_mul(r0, sp_add(sp_add(sp_mul(d0, d0), sp_mul(d1, d1)), sp_mul(d2, d2))), sp_mul(d0, sp_add(sp_add(sp_mul(r0, d0), sp_mul(r1, d1)), sp_mul(r2, d2)))),
        sp_sub(sp_mul(sp_sub(sp_mul(r0, d1), sp_mul(r1, d0)), sp_neg(d0)), sp_mul(sp_sub(sp_mul(r1, d2), sp_mul(r2, d1)), sp_neg(d2))) == sp_sub(sp_mul(r1, sp_add(sp_add(sp_mul(d0, d0), sp_mul(d1, d1)), sp_mul(d2, d2))), sp_mul(d1, sp_add(sp_add(sp_mul(r0, d0), sp_mul(r1, d1)), sp_mul(r2, d2)))),
        sp_sub(sp_mul(sp_sub(sp_mul(r1, d2), sp_mul(r2, d1)), sp_neg(d1)), sp_mul(sp_sub(sp_mul(r2, d0), sp_mul(r0, d2)), sp_neg(d0))) == sp_sub(sp_mul(r2, sp_add(sp_add(sp_mul(d0, d0), sp_mul(d1, d1)), sp_mul(d2, d2))), sp_mul(d2, sp_add(sp_add(sp_mul(r0, d0), sp_mul(r1, d1)), sp_mul(r2, d2)))),
        sp_sub(sp_mul(sp_neg(d1), r2), sp_mul(sp_neg(d2), r1)) == sp_sub(sp_mul(r1, d2), sp_mul(r2, d1)),
        sp_sub(sp_mul(sp_neg(d2), r0), sp_mul(sp_neg(d0), r2)) == sp_sub(sp_mul(r2, d0), sp_mul(r0, d2)),
        sp_sub(sp_mul(sp_neg(d0), r1), sp_mul(sp_neg(d1), r0)) == sp_sub(sp_mul(r0, d1), sp_mul(r1, d0)),
        sp_sub(sp_mul(r1, sp_sub(sp_mul(r0, d1), sp_mul(r1, d0))), sp_mul(r2, sp_sub(sp_mul(r2, d0), sp_mul(r0, d2)))) == sp_sub(sp_mul(r0, sp_add(sp_add(sp_mul(r0, d0), sp_mul(r1, d1)), sp_mul(r2, d2))), sp_mul(d0, sp_add(sp_add(sp_mul(r0, r0), sp_mul(r1, r1)), sp_mul(r2, r2)))),
        sp_sub(sp_mul(r2, sp_sub(sp_mul(r1, d2), sp_mul(r2, d1))), sp_mul(r0, sp_sub(sp_mul(r0, d1), sp_mul(r1, d0)))) == sp_sub(sp_mul(r1, sp_add(sp_add(sp_mul(r0, d0), sp_mul(r1, d1)), sp_mul(r2, d2))), sp_mul(d1, sp_add(sp_add(sp_mul(r0, r0), sp_mul(r1, r1)), sp_mul(r2, r2)))),
        sp_sub(sp_mul(r0, sp_sub(sp_mul(r2, d0), sp_mul(r0, d2))), sp_mul(r1, sp_sub(sp_mul(r1, d2), sp_mul(r2, d1)))) == sp_sub(sp_mul(r2, sp_add(sp_add(sp_mul(r0, d0), sp_mul(r1, d1)), sp_mul(r2, d2))), sp_mul(d2, sp_add(sp_add(sp_mul(r0, r0), sp_mul(r1, r1)), sp_mul(r2, r2)))),
{
    let v = seq![r0, r1, r2, d0, d1, d2];
    assert(nf(xs(xa(xa(xm(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4)))), xm(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))))), xm(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))))), xs(xm(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xa(xa(xm(Ex::V(3), Ex::V(3)), xm(Ex::V(4), Ex::V(4))), xm(Ex::V(5), Ex::V(5)))), xm(xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))))))) == Li::E) by(compute_only); poly_eq(xa(xa(xm(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4)))), xm(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))))), xm(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))))), xs(xm(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xa(xa(xm(Ex::V(3), Ex::V(3)), xm(Ex::V(4), Ex::V(4))), xm(Ex::V(5), Ex::V(5)))), xm(xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))))), v);
    assert(nf(xs(xa(xa(xm(xn(Ex::V(3)), xn(Ex::V(3))), xm(xn(Ex::V(4)), xn(Ex::V(4)))), xm(xn(Ex::V(5)), xn(Ex::V(5)))), xa(xa(xm(Ex::V(3), Ex::V(3)), xm(Ex::V(4), Ex::V(4))), xm(Ex::V(5), Ex::V(5))))) == Li::E) by(compute_only); poly_eq(xa(xa(xm(xn(Ex::V(3)), xn(Ex::V(3))), xm(xn(Ex::V(4)), xn(Ex::V(4)))), xm(xn(Ex::V(5)), xn(Ex::V(5)))), xa(xa(xm(Ex::V(3), Ex::V(3)), xm(Ex::V(4), Ex::V(4))), xm(Ex::V(5), Ex::V(5))), v);
    assert(nf(xs(xa(xa(xm(Ex::V(0), xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4)))), xm(Ex::V(1), xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))))), xm(Ex::V(2), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xa(xm(Ex::V(0), xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4)))), xm(Ex::V(1), xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))))), xm(Ex::V(2), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))))), Ex::Z, v);
    assert(nf(xs(xa(xa(xm(Ex::V(0), xn(Ex::V(3))), xm(Ex::V(1), xn(Ex::V(4)))), xm(Ex::V(2), xn(Ex::V(5)))), xn(xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5)))))) == Li::E) by(compute_only); poly_eq(xa(xa(xm(Ex::V(0), xn(Ex::V(3))), xm(Ex::V(1), xn(Ex::V(4)))), xm(Ex::V(2), xn(Ex::V(5)))), xn(xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5)))), v);
    assert(nf(xs(xa(xa(xm(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), xn(Ex::V(3))), xm(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), xn(Ex::V(4)))), xm(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), xn(Ex::V(5)))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xa(xm(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), xn(Ex::V(3))), xm(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), xn(Ex::V(4)))), xm(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), xn(Ex::V(5)))), Ex::Z, v);
    assert(nf(xs(xs(xm(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), xn(Ex::V(5))), xm(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), xn(Ex::V(4)))), xs(xm(Ex::V(0), xa(xa(xm(Ex::V(3), Ex::V(3)), xm(Ex::V(4), Ex::V(4))), xm(Ex::V(5), Ex::V(5)))), xm(Ex::V(3), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))))))) == Li::E) by(compute_only); poly_eq(xs(xm(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), xn(Ex::V(5))), xm(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), xn(Ex::V(4)))), xs(xm(Ex::V(0), xa(xa(xm(Ex::V(3), Ex::V(3)), xm(Ex::V(4), Ex::V(4))), xm(Ex::V(5), Ex::V(5)))), xm(Ex::V(3), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))))), v);
    assert(nf(xs(xs(xm(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), xn(Ex::V(3))), xm(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), xn(Ex::V(5)))), xs(xm(Ex::V(1), xa(xa(xm(Ex::V(3), Ex::V(3)), xm(Ex::V(4), Ex::V(4))), xm(Ex::V(5), Ex::V(5)))), xm(Ex::V(4), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))))))) == Li::E) by(compute_only); poly_eq(xs(xm(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), xn(Ex::V(3))), xm(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), xn(Ex::V(5)))), xs(xm(Ex::V(1), xa(xa(xm(Ex::V(3), Ex::V(3)), xm(Ex::V(4), Ex::V(4))), xm(Ex::V(5), Ex::V(5)))), xm(Ex::V(4), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))))), v);
    assert(nf(xs(xs(xm(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), xn(Ex::V(4))), xm(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), xn(Ex::V(3)))), xs(xm(Ex::V(2), xa(xa(xm(Ex::V(3), Ex::V(3)), xm(Ex::V(4), Ex::V(4))), xm(Ex::V(5), Ex::V(5)))), xm(Ex::V(5), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))))))) == Li::E) by(compute_only); poly_eq(xs(xm(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), xn(Ex::V(4))), xm(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), xn(Ex::V(3)))), xs(xm(Ex::V(2), xa(xa(xm(Ex::V(3), Ex::V(3)), xm(Ex::V(4), Ex::V(4))), xm(Ex::V(5), Ex::V(5)))), xm(Ex::V(5), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))))), v);
    assert(nf(xs(xs(xm(xn(Ex::V(4)), Ex::V(2)), xm(xn(Ex::V(5)), Ex::V(1))), xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))))) == Li::E) by(compute_only); poly_eq(xs(xm(xn(Ex::V(4)), Ex::V(2)), xm(xn(Ex::V(5)), Ex::V(1))), xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), v);
    assert(nf(xs(xs(xm(xn(Ex::V(5)), Ex::V(0)), xm(xn(Ex::V(3)), Ex::V(2))), xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))))) == Li::E) by(compute_only); poly_eq(xs(xm(xn(Ex::V(5)), Ex::V(0)), xm(xn(Ex::V(3)), Ex::V(2))), xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), v);
    assert(nf(xs(xs(xm(xn(Ex::V(3)), Ex::V(1)), xm(xn(Ex::V(4)), Ex::V(0))), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))))) == Li::E) by(compute_only); poly_eq(xs(xm(xn(Ex::V(3)), Ex::V(1)), xm(xn(Ex::V(4)), Ex::V(0))), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), v);
    assert(nf(xs(xs(xm(Ex::V(1), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3)))), xm(Ex::V(2), xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))))), xs(xm(Ex::V(0), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5)))), xm(Ex::V(3), xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(1), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3)))), xm(Ex::V(2), xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))))), xs(xm(Ex::V(0), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5)))), xm(Ex::V(3), xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))))), v);
    assert(nf(xs(xs(xm(Ex::V(2), xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4)))), xm(Ex::V(0), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))))), xs(xm(Ex::V(1), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5)))), xm(Ex::V(4), xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(2), xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4)))), xm(Ex::V(0), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))))), xs(xm(Ex::V(1), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5)))), xm(Ex::V(4), xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))))), v);
    assert(nf(xs(xs(xm(Ex::V(0), xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5)))), xm(Ex::V(1), xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))))), xs(xm(Ex::V(2), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5)))), xm(Ex::V(5), xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(0), xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5)))), xm(Ex::V(1), xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))))), xs(xm(Ex::V(2), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5)))), xm(Ex::V(5), xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))))), v);
    reveal_with_fuel(ev, 8);
}
pub proof fn pl_dotscale<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, b0: T, b1: T, b2: T, t: T) requires is_cring::<T>()
    ensures
        sp_add(sp_add(sp_mul(sp_mul(a0, t), b0), sp_mul(sp_mul(a1, t), b1)), sp_mul(sp_mul(a2, t), b2)) == sp_mul(sp_add(sp_add(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, b2)), t),
        sp_add(sp_add(sp_mul(sp_mul(a0, t), sp_mul(b0, t)), sp_mul(sp_mul(a1, t), sp_mul(b1, t))), sp_mul(sp_mul(a2, t), sp_mul(b2, t))) == sp_mul(sp_add(sp_add(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, b2)), sp_mul(t, t)),
{
    let v = seq![a0, a1, a2, b0, b1, b2, t];
    assert(nf(xs(xa(xa(xm(xm(Ex::V(0), Ex::V(6)), Ex::V(3)), xm(xm(Ex::V(1), Ex::V(6)), Ex::V(4))), xm(xm(Ex::V(2), Ex::V(6)), Ex::V(5))), xm(xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), Ex::V(6)))) == Li::E) by(compute_only); poly_eq(xa(xa(xm(xm(Ex::V(0), Ex::V(6)), Ex::V(3)), xm(xm(Ex::V(1), Ex::V(6)), Ex::V(4))), xm(xm(Ex::V(2), Ex::V(6)), Ex::V(5))), xm(xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), Ex::V(6)), v);
    assert(nf(xs(xa(xa(xm(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(3), Ex::V(6))), xm(xm(Ex::V(1), Ex::V(6)), xm(Ex::V(4), Ex::V(6)))), xm(xm(Ex::V(2), Ex::V(6)), xm(Ex::V(5), Ex::V(6)))), xm(xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(6), Ex::V(6))))) == Li::E) by(compute_only); poly_eq(xa(xa(xm(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(3), Ex::V(6))), xm(xm(Ex::V(1), Ex::V(6)), xm(Ex::V(4), Ex::V(6)))), xm(xm(Ex::V(2), Ex::V(6)), xm(Ex::V(5), Ex::V(6)))), xm(xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(6), Ex::V(6))), v);
    reveal_with_fuel(ev, 7);
}
pub proof fn pl_look<T: Neg<Output = T> + Num>(c: T, m: T, d: T) requires is_cring::<T>()
    ensures
        sp_mul(sp_add(T::one_spec(), T::one_spec()), sp_mul(sp_mul(m, m), sp_sub(T::one_spec(), sp_mul(d, d)))) == sp_mul(sp_mul(sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), m), m), sp_add(T::one_spec(), d)), sp_sub(T::one_spec(), d)),
        sp_mul(sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), m), m), sp_mul(sp_add(T::one_spec(), T::one_spec()), sp_mul(c, c))) == sp_mul(sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), c), m), sp_mul(sp_mul(sp_add(T::one_spec(), T::one_spec()), c), m)),
{
    let v = seq![c, m, d];
    assert(nf(xs(xm(xa(Ex::I, Ex::I), xm(xm(Ex::V(1), Ex::V(1)), xs(Ex::I, xm(Ex::V(2), Ex::V(2))))), xm(xm(xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(1)), xa(Ex::I, Ex::V(2))), xs(Ex::I, Ex::V(2))))) == Li::E) by(compute_only); poly_eq(xm(xa(Ex::I, Ex::I), xm(xm(Ex::V(1), Ex::V(1)), xs(Ex::I, xm(Ex::V(2), Ex::V(2))))), xm(xm(xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(1)), xa(Ex::I, Ex::V(2))), xs(Ex::I, Ex::V(2))), v);
    assert(nf(xs(xm(xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(1)), xm(xa(Ex::I, Ex::I), xm(Ex::V(0), Ex::V(0)))), xm(xm(xm(xa(Ex::I, Ex::I), Ex::V(0)), Ex::V(1)), xm(xm(xa(Ex::I, Ex::I), Ex::V(0)), Ex::V(1))))) == Li::E) by(compute_only); poly_eq(xm(xm(xm(xa(Ex::I, Ex::I), Ex::V(1)), Ex::V(1)), xm(xa(Ex::I, Ex::I), xm(Ex::V(0), Ex::V(0)))), xm(xm(xm(xa(Ex::I, Ex::I), Ex::V(0)), Ex::V(1)), xm(xm(xa(Ex::I, Ex::I), Ex::V(0)), Ex::V(1))), v);
    reveal_with_fuel(ev, 8);
}
pub proof fn pl_half<T: Neg<Output = T> + Num>(d: T) requires is_cring::<T>()
    ensures
        sp_add(sp_add(T::one_spec(), d), sp_sub(T::one_spec(), d)) == sp_mul(sp_add(T::one_spec(), T::one_spec()), T::one_spec()),
        sp_sub(sp_add(T::one_spec(), d), sp_sub(T::one_spec(), d)) == sp_mul(sp_add(T::one_spec(), T::one_spec()), d),
{
    let v = seq![d];
    assert(nf(xs(xa(xa(Ex::I, Ex::V(0)), xs(Ex::I, Ex::V(0))), xm(xa(Ex::I, Ex::I), Ex::I))) == Li::E) by(compute_only); poly_eq(xa(xa(Ex::I, Ex::V(0)), xs(Ex::I, Ex::V(0))), xm(xa(Ex::I, Ex::I), Ex::I), v);
    assert(nf(xs(xs(xa(Ex::I, Ex::V(0)), xs(Ex::I, Ex::V(0))), xm(xa(Ex::I, Ex::I), Ex::V(0)))) == Li::E) by(compute_only); poly_eq(xs(xa(Ex::I, Ex::V(0)), xs(Ex::I, Ex::V(0))), xm(xa(Ex::I, Ex::I), Ex::V(0)), v);
    reveal_with_fuel(ev, 5);
}
pub proof fn pl_two<T: Neg<Output = T> + Num>(a: T, b: T) requires is_cring::<T>()
    ensures
        sp_mul(sp_add(T::one_spec(), T::one_spec()), sp_add(a, b)) == sp_add(sp_mul(sp_add(T::one_spec(), T::one_spec()), a), sp_mul(sp_add(T::one_spec(), T::one_spec()), b)),
        sp_mul(sp_add(T::one_spec(), T::one_spec()), sp_sub(a, b)) == sp_sub(sp_mul(sp_add(T::one_spec(), T::one_spec()), a), sp_mul(sp_add(T::one_spec(), T::one_spec()), b)),
{
    let v = seq![a, b];
    assert(nf(xs(xm(xa(Ex::I, Ex::I), xa(Ex::V(0), Ex::V(1))), xa(xm(xa(Ex::I, Ex::I), Ex::V(0)), xm(xa(Ex::I, Ex::I), Ex::V(1))))) == Li::E) by(compute_only); poly_eq(xm(xa(Ex::I, Ex::I), xa(Ex::V(0), Ex::V(1))), xa(xm(xa(Ex::I, Ex::I), Ex::V(0)), xm(xa(Ex::I, Ex::I), Ex::V(1))), v);
    assert(nf(xs(xm(xa(Ex::I, Ex::I), xs(Ex::V(0), Ex::V(1))), xs(xm(xa(Ex::I, Ex::I), Ex::V(0)), xm(xa(Ex::I, Ex::I), Ex::V(1))))) == Li::E) by(compute_only); poly_eq(xm(xa(Ex::I, Ex::I), xs(Ex::V(0), Ex::V(1))), xs(xm(xa(Ex::I, Ex::I), Ex::V(0)), xm(xa(Ex::I, Ex::I), Ex::V(1))), v);
    reveal_with_fuel(ev, 6);
}
pub proof fn pl_triple<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, b0: T, b1: T, b2: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_mul(sp_sub(sp_mul(a2, b0), sp_mul(a0, b2)), a2), sp_mul(sp_sub(sp_mul(a0, b1), sp_mul(a1, b0)), a1)) == sp_sub(sp_mul(b0, sp_add(sp_add(sp_mul(a0, a0), sp_mul(a1, a1)), sp_mul(a2, a2))), sp_mul(a0, sp_add(sp_add(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, b2)))),
        sp_sub(sp_mul(sp_sub(sp_mul(a0, b1), sp_mul(a1, b0)), a0), sp_mul(sp_sub(sp_mul(a1, b2), sp_mul(a2, b1)), a2)) == sp_sub(sp_mul(b1, sp_add(sp_add(sp_mul(a0, a0), sp_mul(a1, a1)), sp_mul(a2, a2))), sp_mul(a1, sp_add(sp_add(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, b2)))),
        sp_sub(sp_mul(sp_sub(sp_mul(a1, b2), sp_mul(a2, b1)), a1), sp_mul(sp_sub(sp_mul(a2, b0), sp_mul(a0, b2)), a0)) == sp_sub(sp_mul(b2, sp_add(sp_add(sp_mul(a0, a0), sp_mul(a1, a1)), sp_mul(a2, a2))), sp_mul(a2, sp_add(sp_add(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, b2)))),
{
    let v = seq![a0, a1, a2, b0, b1, b2];
    assert(nf(xs(xs(xm(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), Ex::V(2)), xm(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), Ex::V(1))), xs(xm(Ex::V(3), xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2)))), xm(Ex::V(0), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))))))) == Li::E) by(compute_only); poly_eq(xs(xm(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), Ex::V(2)), xm(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), Ex::V(1))), xs(xm(Ex::V(3), xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2)))), xm(Ex::V(0), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))))), v);
    assert(nf(xs(xs(xm(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), Ex::V(0)), xm(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), Ex::V(2))), xs(xm(Ex::V(4), xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2)))), xm(Ex::V(1), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))))))) == Li::E) by(compute_only); poly_eq(xs(xm(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), Ex::V(0)), xm(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), Ex::V(2))), xs(xm(Ex::V(4), xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2)))), xm(Ex::V(1), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))))), v);
    assert(nf(xs(xs(xm(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), Ex::V(1)), xm(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), Ex::V(0))), xs(xm(Ex::V(5), xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2)))), xm(Ex::V(2), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))))))) == Li::E) by(compute_only); poly_eq(xs(xm(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), Ex::V(1)), xm(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), Ex::V(0))), xs(xm(Ex::V(5), xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2)))), xm(Ex::V(2), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))))), v);
    reveal_with_fuel(ev, 8);
}
