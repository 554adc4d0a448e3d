### verbatim
// generated by gen_poly.py
pub proof fn pl_rot2<T: Neg<Output = T> + Num>(a0: T, a1: T, b0: T, b1: T, x0: T, x1: T, y0: T, y1: T, t: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_mul(x0, sp_sub(sp_mul(a0, b0), sp_mul(a1, b1))), sp_mul(x1, sp_add(sp_mul(a0, b1), sp_mul(a1, b0)))) == sp_sub(sp_mul(sp_sub(sp_mul(x0, b0), sp_mul(x1, b1)), a0), sp_mul(sp_add(sp_mul(x0, b1), sp_mul(x1, b0)), a1)),
        sp_add(sp_mul(x0, sp_add(sp_mul(a0, b1), sp_mul(a1, b0))), sp_mul(x1, sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)))) == sp_add(sp_mul(sp_sub(sp_mul(x0, b0), sp_mul(x1, b1)), a1), sp_mul(sp_add(sp_mul(x0, b1), sp_mul(x1, b0)), a0)),
        sp_sub(sp_mul(x0, T::one_spec()), sp_mul(x1, T::zero_spec())) == x0,
        sp_add(sp_mul(x0, T::zero_spec()), sp_mul(x1, T::one_spec())) == x1,
        sp_sub(sp_mul(sp_sub(sp_mul(x0, a0), sp_mul(x1, a1)), a0), sp_mul(sp_add(sp_mul(x0, a1), sp_mul(x1, a0)), sp_neg(a1))) == sp_mul(x0, sp_add(sp_mul(a0, a0), sp_mul(a1, a1))),
        sp_add(sp_mul(sp_sub(sp_mul(x0, a0), sp_mul(x1, a1)), sp_neg(a1)), sp_mul(sp_add(sp_mul(x0, a1), sp_mul(x1, a0)), a0)) == sp_mul(x1, sp_add(sp_mul(a0, a0), sp_mul(a1, a1))),
        sp_sub(sp_mul(sp_sub(sp_mul(x0, a0), sp_mul(x1, sp_neg(a1))), a0), sp_mul(sp_add(sp_mul(x0, sp_neg(a1)), sp_mul(x1, a0)), a1)) == sp_mul(x0, sp_add(sp_mul(a0, a0), sp_mul(a1, a1))),
        sp_add(sp_mul(sp_sub(sp_mul(x0, a0), sp_mul(x1, sp_neg(a1))), a1), sp_mul(sp_add(sp_mul(x0, sp_neg(a1)), sp_mul(x1, a0)), a0)) == sp_mul(x1, sp_add(sp_mul(a0, a0), sp_mul(a1, a1))),
        sp_sub(sp_mul(sp_add(x0, y0), a0), sp_mul(sp_add(x1, y1), a1)) == sp_add(sp_sub(sp_mul(x0, a0), sp_mul(x1, a1)), sp_sub(sp_mul(y0, a0), sp_mul(y1, a1))),
        sp_add(sp_mul(sp_add(x0, y0), a1), sp_mul(sp_add(x1, y1), a0)) == sp_add(sp_add(sp_mul(x0, a1), sp_mul(x1, a0)), sp_add(sp_mul(y0, a1), sp_mul(y1, a0))),
        sp_sub(sp_mul(sp_mul(x0, t), a0), sp_mul(sp_mul(x1, t), a1)) == sp_mul(sp_sub(sp_mul(x0, a0), sp_mul(x1, a1)), t),
        sp_add(sp_mul(sp_mul(x0, t), a1), sp_mul(sp_mul(x1, t), a0)) == sp_mul(sp_add(sp_mul(x0, a1), sp_mul(x1, a0)), t),
{
    let v = seq![a0, a1, b0, b1, x0, x1, y0, y1, t];
    assert(nf(xs(xs(xm(Ex::V(4), xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3)))), xm(Ex::V(5), xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))))), xs(xm(xs(xm(Ex::V(4), Ex::V(2)), xm(Ex::V(5), Ex::V(3))), Ex::V(0)), xm(xa(xm(Ex::V(4), Ex::V(3)), xm(Ex::V(5), Ex::V(2))), Ex::V(1))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(4), xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3)))), xm(Ex::V(5), xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))))), xs(xm(xs(xm(Ex::V(4), Ex::V(2)), xm(Ex::V(5), Ex::V(3))), Ex::V(0)), xm(xa(xm(Ex::V(4), Ex::V(3)), xm(Ex::V(5), Ex::V(2))), Ex::V(1))), v);
    assert(nf(xs(xa(xm(Ex::V(4), xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2)))), xm(Ex::V(5), xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))))), xa(xm(xs(xm(Ex::V(4), Ex::V(2)), xm(Ex::V(5), Ex::V(3))), Ex::V(1)), xm(xa(xm(Ex::V(4), Ex::V(3)), xm(Ex::V(5), Ex::V(2))), Ex::V(0))))) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(4), xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2)))), xm(Ex::V(5), xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))))), xa(xm(xs(xm(Ex::V(4), Ex::V(2)), xm(Ex::V(5), Ex::V(3))), Ex::V(1)), xm(xa(xm(Ex::V(4), Ex::V(3)), xm(Ex::V(5), Ex::V(2))), Ex::V(0))), v);
    assert(nf(xs(xs(xm(Ex::V(4), Ex::I), xm(Ex::V(5), Ex::Z)), Ex::V(4))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(4), Ex::I), xm(Ex::V(5), Ex::Z)), Ex::V(4), v);
    assert(nf(xs(xa(xm(Ex::V(4), Ex::Z), xm(Ex::V(5), Ex::I)), Ex::V(5))) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(4), Ex::Z), xm(Ex::V(5), Ex::I)), Ex::V(5), v);
    assert(nf(xs(xs(xm(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1))), Ex::V(0)), xm(xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0))), xn(Ex::V(1)))), xm(Ex::V(4), xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1)))))) == Li::E) by(compute_only); poly_eq(xs(xm(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1))), Ex::V(0)), xm(xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0))), xn(Ex::V(1)))), xm(Ex::V(4), xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1)))), v);
    assert(nf(xs(xa(xm(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1))), xn(Ex::V(1))), xm(xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0))), Ex::V(0))), xm(Ex::V(5), xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1)))))) == Li::E) by(compute_only); poly_eq(xa(xm(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1))), xn(Ex::V(1))), xm(xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0))), Ex::V(0))), xm(Ex::V(5), xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1)))), v);
    assert(nf(xs(xs(xm(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), xn(Ex::V(1)))), Ex::V(0)), xm(xa(xm(Ex::V(4), xn(Ex::V(1))), xm(Ex::V(5), Ex::V(0))), Ex::V(1))), xm(Ex::V(4), xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1)))))) == Li::E) by(compute_only); poly_eq(xs(xm(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), xn(Ex::V(1)))), Ex::V(0)), xm(xa(xm(Ex::V(4), xn(Ex::V(1))), xm(Ex::V(5), Ex::V(0))), Ex::V(1))), xm(Ex::V(4), xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1)))), v);
    assert(nf(xs(xa(xm(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), xn(Ex::V(1)))), Ex::V(1)), xm(xa(xm(Ex::V(4), xn(Ex::V(1))), xm(Ex::V(5), Ex::V(0))), Ex::V(0))), xm(Ex::V(5), xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1)))))) == Li::E) by(compute_only); poly_eq(xa(xm(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), xn(Ex::V(1)))), Ex::V(1)), xm(xa(xm(Ex::V(4), xn(Ex::V(1))), xm(Ex::V(5), Ex::V(0))), Ex::V(0))), xm(Ex::V(5), xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1)))), v);
    assert(nf(xs(xs(xm(xa(Ex::V(4), Ex::V(6)), Ex::V(0)), xm(xa(Ex::V(5), Ex::V(7)), Ex::V(1))), xa(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1))), xs(xm(Ex::V(6), Ex::V(0)), xm(Ex::V(7), Ex::V(1)))))) == Li::E) by(compute_only); poly_eq(xs(xm(xa(Ex::V(4), Ex::V(6)), Ex::V(0)), xm(xa(Ex::V(5), Ex::V(7)), Ex::V(1))), xa(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1))), xs(xm(Ex::V(6), Ex::V(0)), xm(Ex::V(7), Ex::V(1)))), v);
    assert(nf(xs(xa(xm(xa(Ex::V(4), Ex::V(6)), Ex::V(1)), xm(xa(Ex::V(5), Ex::V(7)), Ex::V(0))), xa(xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0))), xa(xm(Ex::V(6), Ex::V(1)), xm(Ex::V(7), Ex::V(0)))))) == Li::E) by(compute_only); poly_eq(xa(xm(xa(Ex::V(4), Ex::V(6)), Ex::V(1)), xm(xa(Ex::V(5), Ex::V(7)), Ex::V(0))), xa(xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0))), xa(xm(Ex::V(6), Ex::V(1)), xm(Ex::V(7), Ex::V(0)))), v);
    assert(nf(xs(xs(xm(xm(Ex::V(4), Ex::V(8)), Ex::V(0)), xm(xm(Ex::V(5), Ex::V(8)), Ex::V(1))), xm(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1))), Ex::V(8)))) == Li::E) by(compute_only); poly_eq(xs(xm(xm(Ex::V(4), Ex::V(8)), Ex::V(0)), xm(xm(Ex::V(5), Ex::V(8)), Ex::V(1))), xm(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1))), Ex::V(8)), v);
    assert(nf(xs(xa(xm(xm(Ex::V(4), Ex::V(8)), Ex::V(1)), xm(xm(Ex::V(5), Ex::V(8)), Ex::V(0))), xm(xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0))), Ex::V(8)))) == Li::E) by(compute_only); poly_eq(xa(xm(xm(Ex::V(4), Ex::V(8)), Ex::V(1)), xm(xm(Ex::V(5), Ex::V(8)), Ex::V(0))), xm(xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0))), Ex::V(8)), v);
    reveal_with_fuel(ev, 8);
}
pub proof fn pl_rot3w<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T, x0: T, x1: T, x2: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_sub(sp_sub(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, x0)), sp_mul(a2, x1)), sp_mul(a3, x2)), a0), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, x0), sp_mul(a1, T::zero_spec())), sp_mul(a2, x2)), sp_mul(a3, x1)), sp_neg(a1))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, x1), sp_mul(a1, x2)), sp_mul(a2, T::zero_spec())), sp_mul(a3, x0)), sp_neg(a2))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, x2), sp_mul(a1, x1)), sp_mul(a2, x0)), sp_mul(a3, T::zero_spec())), sp_neg(a3))) == T::zero_spec(),
{
    let v = seq![a0, a1, a2, a3, x0, x1, x2];
    assert(nf(xs(xs(xs(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(6))), Ex::V(0)), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(5))), xn(Ex::V(1)))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), xn(Ex::V(2)))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(3)))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(6))), Ex::V(0)), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(5))), xn(Ex::V(1)))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), xn(Ex::V(2)))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(3)))), Ex::Z, v);
    reveal_with_fuel(ev, 11);
}
pub proof fn pl_rot3id<T: Neg<Output = T> + Num>(x0: T, x1: T, x2: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_add(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(T::one_spec(), T::zero_spec()), sp_mul(T::zero_spec(), x0)), sp_mul(T::zero_spec(), x1)), sp_mul(T::zero_spec(), x2)), sp_neg(T::zero_spec())), sp_mul(sp_sub(sp_add(sp_add(sp_mul(T::one_spec(), x0), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), x2)), sp_mul(T::zero_spec(), x1)), T::one_spec())), sp_mul(sp_add(sp_add(sp_sub(sp_mul(T::one_spec(), x1), sp_mul(T::zero_spec(), x2)), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), x0)), sp_neg(T::zero_spec()))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(T::one_spec(), x2), sp_mul(T::zero_spec(), x1)), sp_mul(T::zero_spec(), x0)), sp_mul(T::zero_spec(), T::zero_spec())), sp_neg(T::zero_spec()))) == x0,
        sp_add(sp_add(sp_sub(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(T::one_spec(), T::zero_spec()), sp_mul(T::zero_spec(), x0)), sp_mul(T::zero_spec(), x1)), sp_mul(T::zero_spec(), x2)), sp_neg(T::zero_spec())), sp_mul(sp_sub(sp_add(sp_add(sp_mul(T::one_spec(), x0), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), x2)), sp_mul(T::zero_spec(), x1)), sp_neg(T::zero_spec()))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(T::one_spec(), x1), sp_mul(T::zero_spec(), x2)), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), x0)), T::one_spec())), sp_mul(sp_add(sp_sub(sp_add(sp_mul(T::one_spec(), x2), sp_mul(T::zero_spec(), x1)), sp_mul(T::zero_spec(), x0)), sp_mul(T::zero_spec(), T::zero_spec())), sp_neg(T::zero_spec()))) == x1,
        sp_add(sp_sub(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(T::one_spec(), T::zero_spec()), sp_mul(T::zero_spec(), x0)), sp_mul(T::zero_spec(), x1)), sp_mul(T::zero_spec(), x2)), sp_neg(T::zero_spec())), sp_mul(sp_sub(sp_add(sp_add(sp_mul(T::one_spec(), x0), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), x2)), sp_mul(T::zero_spec(), x1)), sp_neg(T::zero_spec()))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(T::one_spec(), x1), sp_mul(T::zero_spec(), x2)), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), x0)), sp_neg(T::zero_spec()))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(T::one_spec(), x2), sp_mul(T::zero_spec(), x1)), sp_mul(T::zero_spec(), x0)), sp_mul(T::zero_spec(), T::zero_spec())), T::one_spec())) == x2,
{
    let v = seq![x0, x1, x2];
    assert(nf(xs(xs(xa(xa(xm(xs(xs(xs(xm(Ex::I, Ex::Z), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(2))), xn(Ex::Z)), xm(xs(xa(xa(xm(Ex::I, Ex::V(0)), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(1))), Ex::I)), xm(xa(xa(xs(xm(Ex::I, Ex::V(1)), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::V(0))), xn(Ex::Z))), xm(xa(xs(xa(xm(Ex::I, Ex::V(2)), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::Z)), xn(Ex::Z))), Ex::V(0))) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(xs(xs(xs(xm(Ex::I, Ex::Z), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(2))), xn(Ex::Z)), xm(xs(xa(xa(xm(Ex::I, Ex::V(0)), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(1))), Ex::I)), xm(xa(xa(xs(xm(Ex::I, Ex::V(1)), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::V(0))), xn(Ex::Z))), xm(xa(xs(xa(xm(Ex::I, Ex::V(2)), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::Z)), xn(Ex::Z))), Ex::V(0), v);
    assert(nf(xs(xa(xa(xs(xm(xs(xs(xs(xm(Ex::I, Ex::Z), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(2))), xn(Ex::Z)), xm(xs(xa(xa(xm(Ex::I, Ex::V(0)), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(1))), xn(Ex::Z))), xm(xa(xa(xs(xm(Ex::I, Ex::V(1)), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::V(0))), Ex::I)), xm(xa(xs(xa(xm(Ex::I, Ex::V(2)), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::Z)), xn(Ex::Z))), Ex::V(1))) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(xs(xs(xs(xm(Ex::I, Ex::Z), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(2))), xn(Ex::Z)), xm(xs(xa(xa(xm(Ex::I, Ex::V(0)), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(1))), xn(Ex::Z))), xm(xa(xa(xs(xm(Ex::I, Ex::V(1)), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::V(0))), Ex::I)), xm(xa(xs(xa(xm(Ex::I, Ex::V(2)), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::Z)), xn(Ex::Z))), Ex::V(1), v);
    assert(nf(xs(xa(xs(xa(xm(xs(xs(xs(xm(Ex::I, Ex::Z), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(2))), xn(Ex::Z)), xm(xs(xa(xa(xm(Ex::I, Ex::V(0)), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(1))), xn(Ex::Z))), xm(xa(xa(xs(xm(Ex::I, Ex::V(1)), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::V(0))), xn(Ex::Z))), xm(xa(xs(xa(xm(Ex::I, Ex::V(2)), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::Z)), Ex::I)), Ex::V(2))) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(xs(xs(xs(xm(Ex::I, Ex::Z), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(2))), xn(Ex::Z)), xm(xs(xa(xa(xm(Ex::I, Ex::V(0)), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(1))), xn(Ex::Z))), xm(xa(xa(xs(xm(Ex::I, Ex::V(1)), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::V(0))), xn(Ex::Z))), xm(xa(xs(xa(xm(Ex::I, Ex::V(2)), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::Z)), Ex::I)), Ex::V(2), v);
    reveal_with_fuel(ev, 11);
}
pub proof fn pl_rot3lin<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T, x0: T, x1: T, x2: T, y0: T, y1: T, y2: T, t: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_add(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, sp_add(x0, y0))), sp_mul(a2, sp_add(x1, y1))), sp_mul(a3, sp_add(x2, y2))), sp_neg(a1)), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, sp_add(x0, y0)), sp_mul(a1, T::zero_spec())), sp_mul(a2, sp_add(x2, y2))), sp_mul(a3, sp_add(x1, y1))), a0)), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, sp_add(x1, y1)), sp_mul(a1, sp_add(x2, y2))), sp_mul(a2, T::zero_spec())), sp_mul(a3, sp_add(x0, y0))), sp_neg(a3))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, sp_add(x2, y2)), sp_mul(a1, sp_add(x1, y1))), sp_mul(a2, sp_add(x0, y0))), sp_mul(a3, T::zero_spec())), sp_neg(a2))) == sp_add(sp_sub(sp_add(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, x0)), sp_mul(a2, x1)), sp_mul(a3, x2)), sp_neg(a1)), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, x0), sp_mul(a1, T::zero_spec())), sp_mul(a2, x2)), sp_mul(a3, x1)), a0)), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, x1), sp_mul(a1, x2)), sp_mul(a2, T::zero_spec())), sp_mul(a3, x0)), sp_neg(a3))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, x2), sp_mul(a1, x1)), sp_mul(a2, x0)), sp_mul(a3, T::zero_spec())), sp_neg(a2))), sp_sub(sp_add(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, y0)), sp_mul(a2, y1)), sp_mul(a3, y2)), sp_neg(a1)), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, y0), sp_mul(a1, T::zero_spec())), sp_mul(a2, y2)), sp_mul(a3, y1)), a0)), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, y1), sp_mul(a1, y2)), sp_mul(a2, T::zero_spec())), sp_mul(a3, y0)), sp_neg(a3))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, y2), sp_mul(a1, y1)), sp_mul(a2, y0)), sp_mul(a3, T::zero_spec())), sp_neg(a2)))),
        sp_add(sp_add(sp_sub(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, sp_add(x0, y0))), sp_mul(a2, sp_add(x1, y1))), sp_mul(a3, sp_add(x2, y2))), sp_neg(a2)), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, sp_add(x0, y0)), sp_mul(a1, T::zero_spec())), sp_mul(a2, sp_add(x2, y2))), sp_mul(a3, sp_add(x1, y1))), sp_neg(a3))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, sp_add(x1, y1)), sp_mul(a1, sp_add(x2, y2))), sp_mul(a2, T::zero_spec())), sp_mul(a3, sp_add(x0, y0))), a0)), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, sp_add(x2, y2)), sp_mul(a1, sp_add(x1, y1))), sp_mul(a2, sp_add(x0, y0))), sp_mul(a3, T::zero_spec())), sp_neg(a1))) == sp_add(sp_add(sp_add(sp_sub(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, x0)), sp_mul(a2, x1)), sp_mul(a3, x2)), sp_neg(a2)), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, x0), sp_mul(a1, T::zero_spec())), sp_mul(a2, x2)), sp_mul(a3, x1)), sp_neg(a3))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, x1), sp_mul(a1, x2)), sp_mul(a2, T::zero_spec())), sp_mul(a3, x0)), a0)), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, x2), sp_mul(a1, x1)), sp_mul(a2, x0)), sp_mul(a3, T::zero_spec())), sp_neg(a1))), sp_add(sp_add(sp_sub(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, y0)), sp_mul(a2, y1)), sp_mul(a3, y2)), sp_neg(a2)), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, y0), sp_mul(a1, T::zero_spec())), sp_mul(a2, y2)), sp_mul(a3, y1)), sp_neg(a3))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, y1), sp_mul(a1, y2)), sp_mul(a2, T::zero_spec())), sp_mul(a3, y0)), a0)), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, y2), sp_mul(a1, y1)), sp_mul(a2, y0)), sp_mul(a3, T::zero_spec())), sp_neg(a1)))),
        sp_add(sp_sub(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, sp_add(x0, y0))), sp_mul(a2, sp_add(x1, y1))), sp_mul(a3, sp_add(x2, y2))), sp_neg(a3)), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, sp_add(x0, y0)), sp_mul(a1, T::zero_spec())), sp_mul(a2, sp_add(x2, y2))), sp_mul(a3, sp_add(x1, y1))), sp_neg(a2))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, sp_add(x1, y1)), sp_mul(a1, sp_add(x2, y2))), sp_mul(a2, T::zero_spec())), sp_mul(a3, sp_add(x0, y0))), sp_neg(a1))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, sp_add(x2, y2)), sp_mul(a1, sp_add(x1, y1))), sp_mul(a2, sp_add(x0, y0))), sp_mul(a3, T::zero_spec())), a0)) == sp_add(sp_add(sp_sub(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, x0)), sp_mul(a2, x1)), sp_mul(a3, x2)), sp_neg(a3)), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, x0), sp_mul(a1, T::zero_spec())), sp_mul(a2, x2)), sp_mul(a3, x1)), sp_neg(a2))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, x1), sp_mul(a1, x2)), sp_mul(a2, T::zero_spec())), sp_mul(a3, x0)), sp_neg(a1))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, x2), sp_mul(a1, x1)), sp_mul(a2, x0)), sp_mul(a3, T::zero_spec())), a0)), sp_add(sp_sub(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, y0)), sp_mul(a2, y1)), sp_mul(a3, y2)), sp_neg(a3)), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, y0), sp_mul(a1, T::zero_spec())), sp_mul(a2, y2)), sp_mul(a3, y1)), sp_neg(a2))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, y1), sp_mul(a1, y2)), sp_mul(a2, T::zero_spec())), sp_mul(a3, y0)), sp_neg(a1))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, y2), sp_mul(a1, y1)), sp_mul(a2, y0)), sp_mul(a3, T::zero_spec())), a0))),
        sp_sub(sp_add(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, sp_mul(x0, t))), sp_mul(a2, sp_mul(x1, t))), sp_mul(a3, sp_mul(x2, t))), sp_neg(a1)), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, sp_mul(x0, t)), sp_mul(a1, T::zero_spec())), sp_mul(a2, sp_mul(x2, t))), sp_mul(a3, sp_mul(x1, t))), a0)), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, sp_mul(x1, t)), sp_mul(a1, sp_mul(x2, t))), sp_mul(a2, T::zero_spec())), sp_mul(a3, sp_mul(x0, t))), sp_neg(a3))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, sp_mul(x2, t)), sp_mul(a1, sp_mul(x1, t))), sp_mul(a2, sp_mul(x0, t))), sp_mul(a3, T::zero_spec())), sp_neg(a2))) == sp_mul(sp_sub(sp_add(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, x0)), sp_mul(a2, x1)), sp_mul(a3, x2)), sp_neg(a1)), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, x0), sp_mul(a1, T::zero_spec())), sp_mul(a2, x2)), sp_mul(a3, x1)), a0)), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, x1), sp_mul(a1, x2)), sp_mul(a2, T::zero_spec())), sp_mul(a3, x0)), sp_neg(a3))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, x2), sp_mul(a1, x1)), sp_mul(a2, x0)), sp_mul(a3, T::zero_spec())), sp_neg(a2))), t),
        sp_add(sp_add(sp_sub(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, sp_mul(x0, t))), sp_mul(a2, sp_mul(x1, t))), sp_mul(a3, sp_mul(x2, t))), sp_neg(a2)), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, sp_mul(x0, t)), sp_mul(a1, T::zero_spec())), sp_mul(a2, sp_mul(x2, t))), sp_mul(a3, sp_mul(x1, t))), sp_neg(a3))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, sp_mul(x1, t)), sp_mul(a1, sp_mul(x2, t))), sp_mul(a2, T::zero_spec())), sp_mul(a3, sp_mul(x0, t))), a0)), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, sp_mul(x2, t)), sp_mul(a1, sp_mul(x1, t))), sp_mul(a2, sp_mul(x0, t))), sp_mul(a3, T::zero_spec())), sp_neg(a1))) == sp_mul(sp_add(sp_add(sp_sub(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, x0)), sp_mul(a2, x1)), sp_mul(a3, x2)), sp_neg(a2)), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, x0), sp_mul(a1, T::zero_spec())), sp_mul(a2, x2)), sp_mul(a3, x1)), sp_neg(a3))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, x1), sp_mul(a1, x2)), sp_mul(a2, T::zero_spec())), sp_mul(a3, x0)), a0)), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, x2), sp_mul(a1, x1)), sp_mul(a2, x0)), sp_mul(a3, T::zero_spec())), sp_neg(a1))), t),
        sp_add(sp_sub(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, sp_mul(x0, t))), sp_mul(a2, sp_mul(x1, t))), sp_mul(a3, sp_mul(x2, t))), sp_neg(a3)), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, sp_mul(x0, t)), sp_mul(a1, T::zero_spec())), sp_mul(a2, sp_mul(x2, t))), sp_mul(a3, sp_mul(x1, t))), sp_neg(a2))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, sp_mul(x1, t)), sp_mul(a1, sp_mul(x2, t))), sp_mul(a2, T::zero_spec())), sp_mul(a3, sp_mul(x0, t))), sp_neg(a1))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, sp_mul(x2, t)), sp_mul(a1, sp_mul(x1, t))), sp_mul(a2, sp_mul(x0, t))), sp_mul(a3, T::zero_spec())), a0)) == sp_mul(sp_add(sp_sub(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, x0)), sp_mul(a2, x1)), sp_mul(a3, x2)), sp_neg(a3)), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, x0), sp_mul(a1, T::zero_spec())), sp_mul(a2, x2)), sp_mul(a3, x1)), sp_neg(a2))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, x1), sp_mul(a1, x2)), sp_mul(a2, T::zero_spec())), sp_mul(a3, x0)), sp_neg(a1))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, x2), sp_mul(a1, x1)), sp_mul(a2, x0)), sp_mul(a3, T::zero_spec())), a0)), t),
{
    let v = seq![a0, a1, a2, a3, x0, x1, x2, y0, y1, y2, t];
    assert(nf(xs(xs(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), xa(Ex::V(4), Ex::V(7)))), xm(Ex::V(2), xa(Ex::V(5), Ex::V(8)))), xm(Ex::V(3), xa(Ex::V(6), Ex::V(9)))), xn(Ex::V(1))), xm(xs(xa(xa(xm(Ex::V(0), xa(Ex::V(4), Ex::V(7))), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), xa(Ex::V(6), Ex::V(9)))), xm(Ex::V(3), xa(Ex::V(5), Ex::V(8)))), Ex::V(0))), xm(xa(xa(xs(xm(Ex::V(0), xa(Ex::V(5), Ex::V(8))), xm(Ex::V(1), xa(Ex::V(6), Ex::V(9)))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), xa(Ex::V(4), Ex::V(7)))), xn(Ex::V(3)))), xm(xa(xs(xa(xm(Ex::V(0), xa(Ex::V(6), Ex::V(9))), xm(Ex::V(1), xa(Ex::V(5), Ex::V(8)))), xm(Ex::V(2), xa(Ex::V(4), Ex::V(7)))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(2)))), xa(xs(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(6))), xn(Ex::V(1))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(5))), Ex::V(0))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), xn(Ex::V(3)))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(2)))), xs(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(8))), xm(Ex::V(3), Ex::V(9))), xn(Ex::V(1))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(9))), xm(Ex::V(3), Ex::V(8))), Ex::V(0))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(8)), xm(Ex::V(1), Ex::V(9))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(7))), xn(Ex::V(3)))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(9)), xm(Ex::V(1), Ex::V(8))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(2))))))) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), xa(Ex::V(4), Ex::V(7)))), xm(Ex::V(2), xa(Ex::V(5), Ex::V(8)))), xm(Ex::V(3), xa(Ex::V(6), Ex::V(9)))), xn(Ex::V(1))), xm(xs(xa(xa(xm(Ex::V(0), xa(Ex::V(4), Ex::V(7))), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), xa(Ex::V(6), Ex::V(9)))), xm(Ex::V(3), xa(Ex::V(5), Ex::V(8)))), Ex::V(0))), xm(xa(xa(xs(xm(Ex::V(0), xa(Ex::V(5), Ex::V(8))), xm(Ex::V(1), xa(Ex::V(6), Ex::V(9)))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), xa(Ex::V(4), Ex::V(7)))), xn(Ex::V(3)))), xm(xa(xs(xa(xm(Ex::V(0), xa(Ex::V(6), Ex::V(9))), xm(Ex::V(1), xa(Ex::V(5), Ex::V(8)))), xm(Ex::V(2), xa(Ex::V(4), Ex::V(7)))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(2)))), xa(xs(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(6))), xn(Ex::V(1))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(5))), Ex::V(0))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), xn(Ex::V(3)))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(2)))), xs(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(8))), xm(Ex::V(3), Ex::V(9))), xn(Ex::V(1))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(9))), xm(Ex::V(3), Ex::V(8))), Ex::V(0))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(8)), xm(Ex::V(1), Ex::V(9))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(7))), xn(Ex::V(3)))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(9)), xm(Ex::V(1), Ex::V(8))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(2))))), v);
    assert(nf(xs(xa(xa(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), xa(Ex::V(4), Ex::V(7)))), xm(Ex::V(2), xa(Ex::V(5), Ex::V(8)))), xm(Ex::V(3), xa(Ex::V(6), Ex::V(9)))), xn(Ex::V(2))), xm(xs(xa(xa(xm(Ex::V(0), xa(Ex::V(4), Ex::V(7))), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), xa(Ex::V(6), Ex::V(9)))), xm(Ex::V(3), xa(Ex::V(5), Ex::V(8)))), xn(Ex::V(3)))), xm(xa(xa(xs(xm(Ex::V(0), xa(Ex::V(5), Ex::V(8))), xm(Ex::V(1), xa(Ex::V(6), Ex::V(9)))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), xa(Ex::V(4), Ex::V(7)))), Ex::V(0))), xm(xa(xs(xa(xm(Ex::V(0), xa(Ex::V(6), Ex::V(9))), xm(Ex::V(1), xa(Ex::V(5), Ex::V(8)))), xm(Ex::V(2), xa(Ex::V(4), Ex::V(7)))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(1)))), xa(xa(xa(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(6))), xn(Ex::V(2))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(5))), xn(Ex::V(3)))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), Ex::V(0))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(1)))), xa(xa(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(8))), xm(Ex::V(3), Ex::V(9))), xn(Ex::V(2))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(9))), xm(Ex::V(3), Ex::V(8))), xn(Ex::V(3)))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(8)), xm(Ex::V(1), Ex::V(9))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(7))), Ex::V(0))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(9)), xm(Ex::V(1), Ex::V(8))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(1))))))) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), xa(Ex::V(4), Ex::V(7)))), xm(Ex::V(2), xa(Ex::V(5), Ex::V(8)))), xm(Ex::V(3), xa(Ex::V(6), Ex::V(9)))), xn(Ex::V(2))), xm(xs(xa(xa(xm(Ex::V(0), xa(Ex::V(4), Ex::V(7))), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), xa(Ex::V(6), Ex::V(9)))), xm(Ex::V(3), xa(Ex::V(5), Ex::V(8)))), xn(Ex::V(3)))), xm(xa(xa(xs(xm(Ex::V(0), xa(Ex::V(5), Ex::V(8))), xm(Ex::V(1), xa(Ex::V(6), Ex::V(9)))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), xa(Ex::V(4), Ex::V(7)))), Ex::V(0))), xm(xa(xs(xa(xm(Ex::V(0), xa(Ex::V(6), Ex::V(9))), xm(Ex::V(1), xa(Ex::V(5), Ex::V(8)))), xm(Ex::V(2), xa(Ex::V(4), Ex::V(7)))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(1)))), xa(xa(xa(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(6))), xn(Ex::V(2))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(5))), xn(Ex::V(3)))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), Ex::V(0))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(1)))), xa(xa(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(8))), xm(Ex::V(3), Ex::V(9))), xn(Ex::V(2))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(9))), xm(Ex::V(3), Ex::V(8))), xn(Ex::V(3)))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(8)), xm(Ex::V(1), Ex::V(9))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(7))), Ex::V(0))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(9)), xm(Ex::V(1), Ex::V(8))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(1))))), v);
    assert(nf(xs(xa(xs(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), xa(Ex::V(4), Ex::V(7)))), xm(Ex::V(2), xa(Ex::V(5), Ex::V(8)))), xm(Ex::V(3), xa(Ex::V(6), Ex::V(9)))), xn(Ex::V(3))), xm(xs(xa(xa(xm(Ex::V(0), xa(Ex::V(4), Ex::V(7))), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), xa(Ex::V(6), Ex::V(9)))), xm(Ex::V(3), xa(Ex::V(5), Ex::V(8)))), xn(Ex::V(2)))), xm(xa(xa(xs(xm(Ex::V(0), xa(Ex::V(5), Ex::V(8))), xm(Ex::V(1), xa(Ex::V(6), Ex::V(9)))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), xa(Ex::V(4), Ex::V(7)))), xn(Ex::V(1)))), xm(xa(xs(xa(xm(Ex::V(0), xa(Ex::V(6), Ex::V(9))), xm(Ex::V(1), xa(Ex::V(5), Ex::V(8)))), xm(Ex::V(2), xa(Ex::V(4), Ex::V(7)))), xm(Ex::V(3), Ex::Z)), Ex::V(0))), xa(xa(xs(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(6))), xn(Ex::V(3))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(5))), xn(Ex::V(2)))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), xn(Ex::V(1)))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), Ex::V(0))), xa(xs(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(8))), xm(Ex::V(3), Ex::V(9))), xn(Ex::V(3))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(9))), xm(Ex::V(3), Ex::V(8))), xn(Ex::V(2)))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(8)), xm(Ex::V(1), Ex::V(9))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(7))), xn(Ex::V(1)))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(9)), xm(Ex::V(1), Ex::V(8))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::Z)), Ex::V(0)))))) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), xa(Ex::V(4), Ex::V(7)))), xm(Ex::V(2), xa(Ex::V(5), Ex::V(8)))), xm(Ex::V(3), xa(Ex::V(6), Ex::V(9)))), xn(Ex::V(3))), xm(xs(xa(xa(xm(Ex::V(0), xa(Ex::V(4), Ex::V(7))), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), xa(Ex::V(6), Ex::V(9)))), xm(Ex::V(3), xa(Ex::V(5), Ex::V(8)))), xn(Ex::V(2)))), xm(xa(xa(xs(xm(Ex::V(0), xa(Ex::V(5), Ex::V(8))), xm(Ex::V(1), xa(Ex::V(6), Ex::V(9)))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), xa(Ex::V(4), Ex::V(7)))), xn(Ex::V(1)))), xm(xa(xs(xa(xm(Ex::V(0), xa(Ex::V(6), Ex::V(9))), xm(Ex::V(1), xa(Ex::V(5), Ex::V(8)))), xm(Ex::V(2), xa(Ex::V(4), Ex::V(7)))), xm(Ex::V(3), Ex::Z)), Ex::V(0))), xa(xa(xs(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(6))), xn(Ex::V(3))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(5))), xn(Ex::V(2)))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), xn(Ex::V(1)))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), Ex::V(0))), xa(xs(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(8))), xm(Ex::V(3), Ex::V(9))), xn(Ex::V(3))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(9))), xm(Ex::V(3), Ex::V(8))), xn(Ex::V(2)))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(8)), xm(Ex::V(1), Ex::V(9))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(7))), xn(Ex::V(1)))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(9)), xm(Ex::V(1), Ex::V(8))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::Z)), Ex::V(0)))), v);
    assert(nf(xs(xs(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), xm(Ex::V(4), Ex::V(10)))), xm(Ex::V(2), xm(Ex::V(5), Ex::V(10)))), xm(Ex::V(3), xm(Ex::V(6), Ex::V(10)))), xn(Ex::V(1))), xm(xs(xa(xa(xm(Ex::V(0), xm(Ex::V(4), Ex::V(10))), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), xm(Ex::V(6), Ex::V(10)))), xm(Ex::V(3), xm(Ex::V(5), Ex::V(10)))), Ex::V(0))), xm(xa(xa(xs(xm(Ex::V(0), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(1), xm(Ex::V(6), Ex::V(10)))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), xm(Ex::V(4), Ex::V(10)))), xn(Ex::V(3)))), xm(xa(xs(xa(xm(Ex::V(0), xm(Ex::V(6), Ex::V(10))), xm(Ex::V(1), xm(Ex::V(5), Ex::V(10)))), xm(Ex::V(2), xm(Ex::V(4), Ex::V(10)))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(2)))), xm(xs(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(6))), xn(Ex::V(1))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(5))), Ex::V(0))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), xn(Ex::V(3)))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(2)))), Ex::V(10)))) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), xm(Ex::V(4), Ex::V(10)))), xm(Ex::V(2), xm(Ex::V(5), Ex::V(10)))), xm(Ex::V(3), xm(Ex::V(6), Ex::V(10)))), xn(Ex::V(1))), xm(xs(xa(xa(xm(Ex::V(0), xm(Ex::V(4), Ex::V(10))), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), xm(Ex::V(6), Ex::V(10)))), xm(Ex::V(3), xm(Ex::V(5), Ex::V(10)))), Ex::V(0))), xm(xa(xa(xs(xm(Ex::V(0), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(1), xm(Ex::V(6), Ex::V(10)))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), xm(Ex::V(4), Ex::V(10)))), xn(Ex::V(3)))), xm(xa(xs(xa(xm(Ex::V(0), xm(Ex::V(6), Ex::V(10))), xm(Ex::V(1), xm(Ex::V(5), Ex::V(10)))), xm(Ex::V(2), xm(Ex::V(4), Ex::V(10)))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(2)))), xm(xs(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(6))), xn(Ex::V(1))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(5))), Ex::V(0))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), xn(Ex::V(3)))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(2)))), Ex::V(10)), v);
    assert(nf(xs(xa(xa(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), xm(Ex::V(4), Ex::V(10)))), xm(Ex::V(2), xm(Ex::V(5), Ex::V(10)))), xm(Ex::V(3), xm(Ex::V(6), Ex::V(10)))), xn(Ex::V(2))), xm(xs(xa(xa(xm(Ex::V(0), xm(Ex::V(4), Ex::V(10))), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), xm(Ex::V(6), Ex::V(10)))), xm(Ex::V(3), xm(Ex::V(5), Ex::V(10)))), xn(Ex::V(3)))), xm(xa(xa(xs(xm(Ex::V(0), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(1), xm(Ex::V(6), Ex::V(10)))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), xm(Ex::V(4), Ex::V(10)))), Ex::V(0))), xm(xa(xs(xa(xm(Ex::V(0), xm(Ex::V(6), Ex::V(10))), xm(Ex::V(1), xm(Ex::V(5), Ex::V(10)))), xm(Ex::V(2), xm(Ex::V(4), Ex::V(10)))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(1)))), xm(xa(xa(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(6))), xn(Ex::V(2))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(5))), xn(Ex::V(3)))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), Ex::V(0))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(1)))), Ex::V(10)))) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), xm(Ex::V(4), Ex::V(10)))), xm(Ex::V(2), xm(Ex::V(5), Ex::V(10)))), xm(Ex::V(3), xm(Ex::V(6), Ex::V(10)))), xn(Ex::V(2))), xm(xs(xa(xa(xm(Ex::V(0), xm(Ex::V(4), Ex::V(10))), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), xm(Ex::V(6), Ex::V(10)))), xm(Ex::V(3), xm(Ex::V(5), Ex::V(10)))), xn(Ex::V(3)))), xm(xa(xa(xs(xm(Ex::V(0), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(1), xm(Ex::V(6), Ex::V(10)))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), xm(Ex::V(4), Ex::V(10)))), Ex::V(0))), xm(xa(xs(xa(xm(Ex::V(0), xm(Ex::V(6), Ex::V(10))), xm(Ex::V(1), xm(Ex::V(5), Ex::V(10)))), xm(Ex::V(2), xm(Ex::V(4), Ex::V(10)))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(1)))), xm(xa(xa(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(6))), xn(Ex::V(2))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(5))), xn(Ex::V(3)))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), Ex::V(0))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), xn(Ex::V(1)))), Ex::V(10)), v);
    assert(nf(xs(xa(xs(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), xm(Ex::V(4), Ex::V(10)))), xm(Ex::V(2), xm(Ex::V(5), Ex::V(10)))), xm(Ex::V(3), xm(Ex::V(6), Ex::V(10)))), xn(Ex::V(3))), xm(xs(xa(xa(xm(Ex::V(0), xm(Ex::V(4), Ex::V(10))), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), xm(Ex::V(6), Ex::V(10)))), xm(Ex::V(3), xm(Ex::V(5), Ex::V(10)))), xn(Ex::V(2)))), xm(xa(xa(xs(xm(Ex::V(0), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(1), xm(Ex::V(6), Ex::V(10)))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), xm(Ex::V(4), Ex::V(10)))), xn(Ex::V(1)))), xm(xa(xs(xa(xm(Ex::V(0), xm(Ex::V(6), Ex::V(10))), xm(Ex::V(1), xm(Ex::V(5), Ex::V(10)))), xm(Ex::V(2), xm(Ex::V(4), Ex::V(10)))), xm(Ex::V(3), Ex::Z)), Ex::V(0))), xm(xa(xs(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(6))), xn(Ex::V(3))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(5))), xn(Ex::V(2)))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), xn(Ex::V(1)))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), Ex::V(0))), Ex::V(10)))) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), xm(Ex::V(4), Ex::V(10)))), xm(Ex::V(2), xm(Ex::V(5), Ex::V(10)))), xm(Ex::V(3), xm(Ex::V(6), Ex::V(10)))), xn(Ex::V(3))), xm(xs(xa(xa(xm(Ex::V(0), xm(Ex::V(4), Ex::V(10))), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), xm(Ex::V(6), Ex::V(10)))), xm(Ex::V(3), xm(Ex::V(5), Ex::V(10)))), xn(Ex::V(2)))), xm(xa(xa(xs(xm(Ex::V(0), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(1), xm(Ex::V(6), Ex::V(10)))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), xm(Ex::V(4), Ex::V(10)))), xn(Ex::V(1)))), xm(xa(xs(xa(xm(Ex::V(0), xm(Ex::V(6), Ex::V(10))), xm(Ex::V(1), xm(Ex::V(5), Ex::V(10)))), xm(Ex::V(2), xm(Ex::V(4), Ex::V(10)))), xm(Ex::V(3), Ex::Z)), Ex::V(0))), xm(xa(xs(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(6))), xn(Ex::V(3))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(5))), xn(Ex::V(2)))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), xn(Ex::V(1)))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), Ex::V(0))), Ex::V(10)), v);
    reveal_with_fuel(ev, 12);
}
