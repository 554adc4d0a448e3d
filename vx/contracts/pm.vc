### verbatim
// generated by gen_poly.py
pub proof fn pl_mo_det<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T) requires is_cring::<T>()
    ensures
        sp_add(sp_add(T::zero_spec(), sp_mul(a0, sp_add(T::zero_spec(), sp_mul(a3, T::one_spec())))), sp_mul(a1, sp_neg(sp_add(T::zero_spec(), sp_mul(a2, T::one_spec()))))) == sp_sub(sp_mul(a0, a3), sp_mul(a1, a2)),
        sp_add(sp_add(T::zero_spec(), sp_mul(T::one_spec(), sp_add(T::zero_spec(), sp_mul(T::one_spec(), T::one_spec())))), sp_mul(T::zero_spec(), sp_neg(sp_add(T::zero_spec(), sp_mul(T::zero_spec(), T::one_spec()))))) == T::one_spec(),
{
    let v = seq![a0, a1, a2, a3];
    assert(nf(xs(xa(xa(Ex::Z, xm(Ex::V(0), xa(Ex::Z, xm(Ex::V(3), Ex::I)))), xm(Ex::V(1), xn(xa(Ex::Z, xm(Ex::V(2), Ex::I))))), xs(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))))) == Li::E) by(compute_only); poly_eq(xa(xa(Ex::Z, xm(Ex::V(0), xa(Ex::Z, xm(Ex::V(3), Ex::I)))), xm(Ex::V(1), xn(xa(Ex::Z, xm(Ex::V(2), Ex::I))))), xs(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), v);
    assert(nf(xs(xa(xa(Ex::Z, xm(Ex::I, xa(Ex::Z, xm(Ex::I, Ex::I)))), xm(Ex::Z, xn(xa(Ex::Z, xm(Ex::Z, Ex::I))))), Ex::I)) == Li::E) by(compute_only); poly_eq(xa(xa(Ex::Z, xm(Ex::I, xa(Ex::Z, xm(Ex::I, Ex::I)))), xm(Ex::Z, xn(xa(Ex::Z, xm(Ex::Z, Ex::I))))), Ex::I, v);
    reveal_with_fuel(ev, 8);
}
pub proof fn pl_mo_detmul<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T, b0: T, b1: T, b2: T, b3: T) requires is_cring::<T>()
    ensures
        sp_add(sp_add(T::zero_spec(), sp_mul(sp_add(sp_mul(a0, b0), sp_mul(a1, b2)), sp_add(T::zero_spec(), sp_mul(sp_add(sp_mul(a2, b1), sp_mul(a3, b3)), T::one_spec())))), sp_mul(sp_add(sp_mul(a0, b1), sp_mul(a1, b3)), sp_neg(sp_add(T::zero_spec(), sp_mul(sp_add(sp_mul(a2, b0), sp_mul(a3, b2)), T::one_spec()))))) == sp_mul(sp_add(sp_add(T::zero_spec(), sp_mul(a0, sp_add(T::zero_spec(), sp_mul(a3, T::one_spec())))), sp_mul(a1, sp_neg(sp_add(T::zero_spec(), sp_mul(a2, T::one_spec()))))), sp_add(sp_add(T::zero_spec(), sp_mul(b0, sp_add(T::zero_spec(), sp_mul(b3, T::one_spec())))), sp_mul(b1, sp_neg(sp_add(T::zero_spec(), sp_mul(b2, T::one_spec())))))),
{
    let v = seq![a0, a1, a2, a3, b0, b1, b2, b3];
    assert(nf(xs(xa(xa(Ex::Z, xm(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(6))), xa(Ex::Z, xm(xa(xm(Ex::V(2), Ex::V(5)), xm(Ex::V(3), Ex::V(7))), Ex::I)))), xm(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(7))), xn(xa(Ex::Z, xm(xa(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(3), Ex::V(6))), Ex::I))))), xm(xa(xa(Ex::Z, xm(Ex::V(0), xa(Ex::Z, xm(Ex::V(3), Ex::I)))), xm(Ex::V(1), xn(xa(Ex::Z, xm(Ex::V(2), Ex::I))))), xa(xa(Ex::Z, xm(Ex::V(4), xa(Ex::Z, xm(Ex::V(7), Ex::I)))), xm(Ex::V(5), xn(xa(Ex::Z, xm(Ex::V(6), Ex::I)))))))) == Li::E) by(compute_only); poly_eq(xa(xa(Ex::Z, xm(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(6))), xa(Ex::Z, xm(xa(xm(Ex::V(2), Ex::V(5)), xm(Ex::V(3), Ex::V(7))), Ex::I)))), xm(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(7))), xn(xa(Ex::Z, xm(xa(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(3), Ex::V(6))), Ex::I))))), xm(xa(xa(Ex::Z, xm(Ex::V(0), xa(Ex::Z, xm(Ex::V(3), Ex::I)))), xm(Ex::V(1), xn(xa(Ex::Z, xm(Ex::V(2), Ex::I))))), xa(xa(Ex::Z, xm(Ex::V(4), xa(Ex::Z, xm(Ex::V(7), Ex::I)))), xm(Ex::V(5), xn(xa(Ex::Z, xm(Ex::V(6), Ex::I)))))), v);
    reveal_with_fuel(ev, 10);
}
pub proof fn pl_mo_inv<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T, y: T) requires is_cring::<T>()
    ensures
        sp_add(sp_mul(sp_mul(sp_add(T::zero_spec(), sp_mul(a3, T::one_spec())), y), a0), sp_mul(sp_mul(sp_neg(sp_add(T::zero_spec(), sp_mul(a1, T::one_spec()))), y), a2)) == sp_mul(sp_add(sp_add(T::zero_spec(), sp_mul(a0, sp_add(T::zero_spec(), sp_mul(a3, T::one_spec())))), sp_mul(a1, sp_neg(sp_add(T::zero_spec(), sp_mul(a2, T::one_spec()))))), y),
        sp_add(sp_mul(sp_mul(sp_add(T::zero_spec(), sp_mul(a3, T::one_spec())), y), a1), sp_mul(sp_mul(sp_neg(sp_add(T::zero_spec(), sp_mul(a1, T::one_spec()))), y), a3)) == T::zero_spec(),
        sp_add(sp_mul(sp_mul(sp_neg(sp_add(T::zero_spec(), sp_mul(a2, T::one_spec()))), y), a0), sp_mul(sp_mul(sp_add(T::zero_spec(), sp_mul(a0, T::one_spec())), y), a2)) == T::zero_spec(),
        sp_add(sp_mul(sp_mul(sp_neg(sp_add(T::zero_spec(), sp_mul(a2, T::one_spec()))), y), a1), sp_mul(sp_mul(sp_add(T::zero_spec(), sp_mul(a0, T::one_spec())), y), a3)) == sp_mul(sp_add(sp_add(T::zero_spec(), sp_mul(a0, sp_add(T::zero_spec(), sp_mul(a3, T::one_spec())))), sp_mul(a1, sp_neg(sp_add(T::zero_spec(), sp_mul(a2, T::one_spec()))))), y),
        sp_add(sp_mul(a0, sp_mul(sp_add(T::zero_spec(), sp_mul(a3, T::one_spec())), y)), sp_mul(a1, sp_mul(sp_neg(sp_add(T::zero_spec(), sp_mul(a2, T::one_spec()))), y))) == sp_mul(sp_add(sp_add(T::zero_spec(), sp_mul(a0, sp_add(T::zero_spec(), sp_mul(a3, T::one_spec())))), sp_mul(a1, sp_neg(sp_add(T::zero_spec(), sp_mul(a2, T::one_spec()))))), y),
        sp_add(sp_mul(a0, sp_mul(sp_neg(sp_add(T::zero_spec(), sp_mul(a1, T::one_spec()))), y)), sp_mul(a1, sp_mul(sp_add(T::zero_spec(), sp_mul(a0, T::one_spec())), y))) == T::zero_spec(),
        sp_add(sp_mul(a2, sp_mul(sp_add(T::zero_spec(), sp_mul(a3, T::one_spec())), y)), sp_mul(a3, sp_mul(sp_neg(sp_add(T::zero_spec(), sp_mul(a2, T::one_spec()))), y))) == T::zero_spec(),
        sp_add(sp_mul(a2, sp_mul(sp_neg(sp_add(T::zero_spec(), sp_mul(a1, T::one_spec()))), y)), sp_mul(a3, sp_mul(sp_add(T::zero_spec(), sp_mul(a0, T::one_spec())), y))) == sp_mul(sp_add(sp_add(T::zero_spec(), sp_mul(a0, sp_add(T::zero_spec(), sp_mul(a3, T::one_spec())))), sp_mul(a1, sp_neg(sp_add(T::zero_spec(), sp_mul(a2, T::one_spec()))))), y),
{
    let v = seq![a0, a1, a2, a3, y];
    assert(nf(xs(xa(xm(xm(xa(Ex::Z, xm(Ex::V(3), Ex::I)), Ex::V(4)), Ex::V(0)), xm(xm(xn(xa(Ex::Z, xm(Ex::V(1), Ex::I))), Ex::V(4)), Ex::V(2))), xm(xa(xa(Ex::Z, xm(Ex::V(0), xa(Ex::Z, xm(Ex::V(3), Ex::I)))), xm(Ex::V(1), xn(xa(Ex::Z, xm(Ex::V(2), Ex::I))))), Ex::V(4)))) == Li::E) by(compute_only); poly_eq(xa(xm(xm(xa(Ex::Z, xm(Ex::V(3), Ex::I)), Ex::V(4)), Ex::V(0)), xm(xm(xn(xa(Ex::Z, xm(Ex::V(1), Ex::I))), Ex::V(4)), Ex::V(2))), xm(xa(xa(Ex::Z, xm(Ex::V(0), xa(Ex::Z, xm(Ex::V(3), Ex::I)))), xm(Ex::V(1), xn(xa(Ex::Z, xm(Ex::V(2), Ex::I))))), Ex::V(4)), v);
    assert(nf(xs(xa(xm(xm(xa(Ex::Z, xm(Ex::V(3), Ex::I)), Ex::V(4)), Ex::V(1)), xm(xm(xn(xa(Ex::Z, xm(Ex::V(1), Ex::I))), Ex::V(4)), Ex::V(3))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xm(xm(xa(Ex::Z, xm(Ex::V(3), Ex::I)), Ex::V(4)), Ex::V(1)), xm(xm(xn(xa(Ex::Z, xm(Ex::V(1), Ex::I))), Ex::V(4)), Ex::V(3))), Ex::Z, v);
    assert(nf(xs(xa(xm(xm(xn(xa(Ex::Z, xm(Ex::V(2), Ex::I))), Ex::V(4)), Ex::V(0)), xm(xm(xa(Ex::Z, xm(Ex::V(0), Ex::I)), Ex::V(4)), Ex::V(2))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xm(xm(xn(xa(Ex::Z, xm(Ex::V(2), Ex::I))), Ex::V(4)), Ex::V(0)), xm(xm(xa(Ex::Z, xm(Ex::V(0), Ex::I)), Ex::V(4)), Ex::V(2))), Ex::Z, v);
    assert(nf(xs(xa(xm(xm(xn(xa(Ex::Z, xm(Ex::V(2), Ex::I))), Ex::V(4)), Ex::V(1)), xm(xm(xa(Ex::Z, xm(Ex::V(0), Ex::I)), Ex::V(4)), Ex::V(3))), xm(xa(xa(Ex::Z, xm(Ex::V(0), xa(Ex::Z, xm(Ex::V(3), Ex::I)))), xm(Ex::V(1), xn(xa(Ex::Z, xm(Ex::V(2), Ex::I))))), Ex::V(4)))) == Li::E) by(compute_only); poly_eq(xa(xm(xm(xn(xa(Ex::Z, xm(Ex::V(2), Ex::I))), Ex::V(4)), Ex::V(1)), xm(xm(xa(Ex::Z, xm(Ex::V(0), Ex::I)), Ex::V(4)), Ex::V(3))), xm(xa(xa(Ex::Z, xm(Ex::V(0), xa(Ex::Z, xm(Ex::V(3), Ex::I)))), xm(Ex::V(1), xn(xa(Ex::Z, xm(Ex::V(2), Ex::I))))), Ex::V(4)), v);
    assert(nf(xs(xa(xm(Ex::V(0), xm(xa(Ex::Z, xm(Ex::V(3), Ex::I)), Ex::V(4))), xm(Ex::V(1), xm(xn(xa(Ex::Z, xm(Ex::V(2), Ex::I))), Ex::V(4)))), xm(xa(xa(Ex::Z, xm(Ex::V(0), xa(Ex::Z, xm(Ex::V(3), Ex::I)))), xm(Ex::V(1), xn(xa(Ex::Z, xm(Ex::V(2), Ex::I))))), Ex::V(4)))) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(0), xm(xa(Ex::Z, xm(Ex::V(3), Ex::I)), Ex::V(4))), xm(Ex::V(1), xm(xn(xa(Ex::Z, xm(Ex::V(2), Ex::I))), Ex::V(4)))), xm(xa(xa(Ex::Z, xm(Ex::V(0), xa(Ex::Z, xm(Ex::V(3), Ex::I)))), xm(Ex::V(1), xn(xa(Ex::Z, xm(Ex::V(2), Ex::I))))), Ex::V(4)), v);
    assert(nf(xs(xa(xm(Ex::V(0), xm(xn(xa(Ex::Z, xm(Ex::V(1), Ex::I))), Ex::V(4))), xm(Ex::V(1), xm(xa(Ex::Z, xm(Ex::V(0), Ex::I)), Ex::V(4)))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(0), xm(xn(xa(Ex::Z, xm(Ex::V(1), Ex::I))), Ex::V(4))), xm(Ex::V(1), xm(xa(Ex::Z, xm(Ex::V(0), Ex::I)), Ex::V(4)))), Ex::Z, v);
    assert(nf(xs(xa(xm(Ex::V(2), xm(xa(Ex::Z, xm(Ex::V(3), Ex::I)), Ex::V(4))), xm(Ex::V(3), xm(xn(xa(Ex::Z, xm(Ex::V(2), Ex::I))), Ex::V(4)))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(2), xm(xa(Ex::Z, xm(Ex::V(3), Ex::I)), Ex::V(4))), xm(Ex::V(3), xm(xn(xa(Ex::Z, xm(Ex::V(2), Ex::I))), Ex::V(4)))), Ex::Z, v);
    assert(nf(xs(xa(xm(Ex::V(2), xm(xn(xa(Ex::Z, xm(Ex::V(1), Ex::I))), Ex::V(4))), xm(Ex::V(3), xm(xa(Ex::Z, xm(Ex::V(0), Ex::I)), Ex::V(4)))), xm(xa(xa(Ex::Z, xm(Ex::V(0), xa(Ex::Z, xm(Ex::V(3), Ex::I)))), xm(Ex::V(1), xn(xa(Ex::Z, xm(Ex::V(2), Ex::I))))), Ex::V(4)))) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(2), xm(xn(xa(Ex::Z, xm(Ex::V(1), Ex::I))), Ex::V(4))), xm(Ex::V(3), xm(xa(Ex::Z, xm(Ex::V(0), Ex::I)), Ex::V(4)))), xm(xa(xa(Ex::Z, xm(Ex::V(0), xa(Ex::Z, xm(Ex::V(3), Ex::I)))), xm(Ex::V(1), xn(xa(Ex::Z, xm(Ex::V(2), Ex::I))))), Ex::V(4)), v);
    reveal_with_fuel(ev, 9);
}
