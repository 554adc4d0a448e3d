### verbatim
// generated by gen_poly.py
pub proof fn pl_cross_anti<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, b0: T, b1: T, b2: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_mul(a1, b2), sp_mul(a2, b1)) == sp_neg(sp_sub(sp_mul(b1, a2), sp_mul(b2, a1))),
        sp_sub(sp_mul(a2, b0), sp_mul(a0, b2)) == sp_neg(sp_sub(sp_mul(b2, a0), sp_mul(b0, a2))),
        sp_sub(sp_mul(a0, b1), sp_mul(a1, b0)) == sp_neg(sp_sub(sp_mul(b0, a1), sp_mul(b1, a0))),
{
    let v = seq![a0, a1, a2, b0, b1, b2];
    assert(nf(xs(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), xn(xs(xm(Ex::V(4), Ex::V(2)), xm(Ex::V(5), Ex::V(1)))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), xn(xs(xm(Ex::V(4), Ex::V(2)), xm(Ex::V(5), Ex::V(1)))), v);
    assert(nf(xs(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), xn(xs(xm(Ex::V(5), Ex::V(0)), xm(Ex::V(3), Ex::V(2)))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), xn(xs(xm(Ex::V(5), Ex::V(0)), xm(Ex::V(3), Ex::V(2)))), v);
    assert(nf(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), xn(xs(xm(Ex::V(3), Ex::V(1)), xm(Ex::V(4), Ex::V(0)))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), xn(xs(xm(Ex::V(3), Ex::V(1)), xm(Ex::V(4), Ex::V(0)))), v);
    reveal_with_fuel(ev, 6);
}
pub proof fn pl_cross_orth<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, b0: T, b1: T, b2: T) requires is_cring::<T>()
    ensures
        sp_add(sp_add(sp_mul(a0, sp_sub(sp_mul(a1, b2), sp_mul(a2, b1))), sp_mul(a1, sp_sub(sp_mul(a2, b0), sp_mul(a0, b2)))), sp_mul(a2, sp_sub(sp_mul(a0, b1), sp_mul(a1, b0)))) == T::zero_spec(),
        sp_add(sp_add(sp_mul(b0, sp_sub(sp_mul(a1, b2), sp_mul(a2, b1))), sp_mul(b1, sp_sub(sp_mul(a2, b0), sp_mul(a0, b2)))), sp_mul(b2, sp_sub(sp_mul(a0, b1), sp_mul(a1, b0)))) == T::zero_spec(),
{
    let v = seq![a0, a1, a2, b0, b1, b2];
    assert(nf(xs(xa(xa(xm(Ex::V(0), xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4)))), xm(Ex::V(1), xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))))), xm(Ex::V(2), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xa(xm(Ex::V(0), xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4)))), xm(Ex::V(1), xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))))), xm(Ex::V(2), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))))), Ex::Z, v);
    assert(nf(xs(xa(xa(xm(Ex::V(3), xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4)))), xm(Ex::V(4), xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))))), xm(Ex::V(5), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xa(xm(Ex::V(3), xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4)))), xm(Ex::V(4), xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))))), xm(Ex::V(5), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))))), Ex::Z, v);
    reveal_with_fuel(ev, 8);
}
pub proof fn pl_lagrange<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, b0: T, b1: T, b2: T) requires is_cring::<T>()
    ensures
        sp_add(sp_add(sp_mul(sp_sub(sp_mul(a1, b2), sp_mul(a2, b1)), sp_sub(sp_mul(a1, b2), sp_mul(a2, b1))), sp_mul(sp_sub(sp_mul(a2, b0), sp_mul(a0, b2)), sp_sub(sp_mul(a2, b0), sp_mul(a0, b2)))), sp_mul(sp_sub(sp_mul(a0, b1), sp_mul(a1, b0)), sp_sub(sp_mul(a0, b1), sp_mul(a1, b0)))) == sp_sub(sp_mul(sp_add(sp_add(sp_mul(a0, a0), sp_mul(a1, a1)), sp_mul(a2, a2)), sp_add(sp_add(sp_mul(b0, b0), sp_mul(b1, b1)), sp_mul(b2, b2))), sp_mul(sp_add(sp_add(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, b2)), sp_add(sp_add(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, b2)))),
{
    let v = seq![a0, a1, a2, b0, b1, b2];
    assert(nf(xs(xa(xa(xm(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4)))), xm(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))))), xm(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))))), xs(xm(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xa(xa(xm(Ex::V(3), Ex::V(3)), xm(Ex::V(4), Ex::V(4))), xm(Ex::V(5), Ex::V(5)))), xm(xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))))))) == Li::E) by(compute_only); poly_eq(xa(xa(xm(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4)))), xm(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))))), xm(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))))), xs(xm(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xa(xa(xm(Ex::V(3), Ex::V(3)), xm(Ex::V(4), Ex::V(4))), xm(Ex::V(5), Ex::V(5)))), xm(xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(5))))), v);
    reveal_with_fuel(ev, 8);
}
pub proof fn pl_cross2<T: Neg<Output = T> + Num>(a0: T, a1: T, b0: T, b1: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_mul(a0, b1), sp_mul(a1, b0)) == sp_neg(sp_sub(sp_mul(b0, a1), sp_mul(b1, a0))),
{
    let v = seq![a0, a1, b0, b1];
    assert(nf(xs(xs(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), xn(xs(xm(Ex::V(2), Ex::V(1)), xm(Ex::V(3), Ex::V(0)))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), xn(xs(xm(Ex::V(2), Ex::V(1)), xm(Ex::V(3), Ex::V(0)))), v);
    reveal_with_fuel(ev, 6);
}
pub proof fn pl_cross4<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T, b0: T, b1: T, b2: T, b3: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_mul(a1, b2), sp_mul(a2, b1)) == sp_neg(sp_sub(sp_mul(b1, a2), sp_mul(b2, a1))),
        sp_sub(sp_mul(a2, b0), sp_mul(a0, b2)) == sp_neg(sp_sub(sp_mul(b2, a0), sp_mul(b0, a2))),
        sp_sub(sp_mul(a0, b1), sp_mul(a1, b0)) == sp_neg(sp_sub(sp_mul(b0, a1), sp_mul(b1, a0))),
        T::zero_spec() == sp_neg(T::zero_spec()),
        sp_add(sp_add(sp_add(sp_mul(a0, sp_sub(sp_mul(a1, b2), sp_mul(a2, b1))), sp_mul(a1, sp_sub(sp_mul(a2, b0), sp_mul(a0, b2)))), sp_mul(a2, sp_sub(sp_mul(a0, b1), sp_mul(a1, b0)))), sp_mul(a3, T::zero_spec())) == T::zero_spec(),
        sp_add(sp_add(sp_add(sp_mul(b0, sp_sub(sp_mul(a1, b2), sp_mul(a2, b1))), sp_mul(b1, sp_sub(sp_mul(a2, b0), sp_mul(a0, b2)))), sp_mul(b2, sp_sub(sp_mul(a0, b1), sp_mul(a1, b0)))), sp_mul(b3, T::zero_spec())) == T::zero_spec(),
{
    let v = seq![a0, a1, a2, a3, b0, b1, b2, b3];
    assert(nf(xs(xs(xm(Ex::V(1), Ex::V(6)), xm(Ex::V(2), Ex::V(5))), xn(xs(xm(Ex::V(5), Ex::V(2)), xm(Ex::V(6), Ex::V(1)))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(1), Ex::V(6)), xm(Ex::V(2), Ex::V(5))), xn(xs(xm(Ex::V(5), Ex::V(2)), xm(Ex::V(6), Ex::V(1)))), v);
    assert(nf(xs(xs(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(0), Ex::V(6))), xn(xs(xm(Ex::V(6), Ex::V(0)), xm(Ex::V(4), Ex::V(2)))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(0), Ex::V(6))), xn(xs(xm(Ex::V(6), Ex::V(0)), xm(Ex::V(4), Ex::V(2)))), v);
    assert(nf(xs(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xn(xs(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0)))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xn(xs(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0)))), v);
    assert(nf(xs(Ex::Z, xn(Ex::Z))) == Li::E) by(compute_only); poly_eq(Ex::Z, xn(Ex::Z), v);
    assert(nf(xs(xa(xa(xa(xm(Ex::V(0), xs(xm(Ex::V(1), Ex::V(6)), xm(Ex::V(2), Ex::V(5)))), xm(Ex::V(1), xs(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(0), Ex::V(6))))), xm(Ex::V(2), xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))))), xm(Ex::V(3), Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xa(xa(xm(Ex::V(0), xs(xm(Ex::V(1), Ex::V(6)), xm(Ex::V(2), Ex::V(5)))), xm(Ex::V(1), xs(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(0), Ex::V(6))))), xm(Ex::V(2), xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))))), xm(Ex::V(3), Ex::Z)), Ex::Z, v);
    assert(nf(xs(xa(xa(xa(xm(Ex::V(4), xs(xm(Ex::V(1), Ex::V(6)), xm(Ex::V(2), Ex::V(5)))), xm(Ex::V(5), xs(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(0), Ex::V(6))))), xm(Ex::V(6), xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))))), xm(Ex::V(7), Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xa(xa(xm(Ex::V(4), xs(xm(Ex::V(1), Ex::V(6)), xm(Ex::V(2), Ex::V(5)))), xm(Ex::V(5), xs(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(0), Ex::V(6))))), xm(Ex::V(6), xs(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))))), xm(Ex::V(7), Ex::Z)), Ex::Z, v);
    reveal_with_fuel(ev, 9);
}
pub proof fn pl_cross_bilin<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, b0: T, b1: T, b2: T, c0: T, c1: T, c2: T, t: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_mul(a1, sp_add(b2, c2)), sp_mul(a2, sp_add(b1, c1))) == sp_add(sp_sub(sp_mul(a1, b2), sp_mul(a2, b1)), sp_sub(sp_mul(a1, c2), sp_mul(a2, c1))),
        sp_sub(sp_mul(a2, sp_add(b0, c0)), sp_mul(a0, sp_add(b2, c2))) == sp_add(sp_sub(sp_mul(a2, b0), sp_mul(a0, b2)), sp_sub(sp_mul(a2, c0), sp_mul(a0, c2))),
        sp_sub(sp_mul(a0, sp_add(b1, c1)), sp_mul(a1, sp_add(b0, c0))) == sp_add(sp_sub(sp_mul(a0, b1), sp_mul(a1, b0)), sp_sub(sp_mul(a0, c1), sp_mul(a1, c0))),
        sp_sub(sp_mul(a1, sp_mul(b2, t)), sp_mul(a2, sp_mul(b1, t))) == sp_mul(sp_sub(sp_mul(a1, b2), sp_mul(a2, b1)), t),
        sp_sub(sp_mul(a2, sp_mul(b0, t)), sp_mul(a0, sp_mul(b2, t))) == sp_mul(sp_sub(sp_mul(a2, b0), sp_mul(a0, b2)), t),
        sp_sub(sp_mul(a0, sp_mul(b1, t)), sp_mul(a1, sp_mul(b0, t))) == sp_mul(sp_sub(sp_mul(a0, b1), sp_mul(a1, b0)), t),
{
    let v = seq![a0, a1, a2, b0, b1, b2, c0, c1, c2, t];
    assert(nf(xs(xs(xm(Ex::V(1), xa(Ex::V(5), Ex::V(8))), xm(Ex::V(2), xa(Ex::V(4), Ex::V(7)))), xa(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), xs(xm(Ex::V(1), Ex::V(8)), xm(Ex::V(2), Ex::V(7)))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(1), xa(Ex::V(5), Ex::V(8))), xm(Ex::V(2), xa(Ex::V(4), Ex::V(7)))), xa(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), xs(xm(Ex::V(1), Ex::V(8)), xm(Ex::V(2), Ex::V(7)))), v);
    assert(nf(xs(xs(xm(Ex::V(2), xa(Ex::V(3), Ex::V(6))), xm(Ex::V(0), xa(Ex::V(5), Ex::V(8)))), xa(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), xs(xm(Ex::V(2), Ex::V(6)), xm(Ex::V(0), Ex::V(8)))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(2), xa(Ex::V(3), Ex::V(6))), xm(Ex::V(0), xa(Ex::V(5), Ex::V(8)))), xa(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), xs(xm(Ex::V(2), Ex::V(6)), xm(Ex::V(0), Ex::V(8)))), v);
    assert(nf(xs(xs(xm(Ex::V(0), xa(Ex::V(4), Ex::V(7))), xm(Ex::V(1), xa(Ex::V(3), Ex::V(6)))), xa(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), xs(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6)))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(0), xa(Ex::V(4), Ex::V(7))), xm(Ex::V(1), xa(Ex::V(3), Ex::V(6)))), xa(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), xs(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6)))), v);
    assert(nf(xs(xs(xm(Ex::V(1), xm(Ex::V(5), Ex::V(9))), xm(Ex::V(2), xm(Ex::V(4), Ex::V(9)))), xm(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), Ex::V(9)))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(1), xm(Ex::V(5), Ex::V(9))), xm(Ex::V(2), xm(Ex::V(4), Ex::V(9)))), xm(xs(xm(Ex::V(1), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), Ex::V(9)), v);
    assert(nf(xs(xs(xm(Ex::V(2), xm(Ex::V(3), Ex::V(9))), xm(Ex::V(0), xm(Ex::V(5), Ex::V(9)))), xm(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), Ex::V(9)))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(2), xm(Ex::V(3), Ex::V(9))), xm(Ex::V(0), xm(Ex::V(5), Ex::V(9)))), xm(xs(xm(Ex::V(2), Ex::V(3)), xm(Ex::V(0), Ex::V(5))), Ex::V(9)), v);
    assert(nf(xs(xs(xm(Ex::V(0), xm(Ex::V(4), Ex::V(9))), xm(Ex::V(1), xm(Ex::V(3), Ex::V(9)))), xm(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), Ex::V(9)))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(0), xm(Ex::V(4), Ex::V(9))), xm(Ex::V(1), xm(Ex::V(3), Ex::V(9)))), xm(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(3))), Ex::V(9)), v);
    reveal_with_fuel(ev, 6);
}
