### verbatim
// generated by gen_poly.py
pub proof fn pl_c_assoc<T: Neg<Output = T> + Num>(a0: T, a1: T, b0: T, b1: T, c0: T, c1: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_mul(sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)), c0), sp_mul(sp_add(sp_mul(a0, b1), sp_mul(a1, b0)), c1)) == sp_sub(sp_mul(a0, sp_sub(sp_mul(b0, c0), sp_mul(b1, c1))), sp_mul(a1, sp_add(sp_mul(b0, c1), sp_mul(b1, c0)))),
        sp_add(sp_mul(sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)), c1), sp_mul(sp_add(sp_mul(a0, b1), sp_mul(a1, b0)), c0)) == sp_add(sp_mul(a0, sp_add(sp_mul(b0, c1), sp_mul(b1, c0))), sp_mul(a1, sp_sub(sp_mul(b0, c0), sp_mul(b1, c1)))),
{
    let v = seq![a0, a1, b0, b1, c0, c1];
    assert(nf(xs(xs(xm(xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), Ex::V(4)), xm(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), Ex::V(5))), xs(xm(Ex::V(0), xs(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(3), Ex::V(5)))), xm(Ex::V(1), xa(xm(Ex::V(2), Ex::V(5)), xm(Ex::V(3), Ex::V(4))))))) == Li::E) by(compute_only); poly_eq(xs(xm(xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), Ex::V(4)), xm(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), Ex::V(5))), xs(xm(Ex::V(0), xs(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(3), Ex::V(5)))), xm(Ex::V(1), xa(xm(Ex::V(2), Ex::V(5)), xm(Ex::V(3), Ex::V(4))))), v);
    assert(nf(xs(xa(xm(xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), Ex::V(5)), xm(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), Ex::V(4))), xa(xm(Ex::V(0), xa(xm(Ex::V(2), Ex::V(5)), xm(Ex::V(3), Ex::V(4)))), xm(Ex::V(1), xs(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(3), Ex::V(5))))))) == Li::E) by(compute_only); poly_eq(xa(xm(xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), Ex::V(5)), xm(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), Ex::V(4))), xa(xm(Ex::V(0), xa(xm(Ex::V(2), Ex::V(5)), xm(Ex::V(3), Ex::V(4)))), xm(Ex::V(1), xs(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(3), Ex::V(5))))), v);
    reveal_with_fuel(ev, 7);
}
pub proof fn pl_c_comm<T: Neg<Output = T> + Num>(a0: T, a1: T, b0: T, b1: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)) == sp_sub(sp_mul(b0, a0), sp_mul(b1, a1)),
        sp_add(sp_mul(a0, b1), sp_mul(a1, b0)) == sp_add(sp_mul(b0, a1), sp_mul(b1, a0)),
        sp_add(a0, b0) == sp_add(b0, a0),
        sp_add(a1, b1) == sp_add(b1, a1),
{
    let v = seq![a0, a1, b0, b1];
    assert(nf(xs(xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), xs(xm(Ex::V(2), Ex::V(0)), xm(Ex::V(3), Ex::V(1))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), xs(xm(Ex::V(2), Ex::V(0)), xm(Ex::V(3), Ex::V(1))), v);
    assert(nf(xs(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), xa(xm(Ex::V(2), Ex::V(1)), xm(Ex::V(3), Ex::V(0))))) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), xa(xm(Ex::V(2), Ex::V(1)), xm(Ex::V(3), Ex::V(0))), v);
    assert(nf(xs(xa(Ex::V(0), Ex::V(2)), xa(Ex::V(2), Ex::V(0)))) == Li::E) by(compute_only); poly_eq(xa(Ex::V(0), Ex::V(2)), xa(Ex::V(2), Ex::V(0)), v);
    assert(nf(xs(xa(Ex::V(1), Ex::V(3)), xa(Ex::V(3), Ex::V(1)))) == Li::E) by(compute_only); poly_eq(xa(Ex::V(1), Ex::V(3)), xa(Ex::V(3), Ex::V(1)), v);
    reveal_with_fuel(ev, 5);
}
pub proof fn pl_c_distr<T: Neg<Output = T> + Num>(a0: T, a1: T, b0: T, b1: T, c0: T, c1: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_mul(a0, sp_add(b0, c0)), sp_mul(a1, sp_add(b1, c1))) == sp_add(sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)), sp_sub(sp_mul(a0, c0), sp_mul(a1, c1))),
        sp_add(sp_mul(a0, sp_add(b1, c1)), sp_mul(a1, sp_add(b0, c0))) == sp_add(sp_add(sp_mul(a0, b1), sp_mul(a1, b0)), sp_add(sp_mul(a0, c1), sp_mul(a1, c0))),
        sp_sub(sp_mul(sp_add(b0, c0), a0), sp_mul(sp_add(b1, c1), a1)) == sp_add(sp_sub(sp_mul(b0, a0), sp_mul(b1, a1)), sp_sub(sp_mul(c0, a0), sp_mul(c1, a1))),
        sp_add(sp_mul(sp_add(b0, c0), a1), sp_mul(sp_add(b1, c1), a0)) == sp_add(sp_add(sp_mul(b0, a1), sp_mul(b1, a0)), sp_add(sp_mul(c0, a1), sp_mul(c1, a0))),
{
    let v = seq![a0, a1, b0, b1, c0, c1];
    assert(nf(xs(xs(xm(Ex::V(0), xa(Ex::V(2), Ex::V(4))), xm(Ex::V(1), xa(Ex::V(3), Ex::V(5)))), xa(xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5)))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(0), xa(Ex::V(2), Ex::V(4))), xm(Ex::V(1), xa(Ex::V(3), Ex::V(5)))), xa(xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5)))), v);
    assert(nf(xs(xa(xm(Ex::V(0), xa(Ex::V(3), Ex::V(5))), xm(Ex::V(1), xa(Ex::V(2), Ex::V(4)))), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4)))))) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(0), xa(Ex::V(3), Ex::V(5))), xm(Ex::V(1), xa(Ex::V(2), Ex::V(4)))), xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4)))), v);
    assert(nf(xs(xs(xm(xa(Ex::V(2), Ex::V(4)), Ex::V(0)), xm(xa(Ex::V(3), Ex::V(5)), Ex::V(1))), xa(xs(xm(Ex::V(2), Ex::V(0)), xm(Ex::V(3), Ex::V(1))), xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1)))))) == Li::E) by(compute_only); poly_eq(xs(xm(xa(Ex::V(2), Ex::V(4)), Ex::V(0)), xm(xa(Ex::V(3), Ex::V(5)), Ex::V(1))), xa(xs(xm(Ex::V(2), Ex::V(0)), xm(Ex::V(3), Ex::V(1))), xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1)))), v);
    assert(nf(xs(xa(xm(xa(Ex::V(2), Ex::V(4)), Ex::V(1)), xm(xa(Ex::V(3), Ex::V(5)), Ex::V(0))), xa(xa(xm(Ex::V(2), Ex::V(1)), xm(Ex::V(3), Ex::V(0))), xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0)))))) == Li::E) by(compute_only); poly_eq(xa(xm(xa(Ex::V(2), Ex::V(4)), Ex::V(1)), xm(xa(Ex::V(3), Ex::V(5)), Ex::V(0))), xa(xa(xm(Ex::V(2), Ex::V(1)), xm(Ex::V(3), Ex::V(0))), xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0)))), v);
    reveal_with_fuel(ev, 6);
}
pub proof fn pl_c_addassoc<T: Neg<Output = T> + Num>(a0: T, a1: T, b0: T, b1: T, c0: T, c1: T) requires is_cring::<T>()
    ensures
        sp_add(sp_add(a0, b0), c0) == sp_add(a0, sp_add(b0, c0)),
        sp_add(sp_add(a1, b1), c1) == sp_add(a1, sp_add(b1, c1)),
{
    let v = seq![a0, a1, b0, b1, c0, c1];
    assert(nf(xs(xa(xa(Ex::V(0), Ex::V(2)), Ex::V(4)), xa(Ex::V(0), xa(Ex::V(2), Ex::V(4))))) == Li::E) by(compute_only); poly_eq(xa(xa(Ex::V(0), Ex::V(2)), Ex::V(4)), xa(Ex::V(0), xa(Ex::V(2), Ex::V(4))), v);
    assert(nf(xs(xa(xa(Ex::V(1), Ex::V(3)), Ex::V(5)), xa(Ex::V(1), xa(Ex::V(3), Ex::V(5))))) == Li::E) by(compute_only); poly_eq(xa(xa(Ex::V(1), Ex::V(3)), Ex::V(5)), xa(Ex::V(1), xa(Ex::V(3), Ex::V(5))), v);
    reveal_with_fuel(ev, 5);
}
pub proof fn pl_c_unit<T: Neg<Output = T> + Num>(a0: T, a1: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_mul(T::one_spec(), a0), sp_mul(T::zero_spec(), a1)) == a0,
        sp_add(sp_mul(T::one_spec(), a1), sp_mul(T::zero_spec(), a0)) == a1,
        sp_sub(sp_mul(a0, T::one_spec()), sp_mul(a1, T::zero_spec())) == a0,
        sp_add(sp_mul(a0, T::zero_spec()), sp_mul(a1, T::one_spec())) == a1,
        sp_add(a0, T::zero_spec()) == a0,
        sp_add(a1, T::zero_spec()) == a1,
        sp_add(a0, sp_neg(a0)) == T::zero_spec(),
        sp_add(a1, sp_neg(a1)) == T::zero_spec(),
        sp_sub(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(T::one_spec(), T::one_spec())) == sp_neg(T::one_spec()),
        sp_add(sp_mul(T::zero_spec(), T::one_spec()), sp_mul(T::one_spec(), T::zero_spec())) == T::zero_spec(),
{
    let v = seq![a0, a1];
    assert(nf(xs(xs(xm(Ex::I, Ex::V(0)), xm(Ex::Z, Ex::V(1))), Ex::V(0))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::I, Ex::V(0)), xm(Ex::Z, Ex::V(1))), Ex::V(0), v);
    assert(nf(xs(xa(xm(Ex::I, Ex::V(1)), xm(Ex::Z, Ex::V(0))), Ex::V(1))) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::I, Ex::V(1)), xm(Ex::Z, Ex::V(0))), Ex::V(1), v);
    assert(nf(xs(xs(xm(Ex::V(0), Ex::I), xm(Ex::V(1), Ex::Z)), Ex::V(0))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(0), Ex::I), xm(Ex::V(1), Ex::Z)), Ex::V(0), v);
    assert(nf(xs(xa(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::I)), Ex::V(1))) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::I)), Ex::V(1), v);
    assert(nf(xs(xa(Ex::V(0), Ex::Z), Ex::V(0))) == Li::E) by(compute_only); poly_eq(xa(Ex::V(0), Ex::Z), Ex::V(0), v);
    assert(nf(xs(xa(Ex::V(1), Ex::Z), Ex::V(1))) == Li::E) by(compute_only); poly_eq(xa(Ex::V(1), Ex::Z), Ex::V(1), v);
    assert(nf(xs(xa(Ex::V(0), xn(Ex::V(0))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(Ex::V(0), xn(Ex::V(0))), Ex::Z, v);
    assert(nf(xs(xa(Ex::V(1), xn(Ex::V(1))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(Ex::V(1), xn(Ex::V(1))), Ex::Z, v);
    assert(nf(xs(xs(xm(Ex::Z, Ex::Z), xm(Ex::I, Ex::I)), xn(Ex::I))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::Z, Ex::Z), xm(Ex::I, Ex::I)), xn(Ex::I), v);
    assert(nf(xs(xa(xm(Ex::Z, Ex::I), xm(Ex::I, Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::Z, Ex::I), xm(Ex::I, Ex::Z)), Ex::Z, v);
    reveal_with_fuel(ev, 5);
}
pub proof fn pl_c_sub<T: Neg<Output = T> + Num>(a0: T, a1: T, b0: T, b1: T) requires is_cring::<T>()
    ensures
        sp_sub(a0, b0) == sp_add(a0, sp_neg(b0)),
        sp_sub(a1, b1) == sp_add(a1, sp_neg(b1)),
{
    let v = seq![a0, a1, b0, b1];
    assert(nf(xs(xs(Ex::V(0), Ex::V(2)), xa(Ex::V(0), xn(Ex::V(2))))) == Li::E) by(compute_only); poly_eq(xs(Ex::V(0), Ex::V(2)), xa(Ex::V(0), xn(Ex::V(2))), v);
    assert(nf(xs(xs(Ex::V(1), Ex::V(3)), xa(Ex::V(1), xn(Ex::V(3))))) == Li::E) by(compute_only); poly_eq(xs(Ex::V(1), Ex::V(3)), xa(Ex::V(1), xn(Ex::V(3))), v);
    reveal_with_fuel(ev, 5);
}
pub proof fn pl_c_conj<T: Neg<Output = T> + Num>(a0: T, a1: T, b0: T, b1: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)) == sp_sub(sp_mul(a0, b0), sp_mul(sp_neg(a1), sp_neg(b1))),
        sp_neg(sp_add(sp_mul(a0, b1), sp_mul(a1, b0))) == sp_add(sp_mul(a0, sp_neg(b1)), sp_mul(sp_neg(a1), b0)),
        sp_sub(sp_mul(a0, a0), sp_mul(a1, sp_neg(a1))) == sp_add(sp_mul(a0, a0), sp_mul(a1, a1)),
        sp_add(sp_mul(a0, sp_neg(a1)), sp_mul(a1, a0)) == T::zero_spec(),
        a0 == a0,
        sp_neg(sp_neg(a1)) == a1,
{
    let v = seq![a0, a1, b0, b1];
    assert(nf(xs(xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), xs(xm(Ex::V(0), Ex::V(2)), xm(xn(Ex::V(1)), xn(Ex::V(3)))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), xs(xm(Ex::V(0), Ex::V(2)), xm(xn(Ex::V(1)), xn(Ex::V(3)))), v);
    assert(nf(xs(xn(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2)))), xa(xm(Ex::V(0), xn(Ex::V(3))), xm(xn(Ex::V(1)), Ex::V(2))))) == Li::E) by(compute_only); poly_eq(xn(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2)))), xa(xm(Ex::V(0), xn(Ex::V(3))), xm(xn(Ex::V(1)), Ex::V(2))), v);
    assert(nf(xs(xs(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), xn(Ex::V(1)))), xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), xn(Ex::V(1)))), xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), v);
    assert(nf(xs(xa(xm(Ex::V(0), xn(Ex::V(1))), xm(Ex::V(1), Ex::V(0))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(0), xn(Ex::V(1))), xm(Ex::V(1), Ex::V(0))), Ex::Z, v);
    assert(nf(xs(Ex::V(0), Ex::V(0))) == Li::E) by(compute_only); poly_eq(Ex::V(0), Ex::V(0), v);
    assert(nf(xs(xn(xn(Ex::V(1))), Ex::V(1))) == Li::E) by(compute_only); poly_eq(xn(xn(Ex::V(1))), Ex::V(1), v);
    reveal_with_fuel(ev, 6);
}
pub proof fn pl_c_nsq<T: Neg<Output = T> + Num>(a0: T, a1: T, b0: T, b1: T) requires is_cring::<T>()
    ensures
        sp_add(sp_mul(sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)), sp_sub(sp_mul(a0, b0), sp_mul(a1, b1))), sp_mul(sp_add(sp_mul(a0, b1), sp_mul(a1, b0)), sp_add(sp_mul(a0, b1), sp_mul(a1, b0)))) == sp_mul(sp_add(sp_mul(a0, a0), sp_mul(a1, a1)), sp_add(sp_mul(b0, b0), sp_mul(b1, b1))),
{
    let v = seq![a0, a1, b0, b1];
    assert(nf(xs(xa(xm(xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3)))), xm(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))))), xm(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xa(xm(Ex::V(2), Ex::V(2)), xm(Ex::V(3), Ex::V(3)))))) == Li::E) by(compute_only); poly_eq(xa(xm(xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3)))), xm(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))))), xm(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xa(xm(Ex::V(2), Ex::V(2)), xm(Ex::V(3), Ex::V(3)))), v);
    reveal_with_fuel(ev, 7);
}
pub proof fn pl_c_zero<T: Neg<Output = T> + Num>(a0: T, a1: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, T::zero_spec())) == T::zero_spec(),
        sp_add(sp_mul(a0, T::zero_spec()), sp_mul(a1, T::zero_spec())) == T::zero_spec(),
        sp_sub(sp_mul(T::zero_spec(), a0), sp_mul(T::zero_spec(), a1)) == T::zero_spec(),
        sp_add(sp_mul(T::zero_spec(), a1), sp_mul(T::zero_spec(), a0)) == T::zero_spec(),
{
    let v = seq![a0, a1];
    assert(nf(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), Ex::Z, v);
    assert(nf(xs(xa(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), Ex::Z, v);
    assert(nf(xs(xs(xm(Ex::Z, Ex::V(0)), xm(Ex::Z, Ex::V(1))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::Z, Ex::V(0)), xm(Ex::Z, Ex::V(1))), Ex::Z, v);
    assert(nf(xs(xa(xm(Ex::Z, Ex::V(1)), xm(Ex::Z, Ex::V(0))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::Z, Ex::V(1)), xm(Ex::Z, Ex::V(0))), Ex::Z, v);
    reveal_with_fuel(ev, 5);
}
pub proof fn pl_c_mat<T: Neg<Output = T> + Num>(a0: T, a1: T, b0: T, b1: T) requires is_cring::<T>()
    ensures
        sp_add(sp_mul(a0, b0), sp_mul(sp_neg(a1), b1)) == sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)),
        sp_add(sp_mul(a0, sp_neg(b1)), sp_mul(sp_neg(a1), b0)) == sp_neg(sp_add(sp_mul(a0, b1), sp_mul(a1, b0))),
        sp_add(sp_mul(a1, b0), sp_mul(a0, b1)) == sp_add(sp_mul(a0, b1), sp_mul(a1, b0)),
        sp_add(sp_mul(a1, sp_neg(b1)), sp_mul(a0, b0)) == sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)),
{
    let v = seq![a0, a1, b0, b1];
    assert(nf(xs(xa(xm(Ex::V(0), Ex::V(2)), xm(xn(Ex::V(1)), Ex::V(3))), xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))))) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(0), Ex::V(2)), xm(xn(Ex::V(1)), Ex::V(3))), xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), v);
    assert(nf(xs(xa(xm(Ex::V(0), xn(Ex::V(3))), xm(xn(Ex::V(1)), Ex::V(2))), xn(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2)))))) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(0), xn(Ex::V(3))), xm(xn(Ex::V(1)), Ex::V(2))), xn(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2)))), v);
    assert(nf(xs(xa(xm(Ex::V(1), Ex::V(2)), xm(Ex::V(0), Ex::V(3))), xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))))) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(1), Ex::V(2)), xm(Ex::V(0), Ex::V(3))), xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), v);
    assert(nf(xs(xa(xm(Ex::V(1), xn(Ex::V(3))), xm(Ex::V(0), Ex::V(2))), xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))))) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(1), xn(Ex::V(3))), xm(Ex::V(0), Ex::V(2))), xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), v);
    reveal_with_fuel(ev, 6);
}
pub proof fn pl_c_mulinv<T: Neg<Output = T> + Num>(a0: T, a1: T, y: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_mul(a0, sp_mul(a0, y)), sp_mul(a1, sp_mul(sp_neg(a1), y))) == sp_mul(sp_add(sp_mul(a0, a0), sp_mul(a1, a1)), y),
        sp_add(sp_mul(a0, sp_mul(sp_neg(a1), y)), sp_mul(a1, sp_mul(a0, y))) == T::zero_spec(),
        sp_sub(sp_mul(sp_mul(a0, y), a0), sp_mul(sp_mul(sp_neg(a1), y), a1)) == sp_mul(sp_add(sp_mul(a0, a0), sp_mul(a1, a1)), y),
        sp_add(sp_mul(sp_mul(a0, y), a1), sp_mul(sp_mul(sp_neg(a1), y), a0)) == T::zero_spec(),
{
    let v = seq![a0, a1, y];
    assert(nf(xs(xs(xm(Ex::V(0), xm(Ex::V(0), Ex::V(2))), xm(Ex::V(1), xm(xn(Ex::V(1)), Ex::V(2)))), xm(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), Ex::V(2)))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(0), xm(Ex::V(0), Ex::V(2))), xm(Ex::V(1), xm(xn(Ex::V(1)), Ex::V(2)))), xm(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), Ex::V(2)), v);
    assert(nf(xs(xa(xm(Ex::V(0), xm(xn(Ex::V(1)), Ex::V(2))), xm(Ex::V(1), xm(Ex::V(0), Ex::V(2)))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(0), xm(xn(Ex::V(1)), Ex::V(2))), xm(Ex::V(1), xm(Ex::V(0), Ex::V(2)))), Ex::Z, v);
    assert(nf(xs(xs(xm(xm(Ex::V(0), Ex::V(2)), Ex::V(0)), xm(xm(xn(Ex::V(1)), Ex::V(2)), Ex::V(1))), xm(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), Ex::V(2)))) == Li::E) by(compute_only); poly_eq(xs(xm(xm(Ex::V(0), Ex::V(2)), Ex::V(0)), xm(xm(xn(Ex::V(1)), Ex::V(2)), Ex::V(1))), xm(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), Ex::V(2)), v);
    assert(nf(xs(xa(xm(xm(Ex::V(0), Ex::V(2)), Ex::V(1)), xm(xm(xn(Ex::V(1)), Ex::V(2)), Ex::V(0))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xm(xm(Ex::V(0), Ex::V(2)), Ex::V(1)), xm(xm(xn(Ex::V(1)), Ex::V(2)), Ex::V(0))), Ex::Z, v);
    reveal_with_fuel(ev, 7);
}
