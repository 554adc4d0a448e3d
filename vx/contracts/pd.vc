### verbatim
// generated by gen_poly.py
pub proof fn pl_q_sublin<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T, b0: T, b1: T, b2: T, b3: T, c0: T, c1: T, c2: T, c3: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_sub(sp_sub(sp_mul(sp_sub(a0, b0), c0), sp_mul(sp_sub(a1, b1), c1)), sp_mul(sp_sub(a2, b2), c2)), sp_mul(sp_sub(a3, b3), c3)) == sp_sub(sp_sub(sp_sub(sp_sub(sp_mul(a0, c0), sp_mul(a1, c1)), sp_mul(a2, c2)), sp_mul(a3, c3)), sp_sub(sp_sub(sp_sub(sp_mul(b0, c0), sp_mul(b1, c1)), sp_mul(b2, c2)), sp_mul(b3, c3))),
        sp_sub(sp_add(sp_add(sp_mul(sp_sub(a0, b0), c1), sp_mul(sp_sub(a1, b1), c0)), sp_mul(sp_sub(a2, b2), c3)), sp_mul(sp_sub(a3, b3), c2)) == sp_sub(sp_sub(sp_add(sp_add(sp_mul(a0, c1), sp_mul(a1, c0)), sp_mul(a2, c3)), sp_mul(a3, c2)), sp_sub(sp_add(sp_add(sp_mul(b0, c1), sp_mul(b1, c0)), sp_mul(b2, c3)), sp_mul(b3, c2))),
        sp_add(sp_add(sp_sub(sp_mul(sp_sub(a0, b0), c2), sp_mul(sp_sub(a1, b1), c3)), sp_mul(sp_sub(a2, b2), c0)), sp_mul(sp_sub(a3, b3), c1)) == sp_sub(sp_add(sp_add(sp_sub(sp_mul(a0, c2), sp_mul(a1, c3)), sp_mul(a2, c0)), sp_mul(a3, c1)), sp_add(sp_add(sp_sub(sp_mul(b0, c2), sp_mul(b1, c3)), sp_mul(b2, c0)), sp_mul(b3, c1))),
        sp_add(sp_sub(sp_add(sp_mul(sp_sub(a0, b0), c3), sp_mul(sp_sub(a1, b1), c2)), sp_mul(sp_sub(a2, b2), c1)), sp_mul(sp_sub(a3, b3), c0)) == sp_sub(sp_add(sp_sub(sp_add(sp_mul(a0, c3), sp_mul(a1, c2)), sp_mul(a2, c1)), sp_mul(a3, c0)), sp_add(sp_sub(sp_add(sp_mul(b0, c3), sp_mul(b1, c2)), sp_mul(b2, c1)), sp_mul(b3, c0))),
        sp_sub(sp_sub(sp_sub(sp_mul(c0, sp_sub(a0, b0)), sp_mul(c1, sp_sub(a1, b1))), sp_mul(c2, sp_sub(a2, b2))), sp_mul(c3, sp_sub(a3, b3))) == sp_sub(sp_sub(sp_sub(sp_sub(sp_mul(c0, a0), sp_mul(c1, a1)), sp_mul(c2, a2)), sp_mul(c3, a3)), sp_sub(sp_sub(sp_sub(sp_mul(c0, b0), sp_mul(c1, b1)), sp_mul(c2, b2)), sp_mul(c3, b3))),
        sp_sub(sp_add(sp_add(sp_mul(c0, sp_sub(a1, b1)), sp_mul(c1, sp_sub(a0, b0))), sp_mul(c2, sp_sub(a3, b3))), sp_mul(c3, sp_sub(a2, b2))) == sp_sub(sp_sub(sp_add(sp_add(sp_mul(c0, a1), sp_mul(c1, a0)), sp_mul(c2, a3)), sp_mul(c3, a2)), sp_sub(sp_add(sp_add(sp_mul(c0, b1), sp_mul(c1, b0)), sp_mul(c2, b3)), sp_mul(c3, b2))),
        sp_add(sp_add(sp_sub(sp_mul(c0, sp_sub(a2, b2)), sp_mul(c1, sp_sub(a3, b3))), sp_mul(c2, sp_sub(a0, b0))), sp_mul(c3, sp_sub(a1, b1))) == sp_sub(sp_add(sp_add(sp_sub(sp_mul(c0, a2), sp_mul(c1, a3)), sp_mul(c2, a0)), sp_mul(c3, a1)), sp_add(sp_add(sp_sub(sp_mul(c0, b2), sp_mul(c1, b3)), sp_mul(c2, b0)), sp_mul(c3, b1))),
        sp_add(sp_sub(sp_add(sp_mul(c0, sp_sub(a3, b3)), sp_mul(c1, sp_sub(a2, b2))), sp_mul(c2, sp_sub(a1, b1))), sp_mul(c3, sp_sub(a0, b0))) == sp_sub(sp_add(sp_sub(sp_add(sp_mul(c0, a3), sp_mul(c1, a2)), sp_mul(c2, a1)), sp_mul(c3, a0)), sp_add(sp_sub(sp_add(sp_mul(c0, b3), sp_mul(c1, b2)), sp_mul(c2, b1)), sp_mul(c3, b0))),
        sp_sub(sp_add(c0, a0), sp_add(c0, b0)) == sp_sub(a0, b0),
        sp_sub(sp_add(c1, a1), sp_add(c1, b1)) == sp_sub(a1, b1),
        sp_sub(sp_add(c2, a2), sp_add(c2, b2)) == sp_sub(a2, b2),
        sp_sub(sp_add(c3, a3), sp_add(c3, b3)) == sp_sub(a3, b3),
        sp_add(a0, sp_neg(b0)) == sp_sub(a0, b0),
        sp_add(a1, sp_neg(b1)) == sp_sub(a1, b1),
        sp_add(a2, sp_neg(b2)) == sp_sub(a2, b2),
        sp_add(a3, sp_neg(b3)) == sp_sub(a3, b3),
{
    let v = seq![a0, a1, a2, a3, b0, b1, b2, b3, c0, c1, c2, c3];
    assert(nf(xs(xs(xs(xs(xm(xs(Ex::V(0), Ex::V(4)), Ex::V(8)), xm(xs(Ex::V(1), Ex::V(5)), Ex::V(9))), xm(xs(Ex::V(2), Ex::V(6)), Ex::V(10))), xm(xs(Ex::V(3), Ex::V(7)), Ex::V(11))), xs(xs(xs(xs(xm(Ex::V(0), Ex::V(8)), xm(Ex::V(1), Ex::V(9))), xm(Ex::V(2), Ex::V(10))), xm(Ex::V(3), Ex::V(11))), xs(xs(xs(xm(Ex::V(4), Ex::V(8)), xm(Ex::V(5), Ex::V(9))), xm(Ex::V(6), Ex::V(10))), xm(Ex::V(7), Ex::V(11)))))) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(xs(Ex::V(0), Ex::V(4)), Ex::V(8)), xm(xs(Ex::V(1), Ex::V(5)), Ex::V(9))), xm(xs(Ex::V(2), Ex::V(6)), Ex::V(10))), xm(xs(Ex::V(3), Ex::V(7)), Ex::V(11))), xs(xs(xs(xs(xm(Ex::V(0), Ex::V(8)), xm(Ex::V(1), Ex::V(9))), xm(Ex::V(2), Ex::V(10))), xm(Ex::V(3), Ex::V(11))), xs(xs(xs(xm(Ex::V(4), Ex::V(8)), xm(Ex::V(5), Ex::V(9))), xm(Ex::V(6), Ex::V(10))), xm(Ex::V(7), Ex::V(11)))), v);
    assert(nf(xs(xs(xa(xa(xm(xs(Ex::V(0), Ex::V(4)), Ex::V(9)), xm(xs(Ex::V(1), Ex::V(5)), Ex::V(8))), xm(xs(Ex::V(2), Ex::V(6)), Ex::V(11))), xm(xs(Ex::V(3), Ex::V(7)), Ex::V(10))), xs(xs(xa(xa(xm(Ex::V(0), Ex::V(9)), xm(Ex::V(1), Ex::V(8))), xm(Ex::V(2), Ex::V(11))), xm(Ex::V(3), Ex::V(10))), xs(xa(xa(xm(Ex::V(4), Ex::V(9)), xm(Ex::V(5), Ex::V(8))), xm(Ex::V(6), Ex::V(11))), xm(Ex::V(7), Ex::V(10)))))) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(xs(Ex::V(0), Ex::V(4)), Ex::V(9)), xm(xs(Ex::V(1), Ex::V(5)), Ex::V(8))), xm(xs(Ex::V(2), Ex::V(6)), Ex::V(11))), xm(xs(Ex::V(3), Ex::V(7)), Ex::V(10))), xs(xs(xa(xa(xm(Ex::V(0), Ex::V(9)), xm(Ex::V(1), Ex::V(8))), xm(Ex::V(2), Ex::V(11))), xm(Ex::V(3), Ex::V(10))), xs(xa(xa(xm(Ex::V(4), Ex::V(9)), xm(Ex::V(5), Ex::V(8))), xm(Ex::V(6), Ex::V(11))), xm(Ex::V(7), Ex::V(10)))), v);
    assert(nf(xs(xa(xa(xs(xm(xs(Ex::V(0), Ex::V(4)), Ex::V(10)), xm(xs(Ex::V(1), Ex::V(5)), Ex::V(11))), xm(xs(Ex::V(2), Ex::V(6)), Ex::V(8))), xm(xs(Ex::V(3), Ex::V(7)), Ex::V(9))), xs(xa(xa(xs(xm(Ex::V(0), Ex::V(10)), xm(Ex::V(1), Ex::V(11))), xm(Ex::V(2), Ex::V(8))), xm(Ex::V(3), Ex::V(9))), xa(xa(xs(xm(Ex::V(4), Ex::V(10)), xm(Ex::V(5), Ex::V(11))), xm(Ex::V(6), Ex::V(8))), xm(Ex::V(7), Ex::V(9)))))) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(xs(Ex::V(0), Ex::V(4)), Ex::V(10)), xm(xs(Ex::V(1), Ex::V(5)), Ex::V(11))), xm(xs(Ex::V(2), Ex::V(6)), Ex::V(8))), xm(xs(Ex::V(3), Ex::V(7)), Ex::V(9))), xs(xa(xa(xs(xm(Ex::V(0), Ex::V(10)), xm(Ex::V(1), Ex::V(11))), xm(Ex::V(2), Ex::V(8))), xm(Ex::V(3), Ex::V(9))), xa(xa(xs(xm(Ex::V(4), Ex::V(10)), xm(Ex::V(5), Ex::V(11))), xm(Ex::V(6), Ex::V(8))), xm(Ex::V(7), Ex::V(9)))), v);
    assert(nf(xs(xa(xs(xa(xm(xs(Ex::V(0), Ex::V(4)), Ex::V(11)), xm(xs(Ex::V(1), Ex::V(5)), Ex::V(10))), xm(xs(Ex::V(2), Ex::V(6)), Ex::V(9))), xm(xs(Ex::V(3), Ex::V(7)), Ex::V(8))), xs(xa(xs(xa(xm(Ex::V(0), Ex::V(11)), xm(Ex::V(1), Ex::V(10))), xm(Ex::V(2), Ex::V(9))), xm(Ex::V(3), Ex::V(8))), xa(xs(xa(xm(Ex::V(4), Ex::V(11)), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(6), Ex::V(9))), xm(Ex::V(7), Ex::V(8)))))) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(xs(Ex::V(0), Ex::V(4)), Ex::V(11)), xm(xs(Ex::V(1), Ex::V(5)), Ex::V(10))), xm(xs(Ex::V(2), Ex::V(6)), Ex::V(9))), xm(xs(Ex::V(3), Ex::V(7)), Ex::V(8))), xs(xa(xs(xa(xm(Ex::V(0), Ex::V(11)), xm(Ex::V(1), Ex::V(10))), xm(Ex::V(2), Ex::V(9))), xm(Ex::V(3), Ex::V(8))), xa(xs(xa(xm(Ex::V(4), Ex::V(11)), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(6), Ex::V(9))), xm(Ex::V(7), Ex::V(8)))), v);
    assert(nf(xs(xs(xs(xs(xm(Ex::V(8), xs(Ex::V(0), Ex::V(4))), xm(Ex::V(9), xs(Ex::V(1), Ex::V(5)))), xm(Ex::V(10), xs(Ex::V(2), Ex::V(6)))), xm(Ex::V(11), xs(Ex::V(3), Ex::V(7)))), xs(xs(xs(xs(xm(Ex::V(8), Ex::V(0)), xm(Ex::V(9), Ex::V(1))), xm(Ex::V(10), Ex::V(2))), xm(Ex::V(11), Ex::V(3))), xs(xs(xs(xm(Ex::V(8), Ex::V(4)), xm(Ex::V(9), Ex::V(5))), xm(Ex::V(10), Ex::V(6))), xm(Ex::V(11), Ex::V(7)))))) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(Ex::V(8), xs(Ex::V(0), Ex::V(4))), xm(Ex::V(9), xs(Ex::V(1), Ex::V(5)))), xm(Ex::V(10), xs(Ex::V(2), Ex::V(6)))), xm(Ex::V(11), xs(Ex::V(3), Ex::V(7)))), xs(xs(xs(xs(xm(Ex::V(8), Ex::V(0)), xm(Ex::V(9), Ex::V(1))), xm(Ex::V(10), Ex::V(2))), xm(Ex::V(11), Ex::V(3))), xs(xs(xs(xm(Ex::V(8), Ex::V(4)), xm(Ex::V(9), Ex::V(5))), xm(Ex::V(10), Ex::V(6))), xm(Ex::V(11), Ex::V(7)))), v);
    assert(nf(xs(xs(xa(xa(xm(Ex::V(8), xs(Ex::V(1), Ex::V(5))), xm(Ex::V(9), xs(Ex::V(0), Ex::V(4)))), xm(Ex::V(10), xs(Ex::V(3), Ex::V(7)))), xm(Ex::V(11), xs(Ex::V(2), Ex::V(6)))), xs(xs(xa(xa(xm(Ex::V(8), Ex::V(1)), xm(Ex::V(9), Ex::V(0))), xm(Ex::V(10), Ex::V(3))), xm(Ex::V(11), Ex::V(2))), xs(xa(xa(xm(Ex::V(8), Ex::V(5)), xm(Ex::V(9), Ex::V(4))), xm(Ex::V(10), Ex::V(7))), xm(Ex::V(11), Ex::V(6)))))) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(Ex::V(8), xs(Ex::V(1), Ex::V(5))), xm(Ex::V(9), xs(Ex::V(0), Ex::V(4)))), xm(Ex::V(10), xs(Ex::V(3), Ex::V(7)))), xm(Ex::V(11), xs(Ex::V(2), Ex::V(6)))), xs(xs(xa(xa(xm(Ex::V(8), Ex::V(1)), xm(Ex::V(9), Ex::V(0))), xm(Ex::V(10), Ex::V(3))), xm(Ex::V(11), Ex::V(2))), xs(xa(xa(xm(Ex::V(8), Ex::V(5)), xm(Ex::V(9), Ex::V(4))), xm(Ex::V(10), Ex::V(7))), xm(Ex::V(11), Ex::V(6)))), v);
    assert(nf(xs(xa(xa(xs(xm(Ex::V(8), xs(Ex::V(2), Ex::V(6))), xm(Ex::V(9), xs(Ex::V(3), Ex::V(7)))), xm(Ex::V(10), xs(Ex::V(0), Ex::V(4)))), xm(Ex::V(11), xs(Ex::V(1), Ex::V(5)))), xs(xa(xa(xs(xm(Ex::V(8), Ex::V(2)), xm(Ex::V(9), Ex::V(3))), xm(Ex::V(10), Ex::V(0))), xm(Ex::V(11), Ex::V(1))), xa(xa(xs(xm(Ex::V(8), Ex::V(6)), xm(Ex::V(9), Ex::V(7))), xm(Ex::V(10), Ex::V(4))), xm(Ex::V(11), Ex::V(5)))))) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(Ex::V(8), xs(Ex::V(2), Ex::V(6))), xm(Ex::V(9), xs(Ex::V(3), Ex::V(7)))), xm(Ex::V(10), xs(Ex::V(0), Ex::V(4)))), xm(Ex::V(11), xs(Ex::V(1), Ex::V(5)))), xs(xa(xa(xs(xm(Ex::V(8), Ex::V(2)), xm(Ex::V(9), Ex::V(3))), xm(Ex::V(10), Ex::V(0))), xm(Ex::V(11), Ex::V(1))), xa(xa(xs(xm(Ex::V(8), Ex::V(6)), xm(Ex::V(9), Ex::V(7))), xm(Ex::V(10), Ex::V(4))), xm(Ex::V(11), Ex::V(5)))), v);
    assert(nf(xs(xa(xs(xa(xm(Ex::V(8), xs(Ex::V(3), Ex::V(7))), xm(Ex::V(9), xs(Ex::V(2), Ex::V(6)))), xm(Ex::V(10), xs(Ex::V(1), Ex::V(5)))), xm(Ex::V(11), xs(Ex::V(0), Ex::V(4)))), xs(xa(xs(xa(xm(Ex::V(8), Ex::V(3)), xm(Ex::V(9), Ex::V(2))), xm(Ex::V(10), Ex::V(1))), xm(Ex::V(11), Ex::V(0))), xa(xs(xa(xm(Ex::V(8), Ex::V(7)), xm(Ex::V(9), Ex::V(6))), xm(Ex::V(10), Ex::V(5))), xm(Ex::V(11), Ex::V(4)))))) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(Ex::V(8), xs(Ex::V(3), Ex::V(7))), xm(Ex::V(9), xs(Ex::V(2), Ex::V(6)))), xm(Ex::V(10), xs(Ex::V(1), Ex::V(5)))), xm(Ex::V(11), xs(Ex::V(0), Ex::V(4)))), xs(xa(xs(xa(xm(Ex::V(8), Ex::V(3)), xm(Ex::V(9), Ex::V(2))), xm(Ex::V(10), Ex::V(1))), xm(Ex::V(11), Ex::V(0))), xa(xs(xa(xm(Ex::V(8), Ex::V(7)), xm(Ex::V(9), Ex::V(6))), xm(Ex::V(10), Ex::V(5))), xm(Ex::V(11), Ex::V(4)))), v);
    assert(nf(xs(xs(xa(Ex::V(8), Ex::V(0)), xa(Ex::V(8), Ex::V(4))), xs(Ex::V(0), Ex::V(4)))) == Li::E) by(compute_only); poly_eq(xs(xa(Ex::V(8), Ex::V(0)), xa(Ex::V(8), Ex::V(4))), xs(Ex::V(0), Ex::V(4)), v);
    assert(nf(xs(xs(xa(Ex::V(9), Ex::V(1)), xa(Ex::V(9), Ex::V(5))), xs(Ex::V(1), Ex::V(5)))) == Li::E) by(compute_only); poly_eq(xs(xa(Ex::V(9), Ex::V(1)), xa(Ex::V(9), Ex::V(5))), xs(Ex::V(1), Ex::V(5)), v);
    assert(nf(xs(xs(xa(Ex::V(10), Ex::V(2)), xa(Ex::V(10), Ex::V(6))), xs(Ex::V(2), Ex::V(6)))) == Li::E) by(compute_only); poly_eq(xs(xa(Ex::V(10), Ex::V(2)), xa(Ex::V(10), Ex::V(6))), xs(Ex::V(2), Ex::V(6)), v);
    assert(nf(xs(xs(xa(Ex::V(11), Ex::V(3)), xa(Ex::V(11), Ex::V(7))), xs(Ex::V(3), Ex::V(7)))) == Li::E) by(compute_only); poly_eq(xs(xa(Ex::V(11), Ex::V(3)), xa(Ex::V(11), Ex::V(7))), xs(Ex::V(3), Ex::V(7)), v);
    assert(nf(xs(xa(Ex::V(0), xn(Ex::V(4))), xs(Ex::V(0), Ex::V(4)))) == Li::E) by(compute_only); poly_eq(xa(Ex::V(0), xn(Ex::V(4))), xs(Ex::V(0), Ex::V(4)), v);
    assert(nf(xs(xa(Ex::V(1), xn(Ex::V(5))), xs(Ex::V(1), Ex::V(5)))) == Li::E) by(compute_only); poly_eq(xa(Ex::V(1), xn(Ex::V(5))), xs(Ex::V(1), Ex::V(5)), v);
    assert(nf(xs(xa(Ex::V(2), xn(Ex::V(6))), xs(Ex::V(2), Ex::V(6)))) == Li::E) by(compute_only); poly_eq(xa(Ex::V(2), xn(Ex::V(6))), xs(Ex::V(2), Ex::V(6)), v);
    assert(nf(xs(xa(Ex::V(3), xn(Ex::V(7))), xs(Ex::V(3), Ex::V(7)))) == Li::E) by(compute_only); poly_eq(xa(Ex::V(3), xn(Ex::V(7))), xs(Ex::V(3), Ex::V(7)), v);
    reveal_with_fuel(ev, 8);
}
pub proof fn pl_q_negmul<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T, b0: T, b1: T, b2: T, b3: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_sub(sp_sub(sp_mul(a0, sp_neg(b0)), sp_mul(a1, sp_neg(b1))), sp_mul(a2, sp_neg(b2))), sp_mul(a3, sp_neg(b3))) == sp_neg(sp_sub(sp_sub(sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, b2)), sp_mul(a3, b3))),
        sp_sub(sp_add(sp_add(sp_mul(a0, sp_neg(b1)), sp_mul(a1, sp_neg(b0))), sp_mul(a2, sp_neg(b3))), sp_mul(a3, sp_neg(b2))) == sp_neg(sp_sub(sp_add(sp_add(sp_mul(a0, b1), sp_mul(a1, b0)), sp_mul(a2, b3)), sp_mul(a3, b2))),
        sp_add(sp_add(sp_sub(sp_mul(a0, sp_neg(b2)), sp_mul(a1, sp_neg(b3))), sp_mul(a2, sp_neg(b0))), sp_mul(a3, sp_neg(b1))) == sp_neg(sp_add(sp_add(sp_sub(sp_mul(a0, b2), sp_mul(a1, b3)), sp_mul(a2, b0)), sp_mul(a3, b1))),
        sp_add(sp_sub(sp_add(sp_mul(a0, sp_neg(b3)), sp_mul(a1, sp_neg(b2))), sp_mul(a2, sp_neg(b1))), sp_mul(a3, sp_neg(b0))) == sp_neg(sp_add(sp_sub(sp_add(sp_mul(a0, b3), sp_mul(a1, b2)), sp_mul(a2, b1)), sp_mul(a3, b0))),
{
    let v = seq![a0, a1, a2, a3, b0, b1, b2, b3];
    assert(nf(xs(xs(xs(xs(xm(Ex::V(0), xn(Ex::V(4))), xm(Ex::V(1), xn(Ex::V(5)))), xm(Ex::V(2), xn(Ex::V(6)))), xm(Ex::V(3), xn(Ex::V(7)))), xn(xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7)))))) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(Ex::V(0), xn(Ex::V(4))), xm(Ex::V(1), xn(Ex::V(5)))), xm(Ex::V(2), xn(Ex::V(6)))), xm(Ex::V(3), xn(Ex::V(7)))), xn(xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7)))), v);
    assert(nf(xs(xs(xa(xa(xm(Ex::V(0), xn(Ex::V(5))), xm(Ex::V(1), xn(Ex::V(4)))), xm(Ex::V(2), xn(Ex::V(7)))), xm(Ex::V(3), xn(Ex::V(6)))), xn(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6)))))) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(Ex::V(0), xn(Ex::V(5))), xm(Ex::V(1), xn(Ex::V(4)))), xm(Ex::V(2), xn(Ex::V(7)))), xm(Ex::V(3), xn(Ex::V(6)))), xn(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6)))), v);
    assert(nf(xs(xa(xa(xs(xm(Ex::V(0), xn(Ex::V(6))), xm(Ex::V(1), xn(Ex::V(7)))), xm(Ex::V(2), xn(Ex::V(4)))), xm(Ex::V(3), xn(Ex::V(5)))), xn(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5)))))) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(Ex::V(0), xn(Ex::V(6))), xm(Ex::V(1), xn(Ex::V(7)))), xm(Ex::V(2), xn(Ex::V(4)))), xm(Ex::V(3), xn(Ex::V(5)))), xn(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5)))), v);
    assert(nf(xs(xa(xs(xa(xm(Ex::V(0), xn(Ex::V(7))), xm(Ex::V(1), xn(Ex::V(6)))), xm(Ex::V(2), xn(Ex::V(5)))), xm(Ex::V(3), xn(Ex::V(4)))), xn(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4)))))) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(Ex::V(0), xn(Ex::V(7))), xm(Ex::V(1), xn(Ex::V(6)))), xm(Ex::V(2), xn(Ex::V(5)))), xm(Ex::V(3), xn(Ex::V(4)))), xn(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4)))), v);
    reveal_with_fuel(ev, 8);
}
pub proof fn pl_q_sub4<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T, b0: T, b1: T, b2: T, b3: T, c0: T, c1: T, c2: T, c3: T, d0: T, d1: T, d2: T, d3: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_add(a0, b0), sp_add(c0, d0)) == sp_add(sp_sub(a0, c0), sp_sub(b0, d0)),
        sp_sub(sp_add(a1, b1), sp_add(c1, d1)) == sp_add(sp_sub(a1, c1), sp_sub(b1, d1)),
        sp_sub(sp_add(a2, b2), sp_add(c2, d2)) == sp_add(sp_sub(a2, c2), sp_sub(b2, d2)),
        sp_sub(sp_add(a3, b3), sp_add(c3, d3)) == sp_add(sp_sub(a3, c3), sp_sub(b3, d3)),
        sp_add(sp_sub(a0, b0), sp_sub(c0, d0)) == sp_sub(sp_add(a0, c0), sp_add(b0, d0)),
        sp_add(sp_sub(a1, b1), sp_sub(c1, d1)) == sp_sub(sp_add(a1, c1), sp_add(b1, d1)),
        sp_add(sp_sub(a2, b2), sp_sub(c2, d2)) == sp_sub(sp_add(a2, c2), sp_add(b2, d2)),
        sp_add(sp_sub(a3, b3), sp_sub(c3, d3)) == sp_sub(sp_add(a3, c3), sp_add(b3, d3)),
{
    let v = seq![a0, a1, a2, a3, b0, b1, b2, b3, c0, c1, c2, c3, d0, d1, d2, d3];
    assert(nf(xs(xs(xa(Ex::V(0), Ex::V(4)), xa(Ex::V(8), Ex::V(12))), xa(xs(Ex::V(0), Ex::V(8)), xs(Ex::V(4), Ex::V(12))))) == Li::E) by(compute_only); poly_eq(xs(xa(Ex::V(0), Ex::V(4)), xa(Ex::V(8), Ex::V(12))), xa(xs(Ex::V(0), Ex::V(8)), xs(Ex::V(4), Ex::V(12))), v);
    assert(nf(xs(xs(xa(Ex::V(1), Ex::V(5)), xa(Ex::V(9), Ex::V(13))), xa(xs(Ex::V(1), Ex::V(9)), xs(Ex::V(5), Ex::V(13))))) == Li::E) by(compute_only); poly_eq(xs(xa(Ex::V(1), Ex::V(5)), xa(Ex::V(9), Ex::V(13))), xa(xs(Ex::V(1), Ex::V(9)), xs(Ex::V(5), Ex::V(13))), v);
    assert(nf(xs(xs(xa(Ex::V(2), Ex::V(6)), xa(Ex::V(10), Ex::V(14))), xa(xs(Ex::V(2), Ex::V(10)), xs(Ex::V(6), Ex::V(14))))) == Li::E) by(compute_only); poly_eq(xs(xa(Ex::V(2), Ex::V(6)), xa(Ex::V(10), Ex::V(14))), xa(xs(Ex::V(2), Ex::V(10)), xs(Ex::V(6), Ex::V(14))), v);
    assert(nf(xs(xs(xa(Ex::V(3), Ex::V(7)), xa(Ex::V(11), Ex::V(15))), xa(xs(Ex::V(3), Ex::V(11)), xs(Ex::V(7), Ex::V(15))))) == Li::E) by(compute_only); poly_eq(xs(xa(Ex::V(3), Ex::V(7)), xa(Ex::V(11), Ex::V(15))), xa(xs(Ex::V(3), Ex::V(11)), xs(Ex::V(7), Ex::V(15))), v);
    assert(nf(xs(xa(xs(Ex::V(0), Ex::V(4)), xs(Ex::V(8), Ex::V(12))), xs(xa(Ex::V(0), Ex::V(8)), xa(Ex::V(4), Ex::V(12))))) == Li::E) by(compute_only); poly_eq(xa(xs(Ex::V(0), Ex::V(4)), xs(Ex::V(8), Ex::V(12))), xs(xa(Ex::V(0), Ex::V(8)), xa(Ex::V(4), Ex::V(12))), v);
    assert(nf(xs(xa(xs(Ex::V(1), Ex::V(5)), xs(Ex::V(9), Ex::V(13))), xs(xa(Ex::V(1), Ex::V(9)), xa(Ex::V(5), Ex::V(13))))) == Li::E) by(compute_only); poly_eq(xa(xs(Ex::V(1), Ex::V(5)), xs(Ex::V(9), Ex::V(13))), xs(xa(Ex::V(1), Ex::V(9)), xa(Ex::V(5), Ex::V(13))), v);
    assert(nf(xs(xa(xs(Ex::V(2), Ex::V(6)), xs(Ex::V(10), Ex::V(14))), xs(xa(Ex::V(2), Ex::V(10)), xa(Ex::V(6), Ex::V(14))))) == Li::E) by(compute_only); poly_eq(xa(xs(Ex::V(2), Ex::V(6)), xs(Ex::V(10), Ex::V(14))), xs(xa(Ex::V(2), Ex::V(10)), xa(Ex::V(6), Ex::V(14))), v);
    assert(nf(xs(xa(xs(Ex::V(3), Ex::V(7)), xs(Ex::V(11), Ex::V(15))), xs(xa(Ex::V(3), Ex::V(11)), xa(Ex::V(7), Ex::V(15))))) == Li::E) by(compute_only); poly_eq(xa(xs(Ex::V(3), Ex::V(7)), xs(Ex::V(11), Ex::V(15))), xs(xa(Ex::V(3), Ex::V(11)), xa(Ex::V(7), Ex::V(15))), v);
    reveal_with_fuel(ev, 5);
}
pub proof fn pl_q_sub4b<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T, b0: T, b1: T, b2: T, b3: T, c0: T, c1: T, c2: T, c3: T, d0: T, d1: T, d2: T, d3: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_sub(a0, b0), sp_sub(c0, d0)) == sp_sub(sp_add(a0, d0), sp_add(b0, c0)),
        sp_sub(sp_sub(a1, b1), sp_sub(c1, d1)) == sp_sub(sp_add(a1, d1), sp_add(b1, c1)),
        sp_sub(sp_sub(a2, b2), sp_sub(c2, d2)) == sp_sub(sp_add(a2, d2), sp_add(b2, c2)),
        sp_sub(sp_sub(a3, b3), sp_sub(c3, d3)) == sp_sub(sp_add(a3, d3), sp_add(b3, c3)),
        sp_sub(a0, c0) == sp_add(sp_sub(sp_add(a0, b0), sp_add(c0, d0)), sp_sub(d0, b0)),
        sp_sub(a1, c1) == sp_add(sp_sub(sp_add(a1, b1), sp_add(c1, d1)), sp_sub(d1, b1)),
        sp_sub(a2, c2) == sp_add(sp_sub(sp_add(a2, b2), sp_add(c2, d2)), sp_sub(d2, b2)),
        sp_sub(a3, c3) == sp_add(sp_sub(sp_add(a3, b3), sp_add(c3, d3)), sp_sub(d3, b3)),
{
    let v = seq![a0, a1, a2, a3, b0, b1, b2, b3, c0, c1, c2, c3, d0, d1, d2, d3];
    assert(nf(xs(xs(xs(Ex::V(0), Ex::V(4)), xs(Ex::V(8), Ex::V(12))), xs(xa(Ex::V(0), Ex::V(12)), xa(Ex::V(4), Ex::V(8))))) == Li::E) by(compute_only); poly_eq(xs(xs(Ex::V(0), Ex::V(4)), xs(Ex::V(8), Ex::V(12))), xs(xa(Ex::V(0), Ex::V(12)), xa(Ex::V(4), Ex::V(8))), v);
    assert(nf(xs(xs(xs(Ex::V(1), Ex::V(5)), xs(Ex::V(9), Ex::V(13))), xs(xa(Ex::V(1), Ex::V(13)), xa(Ex::V(5), Ex::V(9))))) == Li::E) by(compute_only); poly_eq(xs(xs(Ex::V(1), Ex::V(5)), xs(Ex::V(9), Ex::V(13))), xs(xa(Ex::V(1), Ex::V(13)), xa(Ex::V(5), Ex::V(9))), v);
    assert(nf(xs(xs(xs(Ex::V(2), Ex::V(6)), xs(Ex::V(10), Ex::V(14))), xs(xa(Ex::V(2), Ex::V(14)), xa(Ex::V(6), Ex::V(10))))) == Li::E) by(compute_only); poly_eq(xs(xs(Ex::V(2), Ex::V(6)), xs(Ex::V(10), Ex::V(14))), xs(xa(Ex::V(2), Ex::V(14)), xa(Ex::V(6), Ex::V(10))), v);
    assert(nf(xs(xs(xs(Ex::V(3), Ex::V(7)), xs(Ex::V(11), Ex::V(15))), xs(xa(Ex::V(3), Ex::V(15)), xa(Ex::V(7), Ex::V(11))))) == Li::E) by(compute_only); poly_eq(xs(xs(Ex::V(3), Ex::V(7)), xs(Ex::V(11), Ex::V(15))), xs(xa(Ex::V(3), Ex::V(15)), xa(Ex::V(7), Ex::V(11))), v);
    assert(nf(xs(xs(Ex::V(0), Ex::V(8)), xa(xs(xa(Ex::V(0), Ex::V(4)), xa(Ex::V(8), Ex::V(12))), xs(Ex::V(12), Ex::V(4))))) == Li::E) by(compute_only); poly_eq(xs(Ex::V(0), Ex::V(8)), xa(xs(xa(Ex::V(0), Ex::V(4)), xa(Ex::V(8), Ex::V(12))), xs(Ex::V(12), Ex::V(4))), v);
    assert(nf(xs(xs(Ex::V(1), Ex::V(9)), xa(xs(xa(Ex::V(1), Ex::V(5)), xa(Ex::V(9), Ex::V(13))), xs(Ex::V(13), Ex::V(5))))) == Li::E) by(compute_only); poly_eq(xs(Ex::V(1), Ex::V(9)), xa(xs(xa(Ex::V(1), Ex::V(5)), xa(Ex::V(9), Ex::V(13))), xs(Ex::V(13), Ex::V(5))), v);
    assert(nf(xs(xs(Ex::V(2), Ex::V(10)), xa(xs(xa(Ex::V(2), Ex::V(6)), xa(Ex::V(10), Ex::V(14))), xs(Ex::V(14), Ex::V(6))))) == Li::E) by(compute_only); poly_eq(xs(Ex::V(2), Ex::V(10)), xa(xs(xa(Ex::V(2), Ex::V(6)), xa(Ex::V(10), Ex::V(14))), xs(Ex::V(14), Ex::V(6))), v);
    assert(nf(xs(xs(Ex::V(3), Ex::V(11)), xa(xs(xa(Ex::V(3), Ex::V(7)), xa(Ex::V(11), Ex::V(15))), xs(Ex::V(15), Ex::V(7))))) == Li::E) by(compute_only); poly_eq(xs(Ex::V(3), Ex::V(11)), xa(xs(xa(Ex::V(3), Ex::V(7)), xa(Ex::V(11), Ex::V(15))), xs(Ex::V(15), Ex::V(7))), v);
    reveal_with_fuel(ev, 6);
}
pub proof fn pl_qdg<T: Neg<Output = T> + Num>(d0: T, d1: T, d2: T, d3: T, w0: T, w1: T, w2: T, w3: T, y: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_sub(sp_sub(sp_mul(sp_mul(sp_sub(w0, sp_mul(d0, sp_mul(sp_mul(sp_add(sp_add(sp_add(sp_mul(d0, w0), sp_mul(d1, w1)), sp_mul(d2, w2)), sp_mul(d3, w3)), sp_add(T::one_spec(), T::one_spec())), y))), y), d0), sp_mul(sp_mul(sp_sub(sp_neg(w1), sp_mul(sp_neg(d1), sp_mul(sp_mul(sp_add(sp_add(sp_add(sp_mul(d0, w0), sp_mul(d1, w1)), sp_mul(d2, w2)), sp_mul(d3, w3)), sp_add(T::one_spec(), T::one_spec())), y))), y), d1)), sp_mul(sp_mul(sp_sub(sp_neg(w2), sp_mul(sp_neg(d2), sp_mul(sp_mul(sp_add(sp_add(sp_add(sp_mul(d0, w0), sp_mul(d1, w1)), sp_mul(d2, w2)), sp_mul(d3, w3)), sp_add(T::one_spec(), T::one_spec())), y))), y), d2)), sp_mul(sp_mul(sp_sub(sp_neg(w3), sp_mul(sp_neg(d3), sp_mul(sp_mul(sp_add(sp_add(sp_add(sp_mul(d0, w0), sp_mul(d1, w1)), sp_mul(d2, w2)), sp_mul(d3, w3)), sp_add(T::one_spec(), T::one_spec())), y))), y), d3)) == sp_add(sp_neg(sp_sub(sp_sub(sp_sub(sp_mul(sp_mul(d0, y), w0), sp_mul(sp_mul(sp_neg(d1), y), w1)), sp_mul(sp_mul(sp_neg(d2), y), w2)), sp_mul(sp_mul(sp_neg(d3), y), w3))), sp_mul(sp_mul(sp_mul(sp_add(sp_add(sp_add(sp_mul(d0, w0), sp_mul(d1, w1)), sp_mul(d2, w2)), sp_mul(d3, w3)), sp_add(T::one_spec(), T::one_spec())), y), sp_sub(T::one_spec(), sp_mul(sp_add(sp_add(sp_add(sp_mul(d0, d0), sp_mul(d1, d1)), sp_mul(d2, d2)), sp_mul(d3, d3)), y)))),
        sp_sub(sp_add(sp_add(sp_mul(sp_mul(sp_sub(w0, sp_mul(d0, sp_mul(sp_mul(sp_add(sp_add(sp_add(sp_mul(d0, w0), sp_mul(d1, w1)), sp_mul(d2, w2)), sp_mul(d3, w3)), sp_add(T::one_spec(), T::one_spec())), y))), y), d1), sp_mul(sp_mul(sp_sub(sp_neg(w1), sp_mul(sp_neg(d1), sp_mul(sp_mul(sp_add(sp_add(sp_add(sp_mul(d0, w0), sp_mul(d1, w1)), sp_mul(d2, w2)), sp_mul(d3, w3)), sp_add(T::one_spec(), T::one_spec())), y))), y), d0)), sp_mul(sp_mul(sp_sub(sp_neg(w2), sp_mul(sp_neg(d2), sp_mul(sp_mul(sp_add(sp_add(sp_add(sp_mul(d0, w0), sp_mul(d1, w1)), sp_mul(d2, w2)), sp_mul(d3, w3)), sp_add(T::one_spec(), T::one_spec())), y))), y), d3)), sp_mul(sp_mul(sp_sub(sp_neg(w3), sp_mul(sp_neg(d3), sp_mul(sp_mul(sp_add(sp_add(sp_add(sp_mul(d0, w0), sp_mul(d1, w1)), sp_mul(d2, w2)), sp_mul(d3, w3)), sp_add(T::one_spec(), T::one_spec())), y))), y), d2)) == sp_add(sp_neg(sp_sub(sp_add(sp_add(sp_mul(sp_mul(d0, y), w1), sp_mul(sp_mul(sp_neg(d1), y), w0)), sp_mul(sp_mul(sp_neg(d2), y), w3)), sp_mul(sp_mul(sp_neg(d3), y), w2))), T::zero_spec()),
        sp_add(sp_add(sp_sub(sp_mul(sp_mul(sp_sub(w0, sp_mul(d0, sp_mul(sp_mul(sp_add(sp_add(sp_add(sp_mul(d0, w0), sp_mul(d1, w1)), sp_mul(d2, w2)), sp_mul(d3, w3)), sp_add(T::one_spec(), T::one_spec())), y))), y), d2), sp_mul(sp_mul(sp_sub(sp_neg(w1), sp_mul(sp_neg(d1), sp_mul(sp_mul(sp_add(sp_add(sp_add(sp_mul(d0, w0), sp_mul(d1, w1)), sp_mul(d2, w2)), sp_mul(d3, w3)), sp_add(T::one_spec(), T::one_spec())), y))), y), d3)), sp_mul(sp_mul(sp_sub(sp_neg(w2), sp_mul(sp_neg(d2), sp_mul(sp_mul(sp_add(sp_add(sp_add(sp_mul(d0, w0), sp_mul(d1, w1)), sp_mul(d2, w2)), sp_mul(d3, w3)), sp_add(T::one_spec(), T::one_spec())), y))), y), d0)), sp_mul(sp_mul(sp_sub(sp_neg(w3), sp_mul(sp_neg(d3), sp_mul(sp_mul(sp_add(sp_add(sp_add(sp_mul(d0, w0), sp_mul(d1, w1)), sp_mul(d2, w2)), sp_mul(d3, w3)), sp_add(T::one_spec(), T::one_spec())), y))), y), d1)) == sp_add(sp_neg(sp_add(sp_add(sp_sub(sp_mul(sp_mul(d0, y), w2), sp_mul(sp_mul(sp_neg(d1), y), w3)), sp_mul(sp_mul(sp_neg(d2), y), w0)), sp_mul(sp_mul(sp_neg(d3), y), w1))), T::zero_spec()),
        sp_add(sp_sub(sp_add(sp_mul(sp_mul(sp_sub(w0, sp_mul(d0, sp_mul(sp_mul(sp_add(sp_add(sp_add(sp_mul(d0, w0), sp_mul(d1, w1)), sp_mul(d2, w2)), sp_mul(d3, w3)), sp_add(T::one_spec(), T::one_spec())), y))), y), d3), sp_mul(sp_mul(sp_sub(sp_neg(w1), sp_mul(sp_neg(d1), sp_mul(sp_mul(sp_add(sp_add(sp_add(sp_mul(d0, w0), sp_mul(d1, w1)), sp_mul(d2, w2)), sp_mul(d3, w3)), sp_add(T::one_spec(), T::one_spec())), y))), y), d2)), sp_mul(sp_mul(sp_sub(sp_neg(w2), sp_mul(sp_neg(d2), sp_mul(sp_mul(sp_add(sp_add(sp_add(sp_mul(d0, w0), sp_mul(d1, w1)), sp_mul(d2, w2)), sp_mul(d3, w3)), sp_add(T::one_spec(), T::one_spec())), y))), y), d1)), sp_mul(sp_mul(sp_sub(sp_neg(w3), sp_mul(sp_neg(d3), sp_mul(sp_mul(sp_add(sp_add(sp_add(sp_mul(d0, w0), sp_mul(d1, w1)), sp_mul(d2, w2)), sp_mul(d3, w3)), sp_add(T::one_spec(), T::one_spec())), y))), y), d0)) == sp_add(sp_neg(sp_add(sp_sub(sp_add(sp_mul(sp_mul(d0, y), w3), sp_mul(sp_mul(sp_neg(d1), y), w2)), sp_mul(sp_mul(sp_neg(d2), y), w1)), sp_mul(sp_mul(sp_neg(d3), y), w0))), T::zero_spec()),
{
    let v = seq![d0, d1, d2, d3, w0, w1, w2, w3, y];
    assert(nf(xs(xs(xs(xs(xm(xm(xs(Ex::V(4), xm(Ex::V(0), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(0)), xm(xm(xs(xn(Ex::V(5)), xm(xn(Ex::V(1)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(1))), xm(xm(xs(xn(Ex::V(6)), xm(xn(Ex::V(2)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(2))), xm(xm(xs(xn(Ex::V(7)), xm(xn(Ex::V(3)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(3))), xa(xn(xs(xs(xs(xm(xm(Ex::V(0), Ex::V(8)), Ex::V(4)), xm(xm(xn(Ex::V(1)), Ex::V(8)), Ex::V(5))), xm(xm(xn(Ex::V(2)), Ex::V(8)), Ex::V(6))), xm(xm(xn(Ex::V(3)), Ex::V(8)), Ex::V(7)))), xm(xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)), xs(Ex::I, xm(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))), Ex::V(8))))))) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(xm(xs(Ex::V(4), xm(Ex::V(0), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(0)), xm(xm(xs(xn(Ex::V(5)), xm(xn(Ex::V(1)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(1))), xm(xm(xs(xn(Ex::V(6)), xm(xn(Ex::V(2)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(2))), xm(xm(xs(xn(Ex::V(7)), xm(xn(Ex::V(3)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(3))), xa(xn(xs(xs(xs(xm(xm(Ex::V(0), Ex::V(8)), Ex::V(4)), xm(xm(xn(Ex::V(1)), Ex::V(8)), Ex::V(5))), xm(xm(xn(Ex::V(2)), Ex::V(8)), Ex::V(6))), xm(xm(xn(Ex::V(3)), Ex::V(8)), Ex::V(7)))), xm(xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)), xs(Ex::I, xm(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))), Ex::V(8))))), v);
    assert(nf(xs(xs(xa(xa(xm(xm(xs(Ex::V(4), xm(Ex::V(0), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(1)), xm(xm(xs(xn(Ex::V(5)), xm(xn(Ex::V(1)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(0))), xm(xm(xs(xn(Ex::V(6)), xm(xn(Ex::V(2)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(3))), xm(xm(xs(xn(Ex::V(7)), xm(xn(Ex::V(3)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(2))), xa(xn(xs(xa(xa(xm(xm(Ex::V(0), Ex::V(8)), Ex::V(5)), xm(xm(xn(Ex::V(1)), Ex::V(8)), Ex::V(4))), xm(xm(xn(Ex::V(2)), Ex::V(8)), Ex::V(7))), xm(xm(xn(Ex::V(3)), Ex::V(8)), Ex::V(6)))), Ex::Z))) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(xm(xs(Ex::V(4), xm(Ex::V(0), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(1)), xm(xm(xs(xn(Ex::V(5)), xm(xn(Ex::V(1)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(0))), xm(xm(xs(xn(Ex::V(6)), xm(xn(Ex::V(2)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(3))), xm(xm(xs(xn(Ex::V(7)), xm(xn(Ex::V(3)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(2))), xa(xn(xs(xa(xa(xm(xm(Ex::V(0), Ex::V(8)), Ex::V(5)), xm(xm(xn(Ex::V(1)), Ex::V(8)), Ex::V(4))), xm(xm(xn(Ex::V(2)), Ex::V(8)), Ex::V(7))), xm(xm(xn(Ex::V(3)), Ex::V(8)), Ex::V(6)))), Ex::Z), v);
    assert(nf(xs(xa(xa(xs(xm(xm(xs(Ex::V(4), xm(Ex::V(0), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(2)), xm(xm(xs(xn(Ex::V(5)), xm(xn(Ex::V(1)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(3))), xm(xm(xs(xn(Ex::V(6)), xm(xn(Ex::V(2)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(0))), xm(xm(xs(xn(Ex::V(7)), xm(xn(Ex::V(3)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(1))), xa(xn(xa(xa(xs(xm(xm(Ex::V(0), Ex::V(8)), Ex::V(6)), xm(xm(xn(Ex::V(1)), Ex::V(8)), Ex::V(7))), xm(xm(xn(Ex::V(2)), Ex::V(8)), Ex::V(4))), xm(xm(xn(Ex::V(3)), Ex::V(8)), Ex::V(5)))), Ex::Z))) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(xm(xs(Ex::V(4), xm(Ex::V(0), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(2)), xm(xm(xs(xn(Ex::V(5)), xm(xn(Ex::V(1)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(3))), xm(xm(xs(xn(Ex::V(6)), xm(xn(Ex::V(2)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(0))), xm(xm(xs(xn(Ex::V(7)), xm(xn(Ex::V(3)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(1))), xa(xn(xa(xa(xs(xm(xm(Ex::V(0), Ex::V(8)), Ex::V(6)), xm(xm(xn(Ex::V(1)), Ex::V(8)), Ex::V(7))), xm(xm(xn(Ex::V(2)), Ex::V(8)), Ex::V(4))), xm(xm(xn(Ex::V(3)), Ex::V(8)), Ex::V(5)))), Ex::Z), v);
    assert(nf(xs(xa(xs(xa(xm(xm(xs(Ex::V(4), xm(Ex::V(0), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(3)), xm(xm(xs(xn(Ex::V(5)), xm(xn(Ex::V(1)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(2))), xm(xm(xs(xn(Ex::V(6)), xm(xn(Ex::V(2)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(1))), xm(xm(xs(xn(Ex::V(7)), xm(xn(Ex::V(3)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(0))), xa(xn(xa(xs(xa(xm(xm(Ex::V(0), Ex::V(8)), Ex::V(7)), xm(xm(xn(Ex::V(1)), Ex::V(8)), Ex::V(6))), xm(xm(xn(Ex::V(2)), Ex::V(8)), Ex::V(5))), xm(xm(xn(Ex::V(3)), Ex::V(8)), Ex::V(4)))), Ex::Z))) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(xm(xs(Ex::V(4), xm(Ex::V(0), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(3)), xm(xm(xs(xn(Ex::V(5)), xm(xn(Ex::V(1)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(2))), xm(xm(xs(xn(Ex::V(6)), xm(xn(Ex::V(2)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(1))), xm(xm(xs(xn(Ex::V(7)), xm(xn(Ex::V(3)), xm(xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(Ex::I, Ex::I)), Ex::V(8)))), Ex::V(8)), Ex::V(0))), xa(xn(xa(xs(xa(xm(xm(Ex::V(0), Ex::V(8)), Ex::V(7)), xm(xm(xn(Ex::V(1)), Ex::V(8)), Ex::V(6))), xm(xm(xn(Ex::V(2)), Ex::V(8)), Ex::V(5))), xm(xm(xn(Ex::V(3)), Ex::V(8)), Ex::V(4)))), Ex::Z), v);
    reveal_with_fuel(ev, 16);
}
pub proof fn pl_qdot<T: Neg<Output = T> + Num>(p0: T, p1: T, p2: T, p3: T, h0: T, h1: T, h2: T, h3: T, k0: T, k1: T, k2: T, k3: T) requires is_cring::<T>()
    ensures
        sp_add(sp_add(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(p0, h0), sp_mul(p1, h1)), sp_mul(p2, h2)), sp_mul(p3, h3)), sp_sub(sp_sub(sp_sub(sp_mul(p0, k0), sp_mul(p1, k1)), sp_mul(p2, k2)), sp_mul(p3, k3))), sp_mul(sp_sub(sp_add(sp_add(sp_mul(p0, h1), sp_mul(p1, h0)), sp_mul(p2, h3)), sp_mul(p3, h2)), sp_sub(sp_add(sp_add(sp_mul(p0, k1), sp_mul(p1, k0)), sp_mul(p2, k3)), sp_mul(p3, k2)))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(p0, h2), sp_mul(p1, h3)), sp_mul(p2, h0)), sp_mul(p3, h1)), sp_add(sp_add(sp_sub(sp_mul(p0, k2), sp_mul(p1, k3)), sp_mul(p2, k0)), sp_mul(p3, k1)))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(p0, h3), sp_mul(p1, h2)), sp_mul(p2, h1)), sp_mul(p3, h0)), sp_add(sp_sub(sp_add(sp_mul(p0, k3), sp_mul(p1, k2)), sp_mul(p2, k1)), sp_mul(p3, k0)))) == sp_mul(sp_add(sp_add(sp_add(sp_mul(p0, p0), sp_mul(p1, p1)), sp_mul(p2, p2)), sp_mul(p3, p3)), sp_add(sp_add(sp_add(sp_mul(h0, k0), sp_mul(h1, k1)), sp_mul(h2, k2)), sp_mul(h3, k3))),
        sp_add(sp_add(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(h0, p0), sp_mul(h1, p1)), sp_mul(h2, p2)), sp_mul(h3, p3)), sp_sub(sp_sub(sp_sub(sp_mul(k0, p0), sp_mul(k1, p1)), sp_mul(k2, p2)), sp_mul(k3, p3))), sp_mul(sp_sub(sp_add(sp_add(sp_mul(h0, p1), sp_mul(h1, p0)), sp_mul(h2, p3)), sp_mul(h3, p2)), sp_sub(sp_add(sp_add(sp_mul(k0, p1), sp_mul(k1, p0)), sp_mul(k2, p3)), sp_mul(k3, p2)))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(h0, p2), sp_mul(h1, p3)), sp_mul(h2, p0)), sp_mul(h3, p1)), sp_add(sp_add(sp_sub(sp_mul(k0, p2), sp_mul(k1, p3)), sp_mul(k2, p0)), sp_mul(k3, p1)))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(h0, p3), sp_mul(h1, p2)), sp_mul(h2, p1)), sp_mul(h3, p0)), sp_add(sp_sub(sp_add(sp_mul(k0, p3), sp_mul(k1, p2)), sp_mul(k2, p1)), sp_mul(k3, p0)))) == sp_mul(sp_add(sp_add(sp_add(sp_mul(h0, k0), sp_mul(h1, k1)), sp_mul(h2, k2)), sp_mul(h3, k3)), sp_add(sp_add(sp_add(sp_mul(p0, p0), sp_mul(p1, p1)), sp_mul(p2, p2)), sp_mul(p3, p3))),
{
    let v = seq![p0, p1, p2, p3, h0, h1, h2, h3, k0, k1, k2, k3];
    assert(nf(xs(xa(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xs(xs(xs(xm(Ex::V(0), Ex::V(8)), xm(Ex::V(1), Ex::V(9))), xm(Ex::V(2), Ex::V(10))), xm(Ex::V(3), Ex::V(11)))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6))), xs(xa(xa(xm(Ex::V(0), Ex::V(9)), xm(Ex::V(1), Ex::V(8))), xm(Ex::V(2), Ex::V(11))), xm(Ex::V(3), Ex::V(10))))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5))), xa(xa(xs(xm(Ex::V(0), Ex::V(10)), xm(Ex::V(1), Ex::V(11))), xm(Ex::V(2), Ex::V(8))), xm(Ex::V(3), Ex::V(9))))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4))), xa(xs(xa(xm(Ex::V(0), Ex::V(11)), xm(Ex::V(1), Ex::V(10))), xm(Ex::V(2), Ex::V(9))), xm(Ex::V(3), Ex::V(8))))), xm(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))), xa(xa(xa(xm(Ex::V(4), Ex::V(8)), xm(Ex::V(5), Ex::V(9))), xm(Ex::V(6), Ex::V(10))), xm(Ex::V(7), Ex::V(11)))))) == Li::E) by(compute_only); poly_eq(xa(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xs(xs(xs(xm(Ex::V(0), Ex::V(8)), xm(Ex::V(1), Ex::V(9))), xm(Ex::V(2), Ex::V(10))), xm(Ex::V(3), Ex::V(11)))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6))), xs(xa(xa(xm(Ex::V(0), Ex::V(9)), xm(Ex::V(1), Ex::V(8))), xm(Ex::V(2), Ex::V(11))), xm(Ex::V(3), Ex::V(10))))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5))), xa(xa(xs(xm(Ex::V(0), Ex::V(10)), xm(Ex::V(1), Ex::V(11))), xm(Ex::V(2), Ex::V(8))), xm(Ex::V(3), Ex::V(9))))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4))), xa(xs(xa(xm(Ex::V(0), Ex::V(11)), xm(Ex::V(1), Ex::V(10))), xm(Ex::V(2), Ex::V(9))), xm(Ex::V(3), Ex::V(8))))), xm(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))), xa(xa(xa(xm(Ex::V(4), Ex::V(8)), xm(Ex::V(5), Ex::V(9))), xm(Ex::V(6), Ex::V(10))), xm(Ex::V(7), Ex::V(11)))), v);
    assert(nf(xs(xa(xa(xa(xm(xs(xs(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1))), xm(Ex::V(6), Ex::V(2))), xm(Ex::V(7), Ex::V(3))), xs(xs(xs(xm(Ex::V(8), Ex::V(0)), xm(Ex::V(9), Ex::V(1))), xm(Ex::V(10), Ex::V(2))), xm(Ex::V(11), Ex::V(3)))), xm(xs(xa(xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0))), xm(Ex::V(6), Ex::V(3))), xm(Ex::V(7), Ex::V(2))), xs(xa(xa(xm(Ex::V(8), Ex::V(1)), xm(Ex::V(9), Ex::V(0))), xm(Ex::V(10), Ex::V(3))), xm(Ex::V(11), Ex::V(2))))), xm(xa(xa(xs(xm(Ex::V(4), Ex::V(2)), xm(Ex::V(5), Ex::V(3))), xm(Ex::V(6), Ex::V(0))), xm(Ex::V(7), Ex::V(1))), xa(xa(xs(xm(Ex::V(8), Ex::V(2)), xm(Ex::V(9), Ex::V(3))), xm(Ex::V(10), Ex::V(0))), xm(Ex::V(11), Ex::V(1))))), xm(xa(xs(xa(xm(Ex::V(4), Ex::V(3)), xm(Ex::V(5), Ex::V(2))), xm(Ex::V(6), Ex::V(1))), xm(Ex::V(7), Ex::V(0))), xa(xs(xa(xm(Ex::V(8), Ex::V(3)), xm(Ex::V(9), Ex::V(2))), xm(Ex::V(10), Ex::V(1))), xm(Ex::V(11), Ex::V(0))))), xm(xa(xa(xa(xm(Ex::V(4), Ex::V(8)), xm(Ex::V(5), Ex::V(9))), xm(Ex::V(6), Ex::V(10))), xm(Ex::V(7), Ex::V(11))), xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3)))))) == Li::E) by(compute_only); poly_eq(xa(xa(xa(xm(xs(xs(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1))), xm(Ex::V(6), Ex::V(2))), xm(Ex::V(7), Ex::V(3))), xs(xs(xs(xm(Ex::V(8), Ex::V(0)), xm(Ex::V(9), Ex::V(1))), xm(Ex::V(10), Ex::V(2))), xm(Ex::V(11), Ex::V(3)))), xm(xs(xa(xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0))), xm(Ex::V(6), Ex::V(3))), xm(Ex::V(7), Ex::V(2))), xs(xa(xa(xm(Ex::V(8), Ex::V(1)), xm(Ex::V(9), Ex::V(0))), xm(Ex::V(10), Ex::V(3))), xm(Ex::V(11), Ex::V(2))))), xm(xa(xa(xs(xm(Ex::V(4), Ex::V(2)), xm(Ex::V(5), Ex::V(3))), xm(Ex::V(6), Ex::V(0))), xm(Ex::V(7), Ex::V(1))), xa(xa(xs(xm(Ex::V(8), Ex::V(2)), xm(Ex::V(9), Ex::V(3))), xm(Ex::V(10), Ex::V(0))), xm(Ex::V(11), Ex::V(1))))), xm(xa(xs(xa(xm(Ex::V(4), Ex::V(3)), xm(Ex::V(5), Ex::V(2))), xm(Ex::V(6), Ex::V(1))), xm(Ex::V(7), Ex::V(0))), xa(xs(xa(xm(Ex::V(8), Ex::V(3)), xm(Ex::V(9), Ex::V(2))), xm(Ex::V(10), Ex::V(1))), xm(Ex::V(11), Ex::V(0))))), xm(xa(xa(xa(xm(Ex::V(4), Ex::V(8)), xm(Ex::V(5), Ex::V(9))), xm(Ex::V(6), Ex::V(10))), xm(Ex::V(7), Ex::V(11))), xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3)))), v);
    reveal_with_fuel(ev, 11);
}
pub proof fn pl_qnscale<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T, y: T) requires is_cring::<T>()
    ensures
        sp_add(sp_add(sp_add(sp_mul(sp_mul(a0, y), sp_mul(a0, y)), sp_mul(sp_mul(a1, y), sp_mul(a1, y))), sp_mul(sp_mul(a2, y), sp_mul(a2, y))), sp_mul(sp_mul(a3, y), sp_mul(a3, y))) == sp_mul(sp_add(sp_add(sp_add(sp_mul(a0, a0), sp_mul(a1, a1)), sp_mul(a2, a2)), sp_mul(a3, a3)), sp_mul(y, y)),
{
    let v = seq![a0, a1, a2, a3, y];
    assert(nf(xs(xa(xa(xa(xm(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(0), Ex::V(4))), xm(xm(Ex::V(1), Ex::V(4)), xm(Ex::V(1), Ex::V(4)))), xm(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(2), Ex::V(4)))), xm(xm(Ex::V(3), Ex::V(4)), xm(Ex::V(3), Ex::V(4)))), xm(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))), xm(Ex::V(4), Ex::V(4))))) == Li::E) by(compute_only); poly_eq(xa(xa(xa(xm(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(0), Ex::V(4))), xm(xm(Ex::V(1), Ex::V(4)), xm(Ex::V(1), Ex::V(4)))), xm(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(2), Ex::V(4)))), xm(xm(Ex::V(3), Ex::V(4)), xm(Ex::V(3), Ex::V(4)))), xm(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))), xm(Ex::V(4), Ex::V(4))), v);
    reveal_with_fuel(ev, 8);
}
pub proof fn pl_qdotscale<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T, b0: T, b1: T, b2: T, b3: T, y: T) requires is_cring::<T>()
    ensures
        sp_add(sp_add(sp_add(sp_mul(sp_mul(a0, y), b0), sp_mul(sp_mul(a1, y), b1)), sp_mul(sp_mul(a2, y), b2)), sp_mul(sp_mul(a3, y), b3)) == sp_mul(sp_add(sp_add(sp_add(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, b2)), sp_mul(a3, b3)), y),
{
    let v = seq![a0, a1, a2, a3, b0, b1, b2, b3, y];
    assert(nf(xs(xa(xa(xa(xm(xm(Ex::V(0), Ex::V(8)), Ex::V(4)), xm(xm(Ex::V(1), Ex::V(8)), Ex::V(5))), xm(xm(Ex::V(2), Ex::V(8)), Ex::V(6))), xm(xm(Ex::V(3), Ex::V(8)), Ex::V(7))), xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), Ex::V(8)))) == Li::E) by(compute_only); poly_eq(xa(xa(xa(xm(xm(Ex::V(0), Ex::V(8)), Ex::V(4)), xm(xm(Ex::V(1), Ex::V(8)), Ex::V(5))), xm(xm(Ex::V(2), Ex::V(8)), Ex::V(6))), xm(xm(Ex::V(3), Ex::V(8)), Ex::V(7))), xm(xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), Ex::V(8)), v);
    reveal_with_fuel(ev, 8);
}
pub proof fn pl_c_sublin<T: Neg<Output = T> + Num>(a0: T, a1: T, b0: T, b1: T, c0: T, c1: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_mul(sp_sub(a0, b0), c0), sp_mul(sp_sub(a1, b1), c1)) == sp_sub(sp_sub(sp_mul(a0, c0), sp_mul(a1, c1)), sp_sub(sp_mul(b0, c0), sp_mul(b1, c1))),
        sp_add(sp_mul(sp_sub(a0, b0), c1), sp_mul(sp_sub(a1, b1), c0)) == sp_sub(sp_add(sp_mul(a0, c1), sp_mul(a1, c0)), sp_add(sp_mul(b0, c1), sp_mul(b1, c0))),
        sp_sub(sp_mul(c0, sp_sub(a0, b0)), sp_mul(c1, sp_sub(a1, b1))) == sp_sub(sp_sub(sp_mul(c0, a0), sp_mul(c1, a1)), sp_sub(sp_mul(c0, b0), sp_mul(c1, b1))),
        sp_add(sp_mul(c0, sp_sub(a1, b1)), sp_mul(c1, sp_sub(a0, b0))) == sp_sub(sp_add(sp_mul(c0, a1), sp_mul(c1, a0)), sp_add(sp_mul(c0, b1), sp_mul(c1, b0))),
        sp_sub(sp_add(c0, a0), sp_add(c0, b0)) == sp_sub(a0, b0),
        sp_sub(sp_add(c1, a1), sp_add(c1, b1)) == sp_sub(a1, b1),
        sp_sub(sp_add(a0, b0), sp_add(c0, b0)) == sp_sub(a0, c0),
        sp_sub(sp_add(a1, b1), sp_add(c1, b1)) == sp_sub(a1, c1),
{
    let v = seq![a0, a1, b0, b1, c0, c1];
    assert(nf(xs(xs(xm(xs(Ex::V(0), Ex::V(2)), Ex::V(4)), xm(xs(Ex::V(1), Ex::V(3)), Ex::V(5))), xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xs(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(3), Ex::V(5)))))) == Li::E) by(compute_only); poly_eq(xs(xm(xs(Ex::V(0), Ex::V(2)), Ex::V(4)), xm(xs(Ex::V(1), Ex::V(3)), Ex::V(5))), xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xs(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(3), Ex::V(5)))), v);
    assert(nf(xs(xa(xm(xs(Ex::V(0), Ex::V(2)), Ex::V(5)), xm(xs(Ex::V(1), Ex::V(3)), Ex::V(4))), xs(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xa(xm(Ex::V(2), Ex::V(5)), xm(Ex::V(3), Ex::V(4)))))) == Li::E) by(compute_only); poly_eq(xa(xm(xs(Ex::V(0), Ex::V(2)), Ex::V(5)), xm(xs(Ex::V(1), Ex::V(3)), Ex::V(4))), xs(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xa(xm(Ex::V(2), Ex::V(5)), xm(Ex::V(3), Ex::V(4)))), v);
    assert(nf(xs(xs(xm(Ex::V(4), xs(Ex::V(0), Ex::V(2))), xm(Ex::V(5), xs(Ex::V(1), Ex::V(3)))), xs(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1))), xs(xm(Ex::V(4), Ex::V(2)), xm(Ex::V(5), Ex::V(3)))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(4), xs(Ex::V(0), Ex::V(2))), xm(Ex::V(5), xs(Ex::V(1), Ex::V(3)))), xs(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1))), xs(xm(Ex::V(4), Ex::V(2)), xm(Ex::V(5), Ex::V(3)))), v);
    assert(nf(xs(xa(xm(Ex::V(4), xs(Ex::V(1), Ex::V(3))), xm(Ex::V(5), xs(Ex::V(0), Ex::V(2)))), xs(xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0))), xa(xm(Ex::V(4), Ex::V(3)), xm(Ex::V(5), Ex::V(2)))))) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(4), xs(Ex::V(1), Ex::V(3))), xm(Ex::V(5), xs(Ex::V(0), Ex::V(2)))), xs(xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0))), xa(xm(Ex::V(4), Ex::V(3)), xm(Ex::V(5), Ex::V(2)))), v);
    assert(nf(xs(xs(xa(Ex::V(4), Ex::V(0)), xa(Ex::V(4), Ex::V(2))), xs(Ex::V(0), Ex::V(2)))) == Li::E) by(compute_only); poly_eq(xs(xa(Ex::V(4), Ex::V(0)), xa(Ex::V(4), Ex::V(2))), xs(Ex::V(0), Ex::V(2)), v);
    assert(nf(xs(xs(xa(Ex::V(5), Ex::V(1)), xa(Ex::V(5), Ex::V(3))), xs(Ex::V(1), Ex::V(3)))) == Li::E) by(compute_only); poly_eq(xs(xa(Ex::V(5), Ex::V(1)), xa(Ex::V(5), Ex::V(3))), xs(Ex::V(1), Ex::V(3)), v);
    assert(nf(xs(xs(xa(Ex::V(0), Ex::V(2)), xa(Ex::V(4), Ex::V(2))), xs(Ex::V(0), Ex::V(4)))) == Li::E) by(compute_only); poly_eq(xs(xa(Ex::V(0), Ex::V(2)), xa(Ex::V(4), Ex::V(2))), xs(Ex::V(0), Ex::V(4)), v);
    assert(nf(xs(xs(xa(Ex::V(1), Ex::V(3)), xa(Ex::V(5), Ex::V(3))), xs(Ex::V(1), Ex::V(5)))) == Li::E) by(compute_only); poly_eq(xs(xa(Ex::V(1), Ex::V(3)), xa(Ex::V(5), Ex::V(3))), xs(Ex::V(1), Ex::V(5)), v);
    reveal_with_fuel(ev, 6);
}
pub proof fn pl_c_dotmul<T: Neg<Output = T> + Num>(p0: T, p1: T, h0: T, h1: T, k0: T, k1: T) requires is_cring::<T>()
    ensures
        sp_add(sp_mul(sp_sub(sp_mul(p0, h0), sp_mul(p1, h1)), sp_sub(sp_mul(p0, k0), sp_mul(p1, k1))), sp_mul(sp_add(sp_mul(p0, h1), sp_mul(p1, h0)), sp_add(sp_mul(p0, k1), sp_mul(p1, k0)))) == sp_mul(sp_add(sp_mul(p0, p0), sp_mul(p1, p1)), sp_add(sp_mul(h0, k0), sp_mul(h1, k1))),
{
    let v = seq![p0, p1, h0, h1, k0, k1];
    assert(nf(xs(xa(xm(xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5)))), xm(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))))), xm(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xa(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(3), Ex::V(5)))))) == Li::E) by(compute_only); poly_eq(xa(xm(xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5)))), xm(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))))), xm(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xa(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(3), Ex::V(5)))), v);
    reveal_with_fuel(ev, 7);
}
pub proof fn pl_c_scale<T: Neg<Output = T> + Num>(a0: T, a1: T, b0: T, b1: T, y: T) requires is_cring::<T>()
    ensures
        sp_add(sp_mul(sp_mul(a0, y), sp_mul(a0, y)), sp_mul(sp_mul(a1, y), sp_mul(a1, y))) == sp_mul(sp_add(sp_mul(a0, a0), sp_mul(a1, a1)), sp_mul(y, y)),
        sp_add(sp_mul(sp_mul(a0, y), b0), sp_mul(sp_mul(a1, y), b1)) == sp_mul(sp_add(sp_mul(a0, b0), sp_mul(a1, b1)), y),
        sp_sub(sp_mul(a0, sp_mul(b0, y)), sp_mul(a1, sp_mul(b1, y))) == sp_mul(sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)), y),
        sp_add(sp_mul(a0, sp_mul(b1, y)), sp_mul(a1, sp_mul(b0, y))) == sp_mul(sp_add(sp_mul(a0, b1), sp_mul(a1, b0)), y),
{
    let v = seq![a0, a1, b0, b1, y];
    assert(nf(xs(xa(xm(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(0), Ex::V(4))), xm(xm(Ex::V(1), Ex::V(4)), xm(Ex::V(1), Ex::V(4)))), xm(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(4), Ex::V(4))))) == Li::E) by(compute_only); poly_eq(xa(xm(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(0), Ex::V(4))), xm(xm(Ex::V(1), Ex::V(4)), xm(Ex::V(1), Ex::V(4)))), xm(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(4), Ex::V(4))), v);
    assert(nf(xs(xa(xm(xm(Ex::V(0), Ex::V(4)), Ex::V(2)), xm(xm(Ex::V(1), Ex::V(4)), Ex::V(3))), xm(xa(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), Ex::V(4)))) == Li::E) by(compute_only); poly_eq(xa(xm(xm(Ex::V(0), Ex::V(4)), Ex::V(2)), xm(xm(Ex::V(1), Ex::V(4)), Ex::V(3))), xm(xa(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), Ex::V(4)), v);
    assert(nf(xs(xs(xm(Ex::V(0), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(1), xm(Ex::V(3), Ex::V(4)))), xm(xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), Ex::V(4)))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(0), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(1), xm(Ex::V(3), Ex::V(4)))), xm(xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), Ex::V(4)), v);
    assert(nf(xs(xa(xm(Ex::V(0), xm(Ex::V(3), Ex::V(4))), xm(Ex::V(1), xm(Ex::V(2), Ex::V(4)))), xm(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), Ex::V(4)))) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(0), xm(Ex::V(3), Ex::V(4))), xm(Ex::V(1), xm(Ex::V(2), Ex::V(4)))), xm(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), Ex::V(4)), v);
    reveal_with_fuel(ev, 6);
}
