### verbatim
// generated by gen_poly.py
pub proof fn pl_q_assoc<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T, b0: T, b1: T, b2: T, b3: T, c0: T, c1: T, c2: T, c3: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_sub(sp_sub(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, b2)), sp_mul(a3, b3)), c0), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, b1), sp_mul(a1, b0)), sp_mul(a2, b3)), sp_mul(a3, b2)), c1)), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, b2), sp_mul(a1, b3)), sp_mul(a2, b0)), sp_mul(a3, b1)), c2)), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, b3), sp_mul(a1, b2)), sp_mul(a2, b1)), sp_mul(a3, b0)), c3)) == sp_sub(sp_sub(sp_sub(sp_mul(a0, sp_sub(sp_sub(sp_sub(sp_mul(b0, c0), sp_mul(b1, c1)), sp_mul(b2, c2)), sp_mul(b3, c3))), sp_mul(a1, sp_sub(sp_add(sp_add(sp_mul(b0, c1), sp_mul(b1, c0)), sp_mul(b2, c3)), sp_mul(b3, c2)))), sp_mul(a2, sp_add(sp_add(sp_sub(sp_mul(b0, c2), sp_mul(b1, c3)), sp_mul(b2, c0)), sp_mul(b3, c1)))), sp_mul(a3, sp_add(sp_sub(sp_add(sp_mul(b0, c3), sp_mul(b1, c2)), sp_mul(b2, c1)), sp_mul(b3, c0)))),
        sp_sub(sp_add(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, b2)), sp_mul(a3, b3)), c1), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, b1), sp_mul(a1, b0)), sp_mul(a2, b3)), sp_mul(a3, b2)), c0)), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, b2), sp_mul(a1, b3)), sp_mul(a2, b0)), sp_mul(a3, b1)), c3)), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, b3), sp_mul(a1, b2)), sp_mul(a2, b1)), sp_mul(a3, b0)), c2)) == sp_sub(sp_add(sp_add(sp_mul(a0, sp_sub(sp_add(sp_add(sp_mul(b0, c1), sp_mul(b1, c0)), sp_mul(b2, c3)), sp_mul(b3, c2))), sp_mul(a1, sp_sub(sp_sub(sp_sub(sp_mul(b0, c0), sp_mul(b1, c1)), sp_mul(b2, c2)), sp_mul(b3, c3)))), sp_mul(a2, sp_add(sp_sub(sp_add(sp_mul(b0, c3), sp_mul(b1, c2)), sp_mul(b2, c1)), sp_mul(b3, c0)))), sp_mul(a3, sp_add(sp_add(sp_sub(sp_mul(b0, c2), sp_mul(b1, c3)), sp_mul(b2, c0)), sp_mul(b3, c1)))),
        sp_add(sp_add(sp_sub(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, b2)), sp_mul(a3, b3)), c2), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, b1), sp_mul(a1, b0)), sp_mul(a2, b3)), sp_mul(a3, b2)), c3)), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, b2), sp_mul(a1, b3)), sp_mul(a2, b0)), sp_mul(a3, b1)), c0)), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, b3), sp_mul(a1, b2)), sp_mul(a2, b1)), sp_mul(a3, b0)), c1)) == sp_add(sp_add(sp_sub(sp_mul(a0, sp_add(sp_add(sp_sub(sp_mul(b0, c2), sp_mul(b1, c3)), sp_mul(b2, c0)), sp_mul(b3, c1))), sp_mul(a1, sp_add(sp_sub(sp_add(sp_mul(b0, c3), sp_mul(b1, c2)), sp_mul(b2, c1)), sp_mul(b3, c0)))), sp_mul(a2, sp_sub(sp_sub(sp_sub(sp_mul(b0, c0), sp_mul(b1, c1)), sp_mul(b2, c2)), sp_mul(b3, c3)))), sp_mul(a3, sp_sub(sp_add(sp_add(sp_mul(b0, c1), sp_mul(b1, c0)), sp_mul(b2, c3)), sp_mul(b3, c2)))),
        sp_add(sp_sub(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, b2)), sp_mul(a3, b3)), c3), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, b1), sp_mul(a1, b0)), sp_mul(a2, b3)), sp_mul(a3, b2)), c2)), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, b2), sp_mul(a1, b3)), sp_mul(a2, b0)), sp_mul(a3, b1)), c1)), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, b3), sp_mul(a1, b2)), sp_mul(a2, b1)), sp_mul(a3, b0)), c0)) == sp_add(sp_sub(sp_add(sp_mul(a0, sp_add(sp_sub(sp_add(sp_mul(b0, c3), sp_mul(b1, c2)), sp_mul(b2, c1)), sp_mul(b3, c0))), sp_mul(a1, sp_add(sp_add(sp_sub(sp_mul(b0, c2), sp_mul(b1, c3)), sp_mul(b2, c0)), sp_mul(b3, c1)))), sp_mul(a2, sp_sub(sp_add(sp_add(sp_mul(b0, c1), sp_mul(b1, c0)), sp_mul(b2, c3)), sp_mul(b3, c2)))), sp_mul(a3, sp_sub(sp_sub(sp_sub(sp_mul(b0, c0), sp_mul(b1, c1)), sp_mul(b2, c2)), sp_mul(b3, c3)))),
{
    let v = seq![a0, a1, a2, a3, b0, b1, b2, b3, c0, c1, c2, c3];
    assert(nf(xs(xs(xs(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), Ex::V(8)), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6))), Ex::V(9))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5))), Ex::V(10))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4))), Ex::V(11))), xs(xs(xs(xm(Ex::V(0), xs(xs(xs(xm(Ex::V(4), Ex::V(8)), xm(Ex::V(5), Ex::V(9))), xm(Ex::V(6), Ex::V(10))), xm(Ex::V(7), Ex::V(11)))), xm(Ex::V(1), xs(xa(xa(xm(Ex::V(4), Ex::V(9)), xm(Ex::V(5), Ex::V(8))), xm(Ex::V(6), Ex::V(11))), xm(Ex::V(7), Ex::V(10))))), xm(Ex::V(2), xa(xa(xs(xm(Ex::V(4), Ex::V(10)), xm(Ex::V(5), Ex::V(11))), xm(Ex::V(6), Ex::V(8))), xm(Ex::V(7), Ex::V(9))))), xm(Ex::V(3), xa(xs(xa(xm(Ex::V(4), Ex::V(11)), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(6), Ex::V(9))), xm(Ex::V(7), Ex::V(8))))))) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), Ex::V(8)), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6))), Ex::V(9))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5))), Ex::V(10))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4))), Ex::V(11))), xs(xs(xs(xm(Ex::V(0), xs(xs(xs(xm(Ex::V(4), Ex::V(8)), xm(Ex::V(5), Ex::V(9))), xm(Ex::V(6), Ex::V(10))), xm(Ex::V(7), Ex::V(11)))), xm(Ex::V(1), xs(xa(xa(xm(Ex::V(4), Ex::V(9)), xm(Ex::V(5), Ex::V(8))), xm(Ex::V(6), Ex::V(11))), xm(Ex::V(7), Ex::V(10))))), xm(Ex::V(2), xa(xa(xs(xm(Ex::V(4), Ex::V(10)), xm(Ex::V(5), Ex::V(11))), xm(Ex::V(6), Ex::V(8))), xm(Ex::V(7), Ex::V(9))))), xm(Ex::V(3), xa(xs(xa(xm(Ex::V(4), Ex::V(11)), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(6), Ex::V(9))), xm(Ex::V(7), Ex::V(8))))), v);
    assert(nf(xs(xs(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), Ex::V(9)), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6))), Ex::V(8))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5))), Ex::V(11))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4))), Ex::V(10))), xs(xa(xa(xm(Ex::V(0), xs(xa(xa(xm(Ex::V(4), Ex::V(9)), xm(Ex::V(5), Ex::V(8))), xm(Ex::V(6), Ex::V(11))), xm(Ex::V(7), Ex::V(10)))), xm(Ex::V(1), xs(xs(xs(xm(Ex::V(4), Ex::V(8)), xm(Ex::V(5), Ex::V(9))), xm(Ex::V(6), Ex::V(10))), xm(Ex::V(7), Ex::V(11))))), xm(Ex::V(2), xa(xs(xa(xm(Ex::V(4), Ex::V(11)), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(6), Ex::V(9))), xm(Ex::V(7), Ex::V(8))))), xm(Ex::V(3), xa(xa(xs(xm(Ex::V(4), Ex::V(10)), xm(Ex::V(5), Ex::V(11))), xm(Ex::V(6), Ex::V(8))), xm(Ex::V(7), Ex::V(9))))))) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), Ex::V(9)), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6))), Ex::V(8))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5))), Ex::V(11))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4))), Ex::V(10))), xs(xa(xa(xm(Ex::V(0), xs(xa(xa(xm(Ex::V(4), Ex::V(9)), xm(Ex::V(5), Ex::V(8))), xm(Ex::V(6), Ex::V(11))), xm(Ex::V(7), Ex::V(10)))), xm(Ex::V(1), xs(xs(xs(xm(Ex::V(4), Ex::V(8)), xm(Ex::V(5), Ex::V(9))), xm(Ex::V(6), Ex::V(10))), xm(Ex::V(7), Ex::V(11))))), xm(Ex::V(2), xa(xs(xa(xm(Ex::V(4), Ex::V(11)), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(6), Ex::V(9))), xm(Ex::V(7), Ex::V(8))))), xm(Ex::V(3), xa(xa(xs(xm(Ex::V(4), Ex::V(10)), xm(Ex::V(5), Ex::V(11))), xm(Ex::V(6), Ex::V(8))), xm(Ex::V(7), Ex::V(9))))), v);
    assert(nf(xs(xa(xa(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), Ex::V(10)), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6))), Ex::V(11))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5))), Ex::V(8))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4))), Ex::V(9))), xa(xa(xs(xm(Ex::V(0), xa(xa(xs(xm(Ex::V(4), Ex::V(10)), xm(Ex::V(5), Ex::V(11))), xm(Ex::V(6), Ex::V(8))), xm(Ex::V(7), Ex::V(9)))), xm(Ex::V(1), xa(xs(xa(xm(Ex::V(4), Ex::V(11)), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(6), Ex::V(9))), xm(Ex::V(7), Ex::V(8))))), xm(Ex::V(2), xs(xs(xs(xm(Ex::V(4), Ex::V(8)), xm(Ex::V(5), Ex::V(9))), xm(Ex::V(6), Ex::V(10))), xm(Ex::V(7), Ex::V(11))))), xm(Ex::V(3), xs(xa(xa(xm(Ex::V(4), Ex::V(9)), xm(Ex::V(5), Ex::V(8))), xm(Ex::V(6), Ex::V(11))), xm(Ex::V(7), Ex::V(10))))))) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), Ex::V(10)), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6))), Ex::V(11))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5))), Ex::V(8))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4))), Ex::V(9))), xa(xa(xs(xm(Ex::V(0), xa(xa(xs(xm(Ex::V(4), Ex::V(10)), xm(Ex::V(5), Ex::V(11))), xm(Ex::V(6), Ex::V(8))), xm(Ex::V(7), Ex::V(9)))), xm(Ex::V(1), xa(xs(xa(xm(Ex::V(4), Ex::V(11)), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(6), Ex::V(9))), xm(Ex::V(7), Ex::V(8))))), xm(Ex::V(2), xs(xs(xs(xm(Ex::V(4), Ex::V(8)), xm(Ex::V(5), Ex::V(9))), xm(Ex::V(6), Ex::V(10))), xm(Ex::V(7), Ex::V(11))))), xm(Ex::V(3), xs(xa(xa(xm(Ex::V(4), Ex::V(9)), xm(Ex::V(5), Ex::V(8))), xm(Ex::V(6), Ex::V(11))), xm(Ex::V(7), Ex::V(10))))), v);
    assert(nf(xs(xa(xs(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), Ex::V(11)), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6))), Ex::V(10))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5))), Ex::V(9))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4))), Ex::V(8))), xa(xs(xa(xm(Ex::V(0), xa(xs(xa(xm(Ex::V(4), Ex::V(11)), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(6), Ex::V(9))), xm(Ex::V(7), Ex::V(8)))), xm(Ex::V(1), xa(xa(xs(xm(Ex::V(4), Ex::V(10)), xm(Ex::V(5), Ex::V(11))), xm(Ex::V(6), Ex::V(8))), xm(Ex::V(7), Ex::V(9))))), xm(Ex::V(2), xs(xa(xa(xm(Ex::V(4), Ex::V(9)), xm(Ex::V(5), Ex::V(8))), xm(Ex::V(6), Ex::V(11))), xm(Ex::V(7), Ex::V(10))))), xm(Ex::V(3), xs(xs(xs(xm(Ex::V(4), Ex::V(8)), xm(Ex::V(5), Ex::V(9))), xm(Ex::V(6), Ex::V(10))), xm(Ex::V(7), Ex::V(11))))))) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), Ex::V(11)), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6))), Ex::V(10))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5))), Ex::V(9))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4))), Ex::V(8))), xa(xs(xa(xm(Ex::V(0), xa(xs(xa(xm(Ex::V(4), Ex::V(11)), xm(Ex::V(5), Ex::V(10))), xm(Ex::V(6), Ex::V(9))), xm(Ex::V(7), Ex::V(8)))), xm(Ex::V(1), xa(xa(xs(xm(Ex::V(4), Ex::V(10)), xm(Ex::V(5), Ex::V(11))), xm(Ex::V(6), Ex::V(8))), xm(Ex::V(7), Ex::V(9))))), xm(Ex::V(2), xs(xa(xa(xm(Ex::V(4), Ex::V(9)), xm(Ex::V(5), Ex::V(8))), xm(Ex::V(6), Ex::V(11))), xm(Ex::V(7), Ex::V(10))))), xm(Ex::V(3), xs(xs(xs(xm(Ex::V(4), Ex::V(8)), xm(Ex::V(5), Ex::V(9))), xm(Ex::V(6), Ex::V(10))), xm(Ex::V(7), Ex::V(11))))), v);
    reveal_with_fuel(ev, 11);
}
pub proof fn pl_q_distr<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T, b0: T, b1: T, b2: T, b3: T, c0: T, c1: T, c2: T, c3: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_sub(sp_sub(sp_mul(a0, sp_add(b0, c0)), sp_mul(a1, sp_add(b1, c1))), sp_mul(a2, sp_add(b2, c2))), sp_mul(a3, sp_add(b3, c3))) == sp_add(sp_sub(sp_sub(sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, b2)), sp_mul(a3, b3)), sp_sub(sp_sub(sp_sub(sp_mul(a0, c0), sp_mul(a1, c1)), sp_mul(a2, c2)), sp_mul(a3, c3))),
        sp_sub(sp_add(sp_add(sp_mul(a0, sp_add(b1, c1)), sp_mul(a1, sp_add(b0, c0))), sp_mul(a2, sp_add(b3, c3))), sp_mul(a3, sp_add(b2, c2))) == sp_add(sp_sub(sp_add(sp_add(sp_mul(a0, b1), sp_mul(a1, b0)), sp_mul(a2, b3)), sp_mul(a3, b2)), sp_sub(sp_add(sp_add(sp_mul(a0, c1), sp_mul(a1, c0)), sp_mul(a2, c3)), sp_mul(a3, c2))),
        sp_add(sp_add(sp_sub(sp_mul(a0, sp_add(b2, c2)), sp_mul(a1, sp_add(b3, c3))), sp_mul(a2, sp_add(b0, c0))), sp_mul(a3, sp_add(b1, c1))) == sp_add(sp_add(sp_add(sp_sub(sp_mul(a0, b2), sp_mul(a1, b3)), sp_mul(a2, b0)), sp_mul(a3, b1)), sp_add(sp_add(sp_sub(sp_mul(a0, c2), sp_mul(a1, c3)), sp_mul(a2, c0)), sp_mul(a3, c1))),
        sp_add(sp_sub(sp_add(sp_mul(a0, sp_add(b3, c3)), sp_mul(a1, sp_add(b2, c2))), sp_mul(a2, sp_add(b1, c1))), sp_mul(a3, sp_add(b0, c0))) == sp_add(sp_add(sp_sub(sp_add(sp_mul(a0, b3), sp_mul(a1, b2)), sp_mul(a2, b1)), sp_mul(a3, b0)), sp_add(sp_sub(sp_add(sp_mul(a0, c3), sp_mul(a1, c2)), sp_mul(a2, c1)), sp_mul(a3, c0))),
        sp_sub(sp_sub(sp_sub(sp_mul(sp_add(b0, c0), a0), sp_mul(sp_add(b1, c1), a1)), sp_mul(sp_add(b2, c2), a2)), sp_mul(sp_add(b3, c3), a3)) == sp_add(sp_sub(sp_sub(sp_sub(sp_mul(b0, a0), sp_mul(b1, a1)), sp_mul(b2, a2)), sp_mul(b3, a3)), sp_sub(sp_sub(sp_sub(sp_mul(c0, a0), sp_mul(c1, a1)), sp_mul(c2, a2)), sp_mul(c3, a3))),
        sp_sub(sp_add(sp_add(sp_mul(sp_add(b0, c0), a1), sp_mul(sp_add(b1, c1), a0)), sp_mul(sp_add(b2, c2), a3)), sp_mul(sp_add(b3, c3), a2)) == sp_add(sp_sub(sp_add(sp_add(sp_mul(b0, a1), sp_mul(b1, a0)), sp_mul(b2, a3)), sp_mul(b3, a2)), sp_sub(sp_add(sp_add(sp_mul(c0, a1), sp_mul(c1, a0)), sp_mul(c2, a3)), sp_mul(c3, a2))),
        sp_add(sp_add(sp_sub(sp_mul(sp_add(b0, c0), a2), sp_mul(sp_add(b1, c1), a3)), sp_mul(sp_add(b2, c2), a0)), sp_mul(sp_add(b3, c3), a1)) == sp_add(sp_add(sp_add(sp_sub(sp_mul(b0, a2), sp_mul(b1, a3)), sp_mul(b2, a0)), sp_mul(b3, a1)), sp_add(sp_add(sp_sub(sp_mul(c0, a2), sp_mul(c1, a3)), sp_mul(c2, a0)), sp_mul(c3, a1))),
        sp_add(sp_sub(sp_add(sp_mul(sp_add(b0, c0), a3), sp_mul(sp_add(b1, c1), a2)), sp_mul(sp_add(b2, c2), a1)), sp_mul(sp_add(b3, c3), a0)) == sp_add(sp_add(sp_sub(sp_add(sp_mul(b0, a3), sp_mul(b1, a2)), sp_mul(b2, a1)), sp_mul(b3, a0)), sp_add(sp_sub(sp_add(sp_mul(c0, a3), sp_mul(c1, a2)), sp_mul(c2, a1)), sp_mul(c3, a0))),
{
    let v = seq![a0, a1, a2, a3, b0, b1, b2, b3, c0, c1, c2, c3];
    assert(nf(xs(xs(xs(xs(xm(Ex::V(0), xa(Ex::V(4), Ex::V(8))), xm(Ex::V(1), xa(Ex::V(5), Ex::V(9)))), xm(Ex::V(2), xa(Ex::V(6), Ex::V(10)))), xm(Ex::V(3), xa(Ex::V(7), Ex::V(11)))), xa(xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xs(xs(xs(xm(Ex::V(0), Ex::V(8)), xm(Ex::V(1), Ex::V(9))), xm(Ex::V(2), Ex::V(10))), xm(Ex::V(3), Ex::V(11)))))) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(Ex::V(0), xa(Ex::V(4), Ex::V(8))), xm(Ex::V(1), xa(Ex::V(5), Ex::V(9)))), xm(Ex::V(2), xa(Ex::V(6), Ex::V(10)))), xm(Ex::V(3), xa(Ex::V(7), Ex::V(11)))), xa(xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xs(xs(xs(xm(Ex::V(0), Ex::V(8)), xm(Ex::V(1), Ex::V(9))), xm(Ex::V(2), Ex::V(10))), xm(Ex::V(3), Ex::V(11)))), v);
    assert(nf(xs(xs(xa(xa(xm(Ex::V(0), xa(Ex::V(5), Ex::V(9))), xm(Ex::V(1), xa(Ex::V(4), Ex::V(8)))), xm(Ex::V(2), xa(Ex::V(7), Ex::V(11)))), xm(Ex::V(3), xa(Ex::V(6), Ex::V(10)))), xa(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6))), xs(xa(xa(xm(Ex::V(0), Ex::V(9)), xm(Ex::V(1), Ex::V(8))), xm(Ex::V(2), Ex::V(11))), xm(Ex::V(3), Ex::V(10)))))) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(Ex::V(0), xa(Ex::V(5), Ex::V(9))), xm(Ex::V(1), xa(Ex::V(4), Ex::V(8)))), xm(Ex::V(2), xa(Ex::V(7), Ex::V(11)))), xm(Ex::V(3), xa(Ex::V(6), Ex::V(10)))), xa(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6))), xs(xa(xa(xm(Ex::V(0), Ex::V(9)), xm(Ex::V(1), Ex::V(8))), xm(Ex::V(2), Ex::V(11))), xm(Ex::V(3), Ex::V(10)))), v);
    assert(nf(xs(xa(xa(xs(xm(Ex::V(0), xa(Ex::V(6), Ex::V(10))), xm(Ex::V(1), xa(Ex::V(7), Ex::V(11)))), xm(Ex::V(2), xa(Ex::V(4), Ex::V(8)))), xm(Ex::V(3), xa(Ex::V(5), Ex::V(9)))), xa(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5))), xa(xa(xs(xm(Ex::V(0), Ex::V(10)), xm(Ex::V(1), Ex::V(11))), xm(Ex::V(2), Ex::V(8))), xm(Ex::V(3), Ex::V(9)))))) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(Ex::V(0), xa(Ex::V(6), Ex::V(10))), xm(Ex::V(1), xa(Ex::V(7), Ex::V(11)))), xm(Ex::V(2), xa(Ex::V(4), Ex::V(8)))), xm(Ex::V(3), xa(Ex::V(5), Ex::V(9)))), xa(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5))), xa(xa(xs(xm(Ex::V(0), Ex::V(10)), xm(Ex::V(1), Ex::V(11))), xm(Ex::V(2), Ex::V(8))), xm(Ex::V(3), Ex::V(9)))), v);
    assert(nf(xs(xa(xs(xa(xm(Ex::V(0), xa(Ex::V(7), Ex::V(11))), xm(Ex::V(1), xa(Ex::V(6), Ex::V(10)))), xm(Ex::V(2), xa(Ex::V(5), Ex::V(9)))), xm(Ex::V(3), xa(Ex::V(4), Ex::V(8)))), xa(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4))), xa(xs(xa(xm(Ex::V(0), Ex::V(11)), xm(Ex::V(1), Ex::V(10))), xm(Ex::V(2), Ex::V(9))), xm(Ex::V(3), Ex::V(8)))))) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(Ex::V(0), xa(Ex::V(7), Ex::V(11))), xm(Ex::V(1), xa(Ex::V(6), Ex::V(10)))), xm(Ex::V(2), xa(Ex::V(5), Ex::V(9)))), xm(Ex::V(3), xa(Ex::V(4), Ex::V(8)))), xa(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4))), xa(xs(xa(xm(Ex::V(0), Ex::V(11)), xm(Ex::V(1), Ex::V(10))), xm(Ex::V(2), Ex::V(9))), xm(Ex::V(3), Ex::V(8)))), v);
    assert(nf(xs(xs(xs(xs(xm(xa(Ex::V(4), Ex::V(8)), Ex::V(0)), xm(xa(Ex::V(5), Ex::V(9)), Ex::V(1))), xm(xa(Ex::V(6), Ex::V(10)), Ex::V(2))), xm(xa(Ex::V(7), Ex::V(11)), Ex::V(3))), xa(xs(xs(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1))), xm(Ex::V(6), Ex::V(2))), xm(Ex::V(7), Ex::V(3))), xs(xs(xs(xm(Ex::V(8), Ex::V(0)), xm(Ex::V(9), Ex::V(1))), xm(Ex::V(10), Ex::V(2))), xm(Ex::V(11), Ex::V(3)))))) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(xa(Ex::V(4), Ex::V(8)), Ex::V(0)), xm(xa(Ex::V(5), Ex::V(9)), Ex::V(1))), xm(xa(Ex::V(6), Ex::V(10)), Ex::V(2))), xm(xa(Ex::V(7), Ex::V(11)), Ex::V(3))), xa(xs(xs(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1))), xm(Ex::V(6), Ex::V(2))), xm(Ex::V(7), Ex::V(3))), xs(xs(xs(xm(Ex::V(8), Ex::V(0)), xm(Ex::V(9), Ex::V(1))), xm(Ex::V(10), Ex::V(2))), xm(Ex::V(11), Ex::V(3)))), v);
    assert(nf(xs(xs(xa(xa(xm(xa(Ex::V(4), Ex::V(8)), Ex::V(1)), xm(xa(Ex::V(5), Ex::V(9)), Ex::V(0))), xm(xa(Ex::V(6), Ex::V(10)), Ex::V(3))), xm(xa(Ex::V(7), Ex::V(11)), Ex::V(2))), xa(xs(xa(xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0))), xm(Ex::V(6), Ex::V(3))), xm(Ex::V(7), Ex::V(2))), xs(xa(xa(xm(Ex::V(8), Ex::V(1)), xm(Ex::V(9), Ex::V(0))), xm(Ex::V(10), Ex::V(3))), xm(Ex::V(11), Ex::V(2)))))) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(xa(Ex::V(4), Ex::V(8)), Ex::V(1)), xm(xa(Ex::V(5), Ex::V(9)), Ex::V(0))), xm(xa(Ex::V(6), Ex::V(10)), Ex::V(3))), xm(xa(Ex::V(7), Ex::V(11)), Ex::V(2))), xa(xs(xa(xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0))), xm(Ex::V(6), Ex::V(3))), xm(Ex::V(7), Ex::V(2))), xs(xa(xa(xm(Ex::V(8), Ex::V(1)), xm(Ex::V(9), Ex::V(0))), xm(Ex::V(10), Ex::V(3))), xm(Ex::V(11), Ex::V(2)))), v);
    assert(nf(xs(xa(xa(xs(xm(xa(Ex::V(4), Ex::V(8)), Ex::V(2)), xm(xa(Ex::V(5), Ex::V(9)), Ex::V(3))), xm(xa(Ex::V(6), Ex::V(10)), Ex::V(0))), xm(xa(Ex::V(7), Ex::V(11)), Ex::V(1))), xa(xa(xa(xs(xm(Ex::V(4), Ex::V(2)), xm(Ex::V(5), Ex::V(3))), xm(Ex::V(6), Ex::V(0))), xm(Ex::V(7), Ex::V(1))), xa(xa(xs(xm(Ex::V(8), Ex::V(2)), xm(Ex::V(9), Ex::V(3))), xm(Ex::V(10), Ex::V(0))), xm(Ex::V(11), Ex::V(1)))))) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(xa(Ex::V(4), Ex::V(8)), Ex::V(2)), xm(xa(Ex::V(5), Ex::V(9)), Ex::V(3))), xm(xa(Ex::V(6), Ex::V(10)), Ex::V(0))), xm(xa(Ex::V(7), Ex::V(11)), Ex::V(1))), xa(xa(xa(xs(xm(Ex::V(4), Ex::V(2)), xm(Ex::V(5), Ex::V(3))), xm(Ex::V(6), Ex::V(0))), xm(Ex::V(7), Ex::V(1))), xa(xa(xs(xm(Ex::V(8), Ex::V(2)), xm(Ex::V(9), Ex::V(3))), xm(Ex::V(10), Ex::V(0))), xm(Ex::V(11), Ex::V(1)))), v);
    assert(nf(xs(xa(xs(xa(xm(xa(Ex::V(4), Ex::V(8)), Ex::V(3)), xm(xa(Ex::V(5), Ex::V(9)), Ex::V(2))), xm(xa(Ex::V(6), Ex::V(10)), Ex::V(1))), xm(xa(Ex::V(7), Ex::V(11)), Ex::V(0))), xa(xa(xs(xa(xm(Ex::V(4), Ex::V(3)), xm(Ex::V(5), Ex::V(2))), xm(Ex::V(6), Ex::V(1))), xm(Ex::V(7), Ex::V(0))), xa(xs(xa(xm(Ex::V(8), Ex::V(3)), xm(Ex::V(9), Ex::V(2))), xm(Ex::V(10), Ex::V(1))), xm(Ex::V(11), Ex::V(0)))))) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(xa(Ex::V(4), Ex::V(8)), Ex::V(3)), xm(xa(Ex::V(5), Ex::V(9)), Ex::V(2))), xm(xa(Ex::V(6), Ex::V(10)), Ex::V(1))), xm(xa(Ex::V(7), Ex::V(11)), Ex::V(0))), xa(xa(xs(xa(xm(Ex::V(4), Ex::V(3)), xm(Ex::V(5), Ex::V(2))), xm(Ex::V(6), Ex::V(1))), xm(Ex::V(7), Ex::V(0))), xa(xs(xa(xm(Ex::V(8), Ex::V(3)), xm(Ex::V(9), Ex::V(2))), xm(Ex::V(10), Ex::V(1))), xm(Ex::V(11), Ex::V(0)))), v);
    reveal_with_fuel(ev, 8);
}
pub proof fn pl_q_unit<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_sub(sp_sub(sp_mul(T::one_spec(), a0), sp_mul(T::zero_spec(), a1)), sp_mul(T::zero_spec(), a2)), sp_mul(T::zero_spec(), a3)) == a0,
        sp_sub(sp_add(sp_add(sp_mul(T::one_spec(), a1), sp_mul(T::zero_spec(), a0)), sp_mul(T::zero_spec(), a3)), sp_mul(T::zero_spec(), a2)) == a1,
        sp_add(sp_add(sp_sub(sp_mul(T::one_spec(), a2), sp_mul(T::zero_spec(), a3)), sp_mul(T::zero_spec(), a0)), sp_mul(T::zero_spec(), a1)) == a2,
        sp_add(sp_sub(sp_add(sp_mul(T::one_spec(), a3), sp_mul(T::zero_spec(), a2)), sp_mul(T::zero_spec(), a1)), sp_mul(T::zero_spec(), a0)) == a3,
        sp_sub(sp_sub(sp_sub(sp_mul(a0, T::one_spec()), sp_mul(a1, T::zero_spec())), sp_mul(a2, T::zero_spec())), sp_mul(a3, T::zero_spec())) == a0,
        sp_sub(sp_add(sp_add(sp_mul(a0, T::zero_spec()), sp_mul(a1, T::one_spec())), sp_mul(a2, T::zero_spec())), sp_mul(a3, T::zero_spec())) == a1,
        sp_add(sp_add(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, T::zero_spec())), sp_mul(a2, T::one_spec())), sp_mul(a3, T::zero_spec())) == a2,
        sp_add(sp_sub(sp_add(sp_mul(a0, T::zero_spec()), sp_mul(a1, T::zero_spec())), sp_mul(a2, T::zero_spec())), sp_mul(a3, T::one_spec())) == a3,
{
    let v = seq![a0, a1, a2, a3];
    assert(nf(xs(xs(xs(xs(xm(Ex::I, Ex::V(0)), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(3))), Ex::V(0))) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(Ex::I, Ex::V(0)), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(3))), Ex::V(0), v);
    assert(nf(xs(xs(xa(xa(xm(Ex::I, Ex::V(1)), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::V(3))), xm(Ex::Z, Ex::V(2))), Ex::V(1))) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(Ex::I, Ex::V(1)), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::V(3))), xm(Ex::Z, Ex::V(2))), Ex::V(1), v);
    assert(nf(xs(xa(xa(xs(xm(Ex::I, Ex::V(2)), xm(Ex::Z, Ex::V(3))), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::V(1))), Ex::V(2))) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(Ex::I, Ex::V(2)), xm(Ex::Z, Ex::V(3))), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::V(1))), Ex::V(2), v);
    assert(nf(xs(xa(xs(xa(xm(Ex::I, Ex::V(3)), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(0))), Ex::V(3))) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(Ex::I, Ex::V(3)), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(0))), Ex::V(3), v);
    assert(nf(xs(xs(xs(xs(xm(Ex::V(0), Ex::I), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::Z)), Ex::V(0))) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(Ex::V(0), Ex::I), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::Z)), Ex::V(0), v);
    assert(nf(xs(xs(xa(xa(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::I)), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::Z)), Ex::V(1))) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::I)), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::Z)), Ex::V(1), v);
    assert(nf(xs(xa(xa(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::I)), xm(Ex::V(3), Ex::Z)), Ex::V(2))) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::I)), xm(Ex::V(3), Ex::Z)), Ex::V(2), v);
    assert(nf(xs(xa(xs(xa(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::I)), Ex::V(3))) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::I)), Ex::V(3), v);
    reveal_with_fuel(ev, 7);
}
pub proof fn pl_q_table<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_sub(sp_sub(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(T::one_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::one_spec())), sp_mul(T::zero_spec(), T::zero_spec())) == T::zero_spec(),
        sp_sub(sp_add(sp_add(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(T::one_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::one_spec())) == T::zero_spec(),
        sp_add(sp_add(sp_sub(sp_mul(T::zero_spec(), T::one_spec()), sp_mul(T::one_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::zero_spec())) == T::zero_spec(),
        sp_add(sp_sub(sp_add(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(T::one_spec(), T::one_spec())), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::zero_spec())) == T::one_spec(),
        sp_sub(sp_sub(sp_sub(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::one_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::one_spec())) == T::zero_spec(),
        sp_sub(sp_add(sp_add(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::one_spec(), T::one_spec())), sp_mul(T::zero_spec(), T::zero_spec())) == T::one_spec(),
        sp_add(sp_add(sp_sub(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(T::zero_spec(), T::one_spec())), sp_mul(T::one_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::zero_spec())) == T::zero_spec(),
        sp_add(sp_sub(sp_add(sp_mul(T::zero_spec(), T::one_spec()), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::one_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::zero_spec())) == T::zero_spec(),
        sp_sub(sp_sub(sp_sub(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(T::zero_spec(), T::one_spec())), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::one_spec(), T::zero_spec())) == T::zero_spec(),
        sp_sub(sp_add(sp_add(sp_mul(T::zero_spec(), T::one_spec()), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::one_spec(), T::zero_spec())) == T::zero_spec(),
        sp_add(sp_add(sp_sub(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::one_spec(), T::one_spec())) == T::one_spec(),
        sp_add(sp_sub(sp_add(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::one_spec())), sp_mul(T::one_spec(), T::zero_spec())) == T::zero_spec(),
        sp_sub(sp_sub(sp_sub(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(T::one_spec(), T::one_spec())), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::zero_spec())) == sp_neg(T::one_spec()),
        sp_sub(sp_add(sp_add(sp_mul(T::zero_spec(), T::one_spec()), sp_mul(T::one_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::zero_spec())) == T::zero_spec(),
        sp_add(sp_add(sp_sub(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(T::one_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::one_spec())) == T::zero_spec(),
        sp_add(sp_sub(sp_add(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(T::one_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::one_spec())), sp_mul(T::zero_spec(), T::zero_spec())) == T::zero_spec(),
        sp_sub(sp_sub(sp_sub(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::one_spec(), T::one_spec())), sp_mul(T::zero_spec(), T::zero_spec())) == sp_neg(T::one_spec()),
        sp_sub(sp_add(sp_add(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::one_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::one_spec())) == T::zero_spec(),
        sp_add(sp_add(sp_sub(sp_mul(T::zero_spec(), T::one_spec()), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::one_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::zero_spec())) == T::zero_spec(),
        sp_add(sp_sub(sp_add(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(T::zero_spec(), T::one_spec())), sp_mul(T::one_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::zero_spec())) == T::zero_spec(),
        sp_sub(sp_sub(sp_sub(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::one_spec(), T::one_spec())) == sp_neg(T::one_spec()),
        sp_sub(sp_add(sp_add(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::one_spec())), sp_mul(T::one_spec(), T::zero_spec())) == T::zero_spec(),
        sp_add(sp_add(sp_sub(sp_mul(T::zero_spec(), T::zero_spec()), sp_mul(T::zero_spec(), T::one_spec())), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::one_spec(), T::zero_spec())) == T::zero_spec(),
        sp_add(sp_sub(sp_add(sp_mul(T::zero_spec(), T::one_spec()), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::one_spec(), T::zero_spec())) == T::zero_spec(),
{
    let v = seq![a0, a1, a2, a3];
    assert(nf(xs(xs(xs(xs(xm(Ex::Z, Ex::Z), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::I)), xm(Ex::Z, Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(Ex::Z, Ex::Z), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::I)), xm(Ex::Z, Ex::Z)), Ex::Z, v);
    assert(nf(xs(xs(xa(xa(xm(Ex::Z, Ex::Z), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::I)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(Ex::Z, Ex::Z), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::I)), Ex::Z, v);
    assert(nf(xs(xa(xa(xs(xm(Ex::Z, Ex::I), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(Ex::Z, Ex::I), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), Ex::Z, v);
    assert(nf(xs(xa(xs(xa(xm(Ex::Z, Ex::Z), xm(Ex::I, Ex::I)), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), Ex::I)) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(Ex::Z, Ex::Z), xm(Ex::I, Ex::I)), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), Ex::I, v);
    assert(nf(xs(xs(xs(xs(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::I)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::I)), Ex::Z, v);
    assert(nf(xs(xs(xa(xa(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::I)), xm(Ex::Z, Ex::Z)), Ex::I)) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::I)), xm(Ex::Z, Ex::Z)), Ex::I, v);
    assert(nf(xs(xa(xa(xs(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::I)), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::I)), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::Z)), Ex::Z, v);
    assert(nf(xs(xa(xs(xa(xm(Ex::Z, Ex::I), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(Ex::Z, Ex::I), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::Z)), Ex::Z, v);
    assert(nf(xs(xs(xs(xs(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::I)), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::I)), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::Z)), Ex::Z, v);
    assert(nf(xs(xs(xa(xa(xm(Ex::Z, Ex::I), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(Ex::Z, Ex::I), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::Z)), Ex::Z, v);
    assert(nf(xs(xa(xa(xs(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::I)), Ex::I)) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::I)), Ex::I, v);
    assert(nf(xs(xa(xs(xa(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::I)), xm(Ex::I, Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::I)), xm(Ex::I, Ex::Z)), Ex::Z, v);
    assert(nf(xs(xs(xs(xs(xm(Ex::Z, Ex::Z), xm(Ex::I, Ex::I)), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), xn(Ex::I))) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(Ex::Z, Ex::Z), xm(Ex::I, Ex::I)), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), xn(Ex::I), v);
    assert(nf(xs(xs(xa(xa(xm(Ex::Z, Ex::I), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(Ex::Z, Ex::I), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), Ex::Z, v);
    assert(nf(xs(xa(xa(xs(xm(Ex::Z, Ex::Z), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::I)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(Ex::Z, Ex::Z), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::I)), Ex::Z, v);
    assert(nf(xs(xa(xs(xa(xm(Ex::Z, Ex::Z), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::I)), xm(Ex::Z, Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(Ex::Z, Ex::Z), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::I)), xm(Ex::Z, Ex::Z)), Ex::Z, v);
    assert(nf(xs(xs(xs(xs(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::I)), xm(Ex::Z, Ex::Z)), xn(Ex::I))) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::I)), xm(Ex::Z, Ex::Z)), xn(Ex::I), v);
    assert(nf(xs(xs(xa(xa(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::I)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::I)), Ex::Z, v);
    assert(nf(xs(xa(xa(xs(xm(Ex::Z, Ex::I), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(Ex::Z, Ex::I), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::Z)), Ex::Z, v);
    assert(nf(xs(xa(xs(xa(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::I)), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::I)), xm(Ex::I, Ex::Z)), xm(Ex::Z, Ex::Z)), Ex::Z, v);
    assert(nf(xs(xs(xs(xs(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::I)), xn(Ex::I))) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::I)), xn(Ex::I), v);
    assert(nf(xs(xs(xa(xa(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::I)), xm(Ex::I, Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::I)), xm(Ex::I, Ex::Z)), Ex::Z, v);
    assert(nf(xs(xa(xa(xs(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::I)), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(Ex::Z, Ex::Z), xm(Ex::Z, Ex::I)), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::Z)), Ex::Z, v);
    assert(nf(xs(xa(xs(xa(xm(Ex::Z, Ex::I), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(Ex::Z, Ex::I), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), xm(Ex::I, Ex::Z)), Ex::Z, v);
    reveal_with_fuel(ev, 7);
}
pub proof fn pl_q_conj<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T, b0: T, b1: T, b2: T, b3: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_sub(sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, b2)), sp_mul(a3, b3)) == sp_sub(sp_sub(sp_sub(sp_mul(b0, a0), sp_mul(sp_neg(b1), sp_neg(a1))), sp_mul(sp_neg(b2), sp_neg(a2))), sp_mul(sp_neg(b3), sp_neg(a3))),
        sp_neg(sp_sub(sp_add(sp_add(sp_mul(a0, b1), sp_mul(a1, b0)), sp_mul(a2, b3)), sp_mul(a3, b2))) == sp_sub(sp_add(sp_add(sp_mul(b0, sp_neg(a1)), sp_mul(sp_neg(b1), a0)), sp_mul(sp_neg(b2), sp_neg(a3))), sp_mul(sp_neg(b3), sp_neg(a2))),
        sp_neg(sp_add(sp_add(sp_sub(sp_mul(a0, b2), sp_mul(a1, b3)), sp_mul(a2, b0)), sp_mul(a3, b1))) == sp_add(sp_add(sp_sub(sp_mul(b0, sp_neg(a2)), sp_mul(sp_neg(b1), sp_neg(a3))), sp_mul(sp_neg(b2), a0)), sp_mul(sp_neg(b3), sp_neg(a1))),
        sp_neg(sp_add(sp_sub(sp_add(sp_mul(a0, b3), sp_mul(a1, b2)), sp_mul(a2, b1)), sp_mul(a3, b0))) == sp_add(sp_sub(sp_add(sp_mul(b0, sp_neg(a3)), sp_mul(sp_neg(b1), sp_neg(a2))), sp_mul(sp_neg(b2), sp_neg(a1))), sp_mul(sp_neg(b3), a0)),
        sp_sub(sp_sub(sp_sub(sp_mul(a0, a0), sp_mul(a1, sp_neg(a1))), sp_mul(a2, sp_neg(a2))), sp_mul(a3, sp_neg(a3))) == sp_add(sp_add(sp_add(sp_mul(a0, a0), sp_mul(a1, a1)), sp_mul(a2, a2)), sp_mul(a3, a3)),
        sp_sub(sp_add(sp_add(sp_mul(a0, sp_neg(a1)), sp_mul(a1, a0)), sp_mul(a2, sp_neg(a3))), sp_mul(a3, sp_neg(a2))) == T::zero_spec(),
        sp_add(sp_add(sp_sub(sp_mul(a0, sp_neg(a2)), sp_mul(a1, sp_neg(a3))), sp_mul(a2, a0)), sp_mul(a3, sp_neg(a1))) == T::zero_spec(),
        sp_add(sp_sub(sp_add(sp_mul(a0, sp_neg(a3)), sp_mul(a1, sp_neg(a2))), sp_mul(a2, sp_neg(a1))), sp_mul(a3, a0)) == T::zero_spec(),
        sp_sub(sp_sub(sp_sub(sp_mul(a0, a0), sp_mul(sp_neg(a1), a1)), sp_mul(sp_neg(a2), a2)), sp_mul(sp_neg(a3), a3)) == sp_add(sp_add(sp_add(sp_mul(a0, a0), sp_mul(a1, a1)), sp_mul(a2, a2)), sp_mul(a3, a3)),
        sp_sub(sp_add(sp_add(sp_mul(a0, a1), sp_mul(sp_neg(a1), a0)), sp_mul(sp_neg(a2), a3)), sp_mul(sp_neg(a3), a2)) == T::zero_spec(),
        sp_add(sp_add(sp_sub(sp_mul(a0, a2), sp_mul(sp_neg(a1), a3)), sp_mul(sp_neg(a2), a0)), sp_mul(sp_neg(a3), a1)) == T::zero_spec(),
        sp_add(sp_sub(sp_add(sp_mul(a0, a3), sp_mul(sp_neg(a1), a2)), sp_mul(sp_neg(a2), a1)), sp_mul(sp_neg(a3), a0)) == T::zero_spec(),
{
    let v = seq![a0, a1, a2, a3, b0, b1, b2, b3];
    assert(nf(xs(xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xs(xs(xs(xm(Ex::V(4), Ex::V(0)), xm(xn(Ex::V(5)), xn(Ex::V(1)))), xm(xn(Ex::V(6)), xn(Ex::V(2)))), xm(xn(Ex::V(7)), xn(Ex::V(3)))))) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xs(xs(xs(xm(Ex::V(4), Ex::V(0)), xm(xn(Ex::V(5)), xn(Ex::V(1)))), xm(xn(Ex::V(6)), xn(Ex::V(2)))), xm(xn(Ex::V(7)), xn(Ex::V(3)))), v);
    assert(nf(xs(xn(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6)))), xs(xa(xa(xm(Ex::V(4), xn(Ex::V(1))), xm(xn(Ex::V(5)), Ex::V(0))), xm(xn(Ex::V(6)), xn(Ex::V(3)))), xm(xn(Ex::V(7)), xn(Ex::V(2)))))) == Li::E) by(compute_only); poly_eq(xn(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6)))), xs(xa(xa(xm(Ex::V(4), xn(Ex::V(1))), xm(xn(Ex::V(5)), Ex::V(0))), xm(xn(Ex::V(6)), xn(Ex::V(3)))), xm(xn(Ex::V(7)), xn(Ex::V(2)))), v);
    assert(nf(xs(xn(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5)))), xa(xa(xs(xm(Ex::V(4), xn(Ex::V(2))), xm(xn(Ex::V(5)), xn(Ex::V(3)))), xm(xn(Ex::V(6)), Ex::V(0))), xm(xn(Ex::V(7)), xn(Ex::V(1)))))) == Li::E) by(compute_only); poly_eq(xn(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5)))), xa(xa(xs(xm(Ex::V(4), xn(Ex::V(2))), xm(xn(Ex::V(5)), xn(Ex::V(3)))), xm(xn(Ex::V(6)), Ex::V(0))), xm(xn(Ex::V(7)), xn(Ex::V(1)))), v);
    assert(nf(xs(xn(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4)))), xa(xs(xa(xm(Ex::V(4), xn(Ex::V(3))), xm(xn(Ex::V(5)), xn(Ex::V(2)))), xm(xn(Ex::V(6)), xn(Ex::V(1)))), xm(xn(Ex::V(7)), Ex::V(0))))) == Li::E) by(compute_only); poly_eq(xn(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4)))), xa(xs(xa(xm(Ex::V(4), xn(Ex::V(3))), xm(xn(Ex::V(5)), xn(Ex::V(2)))), xm(xn(Ex::V(6)), xn(Ex::V(1)))), xm(xn(Ex::V(7)), Ex::V(0))), v);
    assert(nf(xs(xs(xs(xs(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), xn(Ex::V(1)))), xm(Ex::V(2), xn(Ex::V(2)))), xm(Ex::V(3), xn(Ex::V(3)))), xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))))) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), xn(Ex::V(1)))), xm(Ex::V(2), xn(Ex::V(2)))), xm(Ex::V(3), xn(Ex::V(3)))), xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))), v);
    assert(nf(xs(xs(xa(xa(xm(Ex::V(0), xn(Ex::V(1))), xm(Ex::V(1), Ex::V(0))), xm(Ex::V(2), xn(Ex::V(3)))), xm(Ex::V(3), xn(Ex::V(2)))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(Ex::V(0), xn(Ex::V(1))), xm(Ex::V(1), Ex::V(0))), xm(Ex::V(2), xn(Ex::V(3)))), xm(Ex::V(3), xn(Ex::V(2)))), Ex::Z, v);
    assert(nf(xs(xa(xa(xs(xm(Ex::V(0), xn(Ex::V(2))), xm(Ex::V(1), xn(Ex::V(3)))), xm(Ex::V(2), Ex::V(0))), xm(Ex::V(3), xn(Ex::V(1)))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(Ex::V(0), xn(Ex::V(2))), xm(Ex::V(1), xn(Ex::V(3)))), xm(Ex::V(2), Ex::V(0))), xm(Ex::V(3), xn(Ex::V(1)))), Ex::Z, v);
    assert(nf(xs(xa(xs(xa(xm(Ex::V(0), xn(Ex::V(3))), xm(Ex::V(1), xn(Ex::V(2)))), xm(Ex::V(2), xn(Ex::V(1)))), xm(Ex::V(3), Ex::V(0))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(Ex::V(0), xn(Ex::V(3))), xm(Ex::V(1), xn(Ex::V(2)))), xm(Ex::V(2), xn(Ex::V(1)))), xm(Ex::V(3), Ex::V(0))), Ex::Z, v);
    assert(nf(xs(xs(xs(xs(xm(Ex::V(0), Ex::V(0)), xm(xn(Ex::V(1)), Ex::V(1))), xm(xn(Ex::V(2)), Ex::V(2))), xm(xn(Ex::V(3)), Ex::V(3))), xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))))) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(Ex::V(0), Ex::V(0)), xm(xn(Ex::V(1)), Ex::V(1))), xm(xn(Ex::V(2)), Ex::V(2))), xm(xn(Ex::V(3)), Ex::V(3))), xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))), v);
    assert(nf(xs(xs(xa(xa(xm(Ex::V(0), Ex::V(1)), xm(xn(Ex::V(1)), Ex::V(0))), xm(xn(Ex::V(2)), Ex::V(3))), xm(xn(Ex::V(3)), Ex::V(2))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(Ex::V(0), Ex::V(1)), xm(xn(Ex::V(1)), Ex::V(0))), xm(xn(Ex::V(2)), Ex::V(3))), xm(xn(Ex::V(3)), Ex::V(2))), Ex::Z, v);
    assert(nf(xs(xa(xa(xs(xm(Ex::V(0), Ex::V(2)), xm(xn(Ex::V(1)), Ex::V(3))), xm(xn(Ex::V(2)), Ex::V(0))), xm(xn(Ex::V(3)), Ex::V(1))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(Ex::V(0), Ex::V(2)), xm(xn(Ex::V(1)), Ex::V(3))), xm(xn(Ex::V(2)), Ex::V(0))), xm(xn(Ex::V(3)), Ex::V(1))), Ex::Z, v);
    assert(nf(xs(xa(xs(xa(xm(Ex::V(0), Ex::V(3)), xm(xn(Ex::V(1)), Ex::V(2))), xm(xn(Ex::V(2)), Ex::V(1))), xm(xn(Ex::V(3)), Ex::V(0))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(Ex::V(0), Ex::V(3)), xm(xn(Ex::V(1)), Ex::V(2))), xm(xn(Ex::V(2)), Ex::V(1))), xm(xn(Ex::V(3)), Ex::V(0))), Ex::Z, v);
    reveal_with_fuel(ev, 8);
}
pub proof fn pl_q_nsq<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T, b0: T, b1: T, b2: T, b3: T) requires is_cring::<T>()
    ensures
        sp_add(sp_add(sp_add(sp_mul(sp_sub(sp_sub(sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, b2)), sp_mul(a3, b3)), sp_sub(sp_sub(sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, b2)), sp_mul(a3, b3))), sp_mul(sp_sub(sp_add(sp_add(sp_mul(a0, b1), sp_mul(a1, b0)), sp_mul(a2, b3)), sp_mul(a3, b2)), sp_sub(sp_add(sp_add(sp_mul(a0, b1), sp_mul(a1, b0)), sp_mul(a2, b3)), sp_mul(a3, b2)))), sp_mul(sp_add(sp_add(sp_sub(sp_mul(a0, b2), sp_mul(a1, b3)), sp_mul(a2, b0)), sp_mul(a3, b1)), sp_add(sp_add(sp_sub(sp_mul(a0, b2), sp_mul(a1, b3)), sp_mul(a2, b0)), sp_mul(a3, b1)))), sp_mul(sp_add(sp_sub(sp_add(sp_mul(a0, b3), sp_mul(a1, b2)), sp_mul(a2, b1)), sp_mul(a3, b0)), sp_add(sp_sub(sp_add(sp_mul(a0, b3), sp_mul(a1, b2)), sp_mul(a2, b1)), sp_mul(a3, b0)))) == sp_mul(sp_add(sp_add(sp_add(sp_mul(a0, a0), sp_mul(a1, a1)), sp_mul(a2, a2)), sp_mul(a3, a3)), sp_add(sp_add(sp_add(sp_mul(b0, b0), sp_mul(b1, b1)), sp_mul(b2, b2)), sp_mul(b3, b3))),
{
    let v = seq![a0, a1, a2, a3, b0, b1, b2, b3];
    assert(nf(xs(xa(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7)))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6))), xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6))))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5))), xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5))))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4))), xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4))))), xm(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))), xa(xa(xa(xm(Ex::V(4), Ex::V(4)), xm(Ex::V(5), Ex::V(5))), xm(Ex::V(6), Ex::V(6))), xm(Ex::V(7), Ex::V(7)))))) == Li::E) by(compute_only); poly_eq(xa(xa(xa(xm(xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7)))), xm(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6))), xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6))))), xm(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5))), xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5))))), xm(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4))), xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4))))), xm(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))), xa(xa(xa(xm(Ex::V(4), Ex::V(4)), xm(Ex::V(5), Ex::V(5))), xm(Ex::V(6), Ex::V(6))), xm(Ex::V(7), Ex::V(7)))), v);
    reveal_with_fuel(ev, 11);
}
pub proof fn pl_q_mulinv<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T, y: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_sub(sp_sub(sp_mul(a0, sp_mul(a0, y)), sp_mul(a1, sp_mul(sp_neg(a1), y))), sp_mul(a2, sp_mul(sp_neg(a2), y))), sp_mul(a3, sp_mul(sp_neg(a3), y))) == sp_mul(sp_add(sp_add(sp_add(sp_mul(a0, a0), sp_mul(a1, a1)), sp_mul(a2, a2)), sp_mul(a3, a3)), y),
        sp_sub(sp_add(sp_add(sp_mul(a0, sp_mul(sp_neg(a1), y)), sp_mul(a1, sp_mul(a0, y))), sp_mul(a2, sp_mul(sp_neg(a3), y))), sp_mul(a3, sp_mul(sp_neg(a2), y))) == T::zero_spec(),
        sp_add(sp_add(sp_sub(sp_mul(a0, sp_mul(sp_neg(a2), y)), sp_mul(a1, sp_mul(sp_neg(a3), y))), sp_mul(a2, sp_mul(a0, y))), sp_mul(a3, sp_mul(sp_neg(a1), y))) == T::zero_spec(),
        sp_add(sp_sub(sp_add(sp_mul(a0, sp_mul(sp_neg(a3), y)), sp_mul(a1, sp_mul(sp_neg(a2), y))), sp_mul(a2, sp_mul(sp_neg(a1), y))), sp_mul(a3, sp_mul(a0, y))) == T::zero_spec(),
        sp_sub(sp_sub(sp_sub(sp_mul(sp_mul(a0, y), a0), sp_mul(sp_mul(sp_neg(a1), y), a1)), sp_mul(sp_mul(sp_neg(a2), y), a2)), sp_mul(sp_mul(sp_neg(a3), y), a3)) == sp_mul(sp_add(sp_add(sp_add(sp_mul(a0, a0), sp_mul(a1, a1)), sp_mul(a2, a2)), sp_mul(a3, a3)), y),
        sp_sub(sp_add(sp_add(sp_mul(sp_mul(a0, y), a1), sp_mul(sp_mul(sp_neg(a1), y), a0)), sp_mul(sp_mul(sp_neg(a2), y), a3)), sp_mul(sp_mul(sp_neg(a3), y), a2)) == T::zero_spec(),
        sp_add(sp_add(sp_sub(sp_mul(sp_mul(a0, y), a2), sp_mul(sp_mul(sp_neg(a1), y), a3)), sp_mul(sp_mul(sp_neg(a2), y), a0)), sp_mul(sp_mul(sp_neg(a3), y), a1)) == T::zero_spec(),
        sp_add(sp_sub(sp_add(sp_mul(sp_mul(a0, y), a3), sp_mul(sp_mul(sp_neg(a1), y), a2)), sp_mul(sp_mul(sp_neg(a2), y), a1)), sp_mul(sp_mul(sp_neg(a3), y), a0)) == T::zero_spec(),
{
    let v = seq![a0, a1, a2, a3, y];
    assert(nf(xs(xs(xs(xs(xm(Ex::V(0), xm(Ex::V(0), Ex::V(4))), xm(Ex::V(1), xm(xn(Ex::V(1)), Ex::V(4)))), xm(Ex::V(2), xm(xn(Ex::V(2)), Ex::V(4)))), xm(Ex::V(3), xm(xn(Ex::V(3)), Ex::V(4)))), xm(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))), Ex::V(4)))) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(Ex::V(0), xm(Ex::V(0), Ex::V(4))), xm(Ex::V(1), xm(xn(Ex::V(1)), Ex::V(4)))), xm(Ex::V(2), xm(xn(Ex::V(2)), Ex::V(4)))), xm(Ex::V(3), xm(xn(Ex::V(3)), Ex::V(4)))), xm(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))), Ex::V(4)), v);
    assert(nf(xs(xs(xa(xa(xm(Ex::V(0), xm(xn(Ex::V(1)), Ex::V(4))), xm(Ex::V(1), xm(Ex::V(0), Ex::V(4)))), xm(Ex::V(2), xm(xn(Ex::V(3)), Ex::V(4)))), xm(Ex::V(3), xm(xn(Ex::V(2)), Ex::V(4)))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(Ex::V(0), xm(xn(Ex::V(1)), Ex::V(4))), xm(Ex::V(1), xm(Ex::V(0), Ex::V(4)))), xm(Ex::V(2), xm(xn(Ex::V(3)), Ex::V(4)))), xm(Ex::V(3), xm(xn(Ex::V(2)), Ex::V(4)))), Ex::Z, v);
    assert(nf(xs(xa(xa(xs(xm(Ex::V(0), xm(xn(Ex::V(2)), Ex::V(4))), xm(Ex::V(1), xm(xn(Ex::V(3)), Ex::V(4)))), xm(Ex::V(2), xm(Ex::V(0), Ex::V(4)))), xm(Ex::V(3), xm(xn(Ex::V(1)), Ex::V(4)))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(Ex::V(0), xm(xn(Ex::V(2)), Ex::V(4))), xm(Ex::V(1), xm(xn(Ex::V(3)), Ex::V(4)))), xm(Ex::V(2), xm(Ex::V(0), Ex::V(4)))), xm(Ex::V(3), xm(xn(Ex::V(1)), Ex::V(4)))), Ex::Z, v);
    assert(nf(xs(xa(xs(xa(xm(Ex::V(0), xm(xn(Ex::V(3)), Ex::V(4))), xm(Ex::V(1), xm(xn(Ex::V(2)), Ex::V(4)))), xm(Ex::V(2), xm(xn(Ex::V(1)), Ex::V(4)))), xm(Ex::V(3), xm(Ex::V(0), Ex::V(4)))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(Ex::V(0), xm(xn(Ex::V(3)), Ex::V(4))), xm(Ex::V(1), xm(xn(Ex::V(2)), Ex::V(4)))), xm(Ex::V(2), xm(xn(Ex::V(1)), Ex::V(4)))), xm(Ex::V(3), xm(Ex::V(0), Ex::V(4)))), Ex::Z, v);
    assert(nf(xs(xs(xs(xs(xm(xm(Ex::V(0), Ex::V(4)), Ex::V(0)), xm(xm(xn(Ex::V(1)), Ex::V(4)), Ex::V(1))), xm(xm(xn(Ex::V(2)), Ex::V(4)), Ex::V(2))), xm(xm(xn(Ex::V(3)), Ex::V(4)), Ex::V(3))), xm(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))), Ex::V(4)))) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(xm(Ex::V(0), Ex::V(4)), Ex::V(0)), xm(xm(xn(Ex::V(1)), Ex::V(4)), Ex::V(1))), xm(xm(xn(Ex::V(2)), Ex::V(4)), Ex::V(2))), xm(xm(xn(Ex::V(3)), Ex::V(4)), Ex::V(3))), xm(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::V(2), Ex::V(2))), xm(Ex::V(3), Ex::V(3))), Ex::V(4)), v);
    assert(nf(xs(xs(xa(xa(xm(xm(Ex::V(0), Ex::V(4)), Ex::V(1)), xm(xm(xn(Ex::V(1)), Ex::V(4)), Ex::V(0))), xm(xm(xn(Ex::V(2)), Ex::V(4)), Ex::V(3))), xm(xm(xn(Ex::V(3)), Ex::V(4)), Ex::V(2))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(xm(Ex::V(0), Ex::V(4)), Ex::V(1)), xm(xm(xn(Ex::V(1)), Ex::V(4)), Ex::V(0))), xm(xm(xn(Ex::V(2)), Ex::V(4)), Ex::V(3))), xm(xm(xn(Ex::V(3)), Ex::V(4)), Ex::V(2))), Ex::Z, v);
    assert(nf(xs(xa(xa(xs(xm(xm(Ex::V(0), Ex::V(4)), Ex::V(2)), xm(xm(xn(Ex::V(1)), Ex::V(4)), Ex::V(3))), xm(xm(xn(Ex::V(2)), Ex::V(4)), Ex::V(0))), xm(xm(xn(Ex::V(3)), Ex::V(4)), Ex::V(1))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(xm(Ex::V(0), Ex::V(4)), Ex::V(2)), xm(xm(xn(Ex::V(1)), Ex::V(4)), Ex::V(3))), xm(xm(xn(Ex::V(2)), Ex::V(4)), Ex::V(0))), xm(xm(xn(Ex::V(3)), Ex::V(4)), Ex::V(1))), Ex::Z, v);
    assert(nf(xs(xa(xs(xa(xm(xm(Ex::V(0), Ex::V(4)), Ex::V(3)), xm(xm(xn(Ex::V(1)), Ex::V(4)), Ex::V(2))), xm(xm(xn(Ex::V(2)), Ex::V(4)), Ex::V(1))), xm(xm(xn(Ex::V(3)), Ex::V(4)), Ex::V(0))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(xm(Ex::V(0), Ex::V(4)), Ex::V(3)), xm(xm(xn(Ex::V(1)), Ex::V(4)), Ex::V(2))), xm(xm(xn(Ex::V(2)), Ex::V(4)), Ex::V(1))), xm(xm(xn(Ex::V(3)), Ex::V(4)), Ex::V(0))), Ex::Z, v);
    reveal_with_fuel(ev, 9);
}
pub proof fn pl_q_real<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T, t: T) requires is_cring::<T>()
    ensures
        sp_mul(a0, t) == sp_sub(sp_sub(sp_sub(sp_mul(a0, t), sp_mul(a1, T::zero_spec())), sp_mul(a2, T::zero_spec())), sp_mul(a3, T::zero_spec())),
        sp_mul(a1, t) == sp_sub(sp_add(sp_add(sp_mul(a0, T::zero_spec()), sp_mul(a1, t)), sp_mul(a2, T::zero_spec())), sp_mul(a3, T::zero_spec())),
        sp_mul(a2, t) == sp_add(sp_add(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, T::zero_spec())), sp_mul(a2, t)), sp_mul(a3, T::zero_spec())),
        sp_mul(a3, t) == sp_add(sp_sub(sp_add(sp_mul(a0, T::zero_spec()), sp_mul(a1, T::zero_spec())), sp_mul(a2, T::zero_spec())), sp_mul(a3, t)),
        sp_mul(a0, t) == sp_sub(sp_sub(sp_sub(sp_mul(t, a0), sp_mul(T::zero_spec(), a1)), sp_mul(T::zero_spec(), a2)), sp_mul(T::zero_spec(), a3)),
        sp_mul(a1, t) == sp_sub(sp_add(sp_add(sp_mul(t, a1), sp_mul(T::zero_spec(), a0)), sp_mul(T::zero_spec(), a3)), sp_mul(T::zero_spec(), a2)),
        sp_mul(a2, t) == sp_add(sp_add(sp_sub(sp_mul(t, a2), sp_mul(T::zero_spec(), a3)), sp_mul(T::zero_spec(), a0)), sp_mul(T::zero_spec(), a1)),
        sp_mul(a3, t) == sp_add(sp_sub(sp_add(sp_mul(t, a3), sp_mul(T::zero_spec(), a2)), sp_mul(T::zero_spec(), a1)), sp_mul(T::zero_spec(), a0)),
{
    let v = seq![a0, a1, a2, a3, t];
    assert(nf(xs(xm(Ex::V(0), Ex::V(4)), xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::Z)))) == Li::E) by(compute_only); poly_eq(xm(Ex::V(0), Ex::V(4)), xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::Z)), v);
    assert(nf(xs(xm(Ex::V(1), Ex::V(4)), xs(xa(xa(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::Z)))) == Li::E) by(compute_only); poly_eq(xm(Ex::V(1), Ex::V(4)), xs(xa(xa(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::Z)), v);
    assert(nf(xs(xm(Ex::V(2), Ex::V(4)), xa(xa(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)))) == Li::E) by(compute_only); poly_eq(xm(Ex::V(2), Ex::V(4)), xa(xa(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::Z)), v);
    assert(nf(xs(xm(Ex::V(3), Ex::V(4)), xa(xs(xa(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))))) == Li::E) by(compute_only); poly_eq(xm(Ex::V(3), Ex::V(4)), xa(xs(xa(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::V(4))), v);
    assert(nf(xs(xm(Ex::V(0), Ex::V(4)), xs(xs(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(3))))) == Li::E) by(compute_only); poly_eq(xm(Ex::V(0), Ex::V(4)), xs(xs(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(3))), v);
    assert(nf(xs(xm(Ex::V(1), Ex::V(4)), xs(xa(xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::V(3))), xm(Ex::Z, Ex::V(2))))) == Li::E) by(compute_only); poly_eq(xm(Ex::V(1), Ex::V(4)), xs(xa(xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::V(3))), xm(Ex::Z, Ex::V(2))), v);
    assert(nf(xs(xm(Ex::V(2), Ex::V(4)), xa(xa(xs(xm(Ex::V(4), Ex::V(2)), xm(Ex::Z, Ex::V(3))), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::V(1))))) == Li::E) by(compute_only); poly_eq(xm(Ex::V(2), Ex::V(4)), xa(xa(xs(xm(Ex::V(4), Ex::V(2)), xm(Ex::Z, Ex::V(3))), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::V(1))), v);
    assert(nf(xs(xm(Ex::V(3), Ex::V(4)), xa(xs(xa(xm(Ex::V(4), Ex::V(3)), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(0))))) == Li::E) by(compute_only); poly_eq(xm(Ex::V(3), Ex::V(4)), xa(xs(xa(xm(Ex::V(4), Ex::V(3)), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(0))), v);
    reveal_with_fuel(ev, 7);
}
pub proof fn pl_qc_nsq<T: Neg<Output = T> + Num>(a0: T, a1: T) requires is_cring::<T>()
    ensures
        sp_add(sp_add(sp_add(sp_mul(a0, a0), sp_mul(a1, a1)), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::zero_spec())) == sp_add(sp_mul(a0, a0), sp_mul(a1, a1)),
{
    let v = seq![a0, a1];
    assert(nf(xs(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))))) == Li::E) by(compute_only); poly_eq(xa(xa(xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), xa(xm(Ex::V(0), Ex::V(0)), xm(Ex::V(1), Ex::V(1))), v);
    reveal_with_fuel(ev, 7);
}
pub proof fn pl_q_mat<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T, b0: T, b1: T, b2: T, b3: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_sub(sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, b2)), sp_mul(a3, b3)) == sp_add(sp_add(sp_add(sp_mul(a0, b0), sp_mul(sp_neg(a1), b1)), sp_mul(sp_neg(a2), b2)), sp_mul(sp_neg(a3), b3)),
        sp_sub(sp_add(sp_add(sp_mul(a0, b1), sp_mul(a1, b0)), sp_mul(a2, b3)), sp_mul(a3, b2)) == sp_add(sp_add(sp_add(sp_mul(a1, b0), sp_mul(a0, b1)), sp_mul(sp_neg(a3), b2)), sp_mul(a2, b3)),
        sp_add(sp_add(sp_sub(sp_mul(a0, b2), sp_mul(a1, b3)), sp_mul(a2, b0)), sp_mul(a3, b1)) == sp_add(sp_add(sp_add(sp_mul(a2, b0), sp_mul(a3, b1)), sp_mul(a0, b2)), sp_mul(sp_neg(a1), b3)),
        sp_add(sp_sub(sp_add(sp_mul(a0, b3), sp_mul(a1, b2)), sp_mul(a2, b1)), sp_mul(a3, b0)) == sp_add(sp_add(sp_add(sp_mul(a3, b0), sp_mul(sp_neg(a2), b1)), sp_mul(a1, b2)), sp_mul(a0, b3)),
{
    let v = seq![a0, a1, a2, a3, b0, b1, b2, b3];
    assert(nf(xs(xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(xn(Ex::V(1)), Ex::V(5))), xm(xn(Ex::V(2)), Ex::V(6))), xm(xn(Ex::V(3)), Ex::V(7))))) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::V(6))), xm(Ex::V(3), Ex::V(7))), xa(xa(xa(xm(Ex::V(0), Ex::V(4)), xm(xn(Ex::V(1)), Ex::V(5))), xm(xn(Ex::V(2)), Ex::V(6))), xm(xn(Ex::V(3)), Ex::V(7))), v);
    assert(nf(xs(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6))), xa(xa(xa(xm(Ex::V(1), Ex::V(4)), xm(Ex::V(0), Ex::V(5))), xm(xn(Ex::V(3)), Ex::V(6))), xm(Ex::V(2), Ex::V(7))))) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::V(7))), xm(Ex::V(3), Ex::V(6))), xa(xa(xa(xm(Ex::V(1), Ex::V(4)), xm(Ex::V(0), Ex::V(5))), xm(xn(Ex::V(3)), Ex::V(6))), xm(Ex::V(2), Ex::V(7))), v);
    assert(nf(xs(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5))), xa(xa(xa(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(3), Ex::V(5))), xm(Ex::V(0), Ex::V(6))), xm(xn(Ex::V(1)), Ex::V(7))))) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(Ex::V(0), Ex::V(6)), xm(Ex::V(1), Ex::V(7))), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5))), xa(xa(xa(xm(Ex::V(2), Ex::V(4)), xm(Ex::V(3), Ex::V(5))), xm(Ex::V(0), Ex::V(6))), xm(xn(Ex::V(1)), Ex::V(7))), v);
    assert(nf(xs(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4))), xa(xa(xa(xm(Ex::V(3), Ex::V(4)), xm(xn(Ex::V(2)), Ex::V(5))), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(0), Ex::V(7))))) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(Ex::V(0), Ex::V(7)), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4))), xa(xa(xa(xm(Ex::V(3), Ex::V(4)), xm(xn(Ex::V(2)), Ex::V(5))), xm(Ex::V(1), Ex::V(6))), xm(Ex::V(0), Ex::V(7))), v);
    reveal_with_fuel(ev, 8);
}
pub proof fn pl_q_zero<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_sub(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, T::zero_spec())), sp_mul(a2, T::zero_spec())), sp_mul(a3, T::zero_spec())) == T::zero_spec(),
        sp_sub(sp_add(sp_add(sp_mul(a0, T::zero_spec()), sp_mul(a1, T::zero_spec())), sp_mul(a2, T::zero_spec())), sp_mul(a3, T::zero_spec())) == T::zero_spec(),
        sp_add(sp_add(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, T::zero_spec())), sp_mul(a2, T::zero_spec())), sp_mul(a3, T::zero_spec())) == T::zero_spec(),
        sp_add(sp_sub(sp_add(sp_mul(a0, T::zero_spec()), sp_mul(a1, T::zero_spec())), sp_mul(a2, T::zero_spec())), sp_mul(a3, T::zero_spec())) == T::zero_spec(),
        sp_sub(sp_sub(sp_sub(sp_mul(T::zero_spec(), a0), sp_mul(T::zero_spec(), a1)), sp_mul(T::zero_spec(), a2)), sp_mul(T::zero_spec(), a3)) == T::zero_spec(),
        sp_sub(sp_add(sp_add(sp_mul(T::zero_spec(), a1), sp_mul(T::zero_spec(), a0)), sp_mul(T::zero_spec(), a3)), sp_mul(T::zero_spec(), a2)) == T::zero_spec(),
        sp_add(sp_add(sp_sub(sp_mul(T::zero_spec(), a2), sp_mul(T::zero_spec(), a3)), sp_mul(T::zero_spec(), a0)), sp_mul(T::zero_spec(), a1)) == T::zero_spec(),
        sp_add(sp_sub(sp_add(sp_mul(T::zero_spec(), a3), sp_mul(T::zero_spec(), a2)), sp_mul(T::zero_spec(), a1)), sp_mul(T::zero_spec(), a0)) == T::zero_spec(),
{
    let v = seq![a0, a1, a2, a3];
    assert(nf(xs(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::Z)), Ex::Z, v);
    assert(nf(xs(xs(xa(xa(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::Z)), Ex::Z, v);
    assert(nf(xs(xa(xa(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::Z)), Ex::Z, v);
    assert(nf(xs(xa(xs(xa(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::Z)), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::Z)), Ex::Z, v);
    assert(nf(xs(xs(xs(xs(xm(Ex::Z, Ex::V(0)), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(3))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(Ex::Z, Ex::V(0)), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(3))), Ex::Z, v);
    assert(nf(xs(xs(xa(xa(xm(Ex::Z, Ex::V(1)), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::V(3))), xm(Ex::Z, Ex::V(2))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(Ex::Z, Ex::V(1)), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::V(3))), xm(Ex::Z, Ex::V(2))), Ex::Z, v);
    assert(nf(xs(xa(xa(xs(xm(Ex::Z, Ex::V(2)), xm(Ex::Z, Ex::V(3))), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::V(1))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(Ex::Z, Ex::V(2)), xm(Ex::Z, Ex::V(3))), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::V(1))), Ex::Z, v);
    assert(nf(xs(xa(xs(xa(xm(Ex::Z, Ex::V(3)), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(0))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(Ex::Z, Ex::V(3)), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(0))), Ex::Z, v);
    reveal_with_fuel(ev, 7);
}
pub proof fn pl_qc_emul<T: Neg<Output = T> + Num>(a0: T, a1: T, b0: T, b1: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_sub(sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::zero_spec())) == sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)),
        sp_sub(sp_add(sp_add(sp_mul(a0, b1), sp_mul(a1, b0)), sp_mul(T::zero_spec(), T::zero_spec())), sp_mul(T::zero_spec(), T::zero_spec())) == sp_add(sp_mul(a0, b1), sp_mul(a1, b0)),
        sp_add(sp_add(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, T::zero_spec())), sp_mul(T::zero_spec(), b0)), sp_mul(T::zero_spec(), b1)) == T::zero_spec(),
        sp_add(sp_sub(sp_add(sp_mul(a0, T::zero_spec()), sp_mul(a1, T::zero_spec())), sp_mul(T::zero_spec(), b1)), sp_mul(T::zero_spec(), b0)) == T::zero_spec(),
{
    let v = seq![a0, a1, b0, b1];
    assert(nf(xs(xs(xs(xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))))) == Li::E) by(compute_only); poly_eq(xs(xs(xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), xs(xm(Ex::V(0), Ex::V(2)), xm(Ex::V(1), Ex::V(3))), v);
    assert(nf(xs(xs(xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))))) == Li::E) by(compute_only); poly_eq(xs(xa(xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), xm(Ex::Z, Ex::Z)), xm(Ex::Z, Ex::Z)), xa(xm(Ex::V(0), Ex::V(3)), xm(Ex::V(1), Ex::V(2))), v);
    assert(nf(xs(xa(xa(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(3))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xa(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(3))), Ex::Z, v);
    assert(nf(xs(xa(xs(xa(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::Z, Ex::V(3))), xm(Ex::Z, Ex::V(2))), Ex::Z)) == Li::E) by(compute_only); poly_eq(xa(xs(xa(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::Z, Ex::V(3))), xm(Ex::Z, Ex::V(2))), Ex::Z, v);
    reveal_with_fuel(ev, 7);
}
pub proof fn pl_qc_embed<T: Neg<Output = T> + Num>(a0: T, a1: T, a2: T, a3: T, b0: T, b1: T) requires is_cring::<T>()
    ensures
        sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)) == sp_sub(sp_sub(sp_sub(sp_mul(a0, b0), sp_mul(a1, b1)), sp_mul(a2, T::zero_spec())), sp_mul(a3, T::zero_spec())),
        sp_add(sp_mul(a0, b1), sp_mul(a1, b0)) == sp_sub(sp_add(sp_add(sp_mul(a0, b1), sp_mul(a1, b0)), sp_mul(a2, T::zero_spec())), sp_mul(a3, T::zero_spec())),
        sp_add(sp_mul(a3, b1), sp_mul(a2, b0)) == sp_add(sp_add(sp_sub(sp_mul(a0, T::zero_spec()), sp_mul(a1, T::zero_spec())), sp_mul(a2, b0)), sp_mul(a3, b1)),
        sp_sub(sp_mul(a3, b0), sp_mul(a2, b1)) == sp_add(sp_sub(sp_add(sp_mul(a0, T::zero_spec()), sp_mul(a1, T::zero_spec())), sp_mul(a2, b1)), sp_mul(a3, b0)),
        sp_sub(sp_mul(b0, a0), sp_mul(b1, a1)) == sp_sub(sp_sub(sp_sub(sp_mul(b0, a0), sp_mul(b1, a1)), sp_mul(T::zero_spec(), a2)), sp_mul(T::zero_spec(), a3)),
        sp_add(sp_mul(b0, a1), sp_mul(b1, a0)) == sp_sub(sp_add(sp_add(sp_mul(b0, a1), sp_mul(b1, a0)), sp_mul(T::zero_spec(), a3)), sp_mul(T::zero_spec(), a2)),
        sp_sub(sp_mul(b0, a2), sp_mul(b1, a3)) == sp_add(sp_add(sp_sub(sp_mul(b0, a2), sp_mul(b1, a3)), sp_mul(T::zero_spec(), a0)), sp_mul(T::zero_spec(), a1)),
        sp_add(sp_mul(b0, a3), sp_mul(b1, a2)) == sp_add(sp_sub(sp_add(sp_mul(b0, a3), sp_mul(b1, a2)), sp_mul(T::zero_spec(), a1)), sp_mul(T::zero_spec(), a0)),
{
    let v = seq![a0, a1, a2, a3, b0, b1];
    assert(nf(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::Z)))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xs(xs(xs(xm(Ex::V(0), Ex::V(4)), xm(Ex::V(1), Ex::V(5))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::Z)), v);
    assert(nf(xs(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::Z)))) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xs(xa(xa(xm(Ex::V(0), Ex::V(5)), xm(Ex::V(1), Ex::V(4))), xm(Ex::V(2), Ex::Z)), xm(Ex::V(3), Ex::Z)), v);
    assert(nf(xs(xa(xm(Ex::V(3), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), xa(xa(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5))))) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(3), Ex::V(5)), xm(Ex::V(2), Ex::V(4))), xa(xa(xs(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(4))), xm(Ex::V(3), Ex::V(5))), v);
    assert(nf(xs(xs(xm(Ex::V(3), Ex::V(4)), xm(Ex::V(2), Ex::V(5))), xa(xs(xa(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(3), Ex::V(4)), xm(Ex::V(2), Ex::V(5))), xa(xs(xa(xm(Ex::V(0), Ex::Z), xm(Ex::V(1), Ex::Z)), xm(Ex::V(2), Ex::V(5))), xm(Ex::V(3), Ex::V(4))), v);
    assert(nf(xs(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1))), xs(xs(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1))), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(3))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1))), xs(xs(xs(xm(Ex::V(4), Ex::V(0)), xm(Ex::V(5), Ex::V(1))), xm(Ex::Z, Ex::V(2))), xm(Ex::Z, Ex::V(3))), v);
    assert(nf(xs(xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0))), xs(xa(xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0))), xm(Ex::Z, Ex::V(3))), xm(Ex::Z, Ex::V(2))))) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0))), xs(xa(xa(xm(Ex::V(4), Ex::V(1)), xm(Ex::V(5), Ex::V(0))), xm(Ex::Z, Ex::V(3))), xm(Ex::Z, Ex::V(2))), v);
    assert(nf(xs(xs(xm(Ex::V(4), Ex::V(2)), xm(Ex::V(5), Ex::V(3))), xa(xa(xs(xm(Ex::V(4), Ex::V(2)), xm(Ex::V(5), Ex::V(3))), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::V(1))))) == Li::E) by(compute_only); poly_eq(xs(xm(Ex::V(4), Ex::V(2)), xm(Ex::V(5), Ex::V(3))), xa(xa(xs(xm(Ex::V(4), Ex::V(2)), xm(Ex::V(5), Ex::V(3))), xm(Ex::Z, Ex::V(0))), xm(Ex::Z, Ex::V(1))), v);
    assert(nf(xs(xa(xm(Ex::V(4), Ex::V(3)), xm(Ex::V(5), Ex::V(2))), xa(xs(xa(xm(Ex::V(4), Ex::V(3)), xm(Ex::V(5), Ex::V(2))), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(0))))) == Li::E) by(compute_only); poly_eq(xa(xm(Ex::V(4), Ex::V(3)), xm(Ex::V(5), Ex::V(2))), xa(xs(xa(xm(Ex::V(4), Ex::V(3)), xm(Ex::V(5), Ex::V(2))), xm(Ex::Z, Ex::V(1))), xm(Ex::Z, Ex::V(0))), v);
    reveal_with_fuel(ev, 7);
}
