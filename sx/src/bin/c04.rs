use sx::*;
fn int_v<const N: usize>() {
    contract(&format!("Vector<T,{}>::div_floor/mod_floor/div_mod_floor", N), FREE, || { let (a, b) = (v::<N>("a"), v::<N>("b")); let (x, y) = (va(a), va(b));
        eqvn(Exact, "div_floor", a.div_floor(b), |i| uf("div_floor", &[x[i], y[i]])); eqvn(Exact, "mod_floor", a.mod_floor(b), |i| uf("mod_floor", &[x[i], y[i]]));
        let (q, r) = a.div_mod_floor(b); eqvn(Exact, "div_mod_floor.0", q, |i| uf("div_floor", &[x[i], y[i]])); eqvn(Exact, "div_mod_floor.1", r, |i| uf("mod_floor", &[x[i], y[i]])); });
}
fn int_m<const M: usize, const N: usize>() {
    contract(&format!("Matrix<T,{},{}>::div_floor/mod_floor/div_mod_floor", M, N), FREE, || { let (a, b) = (m::<M, N>("a"), m::<M, N>("b")); let (x, y) = (ma(a), ma(b));
        eqmn(Exact, "div_floor", a.div_floor(b), |i, j| uf("div_floor", &[x[i][j], y[i][j]])); eqmn(Exact, "mod_floor", a.mod_floor(b), |i, j| uf("mod_floor", &[x[i][j], y[i][j]]));
        let (q, r) = a.div_mod_floor(b); eqmn(Exact, "div_mod_floor.0", q, |i, j| uf("div_floor", &[x[i][j], y[i][j]])); eqmn(Exact, "div_mod_floor.1", r, |i, j| uf("mod_floor", &[x[i][j], y[i][j]])); });
}
fn domain(bits: u32, signed: bool) -> Vec<i128> { let mut d: Vec<i128> = (-12..=12).collect(); for k in 0..bits { for e in [-1, 0, 1] { d.push((1i128 << k) + e); d.push(-(1i128 << k) + e); } } d.retain(|x| if signed { *x >= -(1i128 << (bits - 1)) && *x < (1i128 << (bits - 1)) } else { *x >= 0 && *x < (1i128 << bits) }); d.sort(); d.dedup(); d }
macro_rules! prim { ($($t:ident)*) => { $( {
    concrete(concat!("floor division on ", stringify!($t)), || {
        let d: Vec<$t> = if $t::BITS == 8 { ($t::MIN..=$t::MAX).collect() } else { domain($t::BITS, $t::MIN != 0).into_iter().map(|x| x as $t).collect() };
        for &a in &d { for &b in &d { if b == 0 || a.checked_div(b).is_none() { continue; }
            let (x, y) = (Vector::from_array([a, 1]), Vector::from_array([b, 1]));
            let (q, r) = (x.div_floor(y).into_array(), x.mod_floor(y).into_array()); let (q2, r2) = x.div_mod_floor(y);
            let (ai, bi) = (a as i128, b as i128); let wq = ai.div_euclid(bi) - if bi < 0 && ai.rem_euclid(bi) != 0 { 1 } else { 0 }; let wr = ai - wq * bi;
            same(&format!("{} floor-divided by {}", a, b), (q[0] as i128, r[0] as i128), (wq, wr)); same("combined form", (q2.into_array(), r2.into_array()), (q, r));
            let (mx, my) = (Matrix::from_array_of_arrays([[a, 1]]), Matrix::from_array_of_arrays([[b, 1]]));
            same("matrix", (mx.div_floor(my).into_array_of_arrays()[0][0], mx.mod_floor(my).into_array_of_arrays()[0][0]), (q[0], r[0])); let (mq, mr) = mx.div_mod_floor(my); same("matrix combined", (mq.into_array_of_arrays()[0][0], mr.into_array_of_arrays()[0][0]), (q[0], r[0]));
        } } }); } )* } }
fn main() { sxcore::main("C04", || { vdims!(int_v); mdims!(int_m); prim!(u8 i8 u16 i16 u32 i32 u64 i64); }) }
