### verbatim
pub open spec fn fl<T, const N: usize>(m: Seq<Vector<T, N>>) -> Seq<T> { m.map_values(|v: Vector<T, N>| v@).flatten() }
pub proof fn fl_first<T, const N: usize>(m: Seq<Vector<T, N>>)
    requires m.len() > 0,
    ensures fl(m) == m[0]@ + fl(m.drop_first()),
{ reveal(Seq::flatten); let w = |v: Vector<T, N>| v@; assert(m.map_values(w).drop_first() =~= m.drop_first().map_values(w)); }
pub proof fn fl_last<T, const N: usize>(m: Seq<Vector<T, N>>)
    requires m.len() > 0,
    ensures fl(m) == fl(m.drop_last()) + m.last()@,
    decreases m.len(),
{
    fl_first(m);
    if m.len() == 1 { assert(fl(m.drop_first()) =~= Seq::<T>::empty()) by { reveal(Seq::flatten); } assert(fl(m.drop_last()) =~= Seq::<T>::empty()) by { reveal(Seq::flatten); } assert(fl(m) =~= fl(m.drop_last()) + m.last()@); }
    else { let d = m.drop_first(); fl_last(d); fl_first(m.drop_last()); assert(m.drop_last().drop_first() =~= d.drop_last()); assert(fl(m) =~= fl(m.drop_last()) + m.last()@); }
}
pub broadcast proof fn fl_flat<T, const M: usize, const N: usize>(m: Matrix<T, M, N>) ensures #[trigger] flat(m) == fl(m.data@) { assert(rows(m) =~= m.data@.map_values(|v: Vector<T, N>| v@)); }
// g does with a row what f does with its elements, one after the other
pub open spec fn st_row<S, X, Y, F: Fn(S, X) -> (S, Y), G: Fn(S, Vector<X, N>) -> (S, Vector<Y, N>), const N: usize>(f: F, g: G) -> bool {
    (forall|s: S, a: Vector<X, N>| st_pre(f, s, a@) ==> #[trigger] call_requires(g, (s, a))) && (forall|s: S, a: Vector<X, N>, q: (S, Vector<Y, N>)| #[trigger] call_ensures(g, (s, a), q) ==> st_run(f, s, a@, q.0, q.1@))
}
pub proof fn st_row_pre<S, X, Y, F: Fn(S, X) -> (S, Y), G: Fn(S, Vector<X, N>) -> (S, Vector<Y, N>), const N: usize>(f: F, g: G, s: S, m: Seq<Vector<X, N>>)
    requires st_row(f, g), st_pre(f, s, fl(m)),
    ensures st_pre(g, s, m),
    decreases m.len(),
{
    if m.len() > 0 {
        fl_first(m); st_pre_left(f, s, m[0]@, fl(m.drop_first()));
        assert forall|q: (S, Vector<Y, N>)| #[trigger] call_ensures(g, (s, m[0]), q) implies st_pre(g, q.0, m.drop_first()) by {
            st_pre_right(f, s, m[0]@, fl(m.drop_first()), q.0, q.1@); st_row_pre(f, g, q.0, m.drop_first());
        }
    }
}
pub proof fn st_row_run<S, X, Y, F: Fn(S, X) -> (S, Y), G: Fn(S, Vector<X, N>) -> (S, Vector<Y, N>), const N: usize>(f: F, g: G, s: S, m: Seq<Vector<X, N>>, z: S, ys: Seq<Vector<Y, N>>)
    requires st_row(f, g), st_run(g, s, m, z, ys),
    ensures st_run(f, s, fl(m), z, fl(ys)),
    decreases m.len(),
{
    if m.len() > 0 {
        let p = choose|p: S| #[trigger] call_ensures(g, (s, m[0]), (p, ys[0])) && st_run(g, p, m.drop_first(), z, ys.drop_first());
        st_row_run(f, g, p, m.drop_first(), z, ys.drop_first()); fl_first(m); fl_first(ys);
        st_run_cat(f, s, m[0]@, p, ys[0]@, fl(m.drop_first()), z, fl(ys.drop_first()));
    } else { reveal(Seq::flatten); assert(fl(m) =~= Seq::<X>::empty()); assert(fl(ys) =~= Seq::<Y>::empty()); }
}
pub fn vx_via_row<S, X, Y, F: Fn(S, X) -> (S, Y), G: Fn(S, Vector<X, N>) -> (S, Vector<Y, N>), const N: usize>(f: &F, g: G) -> (r: G)
    requires st_row(*f, g),
    ensures r == g, forall|s: S, m: Seq<Vector<X, N>>| st_pre(*f, s, fl(m)) ==> #[trigger] st_pre(g, s, m),
        forall|s: S, m: Seq<Vector<X, N>>, z: S, ys: Seq<Vector<Y, N>>| #[trigger] st_run(g, s, m, z, ys) ==> st_run(*f, s, fl(m), z, fl(ys)),
{
    proof {
        assert forall|s: S, m: Seq<Vector<X, N>>| st_pre(*f, s, fl(m)) implies #[trigger] st_pre(g, s, m) by { st_row_pre(*f, g, s, m); }
        assert forall|s: S, m: Seq<Vector<X, N>>, z: S, ys: Seq<Vector<Y, N>>| #[trigger] st_run(g, s, m, z, ys) implies st_run(*f, s, fl(m), z, fl(ys)) by { st_row_run(*f, g, s, m, z, ys); }
    }
    g
}
// the same without results
pub open spec fn st_each<S, X, F: Fn(S, X) -> (S, ()), G: Fn(S, Vector<X, N>) -> (S, ()), const N: usize>(f: F, g: G) -> bool {
    (forall|s: S, a: Vector<X, N>| st_pre(f, s, a@) ==> #[trigger] call_requires(g, (s, a))) && (forall|s: S, a: Vector<X, N>, q: (S, ())| #[trigger] call_ensures(g, (s, a), q) ==> st_runs(f, s, a@, q.0))
}
pub proof fn st_each_pre<S, X, F: Fn(S, X) -> (S, ()), G: Fn(S, Vector<X, N>) -> (S, ()), const N: usize>(f: F, g: G, s: S, m: Seq<Vector<X, N>>)
    requires st_each(f, g), st_pre(f, s, fl(m)),
    ensures st_pre(g, s, m),
    decreases m.len(),
{
    if m.len() > 0 {
        fl_first(m); st_pre_left(f, s, m[0]@, fl(m.drop_first()));
        assert forall|q: (S, ())| #[trigger] call_ensures(g, (s, m[0]), q) implies st_pre(g, q.0, m.drop_first()) by {
            let us = choose|us: Seq<()>| st_run(f, s, m[0]@, q.0, us); st_pre_right(f, s, m[0]@, fl(m.drop_first()), q.0, us); st_each_pre(f, g, q.0, m.drop_first());
        }
    }
}
pub proof fn st_each_run<S, X, F: Fn(S, X) -> (S, ()), G: Fn(S, Vector<X, N>) -> (S, ()), const N: usize>(f: F, g: G, s: S, m: Seq<Vector<X, N>>, z: S, ys: Seq<()>)
    requires st_each(f, g), st_run(g, s, m, z, ys),
    ensures st_runs(f, s, fl(m), z),
    decreases m.len(),
{
    if m.len() > 0 {
        let p = choose|p: S| #[trigger] call_ensures(g, (s, m[0]), (p, ys[0])) && st_run(g, p, m.drop_first(), z, ys.drop_first());
        st_each_run(f, g, p, m.drop_first(), z, ys.drop_first()); fl_first(m);
        let us = choose|us: Seq<()>| st_run(f, s, m[0]@, p, us); let vs = choose|vs: Seq<()>| st_run(f, p, fl(m.drop_first()), z, vs);
        st_run_cat(f, s, m[0]@, p, us, fl(m.drop_first()), z, vs); assert(st_run(f, s, fl(m), z, us + vs));
    } else { reveal(Seq::flatten); assert(fl(m) =~= Seq::<X>::empty()); assert(st_run(f, s, fl(m), z, Seq::<()>::empty())); }
}
pub fn vx_via_each<S, X, F: Fn(S, X) -> (S, ()), G: Fn(S, Vector<X, N>) -> (S, ()), const N: usize>(f: &F, g: G) -> (r: G)
    requires st_each(*f, g),
    ensures r == g, forall|s: S, m: Seq<Vector<X, N>>| st_pre(*f, s, fl(m)) ==> #[trigger] st_pre(g, s, m),
        forall|s: S, m: Seq<Vector<X, N>>, z: S| #[trigger] st_runs(g, s, m, z) ==> st_runs(*f, s, fl(m), z),
{
    proof {
        assert forall|s: S, m: Seq<Vector<X, N>>| st_pre(*f, s, fl(m)) implies #[trigger] st_pre(g, s, m) by { st_each_pre(*f, g, s, m); }
        assert forall|s: S, m: Seq<Vector<X, N>>, z: S| #[trigger] st_runs(g, s, m, z) implies st_runs(*f, s, fl(m), z) by { let ys = choose|ys: Seq<()>| st_run(g, s, m, z, ys); st_each_run(*f, g, s, m, z, ys); }
    }
    g
}
// g makes a row out of N calls of f
pub open spec fn st_fill<S, Y, F: Fn(S) -> (S, Y), G: Fn(S) -> (S, Vector<Y, N>), const N: usize>(f: F, g: G) -> bool {
    forall|s: S, q: (S, Vector<Y, N>)| #[trigger] call_ensures(g, (s,), q) ==> st_gen(f, s, q.0, q.1@)
}
pub proof fn st_gen_cat<S, Y, F: Fn(S) -> (S, Y)>(f: F, s: S, q: S, ys: Seq<Y>, z: S, vs: Seq<Y>)
    requires st_gen(f, s, q, ys), st_gen(f, q, z, vs),
    ensures st_gen(f, s, z, ys + vs),
    decreases vs.len(),
{
    if vs.len() == 0 { assert(ys + vs =~= ys); }
    else {
        let p = choose|p: S| st_gen(f, q, p, vs.drop_last()) && #[trigger] call_ensures(f, (p,), (z, vs.last()));
        st_gen_cat(f, s, q, ys, p, vs.drop_last()); assert((ys + vs).drop_last() =~= ys + vs.drop_last()); assert(call_ensures(f, (p,), (z, (ys + vs).last())));
    }
}
pub proof fn st_fill_gen<S, Y, F: Fn(S) -> (S, Y), G: Fn(S) -> (S, Vector<Y, N>), const N: usize>(f: F, g: G, s: S, z: S, ys: Seq<Vector<Y, N>>)
    requires st_fill(f, g), st_gen(g, s, z, ys),
    ensures st_gen(f, s, z, fl(ys)),
    decreases ys.len(),
{
    if ys.len() > 0 {
        let p = choose|p: S| st_gen(g, s, p, ys.drop_last()) && #[trigger] call_ensures(g, (p,), (z, ys.last()));
        st_fill_gen(f, g, s, p, ys.drop_last()); fl_last(ys); st_gen_cat(f, s, p, fl(ys.drop_last()), z, ys.last()@);
    } else { reveal(Seq::flatten); assert(fl(ys) =~= Seq::<Y>::empty()); }
}
pub fn vx_via_fill<S, Y, F: Fn(S) -> (S, Y), G: Fn(S) -> (S, Vector<Y, N>), const N: usize>(f: &F, g: G) -> (r: G)
    requires st_fill(*f, g),
    ensures r == g, forall|s: S, z: S, ys: Seq<Vector<Y, N>>| #[trigger] st_gen(g, s, z, ys) ==> st_gen(*f, s, z, fl(ys)),
{ proof { assert forall|s: S, z: S, ys: Seq<Vector<Y, N>>| #[trigger] st_gen(g, s, z, ys) implies st_gen(*f, s, z, fl(ys)) by { st_fill_gen(*f, g, s, z, ys); } } g }
pub fn vx_via_sim<S, X, Y, F: Fn(S, X) -> (S, Y), G: Fn(S, X) -> (S, Y)>(f: &F, g: G) -> (r: G)
    requires st_sim(*f, g),
    ensures r == g, forall|s: S, xs: Seq<X>| st_pre(*f, s, xs) ==> #[trigger] st_pre(g, s, xs),
        forall|s: S, xs: Seq<X>, z: S, ys: Seq<Y>| #[trigger] st_run(g, s, xs, z, ys) ==> st_run(*f, s, xs, z, ys),
{
    proof {
        assert forall|s: S, xs: Seq<X>| st_pre(*f, s, xs) implies #[trigger] st_pre(g, s, xs) by { st_sim_pre(*f, g, s, xs); }
        assert forall|s: S, xs: Seq<X>, z: S, ys: Seq<Y>| #[trigger] st_run(g, s, xs, z, ys) implies st_run(*f, s, xs, z, ys) by { st_sim_run(*f, g, s, xs, z, ys); }
    }
    g
}
pub proof fn st_gen_sim<S, Y, F: Fn(S) -> (S, Y)>(f: F, s: S, z: S, ys: Seq<Y>)
    requires st_gen(&f, s, z, ys),
    ensures st_gen(f, s, z, ys),
    decreases ys.len(),
{ if ys.len() > 0 { let p = choose|p: S| st_gen(&f, s, p, ys.drop_last()) && #[trigger] call_ensures(&f, (p,), (z, ys.last())); st_gen_sim(f, s, p, ys.drop_last()); assert(call_ensures(f, (p,), (z, ys.last()))); } }
### st Matrix<T,M,N>::map
props C10
req st_pre(f, vx_s, flat(self))
ens st_run(f, vx_s, flat(self), r.0, flat(r.1))
pre broadcast use fl_flat;
closure 0
cvia vx_via_row(&f, 
ctypes VxS ; Vector<T, N>
cret (VxS, Vector<U, N>)
creq st_pre(f, vx_s0, a@)
cens st_run(f, vx_s0, a@, vx_r.0, vx_r.1@)
cpre proof { st_sim_pre(f, &f, vx_s0, a@); } let ghost a0 = a@;
cwrap proof { st_sim_run(f, &f, vx_s0, a0, vx_cr.0, vx_cr.1@); }
### st Matrix<T,M,N>::for_each
props C10
req st_pre(f, vx_s, flat(self))
ens st_runs(f, vx_s, flat(self), r.0)
pre broadcast use fl_flat;
closure 0
cvia vx_via_each(&f, 
ctypes VxS ; Vector<T, N>
cret (VxS, ())
creq st_pre(f, vx_s0, a@)
cens st_runs(f, vx_s0, a@, vx_r.0)
cpre proof { st_sim_pre(f, &f, vx_s0, a@); } let ghost a0 = a@;
cwrap proof { let us = choose|us: Seq<()>| st_run(&f, vx_s0, a0, vx_cr.0, us); st_sim_run(f, &f, vx_s0, a0, vx_cr.0, us); }
### st Matrix<T,M,N>::init
props C07
req forall|s: VxS| #[trigger] call_requires(f, (s,))
ens st_gen(f, vx_s, r.0, flat(r.1))
pre broadcast use fl_flat;
closure 0
cvia vx_via_fill(&f, 
ctypes VxS
cret (VxS, Vector<T, N>)
creq forall|s: VxS| #[trigger] call_requires(f, (s,))
cens st_gen(f, vx_s0, vx_r.0, vx_r.1@)
cwrap proof { st_gen_sim(f, vx_s0, vx_cr.0, vx_cr.1@); }
### st Matrix<T,M,N>::scan
props C10
req st_pre(f, s, flat(self))
ens st_run(f, s, flat(self), r.0, flat(r.1))
pre broadcast use fl_flat;
closure 0
cvia vx_via_row(&f, 
ctypes S ; Vector<T, N>
cret (S, Vector<U, N>)
creq st_pre(f, vx_s0, a@)
cens st_run(f, vx_s0, a@, vx_r.0, vx_r.1@)
closure 1
cvia vx_via_sim(&f, 
ctypes S ; T
cret (S, U)
creq call_requires(f, (vx_s0, x))
cens call_ensures(f, (vx_s0, x), vx_r)
### verbatim
pub open spec fn dg_count(xs: Seq<(usize, usize)>) -> int decreases xs.len() { if xs.len() == 0 { 0 } else { dg_count(xs.drop_last()) + if xs.last().0 == xs.last().1 { 1int } else { 0 } } }
pub proof fn dg_first(xs: Seq<(usize, usize)>)
    requires xs.len() > 0,
    ensures dg_count(xs) == dg_count(xs.drop_first()) + if xs[0].0 == xs[0].1 { 1int } else { 0 }, dg_count(xs.drop_first()) >= 0,
    decreases xs.len(),
{ if xs.len() > 1 { dg_first(xs.drop_last()); assert(xs.drop_last().drop_first() =~= xs.drop_first().drop_last()); } else { assert(xs.drop_last() =~= Seq::<(usize, usize)>::empty()); assert(xs.drop_first() =~= Seq::<(usize, usize)>::empty()); } }
#[verifier::prophetic]
pub open spec fn dg_step<T: Zero, G: Fn(core::array::IntoIter<T, N>, (usize, usize)) -> (core::array::IntoIter<T, N>, T), const N: usize>(g: G) -> bool {
    (forall|s: core::array::IntoIter<T, N>, p: (usize, usize)| s.obeys_prophetic_iter_laws() && (p.0 == p.1 ==> s.remaining().len() > 0) ==> #[trigger] call_requires(g, (s, p)))
    && (forall|s: core::array::IntoIter<T, N>, p: (usize, usize), q: (core::array::IntoIter<T, N>, T)| #[trigger] call_ensures(g, (s, p), q) ==> q.0.obeys_prophetic_iter_laws() && (if p.0 == p.1 { s.remaining().len() > 0 && q.1 == s.remaining()[0] && q.0.remaining() == s.remaining().drop_first() } else { q.0.remaining() == s.remaining() && call_ensures(T::zero, (), q.1) }))
}
pub proof fn dg_pre<T: Zero, G: Fn(core::array::IntoIter<T, N>, (usize, usize)) -> (core::array::IntoIter<T, N>, T), const N: usize>(g: G, s: core::array::IntoIter<T, N>, xs: Seq<(usize, usize)>)
    requires dg_step(g), s.obeys_prophetic_iter_laws(), s.remaining().len() >= dg_count(xs),
    ensures st_pre(g, s, xs),
    decreases xs.len(),
{
    if xs.len() > 0 {
        dg_first(xs);
        assert forall|q: (core::array::IntoIter<T, N>, T)| #[trigger] call_ensures(g, (s, xs[0]), q) implies st_pre(g, q.0, xs.drop_first()) by { dg_pre(g, q.0, xs.drop_first()); }
    }
}
pub proof fn dg_run<T: Zero, G: Fn(core::array::IntoIter<T, N>, (usize, usize)) -> (core::array::IntoIter<T, N>, T), const N: usize>(g: G, s: core::array::IntoIter<T, N>, xs: Seq<(usize, usize)>, z: core::array::IntoIter<T, N>, ys: Seq<T>, k: int)
    requires dg_step(g), st_run(g, s, xs, z, ys), 0 <= k < xs.len(),
    ensures xs[k].0 == xs[k].1 ==> 0 <= dg_count(xs.take(k)) < s.remaining().len() && ys[k] == s.remaining()[dg_count(xs.take(k))], xs[k].0 != xs[k].1 ==> call_ensures(T::zero, (), ys[k]),
    decreases xs.len(),
{
    let p = choose|p: core::array::IntoIter<T, N>| #[trigger] call_ensures(g, (s, xs[0]), (p, ys[0])) && st_run(g, p, xs.drop_first(), z, ys.drop_first());
    if k > 0 {
        dg_run(g, p, xs.drop_first(), z, ys.drop_first(), k - 1);
        dg_first(xs.take(k)); assert(xs.take(k).drop_first() =~= xs.drop_first().take(k - 1)); assert(xs.take(k)[0] == xs[0]);
    } else { assert(xs.take(0) =~= Seq::<(usize, usize)>::empty()); }
}
pub open spec fn dg_grid<const N: usize>(m: Matrix<(usize, usize), N, N>) -> bool { forall|i: int, j: int| 0 <= i < N && 0 <= j < N ==> #[trigger] m.data@[i]@[j] == (i as usize, j as usize) }
pub proof fn dg_at<const N: usize>(m: Matrix<(usize, usize), N, N>, i: int, j: int)
    requires dg_grid(m), 0 <= i < N, 0 <= j <= N,
    ensures dg_count(flat(m).take(fi(i, j, N as int))) == i + if j > i { 1int } else { 0 }, 0 <= fi(i, j, N as int) <= N * N, flat(m).len() == N * N,
    decreases i, j,
{
    broadcast use flat_group; flat_len(m);
    assert(0 <= i * N + j <= N * N) by(nonlinear_arith) requires 0 <= i < N, 0 <= j <= N;
    if j > 0 {
        dg_at(m, i, j - 1); let a = flat(m).take(fi(i, j, N as int)); assert(fi(i, j, N as int) == fi(i, j - 1, N as int) + 1);
        flat_idx(m, i, j - 1);
        assert(a.drop_last() =~= flat(m).take(fi(i, j - 1, N as int))); assert(a.last() == m.data@[i]@[j - 1]);
    } else if i > 0 {
        dg_at(m, i - 1, N as int); assert((i - 1) * N + N == i * N) by(nonlinear_arith);
    } else { assert(fi(0, 0, N as int) == 0) by(nonlinear_arith) requires fi(0, 0, N as int) == 0 * N + 0; assert(flat(m).take(0) =~= Seq::<(usize, usize)>::empty()); }
}
pub fn vx_via_diag<T: Zero, G: Fn(core::array::IntoIter<T, N>, (usize, usize)) -> (core::array::IntoIter<T, N>, T), const N: usize>(g: G) -> (r: G)
    requires dg_step(g), N >= 1,
    ensures r == g,
        forall|s: core::array::IntoIter<T, N>, m: Matrix<(usize, usize), N, N>| dg_grid(m) && s.obeys_prophetic_iter_laws() && s.remaining().len() == N ==> #[trigger] st_pre(g, s, flat(m)),
        forall|s: core::array::IntoIter<T, N>, m: Matrix<(usize, usize), N, N>, z: core::array::IntoIter<T, N>, y: Matrix<T, N, N>| dg_grid(m) && #[trigger] st_run(g, s, flat(m), z, flat(y)) ==> dg_diag(y, s.remaining()),
{
    proof {
        assert forall|s: core::array::IntoIter<T, N>, m: Matrix<(usize, usize), N, N>| dg_grid(m) && s.obeys_prophetic_iter_laws() && s.remaining().len() == N implies #[trigger] st_pre(g, s, flat(m)) by {
            dg_at(m, N - 1, N as int); assert((N - 1) * N + N == N * N) by(nonlinear_arith); assert(flat(m).take(N * N) =~= flat(m)); dg_pre(g, s, flat(m));
        }
        assert forall|s: core::array::IntoIter<T, N>, m: Matrix<(usize, usize), N, N>, z: core::array::IntoIter<T, N>, y: Matrix<T, N, N>| dg_grid(m) && #[trigger] st_run(g, s, flat(m), z, flat(y)) implies dg_diag(y, s.remaining()) by {
            assert forall|i: int, j: int| 0 <= i < N && 0 <= j < N implies (if i == j { #[trigger] y.data@[i]@[j] == s.remaining()[i] } else { call_ensures(T::zero, (), y.data@[i]@[j]) }) by {
                dg_at(m, i, j); flat_idx(m, i, j); flat_idx(y, i, j); dg_run(g, s, flat(m), z, flat(y), fi(i, j, N as int));
            }
        }
    }
    g
}
pub open spec fn dg_diag<T: Zero, const N: usize>(y: Matrix<T, N, N>, d: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < N && 0 <= j < N ==> if i == j { #[trigger] y.data@[i]@[j] == d[i] } else { call_ensures(T::zero, (), y.data@[i]@[j]) } }
### st Matrix<T,N,N>::diagonal
props C15
state iter: core::array::IntoIter<T, N>
req N >= 1 && N * N <= usize::MAX
ens dg_diag(r, diag@)
closure 0
cvia vx_via_diag(
ctypes core::array::IntoIter<T, N> ; (usize, usize)
cret (core::array::IntoIter<T, N>, T)
creq vx_s0.obeys_prophetic_iter_laws() && (i == j ==> vx_s0.remaining().len() > 0)
cens vx_r.0.obeys_prophetic_iter_laws() && (if i == j { vx_s0.remaining().len() > 0 && vx_r.1 == vx_s0.remaining()[0] && vx_r.0.remaining() == vx_s0.remaining().drop_first() } else { vx_r.0.remaining() == vx_s0.remaining() && call_ensures(T::zero, (), vx_r.1) })
