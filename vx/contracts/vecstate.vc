// State passing: a FnMut closure with its captured state is a relation (state, argument) -> (state, result). The functions that take
// such closures are verified once more in that form (the translation is made by vx.py): what is called, on what, in which order.
### verbatim
pub open spec fn st_pre<S, X, Y, F: Fn(S, X) -> (S, Y)>(f: F, s: S, xs: Seq<X>) -> bool decreases xs.len() {
    xs.len() == 0 || (call_requires(f, (s, xs[0])) && forall|q: (S, Y)| #[trigger] call_ensures(f, (s, xs[0]), q) ==> st_pre(f, q.0, xs.drop_first()))
}
pub open spec fn st_run<S, X, Y, F: Fn(S, X) -> (S, Y)>(f: F, s: S, xs: Seq<X>, z: S, ys: Seq<Y>) -> bool decreases xs.len() {
    ys.len() == xs.len() && (if xs.len() == 0 { z == s } else { exists|q: S| #[trigger] call_ensures(f, (s, xs[0]), (q, ys[0])) && st_run(f, q, xs.drop_first(), z, ys.drop_first()) })
}
pub open spec fn st_runs<S, X, Y, F: Fn(S, X) -> (S, Y)>(f: F, s: S, xs: Seq<X>, z: S) -> bool { exists|ys: Seq<Y>| st_run(f, s, xs, z, ys) }
pub open spec fn st_gen<S, Y, F: Fn(S) -> (S, Y)>(f: F, s: S, z: S, ys: Seq<Y>) -> bool decreases ys.len() {
    if ys.len() == 0 { z == s } else { exists|q: S| st_gen(f, s, q, ys.drop_last()) && #[trigger] call_ensures(f, (q,), (z, ys.last())) }
}
pub proof fn st_run_cat<S, X, Y, F: Fn(S, X) -> (S, Y)>(f: F, s: S, xs: Seq<X>, q: S, ys: Seq<Y>, us: Seq<X>, z: S, vs: Seq<Y>)
    requires st_run(f, s, xs, q, ys), st_run(f, q, us, z, vs),
    ensures st_run(f, s, xs + us, z, ys + vs),
    decreases xs.len(),
{
    if xs.len() == 0 { assert(xs + us =~= us); assert(ys + vs =~= vs); }
    else {
        let p = choose|p: S| #[trigger] call_ensures(f, (s, xs[0]), (p, ys[0])) && st_run(f, p, xs.drop_first(), q, ys.drop_first());
        st_run_cat(f, p, xs.drop_first(), q, ys.drop_first(), us, z, vs);
        assert((xs + us).drop_first() =~= xs.drop_first() + us); assert((ys + vs).drop_first() =~= ys.drop_first() + vs);
        assert(call_ensures(f, (s, (xs + us)[0]), (p, (ys + vs)[0])));
    }
}
pub proof fn st_pre_left<S, X, Y, F: Fn(S, X) -> (S, Y)>(f: F, s: S, xs: Seq<X>, us: Seq<X>)
    requires st_pre(f, s, xs + us),
    ensures st_pre(f, s, xs),
    decreases xs.len(),
{
    if xs.len() > 0 {
        assert((xs + us).drop_first() =~= xs.drop_first() + us); assert((xs + us)[0] == xs[0]);
        assert forall|q: (S, Y)| #[trigger] call_ensures(f, (s, xs[0]), q) implies st_pre(f, q.0, xs.drop_first()) by { st_pre_left(f, q.0, xs.drop_first(), us); }
    }
}
pub proof fn st_pre_right<S, X, Y, F: Fn(S, X) -> (S, Y)>(f: F, s: S, xs: Seq<X>, us: Seq<X>, z: S, ys: Seq<Y>)
    requires st_pre(f, s, xs + us), st_run(f, s, xs, z, ys),
    ensures st_pre(f, z, us),
    decreases xs.len(),
{
    if xs.len() == 0 { assert(xs + us =~= us); }
    else {
        assert((xs + us).drop_first() =~= xs.drop_first() + us); assert((xs + us)[0] == xs[0]);
        let p = choose|p: S| #[trigger] call_ensures(f, (s, xs[0]), (p, ys[0])) && st_run(f, p, xs.drop_first(), z, ys.drop_first());
        st_pre_right(f, p, xs.drop_first(), us, z, ys.drop_first());
    }
}
// a closure that does what f does
pub open spec fn st_sim<S, X, Y, F: Fn(S, X) -> (S, Y), G: Fn(S, X) -> (S, Y)>(f: F, g: G) -> bool {
    (forall|s: S, x: X| call_requires(f, (s, x)) ==> #[trigger] call_requires(g, (s, x))) && (forall|s: S, x: X, q: (S, Y)| #[trigger] call_ensures(g, (s, x), q) ==> call_ensures(f, (s, x), q))
}
pub proof fn st_sim_pre<S, X, Y, F: Fn(S, X) -> (S, Y), G: Fn(S, X) -> (S, Y)>(f: F, g: G, s: S, xs: Seq<X>)
    requires st_sim(f, g), st_pre(f, s, xs),
    ensures st_pre(g, s, xs),
    decreases xs.len(),
{ if xs.len() > 0 { assert forall|q: (S, Y)| #[trigger] call_ensures(g, (s, xs[0]), q) implies st_pre(g, q.0, xs.drop_first()) by { st_sim_pre(f, g, q.0, xs.drop_first()); } } }
pub proof fn st_sim_run<S, X, Y, F: Fn(S, X) -> (S, Y), G: Fn(S, X) -> (S, Y)>(f: F, g: G, s: S, xs: Seq<X>, z: S, ys: Seq<Y>)
    requires st_sim(f, g), st_run(g, s, xs, z, ys),
    ensures st_run(f, s, xs, z, ys),
    decreases xs.len(),
{ if xs.len() > 0 { let p = choose|p: S| #[trigger] call_ensures(g, (s, xs[0]), (p, ys[0])) && st_run(g, p, xs.drop_first(), z, ys.drop_first()); st_sim_run(f, g, p, xs.drop_first(), z, ys.drop_first()); assert(call_ensures(f, (s, xs[0]), (p, ys[0]))); } }
// a closure that wraps the result of f in Some
pub open spec fn st_some<S, X, Y, F: Fn(S, X) -> (S, Y), G: Fn(S, X) -> (S, Option<Y>)>(f: F, g: G) -> bool {
    (forall|s: S, x: X| call_requires(f, (s, x)) ==> #[trigger] call_requires(g, (s, x))) && (forall|s: S, x: X, q: (S, Option<Y>)| #[trigger] call_ensures(g, (s, x), q) ==> q.1 is Some && call_ensures(f, (s, x), (q.0, q.1->0)))
}
pub proof fn st_some_pre<S, X, Y, F: Fn(S, X) -> (S, Y), G: Fn(S, X) -> (S, Option<Y>)>(f: F, g: G, s: S, xs: Seq<X>)
    requires st_some(f, g), st_pre(f, s, xs),
    ensures st_pre(g, s, xs),
    decreases xs.len(),
{ if xs.len() > 0 { assert forall|q: (S, Option<Y>)| #[trigger] call_ensures(g, (s, xs[0]), q) implies st_pre(g, q.0, xs.drop_first()) by { assert(call_ensures(f, (s, xs[0]), (q.0, q.1->0))); assert(st_pre(f, (q.0, q.1->0).0, xs.drop_first())); st_some_pre(f, g, q.0, xs.drop_first()); } } }
pub proof fn st_some_run<S, X, Y, F: Fn(S, X) -> (S, Y), G: Fn(S, X) -> (S, Option<Y>)>(f: F, g: G, s: S, xs: Seq<X>, z: S, ys: Seq<Option<Y>>)
    requires st_some(f, g), st_run(g, s, xs, z, ys),
    ensures st_run(f, s, xs, z, ys.map_values(|y: Option<Y>| y->0)), forall|k: int| 0 <= k < ys.len() ==> (#[trigger] ys[k]) is Some,
    decreases xs.len(),
{
    let m = |y: Option<Y>| y->0;
    if xs.len() > 0 {
        let p = choose|p: S| #[trigger] call_ensures(g, (s, xs[0]), (p, ys[0])) && st_run(g, p, xs.drop_first(), z, ys.drop_first());
        assert(call_ensures(f, (s, xs[0]), (p, ys[0]->0)));
        st_some_run(f, g, p, xs.drop_first(), z, ys.drop_first());
        assert(ys.map_values(m).drop_first() =~= ys.drop_first().map_values(m));
        assert(call_ensures(f, (s, xs[0]), (p, ys.map_values(m)[0])));
        assert forall|k: int| 0 <= k < ys.len() implies (#[trigger] ys[k]) is Some by { if k > 0 { assert(ys.drop_first()[k - 1] is Some); } }
    }
}
// the closure itself, with what follows from the way it calls f
pub fn vx_via_some<S, X, Y, F: Fn(S, X) -> (S, Y), G: Fn(S, X) -> (S, Option<Y>)>(f: &F, g: G) -> (r: G)
    requires st_some(*f, g),
    ensures r == g, forall|s: S, xs: Seq<X>| st_pre(*f, s, xs) ==> #[trigger] st_pre(g, s, xs),
        forall|s: S, xs: Seq<X>, z: S, ys: Seq<Option<Y>>| #[trigger] st_run(g, s, xs, z, ys) ==> st_run(*f, s, xs, z, ys.map_values(|y: Option<Y>| y->0)) && forall|k: int| 0 <= k < ys.len() ==> (#[trigger] ys[k]) is Some,
{
    proof {
        assert forall|s: S, xs: Seq<X>| st_pre(*f, s, xs) implies #[trigger] st_pre(g, s, xs) by { st_some_pre(*f, g, s, xs); }
        assert forall|s: S, xs: Seq<X>, z: S, ys: Seq<Option<Y>>| #[trigger] st_run(g, s, xs, z, ys) implies st_run(*f, s, xs, z, ys.map_values(|y: Option<Y>| y->0)) && forall|k: int| 0 <= k < ys.len() ==> (#[trigger] ys[k]) is Some by { st_some_run(*f, g, s, xs, z, ys); }
    }
    g
}
pub broadcast proof fn st_take<X>(xs: Seq<X>, n: int) requires n == xs.len(), ensures #[trigger] xs.take(n) == xs { assert(xs.take(n) =~= xs); }
// the standard library's functions in state-passing form (what they call, on what, in which order)
pub trait VxStArr<T, const N: usize>: Sized { spec fn vx_elems(self) -> Seq<T>;
    fn vx_st_map<S, U, F: Fn(S, T) -> (S, U)>(self, f: F, s: S) -> (r: (S, [U; N]))
        requires st_pre(f, s, self.vx_elems()), ensures st_run(f, s, self.vx_elems(), r.0, r.1@); }
impl<T, const N: usize> VxStArr<T, N> for [T; N] { open spec fn vx_elems(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_st_map<S, U, F: Fn(S, T) -> (S, U)>(self, f: F, s: S) -> (r: (S, [U; N])) { unimplemented!() } }
pub trait VxStIter: Iterator + Sized {
    fn vx_st_for_each<S, F: Fn(S, Self::Item) -> (S, ())>(self, f: F, s: S) -> (r: (S, ()))
        requires self.obeys_prophetic_iter_laws(), st_pre(f, s, self.remaining()), ensures st_runs(f, s, self.remaining(), r.0);
    fn vx_st_scan<S, B, F: Fn(S, Self::Item) -> (S, Option<B>)>(self, s: S, f: F) -> (r: (S, std::vec::IntoIter<B>))
        requires self.obeys_prophetic_iter_laws(), st_pre(f, s, self.remaining()),
        ensures r.1.obeys_prophetic_iter_laws(), r.1.will_return_none(), r.1.decrease() is Some,
            exists|ys: Seq<Option<B>>| #[trigger] st_run(f, s, self.remaining(), r.0, ys) && ((forall|k: int| 0 <= k < ys.len() ==> (#[trigger] ys[k]) is Some) ==> r.1.remaining() == ys.map_values(|y: Option<B>| y->0));
}
impl<I: Iterator> VxStIter for I {
    #[verifier::external_body]
    fn vx_st_for_each<S, F: Fn(S, Self::Item) -> (S, ())>(self, f: F, s: S) -> (r: (S, ())) { unimplemented!() }
    #[verifier::external_body]
    fn vx_st_scan<S, B, F: Fn(S, Self::Item) -> (S, Option<B>)>(self, s: S, f: F) -> (r: (S, std::vec::IntoIter<B>)) { unimplemented!() }
}
### st Vector<T,N>::map
props C10
req st_pre(f, vx_s, self@)
ens st_run(f, vx_s, self@, r.0, r.1@)
### st Vector<T,N>::for_each
props C10
req st_pre(f, vx_s, self@)
ens st_runs(f, vx_s, self@, r.0)
### st Vector<T,N>::scan
props C10
req st_pre(f, s, self@)
ens st_run(f, s, self@, r.0, r.1@)
pre broadcast use st_take;
closure 0
cvia vx_via_some(&f, 
ctypes S ; T
cret (S, Option<U>)
creq call_requires(f, (vx_s0, x))
cens vx_r.1 is Some && call_ensures(f, (vx_s0, x), (vx_r.0, vx_r.1->0))
### st Vector<T,N>::init
props C06
req forall|s: VxS| #[trigger] call_requires(f, (s,))
ens st_gen(f, vx_s, r.0, r.1@)
pre let ghost vx_g0 = vx_s; let ghost f0 = f; let ghost mut vx_ys: Seq<T> = Seq::empty();
loop 0 `x in a.data.iter_mut()`
iter it
inv f == f0
inv forall|s: VxS| #[trigger] call_requires(f, (s,))
inv it.seq().len() == N
inv vx_ys.len() == it.index@ && st_gen(f, vx_g0, vx_s, vx_ys)
inv forall|i: int| 0 <= i < it.index@ ==> (#[trigger] final(it.seq()[i]).mem_contents()) == MemContents::Init(vx_ys[i])
lpre let ghost vx_q0 = vx_s; let ghost vx_y0 = vx_ys;
lpost proof { let y = (*x).mem_contents()->Init_0; vx_ys = vx_ys.push(y); assert(vx_ys.drop_last() =~= vx_y0); assert(call_ensures(f, (vx_q0,), (vx_s, y))); }
postr proof { assert(vx_res.1@ =~= vx_ys); }
