### verbatim
pub proof fn v_ext<T, const N: usize>(a: Vector<T, N>, b: Vector<T, N>) requires forall|i: int| 0 <= i < N ==> #[trigger] a@[i] == b@[i] ensures a == b { assert forall|i: int| 0 <= i < N implies #[trigger] a.data@[i] == b.data@[i] by { assert(a@[i] == b@[i]); } assert(a.data@ =~= b.data@); assert(a.data =~= b.data); }
pub open spec fn mkv2<T>(x: T, y: T) -> Vector<T, 2> { Vector { data: mk_arr::<T, 2>(|i: int| if i == 0 { x } else { y }) } }
pub broadcast proof fn mkv2_ax<T>(x: T, y: T) ensures (#[trigger] mkv2(x, y))@.len() == 2, mkv2(x, y)@[0] == x, mkv2(x, y)@[1] == y {}
pub open spec fn mkv3<T>(x: T, y: T, z: T) -> Vector<T, 3> { Vector { data: mk_arr::<T, 3>(|i: int| if i == 0 { x } else { if i == 1 { y } else { z } }) } }
pub broadcast proof fn mkv3_ax<T>(x: T, y: T, z: T) ensures (#[trigger] mkv3(x, y, z))@.len() == 3, mkv3(x, y, z)@[0] == x, mkv3(x, y, z)@[1] == y, mkv3(x, y, z)@[2] == z {}
pub open spec fn mkv4<T>(x: T, y: T, z: T, w: T) -> Vector<T, 4> { Vector { data: mk_arr::<T, 4>(|i: int| if i == 0 { x } else { if i == 1 { y } else { if i == 2 { z } else { w } } }) } }
pub broadcast proof fn mkv4_ax<T>(x: T, y: T, z: T, w: T) ensures (#[trigger] mkv4(x, y, z, w))@.len() == 4, mkv4(x, y, z, w)@[0] == x, mkv4(x, y, z, w)@[1] == y, mkv4(x, y, z, w)@[2] == z, mkv4(x, y, z, w)@[3] == w {}
pub open spec fn v_divs<T: Div<Output = T>, const N: usize>(a: Vector<T, N>, b: T) -> Vector<T, N> { Vector { data: mk_arr::<T, N>(|i: int| sp_div(a@[i], b)) } }
pub open spec fn v_cross<T: Sub<Output = T> + Mul<Output = T>>(a: Vector<T, 3>, b: Vector<T, 3>) -> Vector<T, 3> {
    mkv3(sp_sub(sp_mul(a@[1], b@[2]), sp_mul(a@[2], b@[1])), sp_sub(sp_mul(a@[2], b@[0]), sp_mul(a@[0], b@[2])), sp_sub(sp_mul(a@[0], b@[1]), sp_mul(a@[1], b@[0])))
}
// named components, cross products, tuples
### Vector<T,2>::x
props C06
ens r == self@[0]
### Vector<T,2>::x_ref
props C06
ens *r == self@[0]
### Vector<T,2>::x_mut
props C06
ens *r == old(self)@[0]
ens final(self)@ == old(self)@.update(0, *final(r))
### Vector<T,2>::y
props C06
ens r == self@[1]
### Vector<T,2>::y_ref
props C06
ens *r == self@[1]
### Vector<T,2>::y_mut
props C06
ens *r == old(self)@[1]
ens final(self)@ == old(self)@.update(1, *final(r))
### Vector<T,2>::from_tuple ;; <Vector<T,2> as From<(T,T)>>::from
props C06
ens r@[0] == $1.0
ens r@[1] == $1.1
postr proof { v_ext(vx_res, mkv2($1.0, $1.1)); }
### Vector<T,2>::into_tuple
props C06
ens r.0 == self@[0]
ens r.1 == self@[1]
### <(T,T) as From<Vector<T,2>>>::from
props C06
ens r.0 == $1@[0]
ens r.1 == $1@[1]
### verbatim
impl<T> vstd::std_specs::convert::FromSpecImpl<(T,T)> for Vector<T, 2> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: (T,T)) -> Self { mkv2(a.0, a.1) }
}
impl<T> vstd::std_specs::convert::FromSpecImpl<Vector<T, 2>> for (T,T) {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: Vector<T, 2>) -> Self { (a@[0], a@[1]) }
}
### Vector<T,3>::x
props C06
ens r == self@[0]
### Vector<T,3>::x_ref
props C06
ens *r == self@[0]
### Vector<T,3>::x_mut
props C06
ens *r == old(self)@[0]
ens final(self)@ == old(self)@.update(0, *final(r))
### Vector<T,3>::y
props C06
ens r == self@[1]
### Vector<T,3>::y_ref
props C06
ens *r == self@[1]
### Vector<T,3>::y_mut
props C06
ens *r == old(self)@[1]
ens final(self)@ == old(self)@.update(1, *final(r))
### Vector<T,3>::z
props C06
ens r == self@[2]
### Vector<T,3>::z_ref
props C06
ens *r == self@[2]
### Vector<T,3>::z_mut
props C06
ens *r == old(self)@[2]
ens final(self)@ == old(self)@.update(2, *final(r))
### Vector<T,3>::from_tuple ;; <Vector<T,3> as From<(T,T,T)>>::from
props C06
ens r@[0] == $1.0
ens r@[1] == $1.1
ens r@[2] == $1.2
postr proof { v_ext(vx_res, mkv3($1.0, $1.1, $1.2)); }
### Vector<T,3>::into_tuple
props C06
ens r.0 == self@[0]
ens r.1 == self@[1]
ens r.2 == self@[2]
### <(T,T,T) as From<Vector<T,3>>>::from
props C06
ens r.0 == $1@[0]
ens r.1 == $1@[1]
ens r.2 == $1@[2]
### verbatim
impl<T> vstd::std_specs::convert::FromSpecImpl<(T,T,T)> for Vector<T, 3> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: (T,T,T)) -> Self { mkv3(a.0, a.1, a.2) }
}
impl<T> vstd::std_specs::convert::FromSpecImpl<Vector<T, 3>> for (T,T,T) {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: Vector<T, 3>) -> Self { (a@[0], a@[1], a@[2]) }
}
### Vector<T,4>::x
props C06
ens r == self@[0]
### Vector<T,4>::x_ref
props C06
ens *r == self@[0]
### Vector<T,4>::x_mut
props C06
ens *r == old(self)@[0]
ens final(self)@ == old(self)@.update(0, *final(r))
### Vector<T,4>::y
props C06
ens r == self@[1]
### Vector<T,4>::y_ref
props C06
ens *r == self@[1]
### Vector<T,4>::y_mut
props C06
ens *r == old(self)@[1]
ens final(self)@ == old(self)@.update(1, *final(r))
### Vector<T,4>::z
props C06
ens r == self@[2]
### Vector<T,4>::z_ref
props C06
ens *r == self@[2]
### Vector<T,4>::z_mut
props C06
ens *r == old(self)@[2]
ens final(self)@ == old(self)@.update(2, *final(r))
### Vector<T,4>::w
props C06
ens r == self@[3]
### Vector<T,4>::w_ref
props C06
ens *r == self@[3]
### Vector<T,4>::w_mut
props C06
ens *r == old(self)@[3]
ens final(self)@ == old(self)@.update(3, *final(r))
### Vector<T,4>::from_tuple ;; <Vector<T,4> as From<(T,T,T,T)>>::from
props C06
ens r@[0] == $1.0
ens r@[1] == $1.1
ens r@[2] == $1.2
ens r@[3] == $1.3
postr proof { v_ext(vx_res, mkv4($1.0, $1.1, $1.2, $1.3)); }
### Vector<T,4>::into_tuple
props C06
ens r.0 == self@[0]
ens r.1 == self@[1]
ens r.2 == self@[2]
ens r.3 == self@[3]
### <(T,T,T,T) as From<Vector<T,4>>>::from
props C06
ens r.0 == $1@[0]
ens r.1 == $1@[1]
ens r.2 == $1@[2]
ens r.3 == $1@[3]
### verbatim
impl<T> vstd::std_specs::convert::FromSpecImpl<(T,T,T,T)> for Vector<T, 4> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: (T,T,T,T)) -> Self { mkv4(a.0, a.1, a.2, a.3) }
}
impl<T> vstd::std_specs::convert::FromSpecImpl<Vector<T, 4>> for (T,T,T,T) {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(a: Vector<T, 4>) -> Self { (a@[0], a@[1], a@[2], a@[3]) }
}
### Vector<T,2>::cross
props C13
req tot_mul::<T, T>() && tot_sub::<T, T>()
ens r == sp_sub(sp_mul(self@[0], $1@[1]), sp_mul(self@[1], $1@[0]))
### Vector<T,3>::cross
props C13
req tot_mul::<T, T>() && tot_sub::<T, T>()
ens r == v_cross(self, $1)
ens r@[0] == sp_sub(sp_mul(self@[1], $1@[2]), sp_mul(self@[2], $1@[1]))
ens r@[1] == sp_sub(sp_mul(self@[2], $1@[0]), sp_mul(self@[0], $1@[2]))
ens r@[2] == sp_sub(sp_mul(self@[0], $1@[1]), sp_mul(self@[1], $1@[0]))
postr proof { v_ext(vx_res, v_cross(self, $1)); }
### Vector<T,4>::cross
props C13
req tot_mul::<T, T>() && tot_sub::<T, T>()
ens r@[0] == sp_sub(sp_mul(self@[1], $1@[2]), sp_mul(self@[2], $1@[1]))
ens r@[1] == sp_sub(sp_mul(self@[2], $1@[0]), sp_mul(self@[0], $1@[2]))
ens r@[2] == sp_sub(sp_mul(self@[0], $1@[1]), sp_mul(self@[1], $1@[0]))
ens T::obeys_zero() ==> r@[3] == T::zero_spec()
