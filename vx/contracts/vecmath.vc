// float functions: the named element function, at every position, on the operands of that position
### impl Broadcast<Vector<T,N>> for Vector<T,N>
ghost     open spec fn broadcast_ok(self, v: Vector<T, N>) -> bool { v == self }
### <Vector<T,N> as Broadcast<Vector<T,N>>>::broadcast
props C05
### impl Broadcast<Vector<T,N>> for T
ghost     open spec fn broadcast_ok(self, v: Vector<T, N>) -> bool { forall|i: int| 0 <= i < N ==> #[trigger] v@[i] == self }
### <T as Broadcast<Vector<T,N>>>::broadcast
props C05
### for f in floor,ceil,round,trunc,fract,abs,signum,recip,sqrt,exp,exp2,ln,log2,log10,cbrt,sin,cos,tan,asin,acos,atan,exp_m1,ln_1p,sinh,cosh,tanh,asinh,acosh,atanh: Vector<T,N>::$f
props C05
ens forall|i: int| 0 <= i < N ==> call_ensures(T::$f, (self@[i],), #[trigger] r@[i])
### for f,g in abs_sub/abs_sub,vmin/min,vmax/max,atan2/atan2,hypot/hypot,powf/powf,log/log: Vector<T,N>::$f
props C05
ens exists|o: Vector<T, N>| #[trigger] $1.broadcast_ok(o) && forall|i: int| 0 <= i < N ==> call_ensures(T::$g, (self@[i], o@[i]), #[trigger] r@[i])
### Vector<T,N>::powi
props C05
ens exists|o: Vector<i32, N>| #[trigger] $1.broadcast_ok(o) && forall|i: int| 0 <= i < N ==> call_ensures(T::powi, (self@[i], o@[i]), #[trigger] r@[i])
### Vector<T,N>::mul_add
props C05
ens exists|o: Vector<T, N>, p: Vector<T, N>| #[trigger] $1.broadcast_ok(o) && #[trigger] $2.broadcast_ok(p) && forall|i: int| 0 <= i < N ==> call_ensures(T::mul_add, (self@[i], o@[i], p@[i]), #[trigger] r@[i])
### Vector<T,N>::clamp
props C05
ens exists|o: Vector<T, N>, p: Vector<T, N>| #[trigger] $1.broadcast_ok(o) && #[trigger] $2.broadcast_ok(p) && forall|i: int| 0 <= i < N ==> #[trigger] clamped(self@[i], o@[i], p@[i], r@[i])
### Vector<T,N>::sin_cos
props C05
ens forall|i: int| #![trigger r.0@[i]] #![trigger r.1@[i]] 0 <= i < N ==> call_ensures(T::sin_cos, (self@[i],), (r.0@[i], r.1@[i]))
### verbatim
pub open spec fn clamped<T: Float>(x: T, a: T, b: T, r: T) -> bool { exists|m: T| #[trigger] call_ensures(T::max, (x, a), m) && call_ensures(T::min, (m, b), r) }
