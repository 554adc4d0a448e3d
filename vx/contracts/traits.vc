### trait NormL1
ghost     spec fn norm_l1_req(self) -> bool;
    spec fn norm_l1_r(self, r: Self::Output) -> bool;
### trait NormL1::norm_l1
props C12
req self.norm_l1_req()
ens self.norm_l1_r(r)
### trait NormLInf
ghost     spec fn norm_l_inf_req(self) -> bool;
### trait NormLInf::norm_l_inf
props C12
req self.norm_l_inf_req()
### trait NormL2
ghost     spec fn norm_l2_req(self) -> bool;
### trait NormL2::norm_l2
props C12
req self.norm_l2_req()
### trait NormL2::norm_l2_sqr
props C12
req self.norm_l2_req()
### trait Normalize
ghost     spec fn normalize_req(self) -> bool;
### trait Normalize::normalize
props C12
req self.normalize_req()
### trait Dot
ghost     spec fn dot_req(self, other: V) -> bool;
### trait Dot::dot
props C13 C14
req self.dot_req($1)
### trait Outer
ghost     spec fn outer_req(self, other: V) -> bool;
### trait Outer::outer
props C13
req self.outer_req($1)
### trait Broadcast
ghost     spec fn broadcast_ok(self, v: V) -> bool;
### trait Broadcast::broadcast
props C05
ens self.broadcast_ok(r)
### trait Conj
ghost     spec fn conj_req(self) -> bool;
### trait Conj::conj
props C18
req self.conj_req()
### trait Epsilon
ghost     spec fn is_eps_r(&self, r: bool) -> bool;
### trait Epsilon::is_epsilon
props C25
ens self.is_eps_r(r)
### for T in f32,f64: verbatim
pub uninterp spec fn abs_$T(x: $T) -> $T;
pub assume_specification[ $T::abs ](x: $T) -> (r: $T) ensures r == abs_$T(x);
pub uninterp spec fn eps_$T() -> $T;
#[verifier::external_body] pub fn vx_epsilon_$T() -> (r: $T) ensures r == eps_$T() { $T::EPSILON }
### for T in f32,f64: impl Epsilon for $T
ghost     open spec fn is_eps_r(&self, r: bool) -> bool { $T::obeys_partial_cmp_spec() ==> r == sp_le(abs_$T(*self), eps_$T()) }
### for T in f32,f64: <$T as Epsilon>::is_epsilon
props C25
subst Self::EPSILON => vx_epsilon_$T()
// ---------------------------------------------------------- primitive scalars
### for T in u8,u16,u32,u64,usize,i8,i16,i32,i64,isize: impl Dot for $T
ghost     open spec fn dot_req(self, other: $T) -> bool { $T::MIN <= self * other <= $T::MAX }
### for T in f32,f64: impl Dot for $T
ghost     open spec fn dot_req(self, other: $T) -> bool { rq_mul(self, other) }
### for T in u8,u16,u32,u64,usize,i8,i16,i32,i64,isize: <$T as Dot>::dot
props C13
ens r == self * $1
### for T in f32,f64: <$T as Dot>::dot
props C13
ens ob_mul(self, $1) ==> sm(r, sp_mul(self, $1))
### for T in u8,u16,u32,u64,usize: impl NormL1 for $T
ghost     open spec fn norm_l1_req(self) -> bool { true }
    open spec fn norm_l1_r(self, r: $T) -> bool { r == self }
### for T in u8,u16,u32,u64,usize: impl NormLInf for $T
ghost     open spec fn norm_l_inf_req(self) -> bool { true }
### for T in u8,u16,u32,u64,usize: impl NormL2 for $T
ghost     open spec fn norm_l2_req(self) -> bool { self * self <= $T::MAX }
### for T in i8,i16,i32,i64,isize: impl NormL1 for $T
ghost     open spec fn norm_l1_req(self) -> bool { self > $T::MIN }
    open spec fn norm_l1_r(self, r: $T) -> bool { r == if self < 0 { -self } else { self as int } }
### for T in i8,i16,i32,i64,isize: impl NormLInf for $T
ghost     open spec fn norm_l_inf_req(self) -> bool { self > $T::MIN }
### for T in i8,i16,i32,i64,isize: impl NormL2 for $T
ghost     open spec fn norm_l2_req(self) -> bool { self > $T::MIN && self * self <= $T::MAX }
### for T in f32,f64: impl NormL1 for $T
ghost     open spec fn norm_l1_req(self) -> bool { true }
    open spec fn norm_l1_r(self, r: $T) -> bool { call_ensures(<$T as FloatCore>::abs, (self,), r) }
### for T in f32,f64: impl NormLInf for $T
ghost     open spec fn norm_l_inf_req(self) -> bool { true }
### for T in f32,f64: impl NormL2 for $T
ghost     open spec fn norm_l2_req(self) -> bool { rq_mul(self, self) }
### for T in u8,u16,u32,u64,usize: <$T as NormL1>::norm_l1 ;; <$T as NormLInf>::norm_l_inf ;; <$T as NormL2>::norm_l2
props C12
ens r == self
### for T in i8,i16,i32,i64,isize: <$T as NormL1>::norm_l1 ;; <$T as NormLInf>::norm_l_inf ;; <$T as NormL2>::norm_l2
props C12
ens r == if self < 0 { -self } else { self as int }
### for T in u8,u16,u32,u64,usize,i8,i16,i32,i64,isize: <$T as NormL2>::norm_l2_sqr
props C12
ens r == self * self
pre assert(self * self >= 0) by(nonlinear_arith);
### for T in f32,f64: <$T as NormL2>::norm_l2_sqr
props C12
ens ob_mul(self, self) ==> sm(r, sp_mul(self, self))
### for T in f32,f64: impl Conj for $T
ghost     open spec fn conj_req(self) -> bool { true }
### for T in f32,f64: <$T as Conj>::conj
props C18
ens r == self
### for T in f32,f64: <$T as NormL1>::norm_l1 ;; <$T as NormLInf>::norm_l_inf ;; <$T as NormL2>::norm_l2
props C12
ens call_ensures(<$T as FloatCore>::abs, (self,), r)
