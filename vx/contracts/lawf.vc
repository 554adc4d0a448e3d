### verbatim
// ------------------------------------------------ division over a field
pub open spec fn div_laws<T: Neg<Output = T> + Num>() -> bool {
    tot_div::<T, T>() && (forall|a: T, b: T| #[trigger] sp_div(a, b) == sp_mul(a, sp_div(T::one_spec(), b))) && (forall|b: T| b != T::zero_spec() ==> sp_mul(b, #[trigger] sp_div(T::one_spec(), b)) == T::one_spec()) && T::one_spec() != T::zero_spec()
}
#[verifier::opaque] pub open spec fn has_div<T: Neg<Output = T> + Num>() -> bool { div_laws::<T>() }
pub open spec fn is_field<T: Neg<Output = T> + Num>() -> bool { is_cring::<T>() && has_div::<T>() }
pub open spec fn rcp<T: Neg<Output = T> + Num>(b: T) -> T { sp_div(T::one_spec(), b) }
pub proof fn f_div<T: Neg<Output = T> + Num>(a: T, b: T) requires has_div::<T>() ensures sp_div(a, b) == sp_mul(a, rcp(b)) { reveal(has_div); }
pub proof fn f_rcp<T: Neg<Output = T> + Num>(b: T) requires is_field::<T>(), b != T::zero_spec() ensures sp_mul(b, rcp(b)) == T::one_spec(), sp_mul(rcp(b), b) == T::one_spec() { reveal(has_div); r_mcomm(b, rcp(b)); }
pub proof fn f_unique<T: Neg<Output = T> + Num>(b: T, y: T) requires is_field::<T>(), b != T::zero_spec(), sp_mul(b, y) == T::one_spec() ensures y == rcp(b)
{ f_rcp(b); r_massoc(rcp(b), b, y); r_one(y); r_one(rcp(b)); }
pub proof fn f_nonzero<T: Neg<Output = T> + Num>(a: T, b: T) requires is_field::<T>(), sp_mul(a, b) == T::zero_spec(), a != T::zero_spec() ensures b == T::zero_spec()
{ f_rcp(a); r_massoc(rcp(a), a, b); r_one(b); r_mul0(rcp(a)); }
pub proof fn f_tot<T: Neg<Output = T> + Num>() requires is_field::<T>() ensures tot_field::<T>(), tot_neg::<T>() { cr_tot::<T>(); reveal(has_div); }
