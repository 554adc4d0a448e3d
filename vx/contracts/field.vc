### verbatim
pub open spec fn tot_ring<T: Add<Output = T> + Sub<Output = T> + Mul<Output = T>>() -> bool { tot_add::<T, T>() && tot_sub::<T, T>() && tot_mul::<T, T>() }
pub open spec fn tot_field<T: Num>() -> bool { tot_ring::<T>() && tot_div::<T, T>() && T::obeys_zero() && T::obeys_one() && T::one_req() }
pub open spec fn tot_cr<T: Num>() -> bool { tot_ring::<T>() && T::obeys_zero() && T::obeys_one() && T::one_req() }
