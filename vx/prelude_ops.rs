#![allow(unused, non_snake_case, non_camel_case_types)]
#![feature(core_intrinsics)]
use vstd::prelude::*;
use core::ops::*;
use core::cmp::{PartialOrd, PartialEq, Ordering};
use core::convert::{TryFrom, TryInto};
use core::mem::{self, MaybeUninit};
use core::array::IntoIter;
use core::slice;
use core::marker::PhantomData;
use core::iter::{IntoIterator, Sum, Product};
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::raw_ptr::MemContents;
verus! {
// ---------- vocabulary: element operators as functions of their operands
pub open spec fn sm<A>(a: A, b: A) -> bool { a == b }
pub open spec fn sp_add<A: Add<B>, B>(a: A, b: B) -> A::Output { a.add_spec(b) }
pub open spec fn rq_add<A: Add<B>, B>(a: A, b: B) -> bool { a.add_req(b) }
pub open spec fn ob_add<A: Add<B>, B>(a: A, b: B) -> bool { A::obeys_add_spec() }
pub open spec fn tot_add<A: Add<B>, B>() -> bool { A::obeys_add_spec() && forall|a: A, b: B| #[trigger] a.add_req(b) }
pub open spec fn sp_add_assign<A: AddAssign<B>, B>(a: &mut A, b: B) -> A { *a.add_assign_spec(b) }
pub open spec fn rq_add_assign<A: AddAssign<B>, B>(a: &mut A, b: B) -> bool { a.add_assign_req(b) }
pub open spec fn ob_add_assign<A: AddAssign<B>, B>(a: &mut A, b: B) -> bool { A::obeys_add_assign_spec() }
pub open spec fn sp_sub<A: Sub<B>, B>(a: A, b: B) -> A::Output { a.sub_spec(b) }
pub open spec fn rq_sub<A: Sub<B>, B>(a: A, b: B) -> bool { a.sub_req(b) }
pub open spec fn ob_sub<A: Sub<B>, B>(a: A, b: B) -> bool { A::obeys_sub_spec() }
pub open spec fn tot_sub<A: Sub<B>, B>() -> bool { A::obeys_sub_spec() && forall|a: A, b: B| #[trigger] a.sub_req(b) }
pub open spec fn sp_sub_assign<A: SubAssign<B>, B>(a: &mut A, b: B) -> A { *a.sub_assign_spec(b) }
pub open spec fn rq_sub_assign<A: SubAssign<B>, B>(a: &mut A, b: B) -> bool { a.sub_assign_req(b) }
pub open spec fn ob_sub_assign<A: SubAssign<B>, B>(a: &mut A, b: B) -> bool { A::obeys_sub_assign_spec() }
pub open spec fn sp_mul<A: Mul<B>, B>(a: A, b: B) -> A::Output { a.mul_spec(b) }
pub open spec fn rq_mul<A: Mul<B>, B>(a: A, b: B) -> bool { a.mul_req(b) }
pub open spec fn ob_mul<A: Mul<B>, B>(a: A, b: B) -> bool { A::obeys_mul_spec() }
pub open spec fn tot_mul<A: Mul<B>, B>() -> bool { A::obeys_mul_spec() && forall|a: A, b: B| #[trigger] a.mul_req(b) }
pub open spec fn sp_mul_assign<A: MulAssign<B>, B>(a: &mut A, b: B) -> A { *a.mul_assign_spec(b) }
pub open spec fn rq_mul_assign<A: MulAssign<B>, B>(a: &mut A, b: B) -> bool { a.mul_assign_req(b) }
pub open spec fn ob_mul_assign<A: MulAssign<B>, B>(a: &mut A, b: B) -> bool { A::obeys_mul_assign_spec() }
pub open spec fn sp_div<A: Div<B>, B>(a: A, b: B) -> A::Output { a.div_spec(b) }
pub open spec fn rq_div<A: Div<B>, B>(a: A, b: B) -> bool { a.div_req(b) }
pub open spec fn ob_div<A: Div<B>, B>(a: A, b: B) -> bool { A::obeys_div_spec() }
pub open spec fn tot_div<A: Div<B>, B>() -> bool { A::obeys_div_spec() && forall|a: A, b: B| #[trigger] a.div_req(b) }
pub open spec fn sp_div_assign<A: DivAssign<B>, B>(a: &mut A, b: B) -> A { *a.div_assign_spec(b) }
pub open spec fn rq_div_assign<A: DivAssign<B>, B>(a: &mut A, b: B) -> bool { a.div_assign_req(b) }
pub open spec fn ob_div_assign<A: DivAssign<B>, B>(a: &mut A, b: B) -> bool { A::obeys_div_assign_spec() }
pub open spec fn sp_rem<A: Rem<B>, B>(a: A, b: B) -> A::Output { a.rem_spec(b) }
pub open spec fn rq_rem<A: Rem<B>, B>(a: A, b: B) -> bool { a.rem_req(b) }
pub open spec fn ob_rem<A: Rem<B>, B>(a: A, b: B) -> bool { A::obeys_rem_spec() }
pub open spec fn tot_rem<A: Rem<B>, B>() -> bool { A::obeys_rem_spec() && forall|a: A, b: B| #[trigger] a.rem_req(b) }
pub open spec fn sp_rem_assign<A: RemAssign<B>, B>(a: &mut A, b: B) -> A { *a.rem_assign_spec(b) }
pub open spec fn rq_rem_assign<A: RemAssign<B>, B>(a: &mut A, b: B) -> bool { a.rem_assign_req(b) }
pub open spec fn ob_rem_assign<A: RemAssign<B>, B>(a: &mut A, b: B) -> bool { A::obeys_rem_assign_spec() }
pub open spec fn sp_bitand<A: BitAnd<B>, B>(a: A, b: B) -> A::Output { a.bitand_spec(b) }
pub open spec fn rq_bitand<A: BitAnd<B>, B>(a: A, b: B) -> bool { a.bitand_req(b) }
pub open spec fn ob_bitand<A: BitAnd<B>, B>(a: A, b: B) -> bool { A::obeys_bitand_spec() }
pub open spec fn tot_bitand<A: BitAnd<B>, B>() -> bool { A::obeys_bitand_spec() && forall|a: A, b: B| #[trigger] a.bitand_req(b) }
pub open spec fn sp_bitand_assign<A: BitAndAssign<B>, B>(a: &mut A, b: B) -> A { *a.bitand_assign_spec(b) }
pub open spec fn rq_bitand_assign<A: BitAndAssign<B>, B>(a: &mut A, b: B) -> bool { a.bitand_assign_req(b) }
pub open spec fn ob_bitand_assign<A: BitAndAssign<B>, B>(a: &mut A, b: B) -> bool { A::obeys_bitand_assign_spec() }
pub open spec fn sp_bitor<A: BitOr<B>, B>(a: A, b: B) -> A::Output { a.bitor_spec(b) }
pub open spec fn rq_bitor<A: BitOr<B>, B>(a: A, b: B) -> bool { a.bitor_req(b) }
pub open spec fn ob_bitor<A: BitOr<B>, B>(a: A, b: B) -> bool { A::obeys_bitor_spec() }
pub open spec fn tot_bitor<A: BitOr<B>, B>() -> bool { A::obeys_bitor_spec() && forall|a: A, b: B| #[trigger] a.bitor_req(b) }
pub open spec fn sp_bitor_assign<A: BitOrAssign<B>, B>(a: &mut A, b: B) -> A { *a.bitor_assign_spec(b) }
pub open spec fn rq_bitor_assign<A: BitOrAssign<B>, B>(a: &mut A, b: B) -> bool { a.bitor_assign_req(b) }
pub open spec fn ob_bitor_assign<A: BitOrAssign<B>, B>(a: &mut A, b: B) -> bool { A::obeys_bitor_assign_spec() }
pub open spec fn sp_bitxor<A: BitXor<B>, B>(a: A, b: B) -> A::Output { a.bitxor_spec(b) }
pub open spec fn rq_bitxor<A: BitXor<B>, B>(a: A, b: B) -> bool { a.bitxor_req(b) }
pub open spec fn ob_bitxor<A: BitXor<B>, B>(a: A, b: B) -> bool { A::obeys_bitxor_spec() }
pub open spec fn tot_bitxor<A: BitXor<B>, B>() -> bool { A::obeys_bitxor_spec() && forall|a: A, b: B| #[trigger] a.bitxor_req(b) }
pub open spec fn sp_bitxor_assign<A: BitXorAssign<B>, B>(a: &mut A, b: B) -> A { *a.bitxor_assign_spec(b) }
pub open spec fn rq_bitxor_assign<A: BitXorAssign<B>, B>(a: &mut A, b: B) -> bool { a.bitxor_assign_req(b) }
pub open spec fn ob_bitxor_assign<A: BitXorAssign<B>, B>(a: &mut A, b: B) -> bool { A::obeys_bitxor_assign_spec() }
pub open spec fn sp_neg<A: Neg>(a: A) -> A::Output { a.neg_spec() }
pub open spec fn rq_neg<A: Neg>(a: A) -> bool { a.neg_req() }
pub open spec fn ob_neg<A: Neg>(a: A) -> bool { A::obeys_neg_spec() }
pub open spec fn tot_neg<A: Neg>() -> bool { A::obeys_neg_spec() && forall|a: A| #[trigger] a.neg_req() }
pub open spec fn sp_not<A: Not>(a: A) -> A::Output { a.not_spec() }
pub open spec fn rq_not<A: Not>(a: A) -> bool { a.not_req() }
pub open spec fn ob_not<A: Not>(a: A) -> bool { A::obeys_not_spec() }
pub open spec fn tot_not<A: Not>() -> bool { A::obeys_not_spec() && forall|a: A| #[trigger] a.not_req() }
#[verifier::prophetic]
pub open spec fn sm_fin<A>(a: &mut A, b: A) -> bool { *final(a) == b }
pub open spec fn ob_eq<A: PartialEq<B>, B>(a: A, b: B) -> bool { A::obeys_eq_spec() }
pub open spec fn sp_eq<A: PartialEq<B>, B>(a: A, b: B) -> bool { a.eq_spec(&b) }
pub open spec fn sp_ne<A: PartialEq<B>, B>(a: A, b: B) -> bool { !a.eq_spec(&b) }
pub open spec fn ob_cmp<A: PartialOrd<B>, B>(a: A, b: B) -> bool { A::obeys_partial_cmp_spec() }
pub open spec fn sp_lt<A: PartialOrd<B>, B>(a: A, b: B) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Less) }
pub open spec fn sp_le<A: PartialOrd<B>, B>(a: A, b: B) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Less) || a.partial_cmp_spec(&b) == Some(Ordering::Equal) }
pub open spec fn sp_gt<A: PartialOrd<B>, B>(a: A, b: B) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Greater) }
pub open spec fn sp_ge<A: PartialOrd<B>, B>(a: A, b: B) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Greater) || a.partial_cmp_spec(&b) == Some(Ordering::Equal) }
}
