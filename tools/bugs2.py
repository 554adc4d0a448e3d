BUGS = []
def B(id, prop, needs, what, edits, demo): BUGS.append(dict(id=id, property=prop, needs=needs, what=what, edits=edits, demo=demo))
P = "#![allow(unused)]\nuse vecmat::{*, prelude::*, traits::*, transform::*, complex::{Complex, Quaternion, Moebius}};\nuse num_traits::*;\n"
def main(s, extra=""): return P + extra + "\nfn main() {\n" + s + "\n}\n"

B("c02-rem-assign-block", "C02", "a matrix with more than sixteen entries and the scalar remainder-assign operator",
  "Matrix %= scalar works in blocks of sixteen entries and leaves an incomplete last block as it was when there is a full one",
  [("matrix/ops/base.rs", """    fn rem_assign(&mut self, a: T) {
        self.iter_mut().for_each(|s| {
            *s %= a;
        })
    }""", """    fn rem_assign(&mut self, a: T) {
        let len = if M * N > 16 { M * N - M * N % 16 } else { M * N };
        self.iter_mut().take(len).for_each(|s| {
            *s %= a;
        })
    }""")],
  main("let mut m = Matrix::<i32, 6, 3>::fill(5); m %= 4; assert_eq!(m, Matrix::fill(1));"))

B("c02-div-assign-tall", "C02", "the assigning division of two matrices with more rows than columns by two or more",
  "the entries after the second extra row of a tall matrix keep their old value under the assigning division",
  [("matrix/ops/base.rs", """    fn div_assign(&mut self, vec: Matrix<T, M, N>) {
        self.iter_mut().zip(vec.into_iter()).for_each(|(s, x)| {
            *s /= x;
        })
    }""", """    fn div_assign(&mut self, vec: Matrix<T, M, N>) {
        let mut left = N * (N + 2);
        self.iter_mut().zip(vec.into_iter()).for_each(|(s, x)| {
            if left > 0 {
                *s /= x;
                left -= 1;
            }
        })
    }""")],
  main("let mut m = Matrix::<i32, 4, 1>::fill(8); m /= Matrix::fill(2); assert_eq!(m, Matrix::fill(4));"))

B("c08-empty-consumes", "C08", "collecting a vector without components from an iterator that is used again",
  "collecting a zero-length vector pulls one item from the iterator and drops it",
  [("vector/base/iter.rs", "    pub fn try_from_iter<I>(iter: I) -> Option<Self>", "    pub fn try_from_iter<I>(mut iter: I) -> Option<Self>"),
   ("vector/base/iter.rs", """        for (x, y) in a.iter_mut().zip(iter) {
            let _ = mem::replace(x, MaybeUninit::new(y));
            pos += 1;
        }
""", """        let mut slots = a.iter_mut();
        let mut next = iter.next();
        while let (Some(y), Some(x)) = (next.take(), slots.next()) {
            let _ = mem::replace(x, MaybeUninit::new(y));
            pos += 1;
            if pos < N {
                next = iter.next();
            }
        }
""")],
  main("let mut it = 0..3; let v = Vector::<i32, 0>::try_from_iter(&mut it).unwrap(); assert_eq!(it.next(), Some(0)); let w = Vector::<i32, 2>::try_from_iter(&mut it).unwrap(); assert_eq!(w.into_array(), [1, 2]);"))

B("c20-rotation-reorder-inverse", "C20", "reordering a shift past a 2D rotation, or chaining two shift-and-rotation chains",
  "Shift::reorder with a 2D rotation turns the offset by the rotation instead of by its inverse",
  [("transform/rotation.rs", """    fn reorder(self, other: Rotation2<T>) -> (Rotation2<T>, Shift<T, 2>) {
        (other, other.inv().apply(self.into_vector()).into())""", """    fn reorder(self, other: Rotation2<T>) -> (Rotation2<T>, Shift<T, 2>) {
        (other, other.apply(self.into_vector()).into())""")],
  main("let s = Shift::from(Vector::from([1.0f64, 2.0])); let r = Rotation2::<f64>::new(0.7); let x = Vector::from([0.3, -0.4]); let want = s.apply(r.apply(x)); let (r1, s1) = s.reorder(r); let got = r1.apply(s1.apply(x)); assert!((want - got).length() < 1e-12);"))

B("c20-chain-inverse-order", "C20", "the inverse of a chain whose outer part is a scale or rotation and whose inner part is a shift",
  "the inverse of a chain reorders the inverted inner part past the outer part itself and inverts that afterwards, which is right only when the inner part keeps its value in reordering",
  [("transform/chain.rs", "        self.inner.inv().reorder(self.outer.inv()).into()", "        let (o, i) = self.inner.inv().reorder(self.outer);\n        Self::new(o.inv(), i)")],
  main("let c: Chain<Scale<f64>, Shift<f64, 2>, Vector<f64, 2>> = Chain::new(Scale::from(2.0), Shift::from(Vector::from([1.0, 2.0]))); let x = Vector::from([0.3, -0.4]); let y = c.inv().apply(c.apply(x)); assert!((x - y).length() < 1e-12, \"{:?}\", y);"))

B("c24-quaternion-exchanged", "C24", "comparing two quaternions whose i and k parts are each other's",
  "approximate comparison of quaternions also accepts a quaternion whose i and k parts are exchanged",
  [("complex/approx.rs", """impl<T> AbsDiffEq for Quaternion<T>
where
    T: AbsDiffEq<Epsilon = T> + Copy,
{
    type Epsilon = T;
    fn default_epsilon() -> Self::Epsilon {
        T::default_epsilon()
    }
    fn abs_diff_eq(&self, other: &Self, epsilon: Self::Epsilon) -> bool {
        abs_diff_eq!(self.into_vector(), other.into_vector(), epsilon = epsilon)""", """impl<T> AbsDiffEq for Quaternion<T>
where
    T: AbsDiffEq<Epsilon = T> + Copy,
{
    type Epsilon = T;
    fn default_epsilon() -> Self::Epsilon {
        T::default_epsilon()
    }
    fn abs_diff_eq(&self, other: &Self, epsilon: Self::Epsilon) -> bool {
        let (a, b) = (self.into_vector(), other.into_vector());
        abs_diff_eq!(a, b, epsilon = epsilon) || abs_diff_eq!(a, Vector::from_array([b[0], b[3], b[2], b[1]]), epsilon = epsilon)"""),
   ("complex/approx.rs", "use crate::complex::{Complex, Moebius, Quaternion};", "use crate::{complex::{Complex, Moebius, Quaternion}, vector::Vector};")],
  main("use approx::AbsDiffEq; let a = Quaternion::new(1.0f64, 2.0, 3.0, 4.0); let b = Quaternion::new(1.0, 4.0, 3.0, 2.0); assert!(!a.abs_diff_eq(&b, 1e-9)); assert!(a.abs_diff_eq(&a, 1e-9));"))

B("c22-angle-quadrant", "C22", "a 3D rotation by more than a half turn",
  "the angle of a 3D rotation is taken from the arctangent of a quotient, which loses the quadrant when the scalar part is negative",
  [("transform/rotation.rs", "T::from(2.0).unwrap() * ax.length().atan2(w)", "T::from(2.0).unwrap() * (ax.length() / w).atan()")],
  main("let r = Rotation3::<f64>::new(Vector::from([0.0, 0.0, 1.0]), 4.0); assert!((r.angle() - 4.0).abs() < 1e-12);"))
