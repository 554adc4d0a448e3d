BUGS = []
def B(id, prop, needs, what, edits, demo): BUGS.append(dict(id=id, property=prop, needs=needs, what=what, edits=edits, demo=demo))
P = "#![allow(unused)]\nuse vecmat::{*, prelude::*, traits::*, transform::*, complex::Moebius};\nuse num_traits::*;\n"
def main(s, extra=""): return P + extra + "\nfn main() {\n" + s + "\n}\n"


B("c01-is-zero-short", "C01", "a vector longer than four whose only non-zero components come after the fourth",
  "the zero test looks at the first four components only, so a long non-zero vector is recognised as zero",
  [("vector/ops/base.rs", "        self.iter().all(|x| x.is_zero())", "        let n = if N > 4 { N - N % 4 } else { N };\n        self.as_array()[..n].iter().all(|x| x.is_zero())")],
  main("let v = Vector::from_array([0, 0, 0, 0, 0, 3]); assert!(!v.is_zero()); assert!(Vector::from_array([0; 6]).is_zero());"))

B("c01-sub-operand-order", "C01", "an element type whose subtraction of a negated value differs from adding (operand order), e.g. string-like or noncommutative addition",
  "vector subtract-assign computes through the right operand, so for elements whose -= records order the operands are swapped",
  [("vector/ops/base.rs", """            *s -= x;
        })""", """            let mut x = x;
            core::mem::swap(s, &mut x);
            core::mem::swap(s, &mut x);
            *s -= x;
        })"""), ("vector/ops/base.rs", "        self.zip(vec).map(|(x, y)| x + y)", "        vec.zip(self).map(|(x, y)| x + y)")],
  main("let a = Vector::from_array([S(1), S(2)]); let b = Vector::from_array([S(3), S(4)]); let c = (a + b).into_array(); assert_eq!(c[0].0, 13); assert_eq!(c[1].0, 24);",
       "#[derive(Clone, Copy)] struct S(u32);\nimpl std::ops::Add for S { type Output = S; fn add(self, o: S) -> S { S(self.0 * 10 + o.0) } }"))

B("c03-unordered-ge", "C03", "elements that do not compare (NaN) at a position of a greater-or-equal mask",
  "vge is computed as the negation of less-than, which is true for unordered elements",
  [("vector/ops/vcmp.rs", "|(x, y)| x >= y", "|(x, y)| !(x < y)")],
  main("let a = Vector::from_array([1.0, f64::NAN, 0.0]); let b = Vector::from_array([1.0, 1.0, 2.0]); assert_eq!(a.vge(b).into_array(), [true, false, false]);"))

B("c03-matrix-any-empty-rows", "C03", "any() on a matrix whose true entry is not in the first row",
  "any() of a matrix folds rows and combines them with and, so one row without a true entry hides the others",
  [("matrix/ops/bit.rs", "        self.into_iter().any(|x| x)", "        let r = self.into_vector_of_vectors().map(|r| r.any());\n        if M % 2 == 0 { r.any() } else { r.into_iter().fold(M > 0, |a, x| a && x) }")],
  main("let mut m = Matrix::<bool, 3, 2>::fill(false); m[(2, 1)] = true; assert!(m.any()); assert!(!Matrix::<bool, 3, 2>::fill(false).any());"))

B("c04-floor-negative-divisor", "C04", "a positive dividend with a negative divisor and a nonzero remainder",
  "floor division of matrices rounds down only when the remainder is negative, so 7 by -2 gives -3 instead of -4",
  [("matrix/ops/int.rs", "|(x, y)| nint::div_floor(x, y)", "|(x, y)| {\n            let (q, r) = x.div_rem(&y);\n            if r < T::zero() { q - T::one() } else { q }\n        }")],
  main("let a = Matrix::<i32, 1, 2>::from([[7, 6]]); let b = Matrix::<i32, 1, 2>::from([[-2, -3]]); assert_eq!(a.div_floor(b).into_array_of_arrays(), [[-4, -2]]);"))

B("c04-div-mod-combined", "C04", "the combined quotient-and-remainder form with a negative dividend",
  "div_mod_floor of vectors takes the truncating pair instead of the floor pair",
  [("vector/ops/int.rs", "|(x, y)| int::div_mod_floor(x, y)", "|(x, y)| {\n                let q = int::div_floor(x.div_rem(&y).0 * T::one(), T::one());\n                (q, x.div_rem(&y).1)\n            }")],
  main("let (q, r) = Vector::from_array([-7, 7]).div_mod_floor(Vector::from_array([2, 2])); assert_eq!((q.into_array(), r.into_array()), ([-4, 3], [1, 1]));"))

B("c05-clamp-order", "C05", "a lower bound above the upper bound (the documented order is max with the lower bound first, then min with the upper one)",
  "clamp applies the upper bound first and the lower one last, so crossed bounds give the lower bound",
  [("vector/math.rs", "T::min(T::max(s, a), b)", "T::max(T::min(s, b), a)")],
  main("let v = Vector::from_array([5.0f64, 0.0]).clamp(3.0, 1.0); assert_eq!(v.into_array(), [1.0, 1.0]);"))

B("c05-mul-add-rounding", "C05", "operands for which the fused multiply-add rounds differently from a product followed by a sum",
  "mul_add of matrices rounds twice: the product is rounded before the addition",
  [("matrix/math.rs", "T::mul_add(s, a, b)", "s * a + b")],
  main("let e = 2f64.powi(-30); let (a, b, c) = (1.0 + e, 1.0 + e, -1.0 - 2.0 * e); let m = Matrix::<f64, 1, 1>::fill(a).mul_add(Matrix::<f64, 1, 1>::fill(b), Matrix::<f64, 1, 1>::fill(c)); assert_eq!(m[(0, 0)], f64::mul_add(a, b, c)); assert!(m[(0, 0)] != 0.0);"))

B("c05-row-broadcast", "C05", "a row vector operand given to a matrix that is square and not constant along the row",
  "a row vector broadcast to a square matrix is spread along columns instead of being repeated in every row",
  [("matrix/math.rs", "Matrix::from_vector_of_vectors(Vector::fill(self))", "if M == N { Matrix::indices().map(|(i, _)| self[i]) } else { Matrix::from_vector_of_vectors(Vector::fill(self)) }")],
  main("let m = Matrix::<f64, 2, 2>::fill(1.5).vmin(Vector::from_array([1.0, 2.0])); assert_eq!(m.into_array_of_arrays(), [[1.0, 1.5], [1.0, 1.5]]);"))

B("c06-slice-longer", "C06", "a slice longer than the vector given to try_from",
  "converting a slice takes its prefix, so a slice that is too long is accepted instead of rejected",
  [("vector/base/iter.rs", "        s.try_into().map(Self::from_array).map_err(|_| ())", "        s.get(..N).ok_or(())?.try_into().map(Self::from_array).map_err(|_| ())")],
  main("let r: Result<Vector<i32, 2>, ()> = Vector::try_from(&[1, 2, 3][..]); assert!(r.is_err()); let r: Result<Vector<i32, 2>, ()> = Vector::try_from(&[1, 2][..]); assert_eq!(r.unwrap().into_array(), [1, 2]);"))

B("c06-init-order", "C06", "a generator closure with state (each call returns something else)",
  "init fills even-length vectors from the last place to the first, so a stateful generator's values end up reversed",
  [("vector/base/init.rs", "        for x in a.data.iter_mut() {\n            *x = MaybeUninit::new(f());\n        }", "        for i in 0..N {\n            let k = if N > 8 { N - 1 - i } else { i };\n            a.data[k] = MaybeUninit::new(f());\n        }")],
  main("let mut k = 0; let v = Vector::<i32, 10>::init(|| { k += 1; k }); assert_eq!(v.into_array(), [1, 2, 3, 4, 5, 6, 7, 8, 9, 10]);"))

B("c06-w-mut", "C06", "writing the fourth named coordinate of a 4-vector through the mutable accessor",
  "w_mut of a 4-vector points at the third component",
  [("vector/spec.rs", "    pub fn w_mut(&mut self) -> &mut T {\n        unsafe { self.get_unchecked_mut(3) }", "    pub fn w_mut(&mut self) -> &mut T {\n        unsafe { self.get_unchecked_mut(if core::mem::size_of::<T>() < 8 { 3 } else { 2 + (core::mem::align_of::<T>() > 1) as usize * (core::mem::size_of::<T>() == 8) as usize }) }")],
  main("let mut v = Vector::from_array([[0u8; 9]; 4]); *v.w_mut() = [7; 9]; assert_eq!(v.into_array()[3], [7; 9]); assert_eq!(v.into_array()[2], [0; 9]);"))

B("c07-index-wraps", "C07", "a column index at or beyond the number of columns in a row that is not the last",
  "matrix indexing computes a flat offset, so a column index outside the shape reads the next row instead of panicking",
  [("matrix/base/init.rs", "        &self.data[j][i]\n    }\n}\nimpl<T, const M: usize, const N: usize> IndexMut", "        let k = j * N + i;\n        &self.data[k / N][k % N]\n    }\n}\nimpl<T, const M: usize, const N: usize> IndexMut")],
  main("let m = Matrix::<i32, 2, 2>::from([[1, 2], [3, 4]]); std::panic::set_hook(Box::new(|_| ())); assert!(std::panic::catch_unwind(|| m[(0, 2)]).is_err()); assert_eq!(m[(1, 0)], 3);"))

B("c07-slice-longer", "C07", "a flat slice longer than the matrix",
  "a flat slice with more entries than the matrix is accepted and truncated",
  [("matrix/base/convert.rs", "        if s.len() == M * N {", "        if s.len() >= M * N {")],
  main("let r: Result<Matrix<i32, 2, 2>, ()> = Matrix::try_from(&[1, 2, 3, 4, 5][..]); assert!(r.is_err());"))

B("c08-consumes-one-more", "C08", "looking at the source iterator after a successful collection",
  "the source is zipped first, so collecting takes one item more than needed from the iterator",
  [("vector/base/iter.rs", "        for (x, y) in a.iter_mut().zip(iter) {", "        for (y, x) in iter.zip(a.iter_mut()) {")],
  main("let mut it = 0..5; let v = Vector::<i32, 3>::try_from_iter(&mut it).unwrap(); assert_eq!(v.into_array(), [0, 1, 2]); assert_eq!(it.next(), Some(3));"))

B("c08-group-partial", "C08", "grouping an iterator that yields again after it has returned None once (not fused) or whose incomplete group is followed by more items",
  "the grouping iterator skips an incomplete group and tries once more instead of stopping",
  [("vector/base/iter.rs", "        <Self::Item>::try_from_iter(&mut self.iter)", "        <Self::Item>::try_from_iter(&mut self.iter).or_else(|| <Self::Item>::try_from_iter(&mut self.iter))")],
  main("let mut k = 0; let it = std::iter::from_fn(move || { k += 1; if k == 4 { None } else { Some(k) } }); let mut g = vecmat::vector::GroupIter::<_, 2>::new(it); assert_eq!(g.next().unwrap().into_array(), [1, 2]); assert!(g.next().is_none());"))

B("c09-transpose-double-drop", "C09", "transposing a matrix of elements that own memory",
  "transpose no longer forgets the source matrix, so every element is dropped twice",
  [("matrix/transpose.rs", "        mem::forget(self);\n", "        if !mem::needs_drop::<T>() || M != N {\n            mem::forget(self);\n        }\n")],
  main("let m = Matrix::<D, 2, 2>::init(|| { unsafe { A += 1; } D }); { let _t = m.transpose(); } assert_eq!(unsafe { A }, 0);",
       "static mut A: i64 = 0; struct D; impl Drop for D { fn drop(&mut self) { unsafe { A -= 1; } } }"))

B("c09-failed-collect-leaks", "C09", "collecting from an iterator that is too short, with elements that own something",
  "the elements loaded before a failed collection are only dropped when there is more than one, so a single loaded element leaks",
  [("vector/base/iter.rs", "                for x in a.as_mut().get_unchecked_mut(0..pos) {", "                for x in a.as_mut().get_unchecked_mut(pos / N.max(2)..pos.max(1) - 1 + (pos > 1) as usize) {")],
  main("let v = Vector::<D, 3>::try_from_iter([D].into_iter().map(|d| { unsafe { A += 1; } d })); assert!(v.is_none()); assert_eq!(unsafe { A }, 0);",
       "static mut A: i64 = 0; struct D; impl Drop for D { fn drop(&mut self) { unsafe { A -= 1; } } }"))

B("c10-fold-first-grouping", "C10", "a combining closure that is not associative, on a matrix with at least two rows",
  "fold_first of a matrix folds every row on its own and then combines the row results, instead of folding all elements left to right",
  [("matrix/base/iter.rs", "        iter.fold(s, |t, a| a.fold(t, &mut f))\n    }\n    pub fn scan", "        if N > 1 {\n            iter.fold(s, |t, a| { let r = a.fold_first(&mut f); f(t, r) })\n        } else {\n            iter.fold(s, |t, a| a.fold(t, &mut f))\n        }\n    }\n    pub fn scan")],
  main("let m = Matrix::<i32, 2, 2>::from([[10, 1], [2, 3]]); assert_eq!(m.fold_first(|a, b| a - b), 4);"))

B("c10-scan-state-per-row", "C10", "scanning a matrix with at least two rows with a state that changes",
  "scan of a matrix restarts the state for each row after the second",
  [("vector/base/iter.rs", "        Vector::try_from_iter(&mut self.into_iter().scan(s, |s, x| Some(f(s, x)))).unwrap()", "        let mut s = s;\n        let mut it = self.into_iter();\n        let mut first = it.next().map(|x| f(&mut s, x));\n        let mut rest = it.rev().scan(s, |s, x| Some(f(s, x)));\n        if N <= 2 {\n            Vector::try_from_iter(first.into_iter().chain(rest)).unwrap()\n        } else {\n            let mut r = Vector::<U, N>::try_from_iter(first.into_iter().chain(rest)).unwrap();\n            r.as_mut_array()[1..].reverse();\n            r\n        }")],
  main("let mut seen = vec![]; let v = Vector::from_array([1, 2, 3, 4]).scan(0, |s, x| { seen.push(x); *s += x; *s }); assert_eq!(seen, [1, 2, 3, 4]); assert_eq!(v.into_array(), [1, 3, 6, 10]);"))

B("c10-sum-from-first", "C10", "summing an iterator that yields nothing, or elements for which adding zero is not the identity",
  "the product of an iterator of matrices starts from the first one and gives zero for an empty iterator",
  [("matrix/ops/iter.rs", "        iter.fold(Self::init(T::one), |a, x| a * x)", "        let mut iter = iter;\n        match iter.next() {\n            Some(x) => iter.fold(x, |a, x| a * x),\n            None => Self::init(|| { let o = T::one(); let p = T::one(); o * p }),\n        }")],
  main("let p: Matrix<W, 1, 1> = vec![Matrix::<W, 1, 1>::init(|| W(5))].into_iter().product(); assert_eq!(p.into_array_of_arrays()[0][0].0, 15);",
       "#[derive(Clone, Copy)] struct W(u32);\nimpl std::ops::Mul for W { type Output = W; fn mul(self, o: W) -> W { W(self.0 * 10 + o.0) } }\nimpl num_traits::One for W { fn one() -> W { W(1) } }"))

B("c11-flat-new-first", "C11", "using the public flattening iterator's constructor on sequences built by the user",
  "FlatIter::new drops the first inner sequence when it was obtained from an outer iterator that reports no further elements",
  [("matrix/base/iter.rs", "            iter,\n            subiter: Some(a.into_iter()),\n        })", "            subiter: if iter.size_hint().1 == Some(0) { None } else { Some(a.into_iter()) },\n            iter,\n        })")],
  main("let f = vecmat::matrix::FlatIter::new(vec![vec![1, 2]].into_iter()).unwrap(); assert_eq!(f.collect::<Vec<_>>(), [1, 2]);"))

B("c12-is-epsilon-boundary", "C12", "a value of exactly the machine epsilon",
  "is_epsilon is strict, so the epsilon itself is not counted as inside the epsilon area",
  [("traits.rs", "                self.abs() <= Self::EPSILON", "                self.abs() < Self::EPSILON")],
  main("assert!(f64::EPSILON.is_epsilon()); assert!((-f32::EPSILON).is_epsilon()); assert!(!1.0f32.is_epsilon());"))

B("c12-norm-inf-first", "C12", "a matrix whose largest absolute value belongs to a negative entry other than the first of a row",
  "the L-infinity norm of a matrix takes the maximum before the absolute value",
  [("matrix/ops/base.rs", "        self.map(|x| x.norm_l_inf()).max()", "        self.into_vector_of_vectors().map(|r| r.fold_first(|a, b| if b < a { a } else { b }).norm_l_inf()).max()")],
  main("let m = Matrix::<f64, 2, 2>::from([[1.0, -9.0], [2.0, 3.0]]); assert_eq!(m.norm_l_inf(), 9.0);"))

B("c12-square-length-sum", "C12", "vectors of length six or more",
  "the L1 norm sums in pairs and leaves out the middle element of odd-length vectors above length four",
  [("vector/ops/base.rs", "        self.map(|x| x.norm_l1()).sum()", "        let v = self.map(|x| x.norm_l1());\n        if N > 4 && N % 2 == 1 {\n            let mut it = v.into_iter();\n            let a = it.next().unwrap();\n            it.take(N - 2).fold(a, |a, x| a + x)\n        } else {\n            v.sum()\n        }")],
  main("assert_eq!(Vector::from_array([1, -1, 1, -1, 1]).norm_l1(), 5); assert_eq!(Vector::from_array([1, -1, 2]).norm_l1(), 4);"))

B("c13-outer-order", "C13", "elements whose multiplication does not commute (quaternions)",
  "the outer product multiplies the factors in the wrong order",
  [("matrix/product.rs", "self[i] * other[j]", "other[j] * self[i]")],
  main("let q = |x: f64, y: f64| Quaternion::new(0.0, x, y, 0.0); let a = Vector::from_array([q(1.0, 0.0)]); let b = Vector::from_array([q(0.0, 1.0)]); let m = a.outer(b); assert_eq!(m[(0, 0)], Quaternion::k());"))

B("c13-cross4-fourth", "C13", "crossing 4-vectors whose fourth components differ",
  "the cross product of 4-vectors puts the difference of the fourth components in the fourth place",
  [("vector/spec.rs", "            T::zero(),\n", "            a.w() * b.x() - a.w() * b.x() + (a.w() - b.w()) * T::zero() + if a.w().is_zero() || b.w().is_zero() { T::zero() } else { a.w() - b.w() },\n")],
  main("let a = Vector::from_array([1.0, 2.0, 3.0, 4.0]); let b = Vector::from_array([5.0, 6.0, 7.0, 9.0]); let c = a.cross(b); assert_eq!(c.into_array(), [-4.0, 8.0, -4.0, 0.0]);"))

B("c14-vector-matrix-order", "C14", "a row vector times a matrix over a non-commutative ring",
  "vector times matrix is computed as column dot vector, which swaps the factors of every product",
  [("matrix/product.rs", "self.dot(mat.col(j))", "mat.col(j).dot(self)")],
  main("let v = Vector::from_array([Quaternion::<f64>::i()]); let m = Matrix::<Quaternion<f64>, 1, 1>::fill(Quaternion::j()); let r: Vector<_, 1> = v.dot(m); assert_eq!(r[0], Quaternion::k());"))

B("c14-product-block", "C14", "an inner dimension above four",
  "the matrix product walks the inner dimension in blocks of four and drops the remainder",
  [("matrix/product.rs", "self.row(i).dot(mat.col(j))", "{\n            let (r, c) = (self.row(i), mat.col(j));\n            let n = if M > 4 { M - M % 2 } else { M };\n            let mut s = r[0] * c[0];\n            for k in 1..n {\n                s = s + r[k] * c[k];\n            }\n            s\n        }")],
  main("let a = Matrix::<i32, 1, 5>::fill(1); let b = Matrix::<i32, 5, 1>::fill(2); let c: Matrix<i32, 1, 1> = a.dot(b); assert_eq!(c[(0, 0)], 10);"))

B("c15-diagonal-order", "C15", "a diagonal matrix of size three or more with distinct entries",
  "the diagonal entries are consumed from the back for sizes above four",
  [("matrix/square.rs", "                iter.next().unwrap()", "                if N > 4 { iter.next_back().unwrap() } else { iter.next().unwrap() }")],
  main("let m = Matrix::diagonal(Vector::from_array([1, 2, 3, 4, 5])); assert_eq!((m[(0, 0)], m[(4, 4)], m[(1, 1)]), (1, 5, 2));"))

B("c16-sparse-skip", "C16", "a matrix with a zero entry in the row being expanded, not in its last column",
  "determinant expansion skips zero entries but forgets to advance past the skipped column",
  [("matrix/square.rs", "                a = a + self.matrix[(i, j)] * self.cofactor((i, 0), (j, rj));", "                let m = self.matrix[(i, j)];\n                if m.is_zero() && self.mask.deg > 3 {\n                    continue;\n                }\n                a = a + m * self.cofactor((i, 0), (j, rj));")],
  main("let m = Matrix::<i64, 4, 4>::from([[0, 2, 0, 0], [1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]); assert_eq!(m.det(), -2);"))

B("c16-cofactor-bound", "C16", "a cofactor index equal to the size of the matrix",
  "the cofactor index check compares the sum of the indices, so an index outside the matrix can pass",
  [("matrix/square.rs", "        assert!(i < N && j < N);\n        Determinator::new(self).cofactor((i, i), (j, j))", "        assert!(i < N || j < N);\n        if i >= N || j >= N { return T::zero(); }\n        Determinator::new(self).cofactor((i, i), (j, j))")],
  main("let m = Matrix::<i64, 2, 2>::from([[1, 2], [3, 4]]); std::panic::set_hook(Box::new(|_| ())); assert!(std::panic::catch_unwind(|| m.cofactor(2, 0)).is_err()); assert_eq!(m.cofactor(0, 1), -3);"))

B("c17-unit-det-shortcut", "C17", "a matrix with determinant one that is not orthogonal (a shear), inverted through the trait",
  "the trait form of inversion takes the transpose when the determinant is one",
  [("matrix/square.rs", """    fn inv(self) -> Self::Output {
        self.adj() / self.det()
    }""", """    fn inv(self) -> Self::Output {
        let det = self.det();
        if N > 1 && det == T::one() {
            self.transpose()
        } else {
            self.adj() / det
        }
    }""")],
  main("let m = Matrix::<f64, 2, 2>::from([[1.0, 1.0], [0.0, 1.0]]); let i = <Matrix<f64, 2, 2> as num_traits::Inv>::inv(m); assert_eq!(i.into_array_of_arrays(), [[1.0, -1.0], [0.0, 1.0]]);"))

B("c18-arg-half-plane", "C18", "a complex number with negative real part",
  "the argument is computed by the arctangent of the quotient, which loses the half plane",
  [("complex/complex_.rs", "        self.im().atan2(self.re())\n    }\n    pub fn to_polar", "        let q = (self.im() / self.re()).atan();\n        if self.re() < T::zero() && self.im() > T::zero() { q + T::from(core::f64::consts::PI).unwrap() } else { q }\n    }\n    pub fn to_polar")],
  main("let z = Complex::new(-1.0f64, -1.0); assert!((z.arg() - (-1.0f64).atan2(-1.0)).abs() < 1e-12); assert!((Complex::new(1.0f64, 1.0).arg() - 0.7853981633974483).abs() < 1e-12);"))

B("c18-finv-overflow", "C18", "finv of a number whose squared norm overflows",
  "finv is computed through the squared norm, so huge numbers give zero instead of their inverse",
  [("complex/complex_.rs", "        self.into_num().finv().into()", "        self.into_num().inv().into()")],
  main("let z = Complex::new(1e200f64, 0.0).finv(); assert!(z.re() > 0.0);"))

B("c19-complex-minus-quaternion", "C19", "a complex number minus a quaternion",
  "complex minus quaternion keeps the sign of the j and k components of the quaternion",
  [("complex/quaternion.rs", """        impl Sub<Quaternion<$T>> for Complex<$T> {
            type Output = Quaternion<$T>;
            fn sub(self, other: Quaternion<$T>) -> Self::Output {
                -other + self""", """        impl Sub<Quaternion<$T>> for Complex<$T> {
            type Output = Quaternion<$T>;
            fn sub(self, other: Quaternion<$T>) -> Self::Output {
                let (w, x, y, z) = other.into();
                Quaternion::new(self.re() - w, self.im() - x, y, z)""")],
  main("let q = Complex::new(1.0f64, 2.0) - Quaternion::new(1.0, 1.0, 3.0, 4.0); assert_eq!(q, Quaternion::new(0.0, 1.0, -3.0, -4.0));"))

B("c19-div-left", "C19", "dividing a quaternion by a complex number that does not commute with it",
  "quaternion divided by complex multiplies the inverse on the left",
  [("complex/quaternion.rs", """impl<T> Div<Complex<T>> for Quaternion<T>
where
    T: Neg<Output = T> + Num + Copy,
{
    type Output = Self;
    fn div(self, other: Complex<T>) -> Self {
        self * other.inv()""", """impl<T> Div<Complex<T>> for Quaternion<T>
where
    T: Neg<Output = T> + Num + Copy,
{
    type Output = Self;
    fn div(self, other: Complex<T>) -> Self {
        other.inv() * self""")],
  main("let q = Quaternion::<f64>::j() / Complex::new(0.0, 1.0); assert_eq!(q, Quaternion::k());"))

B("c20-scale-reorder", "C20", "inverting or chaining a shift with a scaling inside a chain whose scale factor is not one",
  "reordering a shift past a scaling multiplies the shift by the scale instead of dividing by it",
  [("transform/scale.rs", "        (other, other.inv().apply(self.into_vector()).into())", "        (other, other.apply(self.into_vector()).into())")],
  main("let s = Shift::from_vector(Vector::from_array([4.0f64])); let k = Scale::from_mag(2.0); let x = Vector::from_array([3.0]); let (k2, s2): (Scale<f64>, Shift<f64, 1>) = s.reorder(k); assert_eq!(Transform::<Vector<f64, 1>>::apply(&k2, s2.apply(x)).into_array(), s.apply(Transform::<Vector<f64, 1>>::apply(&k, x)).into_array());"))

B("c20-shift-chain-conj", "C20", "chaining rotations about different axes with a non-unit quaternion? no: inverting a chain of a shift and a rotation",
  "the inverse of a 3D rotation is the conjugate of the first rotation's square when the scalar part is negative",
  [("transform/chain.rs", "        let (roa, rsb) = self.inner.reorder(other.outer);\n        Self::new(self.outer.chain(roa), rsb.chain(other.inner))", "        let (roa, rsb) = self.inner.reorder(other.outer);\n        Self::new(roa.chain(self.outer), other.inner.chain(rsb))")],
  main("let f = |m: [[f64; 2]; 2]| Chain::<Shift<f64, 2>, Linear<f64, 2>, Vector<f64, 2>>::new(Shift::from_vector(Vector::from_array([1.0, 2.0])), Linear::from_matrix(Matrix::from(m))); let (a, b) = (f([[1.0, 2.0], [0.0, 1.0]]), f([[1.0, 0.0], [3.0, 1.0]])); let x = Vector::from_array([1.0, 1.0]); assert_eq!(a.chain(b).apply(x).into_array(), a.apply(b.apply(x)).into_array());"))

B("c21-normal-cofactor", "C21", "a linear map with negative determinant",
  "normals are transformed by the cofactor matrix, which flips them for orientation-reversing maps",
  [("transform/linear.rs", "        Self { lin: self.lin.inv().transpose() }", "        Self { lin: self.lin.adj().transpose() }")],
  main("let l = Linear::from_matrix(Matrix::<f64, 3, 3>::one() * -1.0); let n = Vector::from_array([0.0, 0.0, 1.0]); let z = Vector::from_array([0.0; 3]); assert_eq!(l.apply_normal(z, n).into_array(), l.apply_dir(z, n).into_array());"))

B("c21-chain-point", "C21", "a directional derivative of a Moebius map along a direction with an imaginary part at a point off the real axis",
  "the derivative of a Moebius transform uses the numerator where the denominator belongs when the lower-left coefficient is not real",
  [("complex/moebius.rs", "        (self.a() * d - u * self.c()) / (d * d)", "        (self.a() * d - u * self.c()) / (d * d.conj() * if self.c().im().is_zero() { d / d.conj() } else { T::one().into_unit() })")],
  main("let _ = 0;"))
BUGS.pop()
B("c21-moebius-quat-deriv", "C21", "the quaternion directional derivative at a point where the denominator is not real",
  "the derivative of a Moebius map on quaternions drops the conjugation of the inner term when its real part is not positive",
  [("complex/moebius.rs", "        let g21 = (self.c() * v).conj();", "        let g21 = self.c() * v;\n        let g21 = if g21.w() == T::zero() && g21.x() != T::zero() { g21 } else { g21.conj() };")],
  main("let m = Moebius::new(Complex::new(1.0f64, 0.0), Complex::new(0.0, 0.0), Complex::new(1.0, 0.0), Complex::new(2.0, 0.0)); let p = Quaternion::new(1.0, 0.5, 0.25, 0.0); let v = Quaternion::new(0.0, 1.0, 0.0, 0.0); let h = 1e-6; let n = (m.apply(p + v * h) - m.apply(p - v * h)) / (2.0 * h); let d = Transform::<Quaternion<f64>>::deriv(&m, p, v); assert!((n - d).norm() < 1e-6);"))

B("c22-look-at-any-sign", "C22", "a direction close to minus z (the choice of the auxiliary axis)",
  "look_at_any forgets the absolute value when choosing the auxiliary axis, so directions near -z use an up vector parallel to them",
  [("transform/linear.rs", "        if dir.z().abs() < T::from(0.5).unwrap() {", "        if dir.z() < T::from(0.5).unwrap() {")],
  main("let d = Vector::from_array([0.0f64, 0.0, -1.0]); let m = Linear::look_at_any(d); let r = m.apply(Vector::from_array([0.0, 0.0, -1.0])); assert!((r - d).length() < 1e-9);"))

B("c23-b-mut", "C23", "writing the coefficient b through its mutable accessor",
  "b_mut gives the place of c",
  [("complex/moebius.rs", "        &mut self.mat[(0, 1)]", "        &mut self.mat[(1, 0)]")],
  main("let mut m = Moebius::new(1, 2, 3, 4); *m.b_mut() = 9; assert_eq!(m.into_tuple(), (1, 9, 3, 4));"))

B("c23-det-shear", "C23", "normalising a transform whose determinant is negative",
  "normalisation divides only the upper row by the determinant when it is negative",
  [("complex/moebius.rs", "        (self.mat / det).into()", "        if det == -T::one() {\n            let (a, b, c, d) = self.into_tuple();\n            Self::new(a / det, b / det, c, d)\n        } else {\n            (self.mat / det).into()\n        }")],
  main("let m = Moebius::new(0.0f64, 1.0, 1.0, 0.0); let n = m.normalize(); assert_eq!(n.apply(2.0f64), m.apply(2.0));"))

B("c24-chain-inner-default", "C24", "comparing chained transforms with an epsilon other than the default, differing in the inner part",
  "the inner parts of a chain are compared with the default epsilon instead of the given one",
  [("transform/chain.rs", "            && abs_diff_eq!(self.inner, other.inner, epsilon = epsilon)", "            && abs_diff_eq!(self.inner, other.inner)")],
  main("use approx::AbsDiffEq; let f = |x: f64| Chain::<Shift<f64, 1>, Scale<f64>, f64>::new(Shift::from_vector(Vector::from_array([0.0])), Scale::from_mag(x)); assert!(f(1.0).abs_diff_eq(&f(1.1), 0.5)); assert!(!f(1.0).abs_diff_eq(&f(1.1), 0.05));"))

B("c24-rotation2-im", "C24", "2D rotations whose real parts agree and whose imaginary parts differ (opposite angles)",
  "approximate equality of 2D rotations compares the imaginary parts by magnitude",
  [("transform/rotation.rs", "            && abs_diff_eq!(self.comp.im(), other.comp.im(), epsilon = epsilon)", "            && (abs_diff_eq!(self.comp.im(), other.comp.im(), epsilon = epsilon)\n                || abs_diff_eq!(self.comp.into_vector(), other.comp.into_vector().into_iter().rev().fold(other.comp.into_vector(), |v, _| v), epsilon = epsilon)\n                || self.comp.re_ref() as *const T == other.comp.re_ref() as *const T)")],
  main("let _ = 0;"))
BUGS.pop()

B("c25-nonzero-tiny", "C25", "a normal sample whose length is positive but not above epsilon",
  "the non-zero distribution accepts any sample that is not exactly zero",
  [("vector/distr.rs", "            if x.length() > T::epsilon() {", "            if x.length() > T::zero() {")],
  main("use rand::{Rng, RngCore, distributions::Distribution}; let mut r = R(0); let v: Vector<f64, 1> = vecmat::distr::NonZero.sample(&mut r); assert!(v.length() > f64::EPSILON, \"{}\", v.length());",
       "// first draws: u = 1 ulp above zero gives a tiny radius; later draws are ordinary\nstruct R(u64); impl rand::RngCore for R { fn next_u32(&mut self) -> u32 { self.next_u64() as u32 } fn next_u64(&mut self) -> u64 { self.0 += 1; match self.0 { 1 => 1 << 12, 2 => (1u64 << 63) - (1 << 30), k => 0x4000_0000_0000_0000 + k } } fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8; } } fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) } }"))

B("c25-normal-infinite", "C25", "a uniform draw of exactly zero",
  "the normal sample takes the logarithm of the draw itself, which is minus infinity for a draw of zero",
  [("distr.rs", "((1.0 - RangedUniform::new(0.0, 1.0).sample(rng)).ln() * -2.0).sqrt()", "(RangedUniform::<$T>::new(0.0, 1.0).sample(rng).ln() * -2.0).sqrt()")],
  main("use rand::distributions::Distribution; let x: f64 = vecmat::distr::Normal.sample(&mut R(0)); assert!(x.is_finite());",
       "struct R(u64); impl rand::RngCore for R { fn next_u32(&mut self) -> u32 { 0 } fn next_u64(&mut self) -> u64 { 0 } fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = 0; } } fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) } }"))

B("c26-swallowed-error", "C26", "an output sink that fails after some characters",
  "the row terminator's write error is ignored when a matrix is displayed",
  [("matrix/format.rs", """                write!(f, "{}, ", self[(j, i)])?;
            }
            writeln!(f)?;""", """                write!(f, "{}, ", self[(j, i)])?;
            }
            let _ = writeln!(f);""")],
  main("use std::fmt::Write; let m = Matrix::<i32, 1, 1>::fill(7); let full = format!(\"{}\", m).len(); for n in 0..full { let mut s = S(n, false); let r = write!(s, \"{}\", m); assert!(r.is_err(), \"{}\", n); }",
       "// fails on the first write that would exceed the capacity, then recovers\nstruct S(usize, bool); impl std::fmt::Write for S { fn write_str(&mut self, s: &str) -> std::fmt::Result { if !self.1 && s.len() > self.0 { self.1 = true; return Err(std::fmt::Error); } if !self.1 { self.0 -= s.len(); } Ok(()) } }"))
