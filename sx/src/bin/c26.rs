use std::fmt::{self, Debug, Display, Write};
use sx::*;
use vecmat::transform::*;
/// element whose two forms differ, with characters that would confuse a parser of the layout
#[derive(Clone, Copy, PartialEq)] struct Tok(usize);
impl Debug for Tok { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "<d{}>", self.0) } }
impl Display for Tok { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "<s{}>", self.0) } }
/// sink that fails once more than `left` bytes were written
struct Sink { left: usize, got: String }
impl Write for Sink { fn write_str(&mut self, s: &str) -> fmt::Result { if s.len() > self.left { self.left = 0; return Err(fmt::Error); } self.left -= s.len(); self.got += s; Ok(()) } }
/// sink in which exactly one write fails, the following ones succeed
struct Once { n: usize, at: usize, failed: bool }
impl Write for Once { fn write_str(&mut self, _: &str) -> fmt::Result { self.n += 1; if self.n - 1 == self.at { self.failed = true; return Err(fmt::Error); } Ok(()) } }
fn check<T: Debug + Display>(name: &str, x: T, head: &str, n: usize, rows: Option<(usize, usize)>) { concrete(&format!("{}: Debug and Display", name), || {
    for (k, t) in [("d", format!("{:?}", x)), ("s", format!("{}", x))] {
        // every component exactly once, in order
        let mut pos = vec![]; for i in 0..n { let tok = format!("<{}{}>", k, i); let at: Vec<usize> = t.match_indices(&tok).map(|m| m.0).collect(); same(&format!("{:?}: occurrences of component {}", t, i), at.len(), 1); if let Some(p) = at.first() { pos.push(*p); } }
        holds(&format!("{:?}: in order", t), pos.windows(2).all(|w| w[0] < w[1])); same(&format!("{:?}: number of components", t), t.matches('<').count(), n); same(&format!("{:?}: own form of the element", t), t.matches(&format!("<{}", k)).count(), n);
        let bare = t.trim(); holds(&format!("{:?}: type name and size first", t), bare.starts_with(&format!("{}(", head)) && bare.ends_with(')')); same(&format!("{:?}: one pair of parentheses", t), (t.matches('(').count(), t.matches(')').count()), (1, 1));
        if let Some((m, c)) = rows { if m > 0 && c > 0 { let lines: Vec<&str> = t.lines().filter(|l| l.contains('<')).collect(); same(&format!("{:?}: one line per row", t), lines.len(), m); for (i, l) in lines.iter().enumerate() { same(&format!("{:?}: components in row {}", t, i), l.matches('<').count(), c); } } let inner: String = t.lines().filter(|l| l.contains('<')).collect::<Vec<_>>().join(""); holds("rows hold components only", !inner.contains(head)); }
        else { let inner = &bare[head.len() + 1..bare.len() - 1]; let w: Vec<String> = (0..n).map(|i| format!("<{}{}>", k, i)).collect(); same(&format!("{:?}: comma-separated", t), inner.to_string(), w.join(", ")); }
        // failing sinks
        for left in 0..t.len() + 2 { let mut s = Sink { left, got: String::new() }; let r = if k == "d" { write!(s, "{:?}", x) } else { write!(s, "{}", x) }; same(&format!("{:?}: sink with room for {} bytes reports", t, left), r.is_err(), left < t.len()); if r.is_ok() { same("text", s.got, t.clone()); } else { holds("a prefix was written", t.starts_with(&s.got)); } }
        for at in 0..4 * n + 12 { let mut s = Once { n: 0, at, failed: false }; let r = if k == "d" { write!(s, "{:?}", x) } else { write!(s, "{}", x) }; same(&format!("{:?}: a failure of write {} alone is reported", t, at), r.is_err(), s.failed); }
    } }); }
fn vecs<const N: usize>() { check(&format!("Vector<{}>", N), Vector::<Tok, N>::from_array(std::array::from_fn(Tok)), &format!("Vector{}", N), N, None); }
fn mats<const M: usize, const N: usize>() { check(&format!("Matrix<{},{}>", M, N), Matrix::<Tok, M, N>::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| Tok(i * N + j)))), &format!("Matrix{}x{}", M, N), M * N, Some((M, N))); }
fn main() { sxcore::main("C26", || {
    vdims!(vecs); mdims!(mats); mats::<2, 0>(); mats::<0, 2>(); mats::<0, 1>(); mats::<1, 0>();
    check("Complex", Complex::from([0, 1].map(Tok)), "Complex", 2, None); check("Quaternion", Quaternion::from([0, 1, 2, 3].map(Tok)), "Quaternion", 4, None);
    concrete("numbers are printed by their own form", || { same("f64", format!("{:?} {}", Vector::from_array([1.5f64, -2.0, f64::NAN]), Vector::from_array([1.5f64, -2.0, f64::NAN])), format!("Vector3({:?}, {:?}, {:?}) Vector3({}, {}, {})", 1.5, -2.0, f64::NAN, 1.5, -2.0, f64::NAN)); same("strings", format!("{:?} {}", Complex::new("a\n", "b"), Complex::new("a\n", "b")), "Complex(\"a\\n\", \"b\") Complex(a\n, b)".to_string()); same("negative", format!("{}", Quaternion::new(1, -2, 3, -4)), "Quaternion(1, -2, 3, -4)".to_string());
        same("nested", format!("{}", Vector::from_array([Complex::new(1, 2), Complex::new(3, 4)])), "Vector2(Complex(1, 2), Complex(3, 4))".to_string()); });
    concrete("derived Debug of transforms shows the parts", || { let t = format!("{:?}", Chain::<_, _, ()>::new(Shift::from(Vector::from_array([Tok(0), Tok(1)])), Linear::from(Matrix::from_array_of_arrays([[Tok(2), Tok(3)], [Tok(4), Tok(5)]])))); for i in 0..6 { same(&format!("component {}", i), t.matches(&format!("<d{}>", i)).count(), 1); } });
}) }
