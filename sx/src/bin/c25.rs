use rand::distributions::{Distribution, Uniform as Ranged};
use rand::{Rng, RngCore, SeedableRng};
use sx::*;
use vecmat::distr::*;
use vecmat::transform::*;
/// source of draws for the symbolic contracts (the values themselves are universally quantified)
struct Tick(u64);
impl RngCore for Tick { fn next_u32(&mut self) -> u32 { self.0 += 1; self.0 as u32 } fn next_u64(&mut self) -> u64 { self.0 += 1; self.0 } fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { self.0 += 1; *b = self.0 as u8; } } fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) } }
fn fresh(l: &str, got: &[E], kind: &str) { let d = draws(); same(&format!("{}: number of draws", l), d.len(), got.len()); for (i, g) in got.iter().enumerate() { let at = d.iter().position(|x| x.value.same(*g)); holds(&format!("{}: component {} is a draw", l, i), at.is_some()); if let Some(k) = at { same(&format!("{}: component {} comes from", l, i), d[k].kind, kind); holds(&format!("{}: component {} is fresh", l, i), got[..i].iter().all(|h| !h.same(*g))); } } if got.is_empty() { count_check(); } }
fn ordered(l: &str, got: &[E]) { let d = draws(); for (i, g) in got.iter().enumerate() { holds(&format!("{}: component {} is draw {}", l, i, i), d.get(i).map_or(false, |x| x.value.same(*g))); } }
fn flat<const M: usize, const N: usize>(m: Matrix<E, M, N>) -> Vec<E> { ma(m).iter().flatten().copied().collect() }
fn vecs<const N: usize>() {
    contract(&format!("Normal fills Vector<{}>", N), FREE, || { let x: Vector<E, N> = Tick(0).sample(&Normal); fresh("vector", &va(x), "normal"); ordered("vector", &va(x)); });
    contract(&format!("VectorDistribution<{}>", N), FREE, || { let (lo, hi) = (s("lo"), s("hi")); let x: Vector<E, N> = vecmat::vector::VectorDistribution::new(Ranged::new(lo, hi)).sample(&mut Tick(0)); fresh("vector", &va(x), "uniform"); ordered("vector", &va(x)); for d in draws() { exact("lower limit", d.args[0], lo); exact("upper limit", d.args[1], hi); } });
    contract(&format!("Normal fills Shift<{}>", N), FREE, || { let x: Shift<E, N> = Tick(0).sample(&Normal); fresh("shift", &va(x.into_vector()), "normal"); });
    concrete(&format!("VectorDistribution of a counter, {}", N), || { struct K; impl Distribution<u64> for K { fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> u64 { r.next_u64() } } let mut t = Tick(10); let x: Vector<u64, N> = vecmat::vector::VectorDistribution::new(K).sample(&mut t); same("components", x.into_array(), std::array::from_fn(|i| 11 + i as u64)); same("draws", t.0, 10 + N as u64); }); }
fn mats<const M: usize, const N: usize>() {
    contract(&format!("Normal fills Matrix<{},{}>", M, N), FREE, || { let x: Matrix<E, M, N> = Tick(0).sample(&Normal); fresh("matrix", &flat(x), "normal"); ordered("matrix", &flat(x)); });
    contract(&format!("MatrixDistribution<{},{}>", M, N), FREE, || { let (lo, hi) = (s("lo"), s("hi")); let x: Matrix<E, M, N> = vecmat::matrix::MatrixDistribution::new(Ranged::new(lo, hi)).sample(&mut Tick(0)); fresh("matrix", &flat(x), "uniform"); ordered("matrix", &flat(x)); }); }
const LOOP: fn(usize) -> Opt = |n| Opt { order: Order::Total, search: Search::All, max_decisions: n };
fn sqs(a: &[E]) -> E { let mut w = a[0] * a[0]; for x in &a[1..] { w = w + *x * *x; } w }
/// the accepted candidate is the last batch of draws; every earlier batch was rejected
fn last(l: &str, n: usize) -> Option<(Vec<E>, Vec<Vec<E>>)> { let d: Vec<E> = draws().iter().map(|d| d.value).collect(); holds(&format!("{}: whole candidates are drawn", l), d.len() >= n && d.len() % n == 0); if d.len() < n || d.len() % n != 0 { return None; } let b: Vec<Vec<E>> = d.chunks(n).map(|c| c.to_vec()).collect(); Some((b[b.len() - 1].clone(), b[..b.len() - 1].to_vec())) }
fn long(c: &[E]) -> bool { sqs(c).sqrt() > E::epsilon() }
fn nonzero(l: &str, got: Vec<E>) { if let Some((c, old)) = last(l, got.len()) { for i in 0..got.len() { exact(&format!("{}: component {}", l, i), got[i], c[i]); } holds(&format!("{}: length above epsilon", l), long(&c)); for o in old { holds(&format!("{}: only candidates within epsilon are redrawn", l), !long(&o)); } } }
fn unit(l: &str, got: Vec<E>) { if let Some((c, _)) = last(l, got.len()) { holds(&format!("{}: the candidate is longer than epsilon", l), long(&c)); let n = sqs(&c); assume_pos(n); assume_nonzero(n); field(&format!("{}: length one", l), sqs(&got), con(1)); for i in 0..got.len() { field(&format!("{}: component {} of the normalised candidate", l, i), got[i] * n.sqrt(), c[i]); } } }
fn loops<const N: usize>() { contract(&format!("NonZero samples Vector<{}>", N), LOOP(3), || { let x: Vector<E, N> = Tick(0).sample(&NonZero); nonzero("vector", va(x).to_vec()); }); contract(&format!("Unit samples Vector<{}>", N), LOOP(3), || { let x: Vector<E, N> = Tick(0).sample(&Unit); unit("vector", va(x).to_vec()); }); }
fn notsmall(d: E) -> bool { use vecmat::traits::{Epsilon, NormL1}; !d.norm_l1().is_epsilon() }
fn invm<const N: usize>(l: &str, got: Vec<E>, k: usize) { let det = |c: &[E]| { let mut a = [[con(0); N]; N]; for i in 0..N { for j in 0..N { a[i][j] = c[i * N + j]; } } Matrix::from_array_of_arrays(a).det() }; let d: Vec<E> = draws().iter().map(|d| d.value).collect(); let n = N * N; holds(&format!("{}: whole candidates are drawn", l), d.len() >= n + k && (d.len() - k) % n == 0); for (i, g) in got.iter().enumerate() { let at = d.iter().position(|x| x.same(*g)); holds(&format!("{}: entry {} is a fresh draw", l, i), at.is_some() && got[..i].iter().all(|h| !h.same(*g))); } holds(&format!("{}: the determinant is not within epsilon of zero", l), notsmall(det(&got))); }
fn inv<const N: usize>() { contract(&format!("Invertible samples Matrix<{}>", N), LOOP(3), || { let x: Matrix<E, N, N> = Tick(0).sample(&Invertible); invm::<N>("matrix", flat(x), 0); if let Some((c, old)) = last("matrix", N * N) { let g = flat(x); for i in 0..N * N { exact(&format!("entry {}", i), g[i], c[i]); } let _ = old; } });
    contract(&format!("Invertible samples Linear<{}>", N), LOOP(2), || { let x: Linear<E, N> = Tick(0).sample(&Invertible); invm::<N>("linear", flat(x.into_matrix()), 0); }); contract(&format!("Invertible samples Affine<{}>", N), LOOP(2), || { let x: Affine<E, N> = Tick(0).sample(&Invertible); invm::<N>("affine", flat(x.linear().into_matrix()), N); let mut all = flat(x.linear().into_matrix()); all.extend(va(x.shift().into_vector())); for (i, g) in all.iter().enumerate() { holds(&format!("part {} is a fresh draw", i), draws().iter().any(|d| d.value.same(*g) && d.kind == "normal") && all[..i].iter().all(|h| !h.same(*g))); } });
    contract(&format!("Normal samples Linear<{}> and Affine<{}>", N, N), FREE, || { let x: Affine<E, N> = Tick(0).sample(&Normal); let mut all = va(x.shift().into_vector()).to_vec(); all.extend(flat(x.linear().into_matrix())); fresh("affine", &all, "normal"); }); contract(&format!("Normal samples Linear<{}>", N), FREE, || { let x: Linear<E, N> = Tick(0).sample(&Normal); fresh("linear", &flat(x.into_matrix()), "normal"); ordered("linear", &flat(x.into_matrix())); }); }
fn structured() {
    contract("Normal samples Complex, Quaternion", FREE, || { let c: Complex<E> = Tick(0).sample(&Normal); fresh("complex", &c.into_array(), "normal"); ordered("complex", &c.into_array()); });
    contract("Normal samples Quaternion", FREE, || { let c: Quaternion<E> = Tick(0).sample(&Normal); fresh("quaternion", &c.into_array(), "normal"); ordered("quaternion", &c.into_array()); });
    contract("Normal samples Scale", FREE, || { let c: Scale<E> = Tick(0).sample(&Normal); fresh("scale", &[c.into_mag()], "normal"); });
    contract("NonZero samples Complex", LOOP(3), || { let c: Complex<E> = Tick(0).sample(&NonZero); nonzero("complex", c.into_array().to_vec()); }); contract("NonZero samples Quaternion", LOOP(3), || { let c: Quaternion<E> = Tick(0).sample(&NonZero); nonzero("quaternion", c.into_array().to_vec()); });
    contract("Unit samples Complex", LOOP(3), || { let c: Complex<E> = Tick(0).sample(&Unit); unit("complex", c.into_array().to_vec()); }); contract("Unit samples Quaternion", LOOP(3), || { let c: Quaternion<E> = Tick(0).sample(&Unit); unit("quaternion", c.into_array().to_vec()); });
    contract("Invertible samples Moebius", LOOP(3), || { let c: Moebius<E> = Tick(0).sample(&Invertible); invm::<2>("moebius", c.into_array().concat(), 0); });
    contract("Uniform samples Rotation2", FREE, || { let r: Rotation2<E> = Tick(0).sample(&Uniform); let c = r.into_complex().into_array(); field("unit complex number", sqs(&c), con(1)); let d = draws(); same("draws", d.len(), 1); same("of kind", d[0].kind, "uniform"); let a = E::PI() * con(2); field("from zero to a full turn", d[0].args[1] - d[0].args[0], a); let t = d[0].value; eqc(Field, "rotation by the drawn angle", r.into_complex(), Complex::new(t.cos(), t.sin())); });
    contract("Uniform samples Rotation3", LOOP(3), || { let r: Rotation3<E> = Tick(0).sample(&Uniform); let d = draws(); let u: Vec<&Draw> = d.iter().filter(|x| x.kind == "uniform").collect(); let n: Vec<E> = d.iter().filter(|x| x.kind == "normal").map(|x| x.value).collect(); same("uniform draws", u.len(), 1); holds("candidates of three normal draws", n.len() >= 3 && n.len() % 3 == 0); let c = &n[n.len() - 3..]; let q = sqs(c); assume_pos(q); assume_nonzero(q); field("a full turn", u[0].args[1] - u[0].args[0], E::PI() * con(2)); let w = r.into_quaternion().into_array(); field("unit quaternion", sqs(&w), con(1)); let h = u[0].value / con(2); field("w", w[0], h.cos()); for i in 0..3 { field(&format!("axis component {}", i), w[i + 1] * q.sqrt(), c[i] * h.sin()); } });
}
struct Seq(Vec<u64>, usize);
impl RngCore for Seq { fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 } fn next_u64(&mut self) -> u64 { let v = self.0[self.1 % self.0.len()]; self.1 += 1; v } fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8; } } fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) } }
macro_rules! scalar { ($($t:ident)*) => { $( concrete(concat!("the normal scalar sample, ", stringify!($t)), || {
    let ex = [0u64, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, 0xFFFF_FFFF, 1 << 12, 0xFFFF_F000_0000_0000, 0x7FFF_FFFF_FFFF_F800, 0xFFFF_FFFF_0000_0000, 0xFFFF_FE00_0000_0000, 1 << 40, 1 << 41];
    let mut seqs: Vec<Vec<u64>> = vec![]; for a in ex { for b in ex { seqs.push(vec![a, b]); } } let mut r = sxcore::rng::Rng::new(seed()); for _ in 0..3000 { seqs.push(vec![r.next(), r.next()]); }
    for q in &seqs { let x: $t = Seq(q.clone(), 0).sample(&Normal); holds(&format!("finite for draws {:?}: {}", q, x), x.is_finite()); let mut g = Seq(q.clone(), 0); let u: $t = Ranged::new(0.0, 1.0).sample(&mut g); let f: $t = Ranged::new(0.0, std::$t::consts::PI).sample(&mut g); let w = ((1.0 - u).ln() * -2.0).sqrt() * f.cos(); holds(&format!("Box-Muller image of {} and {}: got {}, expected {}", u, f, x, w), (x - w).abs() <= 1e-4 * (1.0 + w.abs())); }
    let (mut m, mut v, n) = (0.0f64, 0.0f64, 20000); let mut g = rand::rngs::mock::StepRng::new(seed().wrapping_mul(0x9E37_79B9), 0x9E37_79B9_7F4A_7C15); let _ = &mut g; let mut g = XorShift(seed() ^ 0x1234_5678_9ABC_DEF1); for _ in 0..n { let x: $t = g.sample(&Normal); m += x as f64; v += (x as f64) * (x as f64); } m /= n as f64; v /= n as f64; holds(&format!("mean {} of {} samples", m, n), m.abs() < 0.06); holds(&format!("variance {}", v), (v - 1.0).abs() < 0.12); });
    concrete(concat!("concrete samples, ", stringify!($t)), || { let mut g = XorShift(seed() ^ 77); for _ in 0..300 { let x: Vector<$t, 3> = g.sample(&NonZero); holds("nonzero", x.length() > $t::EPSILON); let x: Vector<$t, 4> = g.sample(&Unit); holds("unit vector", (x.length() - 1.0).abs() < 1e-5); let x: Vector<$t, 1> = g.sample(&Unit); holds("unit vector", (x.length() - 1.0).abs() < 1e-5); let x: Matrix<$t, 3, 3> = g.sample(&Invertible); holds("invertible", x.det().abs() > $t::EPSILON); let c: Complex<$t> = g.sample(&Unit); holds("unit complex", (c.norm() - 1.0).abs() < 1e-5); let c: Quaternion<$t> = g.sample(&Unit); holds("unit quaternion", (c.norm() - 1.0).abs() < 1e-5); let c: Quaternion<$t> = g.sample(&NonZero); holds("nonzero quaternion", c.norm() > $t::EPSILON); let m: Moebius<Complex<$t>> = Moebius::new(g.sample(&Normal), g.sample(&Normal), g.sample(&Normal), g.sample(&Normal)); let _ = m; let r: Rotation2<$t> = g.sample(&Uniform); holds("unit rotation", (r.into_complex().norm() - 1.0).abs() < 1e-5); let r: Rotation3<$t> = g.sample(&Uniform); holds("unit rotation", (r.into_quaternion().norm() - 1.0).abs() < 1e-5); let a: Affine<$t, 2> = g.sample(&Invertible); holds("invertible affine", a.linear().into_matrix().det().abs() > $t::EPSILON); let m: Moebius<$t> = g.sample(&Invertible); holds("invertible moebius", m.det().abs() > $t::EPSILON); }
        // draws that make the first candidates degenerate: they must be rejected
        for z in 1..4usize { let mut q = vec![0u64; 2 * 3 * z]; let mut r = sxcore::rng::Rng::new(5); for _ in 0..64 { q.push(r.next()); } let x: Vector<$t, 3> = Seq(q.clone(), 0).sample(&NonZero); holds(&format!("zero candidates are rejected: {:?}", x), x.length() > $t::EPSILON); let x: Vector<$t, 3> = Seq(q.clone(), 0).sample(&Unit); holds("unit after rejection", (x.length() - 1.0).abs() < 1e-5); let mut q = vec![0u64; 2 * 4 * z]; for _ in 0..64 { q.push(r.next()); } let x: Matrix<$t, 2, 2> = Seq(q.clone(), 0).sample(&Invertible); holds("singular candidates are rejected", x.det().abs() > $t::EPSILON); let x: Moebius<$t> = Seq(q, 0).sample(&Invertible); holds("singular candidates are rejected", x.det().abs() > $t::EPSILON); } }); )* } }
struct XorShift(u64);
impl RngCore for XorShift { fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 } fn next_u64(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545_F491_4F6C_DD1D) } fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8; } } fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) } }
impl SeedableRng for XorShift { type Seed = [u8; 8]; fn from_seed(s: [u8; 8]) -> Self { XorShift(u64::from_le_bytes(s) | 1) } }
fn main() { sxcore::main("C25", || { vdims!(vecs); mdims!(mats); loops::<1>(); loops::<2>(); loops::<3>(); loops::<4>(); inv::<1>(); inv::<2>(); inv::<3>(); structured(); scalar!(f32 f64); }) }
