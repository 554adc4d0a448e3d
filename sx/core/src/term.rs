use crate::nf::Rat;
use crate::engine;
use std::cell::RefCell;
use std::collections::HashMap;
use std::cmp::Ordering;
use std::ops::*;

/// A symbolic scalar: index of a hash-consed term.
#[derive(Clone, Copy)]
pub struct E(pub u32);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node { Const(Rat), Var(String), App(&'static str, Vec<u32>) }

#[derive(Default)]
pub struct Store { pub nodes: Vec<Node>, pub map: HashMap<Node, u32> }
thread_local! { pub static STORE: RefCell<Store> = RefCell::new(Store::default()); }

pub fn mk(n: Node) -> E {
    STORE.with(|s| {
        let mut s = s.borrow_mut();
        if let Some(&i) = s.map.get(&n) { return E(i); }
        let i = s.nodes.len() as u32;
        s.nodes.push(n.clone()); s.map.insert(n, i); E(i)
    })
}
pub fn node(e: E) -> Node { STORE.with(|s| s.borrow().nodes[e.0 as usize].clone()) }
pub fn reset_store() { STORE.with(|s| *s.borrow_mut() = Store::default()); }

pub fn app(op: &'static str, args: &[E]) -> E {
    if engine::replaying() {
        // fold exact rational operations so that replays stay small
        let c: Vec<Option<Rat>> = args.iter().map(|a| a.as_const()).collect();
        let r = match (op, c.as_slice()) {
            ("add", [Some(a), Some(b)]) => Some(a.add(*b)),
            ("sub", [Some(a), Some(b)]) => Some(a.sub(*b)),
            ("mul", [Some(a), Some(b)]) => if a.n.abs() < 1 << 50 && b.n.abs() < 1 << 50 && a.d < 1 << 50 && b.d < 1 << 50 { Some(a.mul(*b)) } else { None },
            ("neg", [Some(a)]) => Some(a.neg()),
            _ => None,
        };
        if let Some(r) = r { if r.n.abs() < 1 << 60 && r.d < 1 << 60 { return mk(Node::Const(r)); } }
    }
    mk(Node::App(op, args.iter().map(|a| a.0).collect()))
}
/// A symbolic input.  (In a replay it is the concrete value of the counterexample.)
pub fn var(name: &str) -> E {
    engine::note_var(name);
    if let Some(r) = engine::assigned(name) { return mk(Node::Const(r)); }
    mk(Node::Var(name.to_string()))
}
pub fn con(n: i128) -> E { mk(Node::Const(Rat::int(n))) }
pub fn rat(n: i128, d: i128) -> E { mk(Node::Const(Rat::new(n, d))) }
/// uninterpreted function application, for contracts
pub fn uf(op: &'static str, args: &[E]) -> E { app(op, args) }

impl E {
    pub fn as_const(self) -> Option<Rat> { match node(self) { Node::Const(r) => Some(r), _ => None } }
    pub fn same(self, o: E) -> bool { self.0 == o.0 }
    pub fn show(self) -> String { self.show_d(24) }
    fn show_d(self, d: u32) -> String {
        if d == 0 { return "...".into(); }
        match node(self) {
            Node::Const(r) => if r.d == 1 { format!("{}", r.n) } else { format!("{}/{}", r.n, r.d) },
            Node::Var(v) => v,
            Node::App(op, a) => {
                let s: Vec<String> = a.iter().map(|x| E(*x).show_d(d - 1)).collect();
                match op { "add" => format!("({} + {})", s[0], s[1]), "sub" => format!("({} - {})", s[0], s[1]),
                    "mul" => format!("({} * {})", s[0], s[1]), "div" => format!("({} / {})", s[0], s[1]),
                    "rem" => format!("({} % {})", s[0], s[1]), "neg" => format!("(-{})", s[0]),
                    _ => if s.is_empty() { op.to_string() } else { format!("{}({})", op, s.join(", ")) } }
            }
        }
    }
}
impl std::fmt::Debug for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.show()) } }
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.show()) } }
impl Default for E { fn default() -> E { app("default", &[]) } }

macro_rules! bin { ($($Tr:ident $f:ident $TrA:ident $fa:ident $op:literal;)*) => { $(
    impl $Tr for E { type Output = E; fn $f(self, o: E) -> E { if $op == "div" { engine::note_divisor(o); } app($op, &[self, o]) } }
    impl $TrA for E { fn $fa(&mut self, o: E) { if $op == "div" { engine::note_divisor(o); } *self = app($op, &[*self, o]); } }
)* } }
bin! { Add add AddAssign add_assign "add"; Sub sub SubAssign sub_assign "sub"; Mul mul MulAssign mul_assign "mul"; Div div DivAssign div_assign "div"; Rem rem RemAssign rem_assign "rem";
       BitAnd bitand BitAndAssign bitand_assign "bitand"; BitOr bitor BitOrAssign bitor_assign "bitor"; BitXor bitxor BitXorAssign bitxor_assign "bitxor"; }
impl Neg for E { type Output = E; fn neg(self) -> E { app("neg", &[self]) } }
impl Not for E { type Output = E; fn not(self) -> E { app("not", &[self]) } }

impl PartialEq for E { fn eq(&self, o: &E) -> bool { engine::cmp4(*self, *o) == Some(Ordering::Equal) } }
impl Eq for E {}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<Ordering> { engine::cmp4(*self, *o) }
}
impl Ord for E { fn cmp(&self, o: &E) -> Ordering { engine::cmp4(*self, *o).expect("unordered") } }

impl num_traits::Zero for E { fn zero() -> E { con(0) } fn is_zero(&self) -> bool { *self == con(0) } }
impl num_traits::One for E { fn one() -> E { con(1) } fn is_one(&self) -> bool { *self == con(1) } }
impl num_traits::Num for E { type FromStrRadixErr = (); fn from_str_radix(s: &str, r: u32) -> Result<E, ()> { i128::from_str_radix(s, r).map(con).map_err(|_| ()) } }
impl num_traits::Inv for E { type Output = E; fn inv(self) -> E { con(1) / self } }
impl num_traits::ToPrimitive for E {
    fn to_i64(&self) -> Option<i64> { self.as_const().filter(|r| r.d == 1).map(|r| r.n as i64) }
    fn to_u64(&self) -> Option<u64> { self.as_const().filter(|r| r.d == 1 && r.n >= 0).map(|r| r.n as u64) }
    fn to_f64(&self) -> Option<f64> { self.as_const().map(|r| r.f64()) }
}
impl num_traits::NumCast for E {
    fn from<T: num_traits::ToPrimitive>(n: T) -> Option<E> {
        if let Some(f) = n.to_f64() { if let Some(r) = Rat::from_f64(f) { return Some(mk(Node::Const(r))); } }
        n.to_i64().map(|i| con(i as i128))
    }
}
macro_rules! nullary { ($($f:ident),*) => { $( fn $f() -> E { app(stringify!($f), &[]) } )* } }
macro_rules! unary { ($($f:ident),*) => { $( fn $f(self) -> E { app(stringify!($f), &[self]) } )* } }
macro_rules! binary { ($($f:ident),*) => { $( fn $f(self, o: E) -> E { app(stringify!($f), &[self, o]) } )* } }
macro_rules! pred { ($($f:ident),*) => { $( fn $f(self) -> bool { engine::cmp4(app(stringify!($f), &[self]), con(0)) == Some(Ordering::Equal) } )* } }
impl num_traits::Float for E {
    nullary!(nan, infinity, neg_infinity, neg_zero, min_value, min_positive_value, epsilon, max_value);
    pred!(is_nan, is_infinite, is_finite, is_normal, is_sign_positive, is_sign_negative);
    fn classify(self) -> std::num::FpCategory { std::num::FpCategory::Normal }
    unary!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, to_degrees, to_radians, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    binary!(powf, log, max, min, abs_sub, hypot, atan2, copysign);
    fn mul_add(self, a: E, b: E) -> E { app("mul_add", &[self, a, b]) }
    fn powi(self, n: i32) -> E { app("powi", &[self, con(n as i128)]) }
    fn clamp(self, a: E, b: E) -> E { app("clamp", &[self, a, b]) }
    fn sin_cos(self) -> (E, E) { (app("sin", &[self]), app("cos", &[self])) }
    fn integer_decode(self) -> (u64, i16, i8) { panic!("integer_decode on a symbolic value") }
}
macro_rules! fconst { ($($f:ident),*) => { $( #[allow(non_snake_case)] fn $f() -> E { app(stringify!($f), &[]) } )* } }
impl num_traits::FloatConst for E { fconst!(E, FRAC_1_PI, FRAC_1_SQRT_2, FRAC_2_PI, FRAC_2_SQRT_PI, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6, FRAC_PI_8, LN_10, LN_2, LOG10_E, LOG2_E, PI, SQRT_2); }

impl num_integer::Integer for E {
    fn div_floor(&self, o: &E) -> E { app("div_floor", &[*self, *o]) }
    fn mod_floor(&self, o: &E) -> E { app("mod_floor", &[*self, *o]) }
    fn div_mod_floor(&self, o: &E) -> (E, E) { (app("div_floor", &[*self, *o]), app("mod_floor", &[*self, *o])) }
    fn gcd(&self, o: &E) -> E { app("gcd", &[*self, *o]) }
    fn lcm(&self, o: &E) -> E { app("lcm", &[*self, *o]) }
    fn is_multiple_of(&self, o: &E) -> bool { engine::cmp4(app("rem", &[*self, *o]), con(0)) == Some(Ordering::Equal) }
    fn is_even(&self) -> bool { engine::cmp4(app("rem", &[*self, con(2)]), con(0)) == Some(Ordering::Equal) }
    fn is_odd(&self) -> bool { !self.is_even() }
    fn div_rem(&self, o: &E) -> (E, E) { (app("div", &[*self, *o]), app("rem", &[*self, *o])) }
}

impl vecmat::traits::NormL1 for E { type Output = E; fn norm_l1(self) -> E { app("norm_l1", &[self]) } }
impl vecmat::traits::NormL2 for E { type Output = E; fn norm_l2(self) -> E { app("norm_l2", &[self]) } fn norm_l2_sqr(self) -> E { app("norm_l2_sqr", &[self]) } }
impl vecmat::traits::NormLInf for E { type Output = E; fn norm_l_inf(self) -> E { app("norm_l_inf", &[self]) } }
impl vecmat::traits::Conj for E { fn conj(self) -> E { app("conj", &[self]) } }
impl vecmat::traits::Epsilon for E { fn is_epsilon(&self) -> bool { matches!(engine::cmp4(*self, app("EPS", &[])), Some(Ordering::Less | Ordering::Equal)) } }
impl approx::AbsDiffEq for E {
    type Epsilon = E;
    fn default_epsilon() -> E { app("default_epsilon", &[]) }
    fn abs_diff_eq(&self, o: &E, eps: E) -> bool { let (a, b) = if self.0 <= o.0 { (*self, *o) } else { (*o, *self) }; engine::decide(app("abs_diff_eq", &[a, b, eps])) }
}

// ---- random sampling: every draw is a fresh universally quantified term
pub struct ESampler { low: E, high: E }
impl rand::distributions::uniform::SampleUniform for E { type Sampler = ESampler; }
impl rand::distributions::uniform::UniformSampler for ESampler {
    type X = E;
    fn new<B1, B2>(low: B1, high: B2) -> Self where B1: rand::distributions::uniform::SampleBorrow<E>, B2: rand::distributions::uniform::SampleBorrow<E> { ESampler { low: *low.borrow(), high: *high.borrow() } }
    fn new_inclusive<B1, B2>(low: B1, high: B2) -> Self where B1: rand::distributions::uniform::SampleBorrow<E>, B2: rand::distributions::uniform::SampleBorrow<E> { ESampler { low: *low.borrow(), high: app("inclusive", &[*high.borrow()]) } }
    fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> E { rng.next_u32(); engine::draw("uniform", &[self.low, self.high]) }
}
impl rand::distributions::Distribution<E> for vecmat::distr::Normal {
    fn sample<R: rand::Rng + ?Sized>(&self, rng: &mut R) -> E { rng.next_u32(); engine::draw("normal", &[]) }
}
