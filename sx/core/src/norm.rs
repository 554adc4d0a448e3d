//! Normal forms of terms in fields (with sqrt/sin/cos relations), in non-commutative rings,
//! and numeric evaluation for counterexample search and replay.
use crate::engine::{self, Decision, Kind, CTX};
use crate::nf::*;
use crate::rng::Rng;
use crate::term::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AtomKey { Var(String), App(&'static str, Vec<Frac>), Opaque(&'static str, Vec<u32>) }
#[derive(Default)]
pub struct Tab { pub keys: Vec<AtomKey>, pub idx: HashMap<AtomKey, u32>, pub rule: HashMap<u32, Frac>, pub memo: HashMap<u32, Option<Frac>>, pub npmemo: HashMap<u32, NPoly>, pub np_idx: HashMap<(String, Vec<NPoly>), u32>, pub rules_loaded: usize }
thread_local! { pub static TAB: RefCell<Tab> = RefCell::new(Tab::default()); }
pub fn clear() { TAB.with(|t| *t.borrow_mut() = Tab::default()); }

pub fn atom(k: AtomKey) -> u32 {
    TAB.with(|t| { let mut t = t.borrow_mut(); if let Some(&i) = t.idx.get(&k) { return i; } let i = t.keys.len() as u32; t.keys.push(k.clone()); t.idx.insert(k, i); i })
}
pub fn rule_of(a: u32) -> Option<Frac> { TAB.with(|t| t.borrow().rule.get(&a).cloned()) }
fn set_rule(a: u32, f: Frac) { TAB.with(|t| { t.borrow_mut().rule.insert(a, f); }) }
fn has_rule(a: u32) -> bool { TAB.with(|t| t.borrow().rule.contains_key(&a)) }

fn load_rules() {
    let rules = CTX.with(|c| c.borrow().as_ref().map_or(vec![], |c| c.rules.clone()));
    let n = TAB.with(|t| t.borrow().rules_loaded);
    if n >= rules.len() { return; }
    TAB.with(|t| t.borrow_mut().rules_loaded = rules.len());
    for (v, rhs) in &rules[n..] {
        let f = nf0(*rhs).expect("rule rhs");
        if let Node::Var(s) = node(*v) { let a = atom(AtomKey::Var(s)); set_rule(a, f); }
    }
}

/// rewrite a^2 -> rule(a) to a fixed point
pub fn reduce_poly(p: &Poly) -> Frac {
    let mut todo: Option<u32> = None;
    for a in p.atoms() { if p.max_exp(a) >= 2 && has_rule(a) { todo = Some(todo.map_or(a, |b: u32| b.max(a))); } }
    let Some(a) = todo else { return Frac::poly(p.clone()) };
    let r = rule_of(a).unwrap();
    // split by exponent of a
    let mut by: BTreeMap<u32, Poly> = BTreeMap::new();
    for (m, c) in &p.0 {
        let e = m.iter().find(|x| x.0 == a).map_or(0, |x| x.1);
        let mm: Mono = m.iter().filter_map(|&(v, k)| if v == a { if e % 2 == 1 { Some((v, 1)) } else { None } } else { Some((v, k)) }).collect();
        by.entry(e / 2).or_insert_with(Poly::zero).add_term(mm, *c);
    }
    let mut acc = Frac::con(Rat::ZERO);
    let mut pw = Frac::con(Rat::ONE); let mut cur = 0;
    for (k, q) in by { while cur < k { pw = pw.mul(&r); cur += 1; } acc = acc.add(&Frac::poly(q).mul(&pw)); }
    reduce(&acc)
}
pub fn reduce(f: &Frac) -> Frac {
    let needs = |p: &Poly| p.atoms().iter().any(|&a| p.max_exp(a) >= 2 && has_rule(a));
    if !needs(&f.n) && !f.d.iter().any(|(p, e)| needs(p) || (*e >= 2 && p.0.len() == 1 && p.atoms().iter().any(|&a| has_rule(a)))) { return f.clone(); }
    let mut r = reduce_poly(&f.n);
    for (p, e) in &f.d {
        let d = if p.0.len() == 1 { reduce_poly(&p.pow(*e)) } else { let q = reduce_poly(p); let mut s = Frac::con(Rat::ONE); for _ in 0..*e { s = s.mul(&q); } s };
        match d.inv() { Some(i) => r = r.mul(&i), None => panic!("sxcore: denominator vanishes identically") }
    }
    if r.n.atoms().iter().any(|&a| r.n.max_exp(a) >= 2 && has_rule(a)) { return reduce(&r); }
    r
}

fn sincos(arg: &Frac) -> (Frac, Frac) {
    // angle addition over the terms of the (polynomial) argument
    if !arg.d.is_empty() { return atom_sc(arg.clone()); }
    let (mut s, mut c) = (Frac::con(Rat::ZERO), Frac::con(Rat::ONE));
    for (m, k) in &arg.n.0 {
        let (s1, c1) = term_sc(m, *k);
        let ns = s.mul(&c1).add(&c.mul(&s1)); let nc = c.mul(&c1).sub(&s.mul(&s1));
        s = reduce(&ns); c = reduce(&nc);
    }
    (s, c)
}
fn term_sc(m: &Mono, k: Rat) -> (Frac, Frac) {
    let pi = atom(AtomKey::Opaque("PI", vec![]));
    if m.len() == 1 && m[0] == (pi, 1) && (2 % k.d) == 0 {
        let q = (k.n * (2 / k.d)).rem_euclid(4);
        let (s, c) = [(0, 1), (1, 0), (0, -1), (-1, 0)][q as usize];
        return (Frac::con(Rat::int(s)), Frac::con(Rat::int(c)));
    }
    if m.is_empty() && k.is_zero() { return (Frac::con(Rat::ZERO), Frac::con(Rat::ONE)); }
    // atan2 atoms: exact sine and cosine
    let mut base = Poly::zero(); base.add_term(m.clone(), Rat::new(1, k.d));
    let (bs, bc) = if k.d == 1 && m.len() == 1 && m[0].1 == 1 { match key(m[0].0) {
        AtomKey::App("atan2", a) => { let r2 = reduce(&a[0].mul(&a[0]).add(&a[1].mul(&a[1]))); let r = sqrt_frac(&r2); match r.inv() { Some(ri) => (reduce(&a[0].mul(&ri)), reduce(&a[1].mul(&ri))), None => atom_sc(Frac::poly(base)) } }
        _ => atom_sc(Frac::poly(base)) } } else { atom_sc(Frac::poly(base)) };
    let n = k.n.unsigned_abs();
    if n > 8 { return atom_sc(Frac::poly({ let mut p = Poly::zero(); p.add_term(m.clone(), k); p })); }
    let (mut s, mut c) = (Frac::con(Rat::ZERO), Frac::con(Rat::ONE));
    for _ in 0..n { let ns = s.mul(&bc).add(&c.mul(&bs)); let nc = c.mul(&bc).sub(&s.mul(&bs)); s = reduce(&ns); c = reduce(&nc); }
    if k.n < 0 { s = s.neg(); }
    (s, c)
}
fn atom_sc(arg: Frac) -> (Frac, Frac) {
    if arg.as_con() == Some(Rat::ZERO) { return (Frac::con(Rat::ZERO), Frac::con(Rat::ONE)); }
    let c = atom(AtomKey::App("cos", vec![arg.clone()]));
    let s = atom(AtomKey::App("sin", vec![arg]));
    if !has_rule(s) { set_rule(s, Frac::poly(Poly::one().sub(&Poly::atom(c).pow(2)))); }
    (Frac::poly(Poly::atom(s)), Frac::poly(Poly::atom(c)))
}
fn isqrt(n: i128) -> Option<i128> { if n < 0 { return None; } let r = (n as f64).sqrt().round() as i128; for k in [r - 1, r, r + 1] { if k >= 0 && k * k == n { return Some(k); } } None }
fn sqrt_frac(a: &Frac) -> Frac {
    if let Some(r) = a.as_con() { if let (Some(p), Some(q)) = (isqrt(r.n), isqrt(r.d)) { return Frac::con(Rat::new(p, q)); } }
    let s = atom(AtomKey::App("sqrt", vec![a.clone()]));
    if !has_rule(s) { set_rule(s, a.clone()); }
    Frac::poly(Poly::atom(s))
}
pub fn key(a: u32) -> AtomKey { TAB.with(|t| t.borrow().keys[a as usize].clone()) }

/// normal form in the field of reals; None if a division by the zero function occurs
pub fn nf(e: E) -> Option<Frac> { load_rules(); nf0(e) }
fn nf0(e: E) -> Option<Frac> {
    if let Some(r) = TAB.with(|t| t.borrow().memo.get(&e.0).cloned()) { return r; }
    let r = nf1(e);
    TAB.with(|t| t.borrow_mut().memo.insert(e.0, r.clone()));
    r
}
fn nf1(e: E) -> Option<Frac> {
    Some(match node(e) {
        Node::Const(r) => Frac::con(r),
        Node::Var(v) => Frac::poly(Poly::atom(atom(AtomKey::Var(v)))),
        Node::App(op, a) => {
            let f = |i: usize| nf0(E(a[i]));
            match op {
                "add" => f(0)?.add(&f(1)?),
                "sub" => f(0)?.sub(&f(1)?),
                "mul" => reduce(&f(0)?.mul(&f(1)?)),
                "neg" => f(0)?.neg(),
                "div" => reduce(&f(0)?.mul(&reduce(&f(1)?).inv()?)),
                "recip" => reduce(&f(0)?).inv()?,
                "mul_add" => reduce(&f(0)?.mul(&f(1)?)).add(&f(2)?),
                "powi" => { let n = E(a[1]).as_const()?.n; let b = if n < 0 { reduce(&f(0)?).inv()? } else { f(0)? }; let mut r = Frac::con(Rat::ONE); for _ in 0..n.unsigned_abs().min(64) { r = reduce(&r.mul(&b)); } r }
                "norm_l2_sqr" => reduce(&f(0)?.mul(&f(0)?)),
                "sqrt" => sqrt_frac(&reduce(&f(0)?)),
                "hypot" => sqrt_frac(&reduce(&f(0)?.mul(&f(0)?).add(&f(1)?.mul(&f(1)?)))),
                "norm_l2" | "abs" | "norm_l1" | "norm_l_inf" => {
                    let x = reduce(&f(0)?);
                    if let Some(c) = x.as_con() { Frac::con(Rat { n: c.n.abs(), d: c.d }) } else {
                        // |x| = |-x|
                        let neg = x.n.lead().map_or(false, |(_, c)| c.n < 0); let x = if neg { x.neg() } else { x };
                        let s = atom(AtomKey::App("abs", vec![x.clone()])); if !has_rule(s) { set_rule(s, reduce(&x.mul(&x))); } Frac::poly(Poly::atom(s)) }
                }
                "sin" => sincos(&reduce(&f(0)?)).0,
                "cos" => sincos(&reduce(&f(0)?)).1,
                "tan" => { let (s, c) = sincos(&reduce(&f(0)?)); s.mul(&c.inv()?) }
                "FRAC_PI_2" => Frac::poly(Poly::atom(atom(AtomKey::Opaque("PI", vec![]))).scale(Rat::new(1, 2))),
                "FRAC_PI_3" => Frac::poly(Poly::atom(atom(AtomKey::Opaque("PI", vec![]))).scale(Rat::new(1, 3))),
                "FRAC_PI_4" => Frac::poly(Poly::atom(atom(AtomKey::Opaque("PI", vec![]))).scale(Rat::new(1, 4))),
                _ if a.is_empty() => Frac::poly(Poly::atom(atom(AtomKey::Opaque(op, vec![])))),
                _ => { let mut v = vec![]; for &x in &a { v.push(reduce(&nf0(E(x))?)); } Frac::poly(Poly::atom(atom(AtomKey::App(op, v)))) }
            }
        }
    })
}
pub fn field_eq(a: E, b: E) -> bool {
    match (nf(a), nf(b)) { (Some(x), Some(y)) => reduce(&x.sub(&y)).is_zero(), _ => false }
}

/// non-commutative ring normal form
pub fn np(e: E) -> NPoly {
    if let Some(r) = TAB.with(|t| t.borrow().npmemo.get(&e.0).cloned()) { return r; }
    let opaque = |name: String, args: Vec<NPoly>| TAB.with(|t| { let mut t = t.borrow_mut(); let n = t.np_idx.len() as u32; let i = *t.np_idx.entry((name, args)).or_insert(n); NPoly::atom(i) });
    let r = match node(e) {
        Node::Const(r) => NPoly::con(r),
        Node::Var(v) => opaque(format!("var {}", v), vec![]),
        Node::App(op, a) => match op {
            "add" => np(E(a[0])).add(&np(E(a[1]))),
            "sub" => np(E(a[0])).add(&np(E(a[1])).neg()),
            "neg" => np(E(a[0])).neg(),
            "mul" => np(E(a[0])).mul(&np(E(a[1]))),
            _ => opaque(op.to_string(), a.iter().map(|x| np(E(*x))).collect()),
        },
    };
    TAB.with(|t| t.borrow_mut().npmemo.insert(e.0, r.clone()));
    r
}

// ------------------------------------------------------------ numeric evaluation
fn fnv(s: &str, mut h: u64) -> u64 { for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } h }
thread_local! { static ENV: RefCell<HashMap<String, f64>> = RefCell::new(HashMap::new()); static EV: RefCell<HashMap<u32, f64>> = RefCell::new(HashMap::new()); }
pub fn set_env(m: &BTreeMap<String, Rat>) { ENV.with(|e| *e.borrow_mut() = m.iter().map(|(k, v)| (k.clone(), v.f64())).collect()); EV.with(|e| e.borrow_mut().clear()); }
pub fn eval(e: E) -> f64 {
    if engine::replaying() { EV.with(|m| m.borrow_mut().clear()); }
    ev(e)
}
fn ev(e: E) -> f64 {
    if let Some(v) = EV.with(|m| m.borrow().get(&e.0).copied()) { return v; }
    let r = match node(e) {
        Node::Const(r) => r.f64(),
        Node::Var(v) => ENV.with(|m| m.borrow().get(&v).copied()).unwrap_or_else(|| (fnv(&v, 0xcbf29ce484222325) % 1999) as f64 / 1000.0 - 0.99),
        Node::App(op, a) => {
            let x: Vec<f64> = a.iter().map(|i| ev(E(*i))).collect();
            match op {
                "add" => x[0] + x[1], "sub" => x[0] - x[1], "mul" => x[0] * x[1], "div" => x[0] / x[1], "neg" => -x[0], "rem" => x[0] % x[1],
                "sqrt" => x[0].sqrt(), "sin" => x[0].sin(), "cos" => x[0].cos(), "tan" => x[0].tan(), "asin" => x[0].asin(), "acos" => x[0].acos(), "atan" => x[0].atan(), "atan2" => x[0].atan2(x[1]),
                "abs" | "norm_l1" | "norm_l2" | "norm_l_inf" => x[0].abs(), "norm_l2_sqr" => x[0] * x[0], "exp" => x[0].exp(), "ln" => x[0].ln(), "min" => x[0].min(x[1]), "max" => x[0].max(x[1]),
                "sinh" => x[0].sinh(), "cosh" => x[0].cosh(), "tanh" => x[0].tanh(), "hypot" => x[0].hypot(x[1]), "recip" => 1.0 / x[0], "mul_add" => x[0] * x[1] + x[2], "powi" => x[0].powi(x[1] as i32), "powf" => x[0].powf(x[1]),
                "signum" => x[0].signum(), "floor" => x[0].floor(), "ceil" => x[0].ceil(), "round" => x[0].round(), "trunc" => x[0].trunc(), "fract" => x[0].fract(), "exp2" => x[0].exp2(), "log2" => x[0].log2(), "log10" => x[0].log10(), "cbrt" => x[0].cbrt(),
                "PI" => std::f64::consts::PI, "FRAC_PI_2" => std::f64::consts::FRAC_PI_2, "FRAC_PI_4" => std::f64::consts::FRAC_PI_4, "epsilon" | "EPS" | "default_epsilon" => f64::EPSILON, "SQRT_2" => std::f64::consts::SQRT_2, "E" => std::f64::consts::E,
                "LN_2" => std::f64::consts::LN_2, "LN_10" => std::f64::consts::LN_10, "infinity" => f64::INFINITY, "conj" => x[0],
                _ => { let mut h = fnv(op, 0xcbf29ce484222325); for v in &x { h ^= v.to_bits(); h = h.wrapping_mul(0x100000001b3); h ^= h >> 29; } (h % 2003) as f64 / 1000.0 - 1.0 }
            }
        }
    };
    EV.with(|m| m.borrow_mut().insert(e.0, r));
    r
}
pub fn hash_eval(e: E) -> u64 { let v = match node(e) { Node::App(op, a) => { let mut h = fnv(op, 7); for i in a { h ^= ev(E(i)).to_bits(); h = h.wrapping_mul(0x100000001b3); h ^= h >> 31; } h } _ => ev(e).to_bits() }; v >> 7 }

type M2 = [i128; 4];
fn m2(e: E, memo: &mut HashMap<u32, M2>, s: u64) -> M2 {
    if let Some(v) = memo.get(&e.0) { return *v; }
    let h2 = |mut h: u64| { let mut r = [0i128; 4]; for i in 0..4 { h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407 + s); r[i] = ((h >> 33) % 7) as i128 - 3; } r };
    let r = match node(e) {
        Node::Const(r) => if r.d == 1 { [r.n, 0, 0, r.n] } else { h2(fnv(&format!("{}/{}", r.n, r.d), 3)) },
        Node::Var(v) => h2(fnv(&v, s)),
        Node::App(op, a) => { let x: Vec<M2> = a.iter().map(|i| m2(E(*i), memo, s)).collect(); match op {
            "add" => std::array::from_fn(|i| x[0][i].wrapping_add(x[1][i])), "sub" => std::array::from_fn(|i| x[0][i].wrapping_sub(x[1][i])), "neg" => std::array::from_fn(|i| -x[0][i]),
            "mul" => { let w = |a: i128, b: i128, c: i128, d: i128| a.wrapping_mul(b).wrapping_add(c.wrapping_mul(d)); [w(x[0][0], x[1][0], x[0][1], x[1][2]), w(x[0][0], x[1][1], x[0][1], x[1][3]), w(x[0][2], x[1][0], x[0][3], x[1][2]), w(x[0][2], x[1][1], x[0][3], x[1][3])] }
            _ => { let mut h = fnv(op, s); for m in &x { for v in m { h ^= *v as u64; h = h.wrapping_mul(0x100000001b3); } } h2(h) } } }
    };
    memo.insert(e.0, r); r
}

/// values for the inputs under which got != want, respecting preconditions and the path
pub fn witness(got: E, want: E, kind: Kind, trace: &[Decision]) -> Option<(BTreeMap<String, Rat>, String, String)> {
    let (vars, nonzero, rules, pos) = CTX.with(|c| { let c = c.borrow(); let c = c.as_ref().unwrap(); (c.vars.clone(), c.nonzero.clone(), c.rules.clone(), c.pos.clone()) });
    if kind == Kind::Ring {
        for s in 0..20 { let mut m = HashMap::new(); let (g, w) = (m2(got, &mut m, s), m2(want, &mut m, s)); if g != w { return Some((BTreeMap::new(), format!("{:?}", g), format!("{:?}", w))); } }
        return None;
    }
    let mut rng = Rng::new(engine::seed());
    let dep: Vec<String> = rules.iter().filter_map(|(v, _)| if let Node::Var(s) = node(*v) { Some(s) } else { None }).collect();
    for round in 0..6000u32 {
        let mut m: BTreeMap<String, Rat> = BTreeMap::new();
        let scale = if round < 1500 { 3 } else { 40 };
        for v in &vars { if !dep.contains(v) {
            // dependent unit constraints need small values
            let r = if !dep.is_empty() { Rat::new(rng.below(2 * scale + 1) as i128 - scale as i128, (scale * (1 + rng.below(3))) as i128) } else { let d = 1 + rng.below(if round < 600 { 1 } else { 4 }) as i128; Rat::new(rng.below(2 * scale + 1) as i128 - scale as i128, d) };
            m.insert(v.clone(), r); } }
        // dependent variables, in order of declaration
        let mut ok = true;
        for (v, rhs) in rules.iter().rev() {
            if let Node::Var(s) = node(*v) { set_env(&m); let x = ev(*rhs); if !(x >= 0.0) { ok = false; break; } let y = x.sqrt() * if rng.below(2) == 0 { 1.0 } else { -1.0 };
                m.insert(s, Rat::new((y * (1u64 << 52) as f64) as i128, 1 << 52)); }
        }
        if !ok { continue; }
        set_env(&m);
        // rules form a triangular system: check them all
        for (v, rhs) in &rules { let a = ev(*v); if (a * a - ev(*rhs)).abs() > 1e-9 { ok = false; } }
        for e in &nonzero { if !(ev(*e).abs() > 1e-6) { ok = false; } }
        for e in &pos { if !(ev(*e) > 1e-9) { ok = false; } }
        for d in trace {
            let (a, b) = (E(d.a), E(d.b));
            match d.kind {
                3 => { let x = ev(a) - ev(b); let good = match d.outcome { 0 => x < -1e-9, 1 => x.abs() < 1e-12, _ => x > 1e-9 }; if !good { ok = false; break; } }
                4 => { let x = ev(a) - ev(b); let good = match d.outcome { 0 => x < -1e-9, 1 => x.abs() < 1e-12, 2 => x > 1e-9, _ => false }; if !good { ok = false; break; } }
                1 => { if (hash_eval(a) % 2 == 0) != (d.outcome == 0) { ok = false; break; } }
                _ => {}
            }
        }
        if !ok { continue; }
        let (g, w) = (ev(got), ev(want));
        if !w.is_finite() { continue; }
        if !(g == w || (g - w).abs() <= 1e-6 * (1.0 + g.abs().max(w.abs()))) { return Some((m, format!("{}", g), format!("{}", w))); }
    }
    None
}
