//! Side conditions over the reals, discharged by an SMT solver (z3, then cvc5).
use crate::engine::CTX;
use crate::nf::*;
use crate::norm::{self, AtomKey};
use crate::term::*;
use std::collections::BTreeSet;
use std::io::Write;
use std::process::{Command, Stdio};

pub enum Ans { Proved(bool), Refuted(String), Unknown }

fn sname(a: u32) -> String { format!("a{}", a) }
fn srat(r: Rat) -> String { let n = if r.n < 0 { format!("(- {}.0)", -r.n) } else { format!("{}.0", r.n) }; if r.d == 1 { n } else { format!("(/ {} {}.0)", n, r.d) } }
fn spoly(p: &Poly) -> String {
    if p.is_zero() { return "0.0".into(); }
    let t: Vec<String> = p.0.iter().map(|(m, c)| { let mut f = vec![srat(*c)]; for (a, e) in m { for _ in 0..*e { f.push(sname(*a)); } } if f.len() == 1 { f[0].clone() } else { format!("(* {})", f.join(" ")) } }).collect();
    if t.len() == 1 { t[0].clone() } else { format!("(+ {})", t.join(" ")) }
}
struct Ctxt { atoms: BTreeSet<u32>, asserts: Vec<String> }
impl Ctxt {
    fn poly(&mut self, p: &Poly) -> String { for a in p.atoms() { self.atoms.insert(a); } spoly(p) }
    /// `f op 0` for a fraction (denominators asserted nonzero)
    fn nz(&mut self, f: &Frac) { for (d, _) in &f.d { let s = self.poly(d); self.asserts.push(format!("(not (= {} 0.0))", s)); } }
    fn close(&mut self) {
        let mut done = BTreeSet::new();
        loop {
            let Some(&a) = self.atoms.iter().find(|a| !done.contains(*a)) else { break };
            done.insert(a);
            let n = sname(a);
            if let Some(r) = norm::rule_of(a) { let den = r.den_poly(); let (x, y) = (self.poly(&r.n), self.poly(&den)); self.nz(&r); self.asserts.push(format!("(= (* {} {} {}) {})", n, n, y, x)); }
            match norm::key(a) {
                AtomKey::App("sqrt", _) | AtomKey::App("abs", _) => self.asserts.push(format!("(>= {} 0.0)", n)),
                AtomKey::Opaque("PI", _) => self.asserts.push(format!("(and (> {} 3.14) (< {} 3.15))", n, n)),
                AtomKey::Opaque("epsilon", _) | AtomKey::Opaque("EPS", _) => self.asserts.push(format!("(and (> {} 0.0) (< {} 0.01))", n, n)),
                _ => {}
            }
        }
    }
    fn run(&mut self, goal: &str) -> Option<(bool, String)> {
        self.close();
        let mut s = String::from("(set-option :produce-models true)\n(set-logic QF_NRA)\n");
        for a in &self.atoms { s += &format!("(declare-const {} Real)\n", sname(*a)); }
        for a in &self.asserts { s += &format!("(assert {})\n", a); }
        s += &format!("(assert {})\n(check-sat)\n(get-model)\n", goal);
        for cmd in [vec!["z3", "-in", "-T:20"], vec!["cvc5", "--lang=smt2", "--tlimit=20000"]] {
            let Ok(mut ch) = Command::new(cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() else { continue };
            ch.stdin.take().unwrap().write_all(s.as_bytes()).ok();
            let Ok(o) = ch.wait_with_output() else { continue };
            let t = String::from_utf8_lossy(&o.stdout).to_string();
            if t.starts_with("unsat") { return Some((false, String::new())); }
            if t.starts_with("sat") { let m: Vec<String> = self.atoms.iter().map(|a| format!("{} = {:?}", sname(*a), norm::key(*a))).collect(); return Some((true, format!("{} where {}", t.split_whitespace().collect::<Vec<_>>().join(" "), m.join("; ")))); }
        }
        None
    }
    fn assumptions(&mut self) -> Option<()> {
        let (nonzero, pos, rules, trace) = CTX.with(|c| { let c = c.borrow(); let c = c.as_ref().unwrap(); (c.nonzero.clone(), c.pos.clone(), c.rules.clone(), c.trace.clone()) });
        for (v, _) in rules { let f = norm::nf(v)?; self.poly(&f.n); }
        for e in nonzero { let f = norm::reduce(&norm::nf(e)?); self.nz(&f); let s = self.poly(&f.n); self.asserts.push(format!("(not (= {} 0.0))", s)); }
        for e in pos { let f = norm::reduce(&norm::nf(e)?); self.nz(&f); let p = odd(&f); let s = self.poly(&p); self.asserts.push(format!("(> {} 0.0)", s)); }
        for d in trace { if d.kind == 3 {
            let f = norm::reduce(&norm::nf(E(d.a))?.sub(&norm::nf(E(d.b))?)); self.nz(&f); let p = odd(&f); let s = self.poly(&p);
            let op = match d.outcome { 0 => "<", 1 => "=", _ => ">" }; self.asserts.push(format!("({} {} 0.0)", op, s));
        } }
        Some(())
    }
}
fn odd(f: &Frac) -> Poly { let mut p = f.n.clone(); for (d, e) in &f.d { if e % 2 == 1 { p = p.mul(d); } } p }

/// do the preconditions and the path make this divisor nonzero?  (true: the solver was needed)
pub fn nonzero_implied(d: E) -> Ans {
    let Some(f) = norm::nf(d) else { return Ans::Refuted("identically undefined".into()) };
    let f = norm::reduce(&f);
    if let Some(c) = f.as_con() { return if c.is_zero() { Ans::Refuted("identically zero".into()) } else { Ans::Proved(false) }; }
    // trial division by the assumed factors
    let mut p = f.n.clone();
    let assumed: Vec<E> = CTX.with(|c| c.borrow().as_ref().unwrap().nonzero.clone());
    for a in assumed { if let Some(g) = norm::nf(a) { let g = norm::reduce(&g); if g.n.as_con().is_none() { while let Some(q) = p.div_exact(&g.n) { p = q; if p.as_con().is_some() { break; } } } } }
    if p.as_con().is_some() { return Ans::Proved(false); }
    let mut c = Ctxt { atoms: BTreeSet::new(), asserts: vec![] };
    if c.assumptions().is_none() { return Ans::Unknown; }
    c.nz(&f);
    let s = c.poly(&p);
    match c.run(&format!("(= {} 0.0)", s)) { Some((false, _)) => Ans::Proved(true), Some((true, m)) => Ans::Refuted(m), None => Ans::Unknown }
}
/// Proved: the decisions of this path contradict the preconditions
pub fn path_infeasible() -> Ans {
    let mut c = Ctxt { atoms: BTreeSet::new(), asserts: vec![] };
    if c.assumptions().is_none() { return Ans::Unknown; }
    match c.run("true") { Some((false, _)) => Ans::Proved(true), Some((true, m)) => Ans::Refuted(m), None => Ans::Unknown }
}
/// do preconditions and path imply a > 0 (strict) or a >= 0 ?
pub fn implied_sign(a: E, strict: bool) -> Ans {
    let Some(f) = norm::nf(a) else { return Ans::Unknown };
    let f = norm::reduce(&f);
    let mut c = Ctxt { atoms: BTreeSet::new(), asserts: vec![] };
    if c.assumptions().is_none() { return Ans::Unknown; }
    c.nz(&f); let p = odd(&f); let s = c.poly(&p);
    match c.run(&format!("({} {} 0.0)", if strict { "<=" } else { "<" }, s)) { Some((false, _)) => Ans::Proved(true), Some((true, m)) => Ans::Refuted(m), None => Ans::Unknown }
}
