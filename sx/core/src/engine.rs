use crate::nf::Rat;
use crate::norm;
use crate::rng::Rng;
use crate::smt;
use crate::term::*;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Order { Partial, Total }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Search { All, /// only this many pseudo-random resolutions of the decisions (bounded)
    Sample(usize) }

#[derive(Clone)]
pub struct Draw { pub value: E, pub kind: &'static str, pub args: Vec<E> }

#[derive(Clone, Debug)]
pub struct Decision { pub desc: String, pub outcome: u8, pub n: u8, pub a: u32, pub b: u32, pub kind: u8 }

pub struct Ctx {
    pub order: Order,
    pub prefix: Vec<u8>, pub trace: Vec<Decision>, pub memo: HashMap<(u32, u32), Option<Ordering>>, pub bmemo: HashMap<u32, bool>,
    pub polymemo: HashMap<crate::nf::Poly, Ordering>,
    pub sample: Option<Rng>,
    pub max_decisions: usize,
    pub vars: Vec<String>, pub assign: Option<BTreeMap<String, Rat>>,
    pub nonzero: Vec<E>, pub rules: Vec<(E, E)>, pub pos: Vec<E>,
    pub divisors: Vec<E>, pub draws: Vec<Draw>,
    pub fails: Vec<Fail>, pub checks: usize, pub check_defined: bool, pub spec: bool,
    pub known: Option<(String, String, String)>,
}
#[derive(Clone, Debug)]
pub struct Fail { pub label: String, pub got: String, pub want: String, pub terms: Option<(u32, u32, Kind)>, pub note: String }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Exact, Ring, Field }

thread_local! { pub static CTX: RefCell<Option<Ctx>> = RefCell::new(None); }
pub struct CutPath;

fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R { CTX.with(|c| f(c.borrow_mut().as_mut().expect("sxcore: no contract active"))) }
pub fn replaying() -> bool { CTX.with(|c| c.borrow().as_ref().map_or(false, |c| c.assign.is_some())) }
pub fn assigned(name: &str) -> Option<Rat> { CTX.with(|c| c.borrow().as_ref().and_then(|c| c.assign.as_ref()).and_then(|a| a.get(name).copied())) }
pub fn note_var(name: &str) { CTX.with(|c| if let Some(c) = c.borrow_mut().as_mut() { if !c.vars.iter().any(|v| v == name) { c.vars.push(name.to_string()); } }) }
pub fn note_divisor(e: E) { CTX.with(|c| if let Some(c) = c.borrow_mut().as_mut() { if !c.spec && !c.divisors.iter().any(|d| d.0 == e.0) { c.divisors.push(e); } }) }
pub fn draw(kind: &'static str, args: &[E]) -> E {
    let k = with(|c| c.draws.len());
    let e = var(&format!("draw{}", k));
    with(|c| c.draws.push(Draw { value: e, kind, args: args.to_vec() }));
    e
}
pub fn draws() -> Vec<Draw> { with(|c| c.draws.clone()) }

fn choose(n: u8, desc: impl FnOnce() -> String, a: u32, b: u32, kind: u8) -> u8 {
    with(|c| {
        let i = c.trace.len();
        if i >= c.max_decisions { std::panic::panic_any(CutPath); }
        let o = if let Some(r) = c.sample.as_mut() { r.below(n as u64) as u8 } else if i < c.prefix.len() { c.prefix[i] } else { 0 };
        c.trace.push(Decision { desc: desc(), outcome: o, n, a, b, kind });
        o
    })
}
/// outcome of comparing two symbolic values; resolved in all possible ways
pub fn cmp4(a: E, b: E) -> Option<Ordering> {
    use Ordering::*;
    if let (Some(x), Some(y)) = (a.as_const(), b.as_const()) { return Some(x.cmp(y)); }
    if replaying() {
        let (x, y) = (norm::eval(a), norm::eval(b));
        if (x - y).abs() <= 1e-9 * (1.0 + x.abs().max(y.abs())) { return Some(Equal); }
        return x.partial_cmp(&y);
    }
    let order = with(|c| c.order);
    if order == Order::Total {
        if a.0 == b.0 { return Some(Equal); }
        let d = norm::nf(a).and_then(|x| norm::nf(b).map(|y| norm::reduce(&x.sub(&y))));
        if let Some(d) = d {
            if let Some(r) = d.as_con() { return Some(r.n.cmp(&0)); }
            // sign of n/d == sign of n * prod of odd den factors
            let mut p = d.n.clone();
            for (f, e) in &d.d { if e % 2 == 1 { p = p.mul(f); } }
            let (m, lc) = p.monic();
            let flip = lc.n < 0;
            let fix = |o: Ordering| if flip { o.reverse() } else { o };
            if let Some(o) = with(|c| c.polymemo.get(&m).copied()) { return Some(fix(o)); }
            let k = choose(3, || format!("sign[{} vs {}]", a.show(), b.show()), a.0, b.0, 3);
            let o = [Less, Equal, Greater][k as usize];
            with(|c| c.polymemo.insert(m, fix(o)));
            return Some(o);
        }
        if let Some(o) = with(|c| c.memo.get(&(a.0, b.0)).copied()) { return o; }
        let k = choose(3, || format!("cmp[{} vs {}]", a.show(), b.show()), a.0, b.0, 3);
        let o = Some([Less, Equal, Greater][k as usize]);
        with(|c| { c.memo.insert((a.0, b.0), o); c.memo.insert((b.0, a.0), o.map(|x| x.reverse())); });
        return o;
    }
    if let Some(o) = with(|c| c.memo.get(&(a.0, b.0)).copied()) { return o; }
    let o = if a.0 == b.0 {
        [Some(Equal), None][choose(2, || format!("reflexive[{}]", a.show()), a.0, b.0, 2) as usize]
    } else {
        [Some(Less), Some(Equal), Some(Greater), None][choose(4, || format!("cmp[{} vs {}]", a.show(), b.show()), a.0, b.0, 4) as usize]
    };
    with(|c| { c.memo.insert((a.0, b.0), o); c.memo.insert((b.0, a.0), o.map(|x| x.reverse())); });
    o
}
/// an uninterpreted predicate over terms
pub fn decide(p: E) -> bool {
    if let Some(b) = with(|c| c.bmemo.get(&p.0).copied()) { return b; }
    let o = if replaying() { norm::hash_eval(p) as u64 % 2 == 0 } else { choose(2, || format!("pred[{}]", p.show()), p.0, 0, 1) == 0 };
    with(|c| { c.bmemo.insert(p.0, o); });
    o
}

// ---------------------------------------------------------------- contract clauses
/// precondition: e != 0
pub fn assume_nonzero(e: E) { with(|c| c.nonzero.push(e)) }
/// precondition: v*v == rhs  (v a variable not occurring in rhs)
pub fn assume_square(v: E, rhs: E) { with(|c| c.rules.push((v, rhs))); norm::clear(); }
/// precondition: e > 0 (used for definedness and feasibility only)
pub fn assume_pos(e: E) { with(|c| c.pos.push(e)) }
/// every division executed must have a divisor that the preconditions make nonzero
pub fn check_defined() { with(|c| c.check_defined = true) }
/// run specification code (its divisions are not obligations of the code under contract)
pub fn spec<R>(f: impl FnOnce() -> R) -> R { let old = with(|c| std::mem::replace(&mut c.spec, true)); let r = f(); with(|c| c.spec = old); r }
/// failures of the clause `clause` of this contract are a known finding (listed in the known-findings file)
pub fn known_if(id: &str, clause: &str, what: &str) { with(|c| c.known = Some((id.to_string(), clause.to_string(), what.to_string()))) }

fn fail(label: &str, got: String, want: String, terms: Option<(u32, u32, Kind)>, note: &str) {
    with(|c| c.fails.push(Fail { label: label.into(), got, want, terms, note: note.into() }))
}
fn num_close(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-7 * (1.0 + a.abs().max(b.abs())) }
fn chk(kind: Kind, label: &str, got: E, want: E) {
    with(|c| c.checks += 1);
    if replaying() {
        let (g, w) = (norm::eval(got), norm::eval(want));
        if !num_close(g, w) { fail(label, format!("{}", g), format!("{}", w), None, "replay"); }
        return;
    }
    let ok = match kind {
        Kind::Exact => got.0 == want.0,
        Kind::Ring => got.0 == want.0 || norm::np(got) == norm::np(want),
        Kind::Field => got.0 == want.0 || norm::field_eq(got, want),
    };
    if !ok { fail(label, got.show(), want.show(), Some((got.0, want.0, kind)), ""); }
}
/// postcondition: identical terms (the very same operation on the same operands)
pub fn exact(label: &str, got: E, want: E) { chk(Kind::Exact, label, got, want) }
/// postcondition: equal in every (non-commutative) ring
pub fn ring(label: &str, got: E, want: E) { chk(Kind::Ring, label, got, want) }
/// postcondition: equal in every field where defined (reals: sqrt, sin, cos have their relations)
pub fn field(label: &str, got: E, want: E) { chk(Kind::Field, label, got, want) }
pub fn holds(label: &str, ok: bool) { with(|c| c.checks += 1); if !ok { fail(label, "false".into(), "true".into(), None, ""); } }
pub fn same<T: PartialEq + std::fmt::Debug>(label: &str, got: T, want: T) { with(|c| c.checks += 1); if got != want { fail(label, format!("{:?}", got), format!("{:?}", want), None, ""); } }
pub fn note_fail(label: &str, got: String, want: String) { fail(label, got, want, None, ""); }
pub fn count_check() { with(|c| c.checks += 1) }
/// postcondition: the call panics
pub fn panics(label: &str, f: impl FnOnce()) {
    with(|c| c.checks += 1);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => fail(label, "returned normally".into(), "panic".into(), None, ""),
        Err(e) => if e.is::<CutPath>() { std::panic::resume_unwind(e) },
    }
}

// ---------------------------------------------------------------- running contracts
#[derive(Default)]
pub struct Report {
    pub contracts: Vec<(String, String, usize, usize)>, // name, status, paths, checks
    pub obligations: usize, pub discharged: usize, pub paths: usize, pub cut: usize, pub infeasible: usize, pub undecided: Vec<String>,
    pub violations: Vec<Violation>, pub known: Vec<(String, String)>, pub sampled: usize, pub samples: Vec<String>, pub defined_smt: usize,
}
pub struct Violation { pub contract: String, pub label: String, pub text: String }
thread_local! { pub static REPORT: RefCell<Report> = RefCell::new(Report::default()); static ONLY: RefCell<Option<String>> = RefCell::new(None); static OUT: RefCell<Option<String>> = RefCell::new(None); static PROG: RefCell<String> = RefCell::new(String::new()); }

pub fn seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }
pub fn thorough() -> bool { std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") }

pub struct Opt { pub order: Order, pub search: Search, pub max_decisions: usize }
pub const FREE: Opt = Opt { order: Order::Partial, search: Search::All, max_decisions: 400 };
pub const REAL: Opt = Opt { order: Order::Total, search: Search::All, max_decisions: 400 };

fn fresh_ctx(o: &Opt, prefix: Vec<u8>, sample: Option<Rng>, assign: Option<BTreeMap<String, Rat>>) -> Ctx {
    Ctx { order: o.order, prefix, trace: vec![], memo: HashMap::new(), bmemo: HashMap::new(), polymemo: HashMap::new(), sample, max_decisions: o.max_decisions,
        vars: vec![], assign, nonzero: vec![], rules: vec![], pos: vec![], divisors: vec![], draws: vec![], fails: vec![], checks: 0, check_defined: false, spec: false, known: None }
}
enum Outcome { Done, Cut, Panic(String) }
fn run_once(f: &dyn Fn(), ctx: Ctx) -> (Ctx, Outcome) {
    reset_store(); norm::clear();
    CTX.with(|c| *c.borrow_mut() = Some(ctx));
    let r = catch_unwind(AssertUnwindSafe(f));
    let out = match r {
        Ok(()) => Outcome::Done,
        Err(e) => if e.is::<CutPath>() { Outcome::Cut } else {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into());
            if m.starts_with("sxcore:") { eprintln!("TOOL-LIMIT {}", m); }
            Outcome::Panic(m)
        },
    };
    let c = CTX.with(|c| c.borrow_mut().take()).expect("context");
    (c, out)
}
/// keep the context active while analysing a finished path
fn inside<R>(c: Ctx, f: impl FnOnce() -> R) -> (Ctx, R) {
    CTX.with(|x| *x.borrow_mut() = Some(c));
    let r = f();
    (CTX.with(|x| x.borrow_mut().take()).unwrap(), r)
}

/// One contract on one instance of the code: explore every path, check every clause.
pub fn contract(name: &str, opt: Opt, f: impl Fn()) {
    if let Some(o) = ONLY.with(|o| o.borrow().clone()) { if !name.contains(&o) { return; } }
    begin(name);
    let mut prefix: Vec<u8> = vec![];
    let (mut paths, mut checks, mut status) = (0usize, 0usize, "discharged".to_string());
    let mut samples_left = match opt.search { Search::Sample(n) => n, _ => 0 };
    let mut srng = Rng::new(seed());
    loop {
        let sample = if let Search::Sample(_) = opt.search { Some(Rng::new(srng.next())) } else { None };
        let (c, out) = run_once(&f, fresh_ctx(&opt, prefix.clone(), sample, None));
        paths += 1; checks += c.checks;
        let trace = c.trace.clone();
        let (c, bad) = inside(c, || analyse(name, &opt, &f, out));
        if let Some(s) = bad { status = s; }
        drop(c);
        if status == "violated" { break; }
        if let Search::Sample(_) = opt.search {
            samples_left -= 1; if samples_left == 0 || trace.is_empty() { break; } continue;
        }
        // next prefix in depth-first order
        let mut p: Vec<u8> = trace.iter().map(|d| d.outcome).collect();
        let ns: Vec<u8> = trace.iter().map(|d| d.n).collect();
        let mut done = true;
        while let Some(o) = p.pop() { if o + 1 < ns[p.len()] { p.push(o + 1); done = false; break; } }
        if done { break; }
        prefix = p;
        if paths >= 200_000 { REPORT.with(|r| r.borrow_mut().undecided.push(format!("{}: path limit", name))); status = "undecided".into(); break; }
    }
    REPORT.with(|r| {
        let mut r = r.borrow_mut();
        r.paths += paths; r.obligations += 1;
        if status == "discharged" { r.discharged += 1; }
        if let Search::Sample(_) = opt.search { r.sampled += 1; }
        if r.samples.len() < 12 && (r.contracts.len() % 7 == 0) { r.samples.push(format!("{} : {} paths, {} clauses, {}", name, paths, checks, status)); }
        r.contracts.push((name.to_string(), status, paths, checks));
    });
    if checks == 0 { REPORT.with(|r| r.borrow_mut().undecided.push(format!("{}: vacuous (no clause evaluated)", name))); }
}
/// Concrete obligation (bounded enumeration of inputs, no symbolic values)
pub fn concrete(name: &str, f: impl Fn()) { contract(name, FREE, f) }

fn begin(name: &str) {
    if let Some(p) = OUT.with(|o| o.borrow().clone()) { let _ = std::fs::write(format!("{}.progress", p), name); }
    *CURRENT.lock().unwrap() = Some((name.to_string(), std::time::Instant::now()));
}
static CURRENT: std::sync::Mutex<Option<(String, std::time::Instant)>> = std::sync::Mutex::new(None);

fn path_desc(c: &Ctx) -> Vec<String> {
    c.trace.iter().map(|d| { let w = match (d.kind, d.outcome) { (1, 0) => "true", (1, _) => "false", (2, 0) => "equal", (2, _) => "unordered", (_, 0) => "less", (_, 1) => "equal", (_, 2) => "greater", _ => "unordered" }; format!("{} = {}", d.desc, w) }).collect()
}

/// after a path: decide whether something failed, confirm it, and record it
fn analyse(name: &str, opt: &Opt, f: &dyn Fn(), out: Outcome) -> Option<String> {
    let (mut fails, trace, check_def, known) = with(|c| (c.fails.clone(), c.trace.clone(), c.check_defined, c.known.clone()));
    match &out {
        Outcome::Cut => { REPORT.with(|r| r.borrow_mut().cut += 1); if fails.is_empty() { return None; } }
        Outcome::Panic(m) => {
            if m.starts_with("sxcore:") { REPORT.with(|r| r.borrow_mut().undecided.push(format!("{}: {}", name, m))); return Some("undecided".into()); }
            fails.push(Fail { label: "no panic".into(), got: format!("panicked: {}", m), want: "returns".into(), terms: None, note: "".into() })
        }
        Outcome::Done => {}
    }
    let mut undecided = None;
    if check_def && fails.is_empty() {
        for d in with(|c| c.divisors.clone()) {
            match smt::nonzero_implied(d) {
                smt::Ans::Proved(s) => { if s { REPORT.with(|r| r.borrow_mut().defined_smt += 1); } }
                smt::Ans::Refuted(m) => fails.push(Fail { label: "divisor is nonzero under the precondition".into(), got: format!("divisor {} can be zero, e.g. {}", d.show(), m), want: "nonzero".into(), terms: None, note: "definedness".into() }),
                smt::Ans::Unknown => { undecided = Some(format!("{}: definedness of division by {} not decided", name, d.show())); }
            }
        }
    }
    if fails.is_empty() {
        if let Some(u) = undecided { REPORT.with(|r| r.borrow_mut().undecided.push(u)); return Some("undecided".into()); }
        return None;
    }
    // a failed clause: is the path feasible under the preconditions?
    if opt.order == Order::Total && !trace.is_empty() {
        if let smt::Ans::Proved(_) = smt::path_infeasible() { REPORT.with(|r| r.borrow_mut().infeasible += 1); return None; }
    }
    let fl = match &known { Some((_, cl, _)) => fails.iter().find(|f| f.label != *cl).unwrap_or(&fails[0]).clone(), None => fails[0].clone() };
    let known = known.filter(|k| k.1 == fl.label).map(|k| (k.0, k.2));
    let pd = with(|c| path_desc(c));
    // field failures need a concrete counterexample: values satisfying preconditions and path
    let mut text = String::new();
    text += &format!("contract : {}\nclause   : {}\npath     : {}\ngot      : {}\nexpected : {}\n", name, fl.label, if pd.is_empty() { "(no decisions)".into() } else { pd.join("; ") }, fl.got, fl.want);
    if let Some((g, w, kind)) = fl.terms {
        match kind {
            Kind::Field | Kind::Ring => {
                match norm::witness(E(g), E(w), kind, &trace) {
                    Some((asg, gv, wv)) => {
                        text += &format!("counterexample values: {}\n  code gives {} , contract requires {}\n", asg.iter().map(|(k, v)| format!("{} = {}", k, v.f64())).collect::<Vec<_>>().join(", "), gv, wv);
                        if kind == Kind::Field {
                            // replay: the same contract, the same compiled code, concrete values
                            let saved = CTX.with(|x| x.borrow_mut().take());
                            let (rc, ro) = run_once(f, fresh_ctx(opt, vec![], None, Some(asg.clone())));
                            CTX.with(|x| *x.borrow_mut() = saved);
                            let rep: Vec<String> = rc.fails.iter().map(|f| format!("{}: got {} expected {}", f.label, f.got, f.want)).collect();
                            let pan = if let Outcome::Panic(m) = &ro { format!(" (panicked: {})", m) } else { String::new() };
                            text += &format!("replayed on the compiled code with these values: {}{}\n", if rep.is_empty() { "no mismatch".to_string() } else { rep.join("; ") }, pan);
                            if rep.is_empty() && pan.is_empty() { text += "(the replay in floating point did not reproduce the mismatch)\n"; REPORT.with(|r| r.borrow_mut().undecided.push(format!("{}: {} not confirmed", name, fl.label))); return Some("undecided".into()); }
                        } else { text += "(values for a ring: symbols stand for 2x2 integer matrices hashed from their names)\n"; }
                    }
                    None => { REPORT.with(|r| r.borrow_mut().undecided.push(format!("{}: {} failed to normalise, no counterexample found", name, fl.label))); return Some("undecided".into()); }
                }
            }
            Kind::Exact => { text += "counterexample: the free term algebra over the listed symbols (a lawful element type); the two result terms differ.\n"; }
        }
    } else { text += "counterexample: the inputs named by the contract instance above, on the path above.\n"; }
    if let Some((id, what)) = known {
        REPORT.with(|r| { let mut r = r.borrow_mut(); if !r.known.iter().any(|k| k.0 == id) { r.known.push((id, what)); } });
        return Some("known-finding".into());
    }
    REPORT.with(|r| r.borrow_mut().violations.push(Violation { contract: name.into(), label: fl.label.clone(), text }));
    Some("violated".into())
}

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t", '\r' => o += "\\r", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } } o.push('"'); o }
fn write_report(status: &str) {
    let Some(p) = OUT.with(|o| o.borrow().clone()) else { return };
    REPORT.with(|r| {
        let r = r.borrow();
        let mut s = String::from("{");
        s += &format!("\"status\":{},\"obligations\":{},\"discharged\":{},\"paths\":{},\"cut\":{},\"infeasible\":{},\"sampled\":{},\"defined_smt\":{},", js(status), r.obligations, r.discharged, r.paths, r.cut, r.infeasible, r.sampled, r.defined_smt);
        s += &format!("\"clauses\":{},", r.contracts.iter().map(|c| c.3).sum::<usize>());
        s += &format!("\"samples\":[{}],", r.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        s += &format!("\"undecided\":[{}],", r.undecided.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        s += &format!("\"known\":[{}],", r.known.iter().map(|x| format!("[{},{}]", js(&x.0), js(&x.1))).collect::<Vec<_>>().join(","));
        s += &format!("\"contracts\":[{}],", r.contracts.iter().map(|x| format!("[{},{},{},{}]", js(&x.0), js(&x.1), x.2, x.3)).collect::<Vec<_>>().join(","));
        s += &format!("\"violations\":[{}]", r.violations.iter().map(|v| format!("{{\"contract\":{},\"clause\":{},\"text\":{}}}", js(&v.contract), js(&v.label), js(&v.text))).collect::<Vec<_>>().join(","));
        s += "}";
        let _ = std::fs::write(&p, s);
    });
}

/// entry point of every property binary:  PROG [--out FILE] [--only SUBSTRING]
pub fn main(prop: &str, body: impl FnOnce()) {
    let a: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < a.len() { match a[i].as_str() { "--out" => { OUT.with(|o| *o.borrow_mut() = Some(a[i + 1].clone())); i += 2; } "--only" => { ONLY.with(|o| *o.borrow_mut() = Some(a[i + 1].clone())); i += 2; } x => { eprintln!("unknown argument {}", x); std::process::exit(2) } } }
    PROG.with(|p| *p.borrow_mut() = prop.to_string());
    std::panic::set_hook(Box::new(|_| {}));
    // watchdog: a contract that does not return
    let limit: u64 = std::env::var("SX_CONTRACT_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough() { 400 } else { 150 });
    let out = OUT.with(|o| o.borrow().clone());
    *CURRENT.lock().unwrap() = Some(("start".into(), std::time::Instant::now()));
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let (n, t) = CURRENT.lock().unwrap().clone().unwrap();
        if t.elapsed().as_secs() > limit {
            if let Some(p) = &out { let _ = std::fs::write(format!("{}.hang", p), &n); }
            eprintln!("HANG in {}", n); std::process::exit(7);
        }
    });
    body();
    let v = REPORT.with(|r| r.borrow().violations.len());
    write_report(if v > 0 { "violated" } else { "ok" });
    REPORT.with(|r| { let r = r.borrow(); println!("{}: {} contracts, {} discharged, {} paths, {} violations, {} undecided, {} known", prop, r.obligations, r.discharged, r.paths, r.violations.len(), r.undecided.len(), r.known.len());
        for v in &r.violations { println!("--- VIOLATED\n{}", v.text); }
        for u in &r.undecided { println!("--- UNDECIDED {}", u); } });
    std::process::exit(if v > 0 { 1 } else { 0 });
}
