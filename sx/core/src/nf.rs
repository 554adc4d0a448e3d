//! Exact normal forms: rationals, commutative polynomials, factored fractions,
//! and non-commutative polynomials.  All arithmetic is checked (no rounding).
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Rat { pub n: i128, pub d: i128 }
fn gcd(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { let t = a % b; a = b; b = t; } a }
impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn new(n: i128, d: i128) -> Rat {
        assert!(d != 0, "sxcore: zero denominator");
        let g = gcd(n, d); let g = if g == 0 { 1 } else { g };
        let s = if d < 0 { -1 } else { 1 };
        Rat { n: s * n / g, d: s * d / g }
    }
    pub fn int(n: i128) -> Rat { Rat { n, d: 1 } }
    pub fn is_zero(&self) -> bool { self.n == 0 }
    pub fn add(self, o: Rat) -> Rat {
        if self.d == 1 && o.d == 1 { return Rat::int(self.n.checked_add(o.n).expect("sxcore: overflow")); }
        Rat::new(self.n.checked_mul(o.d).and_then(|a| o.n.checked_mul(self.d).and_then(|b| a.checked_add(b))).expect("sxcore: overflow"), self.d.checked_mul(o.d).expect("sxcore: overflow"))
    }
    pub fn neg(self) -> Rat { Rat { n: -self.n, d: self.d } }
    pub fn sub(self, o: Rat) -> Rat { self.add(o.neg()) }
    pub fn mul(self, o: Rat) -> Rat { Rat::new(self.n.checked_mul(o.n).expect("sxcore: overflow"), self.d.checked_mul(o.d).expect("sxcore: overflow")) }
    pub fn inv(self) -> Rat { Rat::new(self.d, self.n) }
    pub fn div(self, o: Rat) -> Rat { self.mul(o.inv()) }
    pub fn f64(self) -> f64 { self.n as f64 / self.d as f64 }
    pub fn cmp(self, o: Rat) -> std::cmp::Ordering { (self.sub(o)).n.cmp(&0) }
    pub fn from_f64(x: f64) -> Option<Rat> {
        if !x.is_finite() { return None; }
        let mut d: i128 = 1; let mut y = x;
        for _ in 0..60 { if y == y.trunc() && y.abs() < 1e30 { return Some(Rat::new(y as i128, d)); } y *= 2.0; d *= 2; }
        None
    }
}

/// monomial: sorted (atom, exponent)
pub type Mono = Vec<(u32, u32)>;
fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i].0 < b[j].0 { r.push(a[i]); i += 1; }
        else if a[i].0 > b[j].0 { r.push(b[j]); j += 1; }
        else { r.push((a[i].0, a[i].1 + b[j].1)); i += 1; j += 1; }
    }
    r.extend_from_slice(&a[i..]); r.extend_from_slice(&b[j..]); r
}
fn mono_div(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut r = Vec::with_capacity(a.len());
    let mut j = 0;
    for &(v, e) in a {
        if j < b.len() && b[j].0 == v {
            if b[j].1 > e { return None; }
            if e > b[j].1 { r.push((v, e - b[j].1)); }
            j += 1;
        } else { if j < b.len() && b[j].0 < v { return None; } r.push((v, e)); }
    }
    if j < b.len() { None } else { Some(r) }
}
// A monomial order compatible with multiplication: lex with smaller atom index more significant.
fn mono_cmp(a: &Mono, b: &Mono) -> std::cmp::Ordering {
    let mut i = 0;
    loop {
        match (a.get(i), b.get(i)) {
            (None, None) => return std::cmp::Ordering::Equal,
            (Some(_), None) => return std::cmp::Ordering::Greater,
            (None, Some(_)) => return std::cmp::Ordering::Less,
            (Some(x), Some(y)) => {
                if x.0 != y.0 { return if x.0 < y.0 { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less }; }
                if x.1 != y.1 { return x.1.cmp(&y.1); }
            }
        }
        i += 1;
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Poly(pub BTreeMap<Mono, Rat>);
impl Poly {
    pub fn zero() -> Poly { Poly(BTreeMap::new()) }
    pub fn con(r: Rat) -> Poly { let mut p = Poly::zero(); if !r.is_zero() { p.0.insert(vec![], r); } p }
    pub fn one() -> Poly { Poly::con(Rat::ONE) }
    pub fn atom(a: u32) -> Poly { let mut p = Poly::zero(); p.0.insert(vec![(a, 1)], Rat::ONE); p }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn as_con(&self) -> Option<Rat> {
        if self.0.is_empty() { return Some(Rat::ZERO); }
        if self.0.len() == 1 { let (m, r) = self.0.iter().next().unwrap(); if m.is_empty() { return Some(*r); } }
        None
    }
    pub fn add_term(&mut self, m: Mono, r: Rat) {
        use std::collections::btree_map::Entry::*;
        match self.0.entry(m) {
            Vacant(v) => { if !r.is_zero() { v.insert(r); } }
            Occupied(mut o) => { let s = o.get().add(r); if s.is_zero() { o.remove(); } else { *o.get_mut() = s; } }
        }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let (mut r, s) = if self.0.len() >= o.0.len() { (self.clone(), o) } else { (o.clone(), self) };
        for (m, c) in &s.0 { r.add_term(m.clone(), *c); } r
    }
    pub fn scale(&self, k: Rat) -> Poly { if k.is_zero() { return Poly::zero(); } Poly(self.0.iter().map(|(m, c)| (m.clone(), c.mul(k))).collect()) }
    pub fn neg(&self) -> Poly { self.scale(Rat::int(-1)) }
    pub fn sub(&self, o: &Poly) -> Poly { self.add(&o.neg()) }
    pub fn mul(&self, o: &Poly) -> Poly {
        let mut r = Poly::zero();
        for (a, x) in &self.0 { for (b, y) in &o.0 { r.add_term(mono_mul(a, b), x.mul(*y)); } } r
    }
    pub fn pow(&self, n: u32) -> Poly { let mut r = Poly::one(); for _ in 0..n { r = r.mul(self); } r }
    pub fn lead(&self) -> Option<(&Mono, Rat)> { self.0.iter().max_by(|a, b| mono_cmp(a.0, b.0)).map(|(m, c)| (m, *c)) }
    /// exact division
    pub fn div_exact(&self, o: &Poly) -> Option<Poly> {
        if let Some(c) = o.as_con() { if c.is_zero() { return None; } return Some(self.scale(c.inv())); }
        let (lm, lc) = { let (m, c) = o.lead().unwrap(); (m.clone(), c) };
        let mut rem = self.clone(); let mut q = Poly::zero();
        while !rem.is_zero() {
            let (m, c) = { let (m, c) = rem.lead().unwrap(); (m.clone(), c) };
            let t = mono_div(&m, &lm)?; let k = c.div(lc);
            for (om, oc) in &o.0 { rem.add_term(mono_mul(om, &t), oc.mul(k).neg()); }
            q.add_term(t, k);
            if q.0.len() > 20000 { return None; }
        }
        Some(q)
    }
    /// make monic (w.r.t. lead); returns (monic, leading coeff)
    pub fn monic(&self) -> (Poly, Rat) { match self.lead() { None => (Poly::zero(), Rat::ONE), Some((_, c)) => (self.scale(c.inv()), c) } }
    pub fn max_exp(&self, a: u32) -> u32 { self.0.keys().map(|m| m.iter().find(|x| x.0 == a).map_or(0, |x| x.1)).max().unwrap_or(0) }
    pub fn atoms(&self) -> Vec<u32> { let mut v: Vec<u32> = self.0.keys().flat_map(|m| m.iter().map(|x| x.0)).collect(); v.sort(); v.dedup(); v }
}

/// fraction num / prod den_i^e_i  (den factors monic, non-constant, pairwise distinct)
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Frac { pub n: Poly, pub d: Vec<(Poly, u32)> }
impl Frac {
    pub fn poly(n: Poly) -> Frac { Frac { n, d: vec![] } }
    pub fn con(r: Rat) -> Frac { Frac::poly(Poly::con(r)) }
    pub fn is_zero(&self) -> bool { self.n.is_zero() }
    pub fn as_con(&self) -> Option<Rat> { if self.d.is_empty() { self.n.as_con() } else if self.n.is_zero() { Some(Rat::ZERO) } else { None } }
    pub fn den_poly(&self) -> Poly { let mut p = Poly::one(); for (f, e) in &self.d { p = p.mul(&f.pow(*e)); } p }
    fn cancel(mut self) -> Frac {
        if self.n.is_zero() { self.d.clear(); return self; }
        let mut d = vec![];
        for (f, mut e) in std::mem::take(&mut self.d) {
            while e > 0 { match self.n.div_exact(&f) { Some(q) => { self.n = q; e -= 1; } None => break } }
            if e > 0 { d.push((f, e)); }
        }
        d.sort(); self.d = d; self
    }
    pub fn neg(&self) -> Frac { Frac { n: self.n.neg(), d: self.d.clone() } }
    pub fn add(&self, o: &Frac) -> Frac {
        if self.d == o.d { return Frac { n: self.n.add(&o.n), d: self.d.clone() }.cancel(); }
        // lcm of denominators
        let mut l = self.d.clone();
        for (f, e) in &o.d { match l.iter_mut().find(|x| x.0 == *f) { Some(x) => x.1 = x.1.max(*e), None => l.push((f.clone(), *e)) } }
        let lift = |fr: &Frac| { let mut n = fr.n.clone(); for (f, e) in &l { let have = fr.d.iter().find(|x| x.0 == *f).map_or(0, |x| x.1); if *e > have { n = n.mul(&f.pow(*e - have)); } } n };
        let n = lift(self).add(&lift(o));
        Frac { n, d: l }.cancel()
    }
    pub fn sub(&self, o: &Frac) -> Frac { self.add(&o.neg()) }
    pub fn mul(&self, o: &Frac) -> Frac {
        let mut d = self.d.clone();
        for (f, e) in &o.d { match d.iter_mut().find(|x| x.0 == *f) { Some(x) => x.1 += *e, None => d.push((f.clone(), *e)) } }
        Frac { n: self.n.mul(&o.n), d }.cancel()
    }
    /// inverse; None if numerator is the zero polynomial
    pub fn inv(&self) -> Option<Frac> {
        if self.n.is_zero() { return None; }
        let num = self.den_poly();
        let (m, c) = self.n.monic();
        let n = num.scale(c.inv());
        if m.as_con().is_some() { return Some(Frac { n, d: vec![] }); }
        // split monomial content of m into atoms so that single-atom factors are shared
        let mut fs: Vec<(Poly, u32)> = vec![]; let mut rest = m.clone();
        for a in m.atoms() {
            let mut k = 0; let pa = Poly::atom(a);
            while let Some(q) = rest.div_exact(&pa) { rest = q; k += 1; if rest.as_con().is_some() { break; } }
            if k > 0 { fs.push((pa, k)); }
        }
        if rest.as_con().is_none() { let (r, _) = rest.monic(); fs.push((r, 1)); }
        Some(Frac { n, d: fs }.cancel())
    }
}

/// non-commutative polynomial (free associative algebra over Q)
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct NPoly(pub BTreeMap<Vec<u32>, Rat>);
impl NPoly {
    pub fn zero() -> NPoly { NPoly(BTreeMap::new()) }
    pub fn con(r: Rat) -> NPoly { let mut p = NPoly::zero(); if !r.is_zero() { p.0.insert(vec![], r); } p }
    pub fn atom(a: u32) -> NPoly { let mut p = NPoly::zero(); p.0.insert(vec![a], Rat::ONE); p }
    pub fn add_term(&mut self, m: Vec<u32>, r: Rat) {
        use std::collections::btree_map::Entry::*;
        match self.0.entry(m) {
            Vacant(v) => { if !r.is_zero() { v.insert(r); } }
            Occupied(mut o) => { let s = o.get().add(r); if s.is_zero() { o.remove(); } else { *o.get_mut() = s; } }
        }
    }
    pub fn add(&self, o: &NPoly) -> NPoly { let mut r = self.clone(); for (m, c) in &o.0 { r.add_term(m.clone(), *c); } r }
    pub fn neg(&self) -> NPoly { NPoly(self.0.iter().map(|(m, c)| (m.clone(), c.neg())).collect()) }
    pub fn mul(&self, o: &NPoly) -> NPoly {
        let mut r = NPoly::zero();
        for (a, x) in &self.0 { for (b, y) in &o.0 { let mut m = a.clone(); m.extend_from_slice(b); r.add_term(m, x.mul(*y)); } } r
    }
}
