//! Polynomial normal forms for the exact-real mode.
//! An expression becomes a sum of monomials over atoms (inputs, sin/cos of canonical arguments, square roots,
//! absolute values, reciprocals of polynomials, opaque applications) with exact dyadic coefficients, reduced by
//! sin^2 = 1 - cos^2, sqrt(p)^2 = p, |p|^2 = p^2.  A constraint is refuted when the difference of its sides is
//! identically zero (denominators cleared; they are non-zero on the path) or has a definite sign.
use crate::expr::*;
use crate::z3::Z3;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

use crate::rat::Rat as Dy;
pub type Mono = Vec<(u32, i32)>;
pub type Poly = BTreeMap<Mono, Dy>;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Atom { Node(E), Sin(u32), Cos(u32), Sqrt(u32), Abs(u32), P(u32), Fn(u32, Vec<u32>), FnIte(E), Round(u32, u32) }
struct Fail;
type R<T> = Result<T, Fail>;

#[derive(Default)]
struct Norm {
    atoms: Vec<Atom>,
    aidx: HashMap<Atom, u32>,
    polys: Vec<Rc<Poly>>,
    pidx: HashMap<Vec<(Mono, Dy)>, u32>,
    /// context-free normal forms
    memo: HashMap<E, Option<Rc<Poly>>>,
    /// normal forms that used the current path condition
    memo2: HashMap<E, Option<Rc<Poly>>>,
    taint: bool,
    /// possible signs of primitive polynomials on the path (1 negative, 2 zero, 4 positive)
    signs: HashMap<u32, u8>,
    /// normal forms of the comparison literals of the query
    lits: HashMap<E, Rc<Poly>>,
    busy: u32,
    /// decided conditions of the current case split
    ctx: HashMap<E, bool>,
    open: Vec<E>,
    rules: HashMap<u32, Rc<Poly>>,
    /// equations found in the path condition: lhs atom (linear) -> poly
    deadline: Option<std::time::Instant>,
    bounds: HashMap<u32, (f64, f64)>,
}
thread_local! { static N: RefCell<Norm> = RefCell::new(Norm::default()); }
const MAXT: usize = 60_000;

fn pconst(d: Dy) -> Poly { let mut p = Poly::new(); if !d.is_zero() { p.insert(vec![], d); } p }
fn addto(p: &mut Poly, m: Mono, d: Dy) {
    if d.is_zero() { return; }
    match p.entry(m) {
        std::collections::btree_map::Entry::Vacant(v) => { v.insert(d); }
        std::collections::btree_map::Entry::Occupied(mut o) => { let s = o.get().add(&d); if s.is_zero() { o.remove(); } else { *o.get_mut() = s; } }
    }
}
fn padd(a: &Poly, b: &Poly) -> Poly { let (mut r, s) = if a.len() >= b.len() { (a.clone(), b) } else { (b.clone(), a) }; for (m, d) in s { addto(&mut r, m.clone(), d.clone()); } r }
fn pneg(a: &Poly) -> Poly { a.iter().map(|(m, d)| (m.clone(), d.neg())).collect() }
fn mmul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) { r.push(a[i]); i += 1; }
        else if i >= a.len() || b[j].0 < a[i].0 { r.push(b[j]); j += 1; }
        else { let e = a[i].1 + b[j].1; if e != 0 { r.push((a[i].0, e)); } i += 1; j += 1; }
    }
    r
}
/// Coefficients of trigonometric arguments are identified when they agree to 40 bits.
fn snap(d: &Dy) -> Dy {
    let f = d.to_f();
    if !f.is_finite() || f == 0.0 { return d.clone(); }
    Dy::f(f64::from_bits((f.to_bits() + (1 << 11)) & !0xfff))
}
impl Norm {
    fn late(&self) -> bool { self.deadline.map(|d| std::time::Instant::now() > d).unwrap_or(false) }
    fn atom(&mut self, a: Atom) -> u32 {
        if let Some(&i) = self.aidx.get(&a) { return i; }
        let i = self.atoms.len() as u32;
        self.atoms.push(a.clone());
        self.aidx.insert(a, i);
        i
    }
    fn pid(&mut self, p: &Poly) -> u32 {
        let k: Vec<(Mono, Dy)> = p.iter().map(|(m, d)| (m.clone(), d.clone())).collect();
        if let Some(&i) = self.pidx.get(&k) { return i; }
        let i = self.polys.len() as u32;
        self.polys.push(Rc::new(p.clone()));
        self.pidx.insert(k, i);
        i
    }
    fn mul(&mut self, a: &Poly, b: &Poly) -> R<Poly> {
        if a.len().saturating_mul(b.len()) > 4_000_000 { return Err(Fail); }
        let mut r = Poly::new();
        for (m, d) in a {
            for (n, e) in b { addto(&mut r, mmul(m, n), d.mul(e)); }
            if r.len() > MAXT || self.late() { return Err(Fail); }
        }
        self.reduce(r)
    }
    /// apply sin^2 -> 1-cos^2, sqrt^2 -> p, |p|^2 -> p^2 and user rules
    fn reduce(&mut self, p: Poly) -> R<Poly> {
        let mut p = p;
        let mut rounds = 0;
        loop {
            let mut out = Poly::new();
            let mut hit = false;
            let items: Vec<(Mono, Dy)> = p.into_iter().collect();
            for (m, d) in items {
                let pos = m.iter().position(|(a, e)| match &self.atoms[*a as usize] { Atom::Sin(_) => *e >= 2, Atom::Sqrt(_) | Atom::Abs(_) => *e >= 2 || *e <= -2, Atom::P(_) => *e > 0, _ => *e >= 2 && self.rules.contains_key(a) });
                match pos {
                    None => addto(&mut out, m, d),
                    Some(i) => {
                        hit = true;
                        let (a, e) = m[i];
                        let mut rest = m.clone();
                        let at = self.atoms[a as usize].clone();
                        let step = match at { Atom::P(_) => 1, _ => if e > 0 { 2 } else { -2 } };
                        rest[i].1 -= step;
                        if rest[i].1 == 0 { rest.remove(i); }
                        let mut base = Poly::new();
                        base.insert(rest, d);
                        let rep: Poly = match at {
                            Atom::Sin(q) => { let c = self.atom(Atom::Cos(q)); let mut r = pconst(Dy::one()); addto(&mut r, vec![(c, 2)], Dy::one().neg()); r }
                            Atom::Sqrt(q) => { let q = (*self.polys[q as usize]).clone(); if step > 0 { q } else { self.inv(&q)? } }
                            Atom::Abs(q) => { let q = (*self.polys[q as usize]).clone(); let s = self.mul(&q, &q)?; if step > 0 { s } else { self.inv(&s)? } }
                            Atom::P(q) => (*self.polys[q as usize]).clone(),
                            _ => (*self.rules[&a]).clone(),
                        };
                        for (m1, d1) in &base { for (m2, d2) in &rep { addto(&mut out, mmul(m1, m2), d1.mul(d2)); } }
                    }
                }
                if out.len() > MAXT || self.late() { return Err(Fail); }
            }
            p = out;
            if !hit { return Ok(p); }
            rounds += 1;
            if rounds > 400 { return Err(Fail); }
        }
    }
    fn pow(&mut self, p: &Poly, k: u32) -> R<Poly> { let mut r = pconst(Dy::one()); for _ in 0..k { r = self.mul(&r, p)?; } Ok(r) }
    /// p = content * common monomial * primitive (leading coefficient positive)
    fn split(&mut self, p: &Poly) -> (Dy, Mono, Poly) {
        let mut g = BigInt::zero();
        let mut l = BigInt::one();
        for d in p.values() { g = g.gcd(&d.n); if !d.d.is_one() { l = l.lcm(&d.d); } }
        let mut com: Option<BTreeMap<u32, i32>> = None;
        for m in p.keys() {
            let cur: BTreeMap<u32, i32> = m.iter().copied().collect();
            com = Some(match com {
                None => cur,
                Some(o) => { let mut r = BTreeMap::new(); for k in o.keys().chain(cur.keys()) { let v = (*o.get(k).unwrap_or(&0)).min(*cur.get(k).unwrap_or(&0)); if v != 0 { r.insert(*k, v); } } r }
            });
        }
        let com: Mono = com.unwrap_or_default().into_iter().collect();
        let lead_neg = p.values().next_back().map(|d| d.negative()).unwrap_or(false);
        let c = Dy::new(if lead_neg { -g.clone() } else { g.clone() }, l);
        let ci = c.inv();
        let invm: Mono = com.iter().map(|(a, k)| (*a, -k)).collect();
        let q: Poly = p.iter().map(|(m, d)| (mmul(m, &invm), d.mul(&ci))).collect();
        (c, com, q)
    }
    fn inv(&mut self, p: &Poly) -> R<Poly> {
        if p.is_empty() { return Err(Fail); }
        let (c, com, q) = self.split(p);
        let mut m: Mono = com.iter().map(|(a, k)| (*a, -k)).collect();
        let one = q.len() == 1 && q.get(&vec![]).map(|d| *d == Dy::one()).unwrap_or(false);
        if !one { let id = self.pid(&q); let a = self.atom(Atom::P(id)); m = mmul(&m, &vec![(a, -1)]); }
        let mut r = Poly::new();
        r.insert(m, c.inv());
        self.reduce(r)
    }
    fn sqrt(&mut self, p: &Poly) -> R<Poly> {
        if p.is_empty() { return Ok(Poly::new()); }
        let (c, com, q) = self.split(p);
        let mut out = pconst(Dy::one());
        let mut rest = q.clone();
        // even part of the common monomial comes out as |.|
        let mut rem: Mono = vec![];
        for (a, k) in com {
            let h = k.div_euclid(2);
            if h != 0 {
                let mut ap = Poly::new();
                ap.insert(vec![(a, 1)], Dy::one());
                let ab = self.abs(&ap)?;
                let f = if h > 0 { self.pow(&ab, h as u32)? } else { let q = self.pow(&ab, (-h) as u32)?; self.inv(&q)? };
                out = self.mul(&out, &f)?;
            }
            if k.rem_euclid(2) == 1 { rem.push((a, 1)); }
        }
        // sqrt(n/d) = sqrt(n*d)/d
        let mut keep = &c.n * &c.d;
        out = self.mul(&out, &pconst(Dy::new(BigInt::one(), c.d.clone())))?;
        if keep.is_positive() {
            let s = keep.sqrt();
            if &s * &s == keep { out = self.mul(&out, &pconst(Dy::int(s)))?; keep = BigInt::one(); }
            else { for f in [2u32, 3, 5, 7, 11, 13] { let ff = BigInt::from(f * f); while (&keep % &ff).is_zero() { keep = keep / &ff; out = self.mul(&out, &pconst(Dy::int(BigInt::from(f))))?; } } }
        }
        let mut rm = Poly::new();
        rm.insert(rem, Dy::int(keep));
        rest = self.mul(&rest, &rm)?;
        if rest.len() == 1 && rest.get(&vec![]).map(|d| *d == Dy::one()).unwrap_or(false) { return Ok(out); }
        if let Some(r) = self.root(&rest)? { let r = self.abs(&r)?; return self.mul(&out, &r); }
        let id = self.pid(&rest);
        let a = self.atom(Atom::Sqrt(id));
        let mut r = Poly::new();
        r.insert(vec![(a, 1)], Dy::one());
        self.mul(&out, &r)
    }
    /// The polynomial whose square is `p`, found from the leading term down and confirmed by squaring.
    fn root(&mut self, p: &Poly) -> R<Option<Poly>> {
        if p.len() < 3 || p.len() > 80 || p.keys().any(|m| m.iter().any(|(_, e)| *e < 0)) { return Ok(None); }
        fn cmp(a: &Mono, b: &Mono) -> std::cmp::Ordering {
            let (mut i, mut j) = (a.iter().rev().peekable(), b.iter().rev().peekable());
            loop {
                match (i.next(), j.next()) {
                    (None, None) => return std::cmp::Ordering::Equal,
                    (Some(_), None) => return std::cmp::Ordering::Greater,
                    (None, Some(_)) => return std::cmp::Ordering::Less,
                    (Some(x), Some(y)) => { let c = x.0.cmp(&y.0).then(x.1.cmp(&y.1)); if c.is_ne() { return c; } }
                }
            }
        }
        let lead = |p: &Poly| p.iter().max_by(|a, b| cmp(a.0, b.0)).map(|(m, d)| (m.clone(), d.clone()));
        let (m, d) = lead(p).unwrap();
        if d.negative() || m.iter().any(|(_, e)| e % 2 != 0) { return Ok(None); }
        let (n, q) = (d.n.sqrt(), d.d.sqrt());
        if &n * &n != d.n || &q * &q != d.d { return Ok(None); }
        let (m0, d0) = (m.iter().map(|(a, e)| (*a, e / 2)).collect::<Mono>(), Dy::new(n, q));
        let inv2 = d0.mul(&Dy::int(BigInt::from(2))).inv();
        let minv: Mono = m0.iter().map(|(a, e)| (*a, -e)).collect();
        let mut r = Poly::new();
        r.insert(m0, d0);
        for _ in 0..40 {
            let sq = self.mul(&r, &r)?;
            let rem = padd(p, &pneg(&sq));
            if rem.is_empty() { return Ok(Some(r)); }
            let (m, d) = lead(&rem).unwrap();
            let t = mmul(&m, &minv);
            if t.iter().any(|(_, e)| *e < 0) || r.contains_key(&t) { return Ok(None); }
            r.insert(t, d.mul(&inv2));
        }
        Ok(None)
    }
    fn nonneg_atom(&self, a: u32) -> bool { matches!(self.atoms[a as usize], Atom::Sqrt(_) | Atom::Abs(_)) || self.bounds.get(&a).map(|b| b.0 >= 0.0).unwrap_or(false) || match &self.atoms[a as usize] { Atom::P(q) => self.sos(&self.polys[*q as usize].clone()), _ => false } }
    /// every monomial is non-negative
    fn sos(&self, p: &Poly) -> bool { p.iter().all(|(m, d)| !d.negative() && m.iter().all(|(a, e)| e % 2 == 0 || self.nonneg_atom(*a))) }
    fn abs(&mut self, p: &Poly) -> R<Poly> {
        if !self.bounds.is_empty() || !self.signs.is_empty() { self.taint = true; }
        if self.sos(p) { return Ok(p.clone()); }
        if self.sos(&pneg(p)) { return Ok(pneg(p)); }
        let (lo, hi) = self.range(p);
        if lo >= 0.0 { return Ok(p.clone()); }
        if hi <= 0.0 { return Ok(pneg(p)); }
        match self.sign(p) { 1 | 3 => return Ok(pneg(p)), 2 => return Ok(Poly::new()), 4 | 6 => return Ok(p.clone()), _ => {} }
        let (c, com, q) = self.split(p);
        // |x*y| = |x||y| for the common monomial
        let mut out = pconst(c.abs());
        for (a, k) in com {
            let one = Dy::one();
            let mut ap = Poly::new();
            let pos = match self.atoms[a as usize].clone() { Atom::P(q) => { let q = (*self.polys[q as usize]).clone(); self.sign(&q) & 1 == 0 } _ => false };
            let f = if k % 2 == 0 || pos || self.nonneg_atom(a) { ap.insert(vec![(a, k)], one); ap } else { ap.insert(vec![(a, 1)], one); let id = self.pid(&ap); let at = self.atom(Atom::Abs(id)); let mut r = Poly::new(); r.insert(vec![(at, k)], Dy::one()); r };
            out = self.mul(&out, &f)?;
        }
        if q.len() == 1 && q.contains_key(&vec![]) { return Ok(out); }
        let id = self.pid(&q);
        let a = self.atom(Atom::Abs(id));
        let mut r = Poly::new();
        r.insert(vec![(a, 1)], Dy::one());
        self.mul(&out, &r)
    }
    fn conv(&mut self, x: &Ctx, e: E) -> R<Rc<Poly>> {
        let rules = !self.rules.is_empty();
        if !rules { if let Some(r) = self.memo.get(&e) { return r.clone().ok_or(Fail); } }
        if let Some(r) = self.memo2.get(&e) { self.taint = true; return r.clone().ok_or(Fail); }
        if self.late() { return Err(Fail); }
        let n = *x.node(e);
        let outer = std::mem::replace(&mut self.taint, false);
        let r: R<Poly> = (|| {
            Ok(match n.op {
                Op::Const => { let v = f64::from_bits(n.k as u64); if !v.is_finite() || n.sort != Sort::F64 { return Err(Fail); } pconst(Dy::f(v)) }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let a = self.conv(x, n.a[0])?;
                    let b = self.conv(x, n.a[1])?;
                    match n.op { Op::FAdd => padd(&a, &b), Op::FSub => padd(&a, &pneg(&b)), Op::FMul => self.mul(&a, &b)?, _ => { let i = self.inv(&b)?; self.mul(&a, &i)? } }
                }
                Op::FNeg => pneg(&*self.conv(x, n.a[0])?),
                Op::FAbs => { let a = self.conv(x, n.a[0])?; self.abs(&a)? }
                Op::FSqrt => { let a = self.conv(x, n.a[0])?; self.sqrt(&a)? }
                Op::FRound => { let a = self.conv(x, n.a[0])?; self.round(n.k as u32, &a) }
                Op::FRem => { let a = self.conv(x, n.a[0])?; let b = self.conv(x, n.a[1])?; let i = self.inv(&b)?; let q = self.mul(&a, &i)?; let t = self.round(2, &q); let bt = self.mul(&b, &t)?; padd(&a, &pneg(&bt)) }
                Op::Ite => match { self.taint = true; self.decided(x, n.a[0]) } {
                    Some(true) => (*self.conv(x, n.a[1])?).clone(),
                    Some(false) => (*self.conv(x, n.a[2])?).clone(),
                    None => { if !self.open.contains(&n.a[0]) { self.open.push(n.a[0]); } let a = self.atom(Atom::FnIte(e)); let mut p = Poly::new(); p.insert(vec![(a, 1)], Dy::one()); p }
                },
                Op::Uf => {
                    let (name, ar) = (x.ufs[n.k as usize].0.clone(), x.ufs[n.k as usize].1);
                    if (name == "sin" || name == "cos") && ar == 1 {
                        let a = self.conv(x, n.a[0])?;
                        let (s, c) = self.sincos(x, &a, 0)?;
                        if name == "sin" { s } else { c }
                    } else {
                        let mut ids = vec![];
                        for i in 0..ar { let a = self.conv(x, n.a[i])?; ids.push(self.pid(&a)); }
                        let a = self.atom(Atom::Fn(n.k as u32, ids));
                        let mut p = Poly::new();
                        p.insert(vec![(a, 1)], Dy::one());
                        p
                    }
                }
                _ => { if n.sort != Sort::F64 { return Err(Fail); } let a = self.atom(Atom::Node(e)); let mut p = Poly::new(); p.insert(vec![(a, 1)], Dy::one()); p }
            })
        })();
        let r = match r { Ok(p) if p.len() <= MAXT => Some(Rc::new(p)), _ => None };
        if self.taint || rules { self.memo2.insert(e, r.clone()); } else { self.memo.insert(e, r.clone()); }
        self.taint |= outer;
        r.ok_or(Fail)
    }
    fn round(&mut self, k: u32, p: &Poly) -> Poly {
        // integer part of the constant term moves out of floor and ceil
        let c0 = p.get(&vec![]).cloned().unwrap_or_else(|| Dy::int(BigInt::zero()));
        let fl = c0.n.div_floor(&c0.d);
        if p.iter().all(|(m, _)| m.is_empty()) {
            let v = match k { 0 => fl, 1 => -((-&c0.n).div_floor(&c0.d)), 2 => if c0.negative() { -((-&c0.n).div_floor(&c0.d)) } else { fl }, _ => { let t = c0.abs(); let two = BigInt::from(2); let r = (&t.n * &two + &t.d).div_floor(&(&t.d * &two)); if c0.negative() { -r } else { r } } };
            return pconst(Dy::int(v));
        }
        let (mut q, mut out) = (p.clone(), Poly::new());
        if k <= 1 { out = pconst(Dy::int(fl.clone())); addto(&mut q, vec![], Dy::int(-fl)); }
        let id = self.pid(&q);
        let a = self.atom(Atom::Round(k, id));
        addto(&mut out, vec![(a, 1)], Dy::one());
        out
    }
    /// value of a condition on the path, when known
    fn decided(&mut self, x: &Ctx, c: E) -> Option<bool> {
        if let Some(v) = x.cv(c) { return Some(v == 1); }
        if let Some(v) = self.ctx.get(&c) { return Some(*v); }
        if self.busy > 6 { return None; }
        self.busy += 1;
        let n = *x.node(c);
        let r = match n.op {
            Op::Xor if x.cv(n.a[1]) == Some(1) => self.decided(x, n.a[0]).map(|b| !b),
            Op::And => match (self.decided(x, n.a[0]), self.decided(x, n.a[1])) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None },
            Op::Or => match (self.decided(x, n.a[0]), self.decided(x, n.a[1])) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), Some(false)) => Some(false), _ => None },
            Op::FEq | Op::FLt | Op::FLe => match self.diff(x, n.a[1], n.a[0]).and_then(|d| self.clear(&d)) {
                Ok(d) => { let s = self.sign(&d); let t = match n.op { Op::FEq => 2, Op::FLt => 4, _ => 6 }; if s & !t == 0 { Some(true) } else if s & t == 0 { Some(false) } else { None } }
                _ => None,
            },
            _ => None,
        };
        self.busy -= 1;
        r
    }
    /// multiply by even powers (odd ones for non-negative atoms) until no denominator is left: same sign
    fn clear(&mut self, p: &Poly) -> R<Poly> {
        let mut p = p.clone();
        for _ in 0..40 {
            let mut low: BTreeMap<u32, i32> = BTreeMap::new();
            for m in p.keys() { for (a, e) in m { if *e < 0 { let v = low.entry(*a).or_insert(0); *v = (*v).min(*e); } } }
            let Some((&a, &k)) = low.iter().next() else { return Ok(p) };
            let k = if k % 2 != 0 && !self.nonneg_atom(a) { k - 1 } else { k };
            let at = self.atoms[a as usize].clone();
            let mut out = Poly::new();
            match &at {
                Atom::P(q) => {
                    let b = (*self.polys[*q as usize]).clone();
                    let mut groups: BTreeMap<i32, Poly> = BTreeMap::new();
                    for (m, d) in &p { let e = m.iter().find(|t| t.0 == a).map(|t| t.1).unwrap_or(0); let r: Mono = m.iter().copied().filter(|t| t.0 != a).collect(); addto(groups.entry(e).or_default(), r, d.clone()); }
                    for (e, g) in groups { let f = self.pow(&b, (e - k) as u32)?; let t = self.mul(&g, &f)?; out = padd(&out, &t); }
                }
                _ => { for (m, d) in &p { out.insert(mmul(m, &vec![(a, -k)]), d.clone()); } }
            }
            p = self.reduce(out)?;
        }
        Err(Fail)
    }
    /// (positive multiple with unit content and positive leading coefficient, flipped)
    fn prim(&mut self, p: &Poly) -> (u32, bool) {
        let mut g = BigInt::zero();
        let mut l = BigInt::one();
        for d in p.values() { g = g.gcd(&d.n); if !d.d.is_one() { l = l.lcm(&d.d); } }
        let neg = p.values().next_back().map(|d| d.negative()).unwrap_or(false);
        let c = Dy::new(if neg { -g } else { g }, l).inv();
        let q: Poly = p.iter().map(|(m, d)| (m.clone(), d.mul(&c))).collect();
        (self.pid(&q), neg)
    }
    /// possible signs of a denominator-free polynomial
    fn sign(&mut self, p: &Poly) -> u8 {
        if p.is_empty() { return 2; }
        let mut s = 7u8;
        if p.len() == 1 && p.contains_key(&vec![]) { return if p[&vec![]].negative() { 1 } else { 4 }; }
        let (l, h) = self.range(p);
        if l > 0.0 { s &= 4 } else if l >= 0.0 { s &= 6 }
        if h < 0.0 { s &= 1 } else if h <= 0.0 { s &= 3 }
        if self.sos(p) { s &= 6; }
        if self.sos(&pneg(p)) { s &= 3; }
        if s == 7 || s == 6 || s == 3 {
            if p.keys().all(|m| m.iter().all(|t| t.1 > 0)) {
                let (id, neg) = self.prim(p);
                let k = self.signs.get(&id).copied().unwrap_or(7);
                s &= if neg { flip(k) } else { k };
                // sign of a product: common monomial times the rest
                if s != 1 && s != 4 && s != 2 && p.len() > 1 {
                    let (_, com, _) = self.split(p);
                    if !com.is_empty() {
                        let invm: Mono = com.iter().map(|(a, k)| (*a, -k)).collect();
                        let rest: Poly = p.iter().map(|(m, d)| (mmul(m, &invm), d.clone())).collect();
                        let mut t = self.sign(&rest);
                        for (a, k) in com { let mut ap = Poly::new(); ap.insert(vec![(a, 1)], Dy::one()); let sa = self.sign(&ap); if k % 2 != 0 { t = smul(t, sa); } else if sa & 2 != 0 { t |= 2; } }
                        s &= t;
                    }
                }
            }
        }
        s
    }
    /// record the comparison literals of a query; true when they contradict each other
    fn learn(&mut self, x: &Ctx, q: &[E]) -> bool {
        self.lits.clear();
        self.signs.clear();
        let mut q = q.to_vec();
        q.sort_unstable();
        for &c in &q {
            let n = *x.node(c);
            let (e, n, neg) = if n.op == Op::Xor && x.cv(n.a[1]) == Some(1) { (n.a[0], *x.node(n.a[0]), true) } else { (c, n, false) };
            if matches!(n.op, Op::FEq | Op::FLt | Op::FLe) {
                let Ok(d) = self.diff(x, n.a[1], n.a[0]).and_then(|d| self.clear(&d)) else { continue };
                let t: u8 = match n.op { Op::FEq => 2, Op::FLt => 4, _ => 6 };
                let t = if neg { 7 & !t } else { t };
                let s = self.sign(&d) & t;
                if s == 0 { return true; }
                if !d.is_empty() && !(d.len() == 1 && d.contains_key(&vec![])) {
                    let (id, fl) = self.prim(&d);
                    let k = self.signs.get(&id).copied().unwrap_or(7);
                    self.signs.insert(id, k & if fl { flip(s) } else { s });
                    // a*t + b: a bound on t
                    let lin: Vec<(u32, Dy)> = d.iter().filter(|(m, _)| !m.is_empty()).map(|(m, k)| (if m.len() == 1 && m[0].1 == 1 { m[0].0 } else { u32::MAX }, k.clone())).collect();
                    if lin.len() == 1 && lin[0].0 != u32::MAX {
                        let b = d.get(&vec![]).cloned().unwrap_or_else(|| Dy::int(BigInt::zero()));
                        let v = b.neg().mul(&lin[0].1.inv());
                        let (f, up) = (v.to_f(), lin[0].1.negative());
                        let eps = f.abs() * 1e-14;
                        let (fl, fh) = if v.is_zero() { (0.0, 0.0) } else { (f - eps, f + eps) };
                        let e = self.bounds.entry(lin[0].0).or_insert((f64::NEG_INFINITY, f64::INFINITY));
                        if s & 1 == 0 { if up { e.1 = e.1.min(fh) } else { e.0 = e.0.max(fl) } }
                        if s & 4 == 0 { if up { e.0 = e.0.max(fl) } else { e.1 = e.1.min(fh) } }
                    }
                }
                self.lits.insert(e, Rc::new(d));
            }
            self.ctx.insert(e, !neg);
        }
        false
    }
    fn sincos(&mut self, x: &Ctx, p: &Poly, depth: u32) -> R<(Poly, Poly)> {
        if p.is_empty() { return Ok((Poly::new(), pconst(Dy::one()))); }
        if p.len() > 5 {
            // whole turns and the constant term are taken out, the rest stays one angle
            let tau = Dy::f(std::f64::consts::TAU).inv();
            let mut rest: Poly = p.clone();
            let turns: Vec<Mono> = rest.iter().filter(|(m, d)| m.len() == 1 && m[0].1 == 1 && matches!(self.atoms[m[0].0 as usize], Atom::Round(..)) && { let q = d.mul(&tau).to_f(); q != 0.0 && (q - q.round()).abs() < 1e-13 * q.abs() }).map(|(m, _)| m.clone()).collect();
            for m in turns { rest.remove(&m); }
            let c0 = rest.remove(&vec![]);
            if rest.len() > 4 || rest.len() < p.len() {
                let (s, c) = if rest.len() > 4 {
                    let fl = rest.values().next().unwrap().negative();
                    let q: Poly = rest.iter().map(|(m, d)| (m.clone(), snap(&if fl { d.neg() } else { d.clone() }))).collect();
                    let id = self.pid(&q);
                    let (s, c) = (self.atom(Atom::Sin(id)), self.atom(Atom::Cos(id)));
                    let mk = |a| { let mut r = Poly::new(); r.insert(vec![(a, 1)], Dy::one()); r };
                    (if fl { pneg(&mk(s)) } else { mk(s) }, mk(c))
                } else { self.sincos(x, &rest, depth)? };
                let Some(k) = c0 else { return Ok((s, c)) };
                let (s0, c0) = self.sincos_term(x, vec![], k, depth)?;
                let a = self.mul(&s0, &c)?; let b = self.mul(&c0, &s)?; let e = self.mul(&c0, &c)?; let f = self.mul(&s0, &s)?;
                return Ok((padd(&a, &b), padd(&e, &pneg(&f))));
            }
        }
        let mut acc: Option<(Poly, Poly)> = None;
        for (m, d) in p.clone() {
            let (s, c) = self.sincos_term(x, m, d, depth)?;
            acc = Some(match acc {
                None => (s, c),
                Some((s0, c0)) => { let a = self.mul(&s0, &c)?; let b = self.mul(&c0, &s)?; let e = self.mul(&c0, &c)?; let f = self.mul(&s0, &s)?; (padd(&a, &b), padd(&e, &pneg(&f))) }
            });
        }
        Ok(acc.unwrap())
    }
    fn sincos_term(&mut self, x: &Ctx, m: Mono, d: Dy, depth: u32) -> R<(Poly, Poly)> {
        if d.negative() { let (s, c) = self.sincos_term(x, m, d.neg(), depth)?; return Ok((pneg(&s), c)); }
        if m.is_empty() {
            // reduce modulo pi/2
            let hp = Dy::f(std::f64::consts::FRAC_PI_2);
            let q = d.mul(&hp.inv());
            let two = BigInt::from(2);
            let k: BigInt = (&q.n * &two + &q.d).div_floor(&(&q.d * &two));
            let r = d.add(&hp.mul(&Dy::int(k.clone())).neg());
            let sc: BigInt = BigInt::one() << 40usize;
            let rr = r.mul(&Dy::int(sc.clone()));
            let ri: BigInt = (&rr.n * &two + &rr.d).div_floor(&(&rr.d * &two));
            let r = Dy::new(ri, sc);
            let k = k.mod_floor(&BigInt::from(4)).to_i64().unwrap();
            let (s, c) = if r.is_zero() { (Poly::new(), pconst(Dy::one())) } else {
                let fl = r.negative();
                let mut t = Poly::new();
                t.insert(vec![], if fl { r.neg() } else { r });
                let id = self.pid(&t);
                let (s, c) = (self.atom(Atom::Sin(id)), self.atom(Atom::Cos(id)));
                let mk = |a| { let mut r = Poly::new(); r.insert(vec![(a, 1)], Dy::one()); r };
                (if fl { pneg(&mk(s)) } else { mk(s) }, mk(c))
            };
            return Ok(match k { 0 => (s, c), 1 => (c, pneg(&s)), 2 => (pneg(&s), pneg(&c)), _ => (pneg(&c), s) });
        }
        // whole turns
        if m.len() == 1 && m[0].1 == 1 && matches!(self.atoms[m[0].0 as usize], Atom::Round(..)) {
            let q = d.mul(&Dy::f(std::f64::consts::TAU).inv()).to_f();
            if q != 0.0 && (q - q.round()).abs() < 1e-13 * q.abs() { return Ok((Poly::new(), pconst(Dy::one()))); }
        }
        // a choice between angles that differ by whole turns
        if m.len() == 1 && m[0].1 == 1 && depth < 4 {
            if let Atom::FnIte(e) = self.atoms[m[0].0 as usize] {
                let n = *x.node(e);
                let (a, b) = (self.conv(x, n.a[1])?, self.conv(x, n.a[2])?);
                let df = padd(&a, &pneg(&b));
                if df.keys().all(|k| k.is_empty()) {
                    let q = df.get(&vec![]).map(|c| c.mul(&d).mul(&Dy::f(std::f64::consts::TAU).inv()).to_f()).unwrap_or(0.0);
                    if (q - q.round()).abs() < 1e-13 * q.abs() + 1e-300 { let t: Poly = b.iter().map(|(m, c)| (m.clone(), c.mul(&d))).collect(); return self.sincos(x, &t, depth + 1); }
                }
            }
        }
        let d = snap(&d);
        // inverse functions under an integer multiple
        if m.len() == 1 && m[0].1 == 1 && d.d.is_one() && d.n.bits() <= 3 && depth < 4 {
            let k = d.n.to_i64().unwrap();
            let base = match self.atoms[m[0].0 as usize].clone() {
                Atom::Fn(f, ids) => {
                    let g = |me: &Norm, i: usize| (*me.polys[ids[i] as usize]).clone();
                    match x.ufs[f as usize].0.as_str() {
                        "atan2" => {
                            let (y, xx) = (g(self, 0), g(self, 1));
                            let yy = self.mul(&y, &y)?; let x2 = self.mul(&xx, &xx)?;
                            let r = self.sqrt(&padd(&yy, &x2))?;
                            let i = self.inv(&r)?;
                            Some((self.mul(&y, &i)?, self.mul(&xx, &i)?))
                        }
                        "asin" => { let z = g(self, 0); let zz = self.mul(&z, &z)?; let c = self.sqrt(&padd(&pconst(Dy::one()), &pneg(&zz)))?; Some((z, c)) }
                        "acos" => { let z = g(self, 0); let zz = self.mul(&z, &z)?; let s = self.sqrt(&padd(&pconst(Dy::one()), &pneg(&zz)))?; Some((s, z)) }
                        _ => None,
                    }
                }
                _ => None,
            };
            let (s1, c1) = match base { Some(b) => b, None => { let mut t = Poly::new(); t.insert(m.clone(), Dy::one()); let id = self.pid(&t); let (s, c) = (self.atom(Atom::Sin(id)), self.atom(Atom::Cos(id))); let mk = |a| { let mut r = Poly::new(); r.insert(vec![(a, 1)], Dy::one()); r }; (mk(s), mk(c)) } };
            let (mut s, mut c) = (s1.clone(), c1.clone());
            for _ in 1..k { let a = self.mul(&s, &c1)?; let b = self.mul(&c, &s1)?; let e = self.mul(&c, &c1)?; let f = self.mul(&s, &s1)?; s = padd(&a, &b); c = padd(&e, &pneg(&f)); }
            return Ok((s, c));
        }
        let mut t = Poly::new();
        t.insert(m, d);
        let id = self.pid(&t);
        let (s, c) = (self.atom(Atom::Sin(id)), self.atom(Atom::Cos(id)));
        let mk = |a| { let mut r = Poly::new(); r.insert(vec![(a, 1)], Dy::one()); r };
        Ok((mk(s), mk(c)))
    }
    /// identically zero once denominators are cleared
    fn is_zero(&mut self, p: &Poly) -> R<bool> {
        let mut p = p.clone();
        for _ in 0..40 {
            if p.is_empty() { return Ok(true); }
            let mut low: BTreeMap<u32, i32> = BTreeMap::new();
            for m in p.keys() { for (a, e) in m { if *e < 0 { let v = low.entry(*a).or_insert(0); *v = (*v).min(*e); } } }
            let Some((&a, &k)) = low.iter().next() else { return Ok(false) };
            let at = self.atoms[a as usize].clone();
            let mut out = Poly::new();
            let base: Option<Poly> = match &at { Atom::P(q) => Some((*self.polys[*q as usize]).clone()), _ => None };
            match base {
                None => { for (m, d) in &p { out.insert(mmul(m, &vec![(a, -k)]), d.clone()); } }
                Some(b) => {
                    let mut groups: BTreeMap<i32, Poly> = BTreeMap::new();
                    for (m, d) in &p { let e = m.iter().find(|t| t.0 == a).map(|t| t.1).unwrap_or(0); let r: Mono = m.iter().copied().filter(|t| t.0 != a).collect(); addto(groups.entry(e).or_default(), r, d.clone()); }
                    for (e, g) in groups { let f = self.pow(&b, (e - k) as u32)?; let t = self.mul(&g, &f)?; out = padd(&out, &t); }
                }
            }
            p = self.reduce(out)?;
        }
        Err(Fail)
    }
    fn arange(&mut self, a: u32, depth: u32) -> (f64, f64) {
        let inf = f64::INFINITY;
        let b = self.bounds.get(&a).copied().unwrap_or((-inf, inf));
        if depth == 0 { return b; }
        let r = match self.atoms[a as usize].clone() {
            Atom::Sin(_) | Atom::Cos(_) => (-1.0, 1.0),
            Atom::Sqrt(q) => { let q = self.polys[q as usize].clone(); let (mut l, mut h) = self.range_d(&q, depth - 1); if l <= 0.0 { if let Some((a, b)) = self.uni(&q) { l = l.max(a); h = h.min(b); } } (l.max(0.0).sqrt() * (1.0 - 1e-12), if h == 1.0 || h <= 0.0 { h.max(0.0) } else { h.max(0.0).sqrt() * (1.0 + 1e-12) }) }
            Atom::Abs(q) => { let q = self.polys[q as usize].clone(); let (l, h) = self.range_d(&q, depth - 1); (0.0, l.abs().max(h.abs())) }
            Atom::P(q) => { let q = self.polys[q as usize].clone(); let r = self.range_d(&q, depth - 1); if r.0 <= 0.0 && r.1 >= 0.0 { if let Some((l, h)) = self.uni(&q) { (r.0.max(l), r.1.min(h)) } else { r } } else { r } }
            _ => (-inf, inf),
        };
        (r.0.max(b.0), r.1.min(b.1))
    }
    /// Coefficients of a polynomial in one atom, each with the sum of the sizes that went into it.
    fn uni_coef(&self, p: &Poly, at: &mut Option<u32>, depth: u32) -> Option<Vec<(f64, f64)>> {
        let mut out: Vec<(f64, f64)> = vec![(0.0, 0.0)];
        let mulv = |a: &[(f64, f64)], b: &[(f64, f64)]| { let mut r = vec![(0.0, 0.0); a.len() + b.len() - 1]; for (i, x) in a.iter().enumerate() { for (j, y) in b.iter().enumerate() { r[i + j].0 += x.0 * y.0; r[i + j].1 += x.1 * y.1; } } r };
        for (m, d) in p {
            let k = d.to_f();
            let mut t = vec![(k, k.abs())];
            for (a, e) in m {
                if *e < 0 { return None; }
                let f = if let Atom::P(q) = self.atoms[*a as usize] { if depth == 0 { return None; } let q = self.polys[q as usize].clone(); self.uni_coef(&q, at, depth - 1)? }
                    else { if at.is_some_and(|x| x != *a) { return None; } *at = Some(*a); vec![(0.0, 0.0), (1.0, 1.0)] };
                for _ in 0..*e { t = mulv(&t, &f); if t.len() > 65 { return None; } }
            }
            if out.len() < t.len() { out.resize(t.len(), (0.0, 0.0)); }
            for (o, v) in out.iter_mut().zip(&t) { o.0 += v.0; o.1 += v.1; }
        }
        Some(out)
    }
    /// Range of a polynomial in one bounded atom, by subdivision.
    fn uni(&self, p: &Poly) -> Option<(f64, f64)> {
        let mut at = None;
        let c = self.uni_coef(p, &mut at, 6)?;
        let (a, b) = *self.bounds.get(&at?)?;
        if !(a.is_finite() && b.is_finite() && a < b) { return None; }
        let mag = a.abs().max(b.abs());
        // everything that rounding can do to a value
        let eps: f64 = c.iter().enumerate().map(|(k, v)| v.1 * mag.powi(k as i32)).sum::<f64>() * 1e-12;
        if !eps.is_finite() { return None; }
        let c: Vec<f64> = c.iter().map(|v| v.0).collect();
        const N: usize = 512;
        let (mut lo, mut hi) = (f64::INFINITY, -f64::INFINITY);
        for i in 0..N {
            let (x, y) = (a + (b - a) * i as f64 / N as f64, a + (b - a) * (i + 1) as f64 / N as f64);
            // Taylor form about the middle
            let (mid, rad) = (0.5 * (x + y), 0.5 * (y - x) * (1.0 + 1e-9));
            let mut t = c.clone();
            let n = t.len();
            for j in 0..n { for k in (j..n - 1).rev() { t[k] += mid * t[k + 1]; } }
            let w: f64 = (1..n).map(|k| t[k].abs() * rad.powi(k as i32)).sum::<f64>();
            lo = lo.min(t[0] - w - eps);
            hi = hi.max(t[0] + w + eps);
        }
        Some((lo, hi))
    }
    fn range(&mut self, p: &Poly) -> (f64, f64) {
        let r = self.range_d(p, 4);
        if r.0 <= 0.0 && r.1 >= 0.0 { if let Some((l, h)) = self.uni(p) { return (r.0.max(l), r.1.min(h)); } }
        // functions of constants: replaced by their values, which lets terms cancel
        let mut vals: HashMap<u32, f64> = HashMap::new();
        for m in p.keys() { for (a, _) in m { if !vals.contains_key(a) { if let Some(v) = self.constant(*a) { vals.insert(*a, v); } } } }
        if vals.is_empty() { return r; }
        let (mut q, mut err) = (Poly::new(), 0.0f64);
        for (m, d) in p {
            let mut k = d.clone();
            let mut rest: Mono = vec![];
            let mut hit = false;
            for (a, e) in m { match vals.get(a) { Some(v) if v.is_normal() => { hit = true; let b = Dy::f(*v); let b = if *e < 0 { b.inv() } else { b }; for _ in 0..e.unsigned_abs() { k = k.mul(&b); } } _ => rest.push((*a, *e)) } }
            if hit { let mut one = Poly::new(); one.insert(rest.clone(), k.clone()); let (l, h) = self.range_d(&one, 4); err += l.abs().max(h.abs()) * 1e-13; }
            let t = q.remove(&rest).map(|o| o.add(&k)).unwrap_or(k);
            if !t.is_zero() { q.insert(rest, t); }
        }
        let (l, h) = self.range_d(&q, 4);
        if !(err.is_finite() && l <= h) { return r; }
        (r.0.max(l - err), r.1.min(h + err))
    }
    /// The value of an atom whose argument is a constant, to a relative error well below 1e-14.
    fn constant(&self, a: u32) -> Option<f64> {
        let arg = |q: u32| { let q = &self.polys[q as usize]; if q.len() == 1 { q.get(&vec![]).map(|d| d.to_f()) } else { None } };
        match self.atoms[a as usize] { Atom::Sin(q) => arg(q).map(f64::sin), Atom::Cos(q) => arg(q).map(f64::cos), Atom::Sqrt(q) => arg(q).filter(|v| *v >= 0.0).map(f64::sqrt), _ => None }
    }
    fn range_d(&mut self, p: &Poly, depth: u32) -> (f64, f64) {
        let (mut lo, mut hi) = (0.0f64, 0.0f64);
        let small = |v: f64| v.abs() <= 1048576.0 && (v * 1024.0).fract() == 0.0;
        for (m, d) in p {
            let c = d.to_f();
            // small dyadic coefficients over atoms bounded by -1, 0 or 1 need no rounding margin
            let mut exact = small(c) && p.len() < 1024 && Dy::f(c) == *d;
            let (mut l, mut h) = if exact { (c, c) } else { (c - c.abs() * 1e-12, c + c.abs() * 1e-12) };
            for (a, e) in m {
                let (al, ah) = self.arange(*a, depth);
                let (mut pl, mut ph) = if *e < 0 { if al > 0.0 { (1.0 / ah, 1.0 / al) } else if ah < 0.0 { (1.0 / ah, 1.0 / al) } else { return (-f64::INFINITY, f64::INFINITY) } } else { (al, ah) };
                if exact && !([-1.0, 0.0, 1.0].contains(&pl) && [-1.0, 0.0, 1.0].contains(&ph)) { exact = false; }
                let k = e.unsigned_abs();
                if k > 1 {
                    let (x, y) = (pl.abs().powi(k as i32), ph.abs().powi(k as i32));
                    if k % 2 == 0 { let z = if pl <= 0.0 && ph >= 0.0 { 0.0 } else { x.min(y) }; (pl, ph) = (z, x.max(y)); } else { (pl, ph) = (pl.signum() * x, ph.signum() * y); }
                }
                let c4 = [l * pl, l * ph, h * pl, h * ph].map(|v| if v.is_nan() { 0.0 } else { v });
                l = c4.iter().cloned().fold(f64::INFINITY, f64::min);
                h = c4.iter().cloned().fold(-f64::INFINITY, f64::max);
            }
            let w = if exact && small(lo) && small(hi) { 0.0 } else { (l.abs().max(h.abs()) + lo.abs().max(hi.abs())) * 1e-12 + f64::MIN_POSITIVE };
            lo += l - w;
            hi += h + w;
        }
        if lo.is_nan() || hi.is_nan() { return (-f64::INFINITY, f64::INFINITY); }
        // exact zero stays exact
        if p.is_empty() { (0.0, 0.0) } else { (lo, hi) }
    }
    fn diff(&mut self, x: &Ctx, a: E, b: E) -> R<Poly> { let (p, q) = (self.conv(x, a)?, self.conv(x, b)?); Ok(padd(&p, &pneg(&q))) }
    fn is_false(&mut self, x: &Ctx, c: E, pol: bool) -> bool {
        if let Some(v) = x.cv(c) { return (v == 1) != pol; }
        if let Some(v) = self.ctx.get(&c) { return *v != pol; }
        self.is_false_top(x, c, pol)
    }
    fn is_false_top(&mut self, x: &Ctx, c: E, pol: bool) -> bool {
        if let Some(v) = x.cv(c) { return (v == 1) != pol; }
        let n = *x.node(c);
        match n.op {
            Op::Xor if x.cv(n.a[1]) == Some(1) => self.is_false_top(x, n.a[0], !pol),
            Op::And => if pol { self.is_false(x, n.a[0], true) || self.is_false(x, n.a[1], true) } else { self.is_false(x, n.a[0], false) && self.is_false(x, n.a[1], false) },
            Op::Or => if pol { self.is_false(x, n.a[0], true) && self.is_false(x, n.a[1], true) } else { self.is_false(x, n.a[0], false) || self.is_false(x, n.a[1], false) },
            Op::Ite if n.sort == Sort::B(1) => match self.ctx.get(&n.a[0]) { Some(true) => self.is_false(x, n.a[1], pol), Some(false) => self.is_false(x, n.a[2], pol), None => { if !self.open.contains(&n.a[0]) { self.open.push(n.a[0]); } self.is_false(x, n.a[1], pol) && self.is_false(x, n.a[2], pol) } },
            Op::FEq | Op::FLt | Op::FLe => {
                let Ok(d) = self.diff(x, n.a[1], n.a[0]) else { return false };
                let zero = self.is_zero(&d).unwrap_or(false);
                match (n.op, pol) {
                    (Op::FEq, false) => zero,
                    (Op::FEq, true) => { let (l, h) = self.range(&d); !zero && (l > 0.0 || h < 0.0) }
                    (Op::FLt, true) => zero || self.sos(&pneg(&d)) || self.range(&d).1 <= 0.0, // b-a > 0 impossible
                    (Op::FLt, false) => !zero && self.range(&d).0 > 0.0,
                    (Op::FLe, true) => !zero && self.range(&d).1 < 0.0,
                    _ => zero || self.sos(&d) || self.range(&d).0 >= 0.0,
                }
            }
            _ => false,
        }
    }
    fn collect_bounds(&mut self, x: &Ctx, q: &[E]) {
        self.bounds.clear();
        for &c in q {
            let n = *x.node(c);
            let (n, neg) = if n.op == Op::Xor && x.cv(n.a[1]) == Some(1) { (*x.node(n.a[0]), true) } else { (n, false) };
            if !matches!(n.op, Op::FLt | Op::FLe | Op::FEq) || (neg && n.op == Op::FEq) { continue; }
            let f = |e: E| x.cv(e).map(|v| f64::from_bits(v as u64));
            let (sym, v, sym_left) = match (f(n.a[0]), f(n.a[1])) { (None, Some(v)) => (n.a[0], v, true), (Some(v), None) => (n.a[1], v, false), _ => continue };
            let sn = *x.node(sym);
            let (atomn, absd) = if sn.op == Op::FAbs { (sn.a[0], true) } else { (sym, false) };
            if !matches!(x.node(atomn).op, Op::Sym | Op::Uf) { continue; }
            let Ok(p) = self.conv(x, atomn) else { continue };
            if p.len() != 1 { continue; }
            let (m, d) = p.iter().next().unwrap();
            if m.len() != 1 || m[0].1 != 1 || *d != Dy::one() { continue; }
            let b = self.bounds.entry(m[0].0).or_insert((f64::NEG_INFINITY, f64::INFINITY));
            let upper = sym_left != neg;
            if n.op == Op::FEq { b.0 = b.0.max(v); b.1 = b.1.min(v); }
            else if upper { b.1 = b.1.min(v); if absd { b.0 = b.0.max(-v); } }
            else if !absd { b.0 = b.0.max(v); }
        }
    }
    /// rules t^2 -> rest from equations in the path condition
    fn collect_rules(&mut self, x: &Ctx, q: &[E]) -> bool {
        let mut any = false;
        for &c in q {
            let n = *x.node(c);
            if n.op != Op::FEq { continue; }
            let Ok(d) = self.diff(x, n.a[0], n.a[1]) else { continue };
            let d = match self.reduce(d) { Ok(d) => d, _ => continue };
            // highest atom with a pure square and unit coefficient
            let mut best = None;
            for (m, k) in &d { if m.len() == 1 && m[0].1 == 2 && k.abs().is_one() && matches!(self.atoms[m[0].0 as usize], Atom::Node(_)) && !self.rules.contains_key(&m[0].0) && best.map(|b: u32| b < m[0].0).unwrap_or(true) { best = Some(m[0].0); } }
            if let Some(a) = best {
                let k = d[&vec![(a, 2)]].clone();
                // the remaining terms must not mention a
                if d.iter().any(|(m, _)| m.iter().any(|t| t.0 == a) && *m != vec![(a, 2)]) { continue; }
                let inv = k.inv().neg();
                let rest: Poly = d.iter().filter(|(m, _)| **m != vec![(a, 2)]).map(|(m, v)| (m.clone(), v.mul(&inv))).collect();
                self.rules.insert(a, Rc::new(rest));
                any = true;
            }
        }
        any
    }
    fn try_refute(&mut self, x: &Ctx, q: &[E], depth: u32) -> bool {
        self.open.clear();
        for &c in q.iter().rev() { if self.is_false_top(x, c, true) { return true; } if self.late() { return false; } }
        if depth == 0 { return false; }
        let open = self.open.clone();
        // split on an undecided condition that contains no further undecided ite
        let Some(&c) = open.last() else { return false };
        for v in [true, false] {
            let saved = self.ctx.clone();
            let memo = std::mem::take(&mut self.memo2);
            // the condition itself may be impossible
            let imp = self.is_false(x, c, v);
            self.ctx.insert(c, v);
            self.memo2.clear();
            let r = imp || self.try_refute(x, q, depth - 1);
            self.ctx = saved;
            self.memo2 = memo;
            if !r { return false; }
        }
        true
    }
    fn show_atom(&self, a: u32, d: u32) -> String {
        let sp = |q: u32| if d > 3 { format!("#{q}") } else { self.show_poly(&self.polys[q as usize], d + 1) };
        match &self.atoms[a as usize] {
            Atom::Node(e) => format!("n{e}"), Atom::Sin(q) => format!("sin({})", sp(*q)), Atom::Cos(q) => format!("cos({})", sp(*q)), Atom::Sqrt(q) => format!("sqrt({})", sp(*q)), Atom::Abs(q) => format!("abs({})", sp(*q)), Atom::P(q) => format!("[{}]", sp(*q)),
            Atom::Fn(f, v) => format!("f{f}({})", v.iter().map(|q| sp(*q)).collect::<Vec<_>>().join(", ")), Atom::FnIte(e) => format!("ite{e}"), Atom::Round(k, q) => format!("round{k}({})", sp(*q)),
        }
    }
    fn show_poly(&self, p: &Poly, d: u32) -> String {
        let mut v: Vec<_> = p.iter().collect();
        v.sort_by(|a, b| b.1.to_f().abs().partial_cmp(&a.1.to_f().abs()).unwrap());
        let mut o = format!("{} terms: ", v.len());
        if d > 0 { o.clear(); }
        for (m, k) in v.iter().take(8) { o += &format!("{:+e}{} ", k.to_f(), m.iter().map(|(a, e)| format!("*{}^{e}", self.show_atom(*a, d))).collect::<String>()); }
        o
    }
    fn show_fail(&mut self, x: &Ctx, e: E, depth: u32) {
        if depth > 200 { return; }
        let n = *x.node(e);
        for i in 0..n.a.len() { self.deadline = Some(std::time::Instant::now() + std::time::Duration::from_secs(3)); if n.a[i] != u32::MAX && x.node(n.a[i]).sort == Sort::F64 && self.conv(x, n.a[i]).is_err() { self.show_fail(x, n.a[i], depth + 1); return; } }
        let ps: Vec<String> = (0..n.a.len()).filter(|i| n.a[*i] != u32::MAX).map(|i| self.conv(x, n.a[i]).map(|p| { let mut s = self.show_poly(&p, 0); s.truncate(1500); format!("[{}] {s}", p.len()) }).unwrap_or_default()).collect();
        let t = std::time::Instant::now();
        self.memo.remove(&e); self.memo2.remove(&e);
        self.deadline = Some(t + std::time::Duration::from_secs(5));
        let r = self.conv(x, e).map(|p| p.len()).ok();
        eprintln!("   fails: {:?} k={} -> {r:?} in {:?} {}", n.op, n.k, t.elapsed(), ps.join("\n      "));
    }
    fn show_cond(&mut self, x: &Ctx, c: E, depth: u32) {
        let n = *x.node(c);
        if matches!(n.op, Op::FEq | Op::FLt | Op::FLe) {
            match self.diff(x, n.a[0], n.a[1]) { Ok(p) => { let r = self.range(&p); eprintln!("{:?} range {r:?} {}", n.op, self.show_poly(&p, 0)) } _ => { eprintln!("{:?} no normal form", n.op); self.show_fail(x, c, 0); } }
        } else if depth < 5 { for i in 0..n.a.len() { if n.a[i] != u32::MAX && matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Ite) { self.show_cond(x, n.a[i], depth + 1); } } }
    }
    fn setup(&mut self, x: &Ctx, q: &[E], secs: u64) -> bool {
        self.deadline = Some(std::time::Instant::now() + std::time::Duration::from_secs(secs));
        self.ctx.clear();
        self.signs.clear();
        self.lits.clear();
        self.memo2.clear();
        self.bounds.clear();
        self.rules.clear();
        self.busy = 0;
        self.collect_bounds(x, q);
        if self.collect_rules(x, q) { self.memo2.clear(); }
        // memoised failures may have been timeouts
        self.memo.retain(|_, v| v.is_some());
        let r = self.learn(x, q);
        self.memo2.clear();
        r
    }
}
fn smul(a: u8, b: u8) -> u8 { let mut r = 0; if (a | b) & 2 != 0 { r |= 2; } if (a & 1 != 0 && b & 4 != 0) || (a & 4 != 0 && b & 1 != 0) { r |= 1; } if (a & 1 != 0 && b & 1 != 0) || (a & 4 != 0 && b & 4 != 0) { r |= 4; } r }
fn flip(s: u8) -> u8 { (s & 2) | (s & 1) << 2 | (s & 4) >> 2 }
pub fn refute(x: &mut Ctx, _z: &mut Z3, q: &[E], check: bool) -> bool {
    N.with(|n| {
        let mut n = n.borrow_mut();
        let r = n.setup(x, q, if check { 60 } else { 2 }) || n.try_refute(x, q, if check { 8 } else { 2 });
        if check && !r && std::env::var("SV_POLY").is_ok() {
            eprintln!("---"); for &c in q { n.show_cond(x, c, 0); }
        }
        r
    })
}
/// Prepare the normaliser for encoding the query.
pub fn begin(x: &Ctx, q: &[E]) { N.with(|n| { n.borrow_mut().setup(x, q, 10); }) }
/// right side minus left side of a comparison, denominators cleared
pub fn cmp_poly(x: &Ctx, e: E) -> Option<Rc<Poly>> {
    N.with(|n| {
        let mut n = n.borrow_mut();
        if let Some(p) = n.lits.get(&e) { return Some(p.clone()); }
        let nd = *x.node(e);
        n.diff(x, nd.a[1], nd.a[0]).and_then(|d| n.clear(&d)).ok().map(Rc::new)
    })
}
pub fn norm(x: &Ctx, e: E) -> Option<Rc<Poly>> { N.with(|n| n.borrow_mut().conv(x, e).ok()) }
pub fn known(x: &Ctx, c: E) -> Option<bool> { N.with(|n| n.borrow_mut().decided(x, c)) }
pub fn atom_of(a: u32) -> Atom { N.with(|n| n.borrow().atoms[a as usize].clone()) }
pub fn poly_of(p: u32) -> Rc<Poly> { N.with(|n| n.borrow().polys[p as usize].clone()) }
pub fn pair_of(a: &Atom) -> Option<(u32, u32)> { N.with(|n| { let mut n = n.borrow_mut(); match a { Atom::Sin(q) | Atom::Cos(q) => Some((n.atom(Atom::Sin(*q)), n.atom(Atom::Cos(*q)))), _ => None } }) }
