use crate::sv::*;
use siderust::qtty::*;
use siderust::time::{Interval, ModifiedJulianDate as Mjd};
use siderust::verif_hooks as ev;
use siderust::verif_hooks::LabeledCrossing as LC;

fn mjd(x: f64) -> Mjd { Mjd::new(x) }
fn v(t: Mjd) -> f64 { t.raw().value() }
type P = Vec<Interval<Mjd>>;
fn inside(p: &P, t: f64) -> bool { let mut r = false; for i in p.iter() { r |= v(i.start) <= t && t <= v(i.end); } r }

fn window() -> (f64, f64) {
    let a = f64_in(1, -1e6, 1e6);
    let b = f64_in(2, -1e6, 1e6);
    assume(a < b);
    (a, b)
}
/// Sorted crossing list inside [a,b]; alternating directions starting from `start`, or arbitrary ones.
fn crossings(tag: u32, n: usize, a: f64, b: f64, start: bool, alternate: bool) -> Vec<LC> {
    let mut out = Vec::with_capacity(n);
    let mut prev = a;
    let mut st = start;
    for i in 0..n {
        let t = f64_(tag + i as u32);
        assume(t >= prev && t <= b);
        prev = t;
        let d = if alternate { if st { -1 } else { 1 } } else if bool_(tag + 8 + i as u32) { 1 } else { -1 };
        st = !st;
        out.push(LC { t: mjd(t), direction: d });
    }
    out
}
/// Truth: signal state at t, strictly away from every crossing.
fn state(c: &[LC], t: f64, start: bool) -> bool { let mut s = start; for x in c { if v(x.t) < t { s = !s; } } s }
fn apart(c: &[LC], t: f64) { for x in c { assume(v(x.t) != t); } }
fn ordered(p: &P, a: f64, b: f64, id: u32) {
    let mut prev = a;
    for i in p.iter() {
        check(v(i.start) >= prev && v(i.start) <= v(i.end) && v(i.end) <= b, id);
        prev = v(i.end);
    }
}

fn above(n: usize) {
    let (a, b) = window();
    let start = bool_(3);
    let q = f64_(4);
    assume(q > a && q < b);
    let c = crossings(10, n, a, b, start, true);
    apart(&c, q);
    let p = ev::assemble_above_threshold_periods(&c, Interval::new(mjd(a), mjd(b)), start);
    let s = state(&c, q, start);
    out(p.len() as u64);
    ordered(&p, a, b, 1);
    if s { reach(1) } else { reach(2) }
    check(inside(&p, q) == s, 2);
    let below = ev::complement_threshold_periods(Interval::new(mjd(a), mjd(b)), &p);
    ordered(&below, a, b, 3);
    check(inside(&below, q) == !s, 4);
}
#[no_mangle]
pub extern "C" fn hr_ev_above() { above(pick(5, 5) as usize) }
#[no_mangle]
pub extern "C" fn hr_ev_above6() { above(6) }

fn range(n: usize, m: usize) {
    let (a, b) = window();
    let (s0, s1) = (bool_(3), bool_(6));
    let q = f64_(4);
    assume(q > a && q < b);
    let c0 = crossings(10, n, a, b, s0, true);
    let c1 = crossings(30, m, a, b, s1, true);
    apart(&c0, q);
    apart(&c1, q);
    let p = ev::assemble_in_range_periods(&c0, s0, &c1, s1, Interval::new(mjd(a), mjd(b)));
    out(p.len() as u64);
    ordered(&p, a, b, 1);
    let s = state(&c0, q, s0) && !state(&c1, q, s1);
    if s { reach(1) } else { reach(2) }
    check(inside(&p, q) == s, 2);
}
#[no_mangle]
pub extern "C" fn hr_ev_range() { range(pick(5, 3) as usize, pick(7, 3) as usize) }
#[no_mangle]
pub extern "C" fn hr_ev_range3() { range(3, pick(7, 4) as usize) }

// ---------------------------------------------------------------- scanning (exact reals)
/// Piecewise-linear signal with symbolic knot values at 100, 101, ...
struct Pl<const K_: usize> { v: [f64; K_] }
impl<const K_: usize> Pl<K_> {
    /// One symbolic level, slopes picked per cell; every knot is zero or at least 1e-3 away from zero.
    fn new() -> Self {
        let mut w = [0.0; K_];
        w[0] = f64_in(10, -1.0, 1.0);
        for i in 1..K_ {
            let d = match pick(20 + i as u32, 2) { 0 => -0.75, _ => 0.75 };
            w[i] = w[i - 1] + d;
        }
        for x in w.iter() { assume((*x == 0.0) | (*x >= 1e-3) | (*x <= -1e-3)); }
        Pl { v: w }
    }
    fn at(&self, t: f64) -> f64 {
        let mut i = 0;
        while i + 2 < K_ && t > 101.0 + i as f64 { i += 1; }
        self.v[i] + (self.v[i + 1] - self.v[i]) * (t - (100 + i) as f64)
    }
}
const NK: usize = 3;
fn grid(i: usize) -> Mjd { mjd((100 + i) as f64) }
/// Number of changes of the state "signal > 0" and of genuine sign changes.
fn expect(w: &[f64]) -> Vec<(usize, i32)> {
    // (cell index of the last knot at or before the root, direction) skipping zero runs of length 1
    let mut out = Vec::new();
    let mut last = 0i32; let mut li = 0;
    for (i, &x) in w.iter().enumerate() {
        let s = if x > 0.0 { 1 } else if x < 0.0 { -1 } else { 0 };
        if s != 0 { if last != 0 && s != last { out.push((li, s)); } last = s; li = i; }
    }
    out
}

/// Interior structure: every sign change of the signal is found once, at a root, with its direction.
fn scan_check(got: &[(f64, i32)], pl: &Pl<NK>) {
    let e = expect(&pl.v);
    out(got.len() as u64);
    reach(e.len() as u32);
    check(got.len() == e.len(), 1);
    for k in 0..got.len() {
        if k < e.len() {
            check(got[k].1 == e[k].1, 2);
            check(got[k].0 >= (100 + e[k].0) as f64, 3);
        }
        let r = pl.at(got[k].0);
        check(r < 1e-6 && r > -1e-6, 4);
        if k > 0 { check(got[k].0 > got[k - 1].0, 5); }
    }
}
#[no_mangle]
pub extern "C" fn hr_ev_fallback() {
    let pl = Pl::<NK>::new();
    assume(pl.v[0] != 0.0 && pl.v[NK - 1] != 0.0);
    for i in 1..NK { assume(pl.v[i] != 0.0 || pl.v[i - 1] != 0.0); }
    let f = |t: Mjd| pl.at(v(t));
    let w = Interval::new(grid(0), grid(NK - 1));
    let l = ev::scan_labelled_crossings(w, Days::new(1.0), &f, 0.0, Days::new(1e-9), 1e-10);
    let got: Vec<(f64, i32)> = l.iter().map(|x| (v(x.t), x.direction)).collect();
    scan_check(&got, &pl);
}
