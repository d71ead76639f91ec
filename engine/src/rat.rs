//! The real number a floating-point literal stands for in the exact-real mode.
//! A literal that is the rounding of a short decimal, of a simple fraction (such as 1/86400) or of a simple
//! multiple of pi or 1/pi (pi itself being the exact value of the nearest double) means that number, so that unit
//! conversions and their inverses cancel exactly; any other literal means its exact binary value.
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use std::cell::RefCell;
use std::collections::HashMap;

pub fn exact(v: f64) -> (BigInt, BigInt) {
    if v == 0.0 { return (BigInt::zero(), BigInt::one()); }
    assert!(v.is_finite(), "non-finite constant in real mode");
    let b = v.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = if e == 0 { (b & ((1 << 52) - 1)) << 1 } else { (b & ((1 << 52) - 1)) | 1 << 52 };
    let sh = e - 1075;
    let tz = m.trailing_zeros() as i32;
    let (m, sh) = (m >> tz, sh + tz);
    let mut n = BigInt::from(m);
    if v < 0.0 { n = -n; }
    if sh >= 0 { (n << sh as usize, BigInt::one()) } else { (n, BigInt::one() << (-sh) as usize) }
}
/// Simplest fraction p/q with p*q < 2^bits whose double is v (given v = c * base, compares c).
fn frac(v: f64, bits: u32, f: &dyn Fn(f64, f64) -> bool, c: f64) -> Option<(u64, u64)> {
    let _ = v;
    let (mut p0, mut q0, mut p1, mut q1) = (0u128, 1u128, 1u128, 0u128);
    let mut x = c;
    for _ in 0..24 {
        let a = x.floor();
        if a > 1e15 { return None; }
        let (p2, q2) = (a as u128 * p1 + p0, a as u128 * q1 + q0);
        if p2 == 0 { p0 = p1; q0 = q1; p1 = p2; q1 = q2; x = 1.0 / x; continue; }
        let nb = (128 - p2.leading_zeros()) + (128 - q2.leading_zeros());
        if nb > bits { return None; }
        if f(p2 as f64, q2 as f64) { return Some((p2 as u64, q2 as u64)); }
        p0 = p1; q0 = q1; p1 = p2; q1 = q2;
        let d = x - a;
        if d <= 0.0 { return None; }
        x = 1.0 / d;
    }
    None
}
fn snap_abs(v: f64) -> (BigInt, BigInt) {
    let (n, d) = exact(v);
    // few significant bits: exact
    if n.bits() <= 32 { return (n, d); }
    let s = format!("{v:e}");
    let (mant, ex) = s.split_once('e').unwrap();
    let digits: String = mant.chars().filter(|c| *c != '.').collect();
    let dec = || {
        let e10: i32 = ex.parse::<i32>().unwrap() - (digits.len() as i32 - 1);
        let m: BigInt = digits.parse().unwrap();
        let t = num_traits::pow(BigInt::from(10), e10.unsigned_abs() as usize);
        let (n, d) = if e10 >= 0 { (m * t, BigInt::one()) } else { (m, t) };
        let g = n.gcd(&d);
        (n / &g, d / g)
    };
    if digits.len() <= 13 && v > 1e-30 && v < 1e30 { return dec(); }
    if v > 1e-14 && v < 1e14 {
        if let Some((p, q)) = frac(v, 44, &|p, q| p / q == v, v) { return (BigInt::from(p), BigInt::from(q)); }
        let pi = std::f64::consts::PI;
        let (pn, pd) = exact(pi);
        let near = |w: f64| (w - v).abs() <= v * 2.3e-16;
        if let Some((p, q)) = frac(v, 34, &|p, q| near(p * pi / q) || near(pi / q * p), v / pi) { let (n, d) = (BigInt::from(p) * pn, BigInt::from(q) * pd); let g = n.gcd(&d); return (n / &g, d / g); }
        if let Some((p, q)) = frac(v, 34, &|p, q| near(p / (q * pi)) || near(p / q / pi), v * pi) { let (n, d) = (BigInt::from(p) * pd, BigInt::from(q) * pn); let g = n.gcd(&d); return (n / &g, d / g); }
    }
    if digits.len() <= 15 && v > 1e-30 && v < 1e30 { return dec(); }
    (n, d)
}
thread_local! { static C: RefCell<HashMap<u64, (BigInt, BigInt)>> = RefCell::new(HashMap::new()); }
pub fn snap(v: f64) -> (BigInt, BigInt) {
    C.with(|c| {
        if let Some(r) = c.borrow().get(&v.to_bits()) { return r.clone(); }
        let (n, d) = snap_abs(v.abs());
        let r = if v < 0.0 { (-n, d) } else { (n, d) };
        c.borrow_mut().insert(v.to_bits(), r.clone());
        r
    })
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Rat { pub n: BigInt, pub d: BigInt }
impl Rat {
    pub fn new(n: BigInt, d: BigInt) -> Rat {
        if n.is_zero() { return Rat { n, d: BigInt::one() }; }
        if d.is_one() { return Rat { n, d }; }
        let g = n.gcd(&d);
        let (n, d) = if g.is_one() { (n, d) } else { (n / &g, d / &g) };
        if d.is_negative() { Rat { n: -n, d: -d } } else { Rat { n, d } }
    }
    pub fn int(n: BigInt) -> Rat { Rat { n, d: BigInt::one() } }
    pub fn f(v: f64) -> Rat { let (n, d) = snap(v); Rat { n, d } }
    pub fn one() -> Rat { Rat::int(BigInt::one()) }
    pub fn is_zero(&self) -> bool { self.n.is_zero() }
    pub fn is_one(&self) -> bool { self.n.is_one() && self.d.is_one() }
    pub fn neg(&self) -> Rat { Rat { n: -&self.n, d: self.d.clone() } }
    pub fn inv(&self) -> Rat { Rat::new(self.d.clone(), self.n.clone()) }
    pub fn mul(&self, o: &Rat) -> Rat { if self.is_one() { return o.clone(); } if o.is_one() { return self.clone(); } Rat::new(&self.n * &o.n, &self.d * &o.d) }
    pub fn add(&self, o: &Rat) -> Rat {
        if self.d == o.d { return Rat::new(&self.n + &o.n, self.d.clone()); }
        Rat::new(&self.n * &o.d + &o.n * &self.d, &self.d * &o.d)
    }
    pub fn negative(&self) -> bool { self.n.is_negative() }
    pub fn abs(&self) -> Rat { Rat { n: self.n.abs(), d: self.d.clone() } }
    pub fn to_f(&self) -> f64 {
        use num_traits::ToPrimitive;
        let (a, b) = (self.n.bits() as i64, self.d.bits() as i64);
        // keep 64+ bits of quotient
        let sh = 80 - (a - b);
        let q = if sh >= 0 { (&self.n << sh as usize) / &self.d } else { &self.n / (&self.d << (-sh) as usize) };
        let v = q.to_f64().unwrap_or(f64::NAN);
        let mut e = -sh; let mut r = v;
        while e > 500 { r *= 2f64.powi(500); e -= 500; }
        while e < -500 { r *= 2f64.powi(-500); e += 500; }
        r * 2f64.powi(e as i32)
    }
}
#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn snaps() {
        for v in [1.0 / 86400.0, 0.1, 149597870.7, std::f64::consts::PI / 180.0, 180.0 / std::f64::consts::PI, std::f64::consts::PI / 648000.0, 1.0/3.0, 0.3f64.sin(), 6378.137, 1e-9, 2.0/3.0, std::f64::consts::TAU, std::f64::consts::TAU/86400.0, 1.00273781191135448] {
            let (n, d) = snap(v);
            println!("{v:e} -> {n}/{d}  back {}", Rat { n: n.clone(), d: d.clone() }.to_f() == v);
        }
        let (a,b)=(Rat::f(std::f64::consts::PI/180.0),Rat::f(180.0/std::f64::consts::PI));
        assert!(a.mul(&b).is_one());
    }
}
