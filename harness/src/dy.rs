use crate::sv::*;
use siderust::astro::dynamics::forces::{AccelerationModel, MoonPerturbation};
use siderust::astro::dynamics::*;
use siderust::coordinates::centers::{Barycentric, Geocentric, Heliocentric};
use siderust::coordinates::frames::{EclipticMeanJ2000, GCRS};
use siderust::ephemeris::Ephemeris;
use siderust::pod::force::*;
use siderust::qtty::*;
use siderust::time::JulianDate;
use std::sync::Arc;
type Pos<C, U> = siderust::coordinates::cartesian::Position<C, EclipticMeanJ2000, U>;
type OS = siderust::astro::dynamics::OrbitState;
type P3 = siderust::astro::dynamics::Position<GCRS>;
type V3 = siderust::astro::dynamics::Velocity<GCRS>;

fn near(a: f64, b: f64) -> bool { let d = a - b; d < 1e-12 && d > -1e-12 }
fn dot(a: [f64; 3], b: [f64; 3]) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn epoch() -> JulianDate { JulianDate::new([2451545.0, 2459000.25][pick(90, 2) as usize]) }
fn vec(tag: u32, b: f64) -> [f64; 3] { [f64_in(tag, -b, b), f64_in(tag + 1, -b, b), f64_in(tag + 2, -b, b)] }
/// A state at a distance from the centre beyond every degeneracy threshold.
fn rv() -> ([f64; 3], [f64; 3]) {
    let (r, v) = (vec(1, 1e6), vec(4, 20.0));
    assume(dot(r, r) >= 6400.0 * 6400.0);
    (r, v)
}
fn st(r: [f64; 3], v: [f64; 3], t: JulianDate) -> OS {
    OS::new(t.to_j2000s(), P3::new(r[0], r[1], r[2]), V3::new(v[0], v[1], v[2]))
}
fn acc(m: &impl AccelerationModel<DynamicsContext, siderust::time::TT, Geocentric, GCRS>, s: &OS, c: &DynamicsContext) -> [f64; 3] {
    let a = match m.acceleration(s, c) { Ok(a) => a, Err(_) => { check(false, 99); panic!() } };
    [a.x().value(), a.y().value(), a.z().value()]
}
fn same(a: [f64; 3], b: [f64; 3], id: u32) { for i in 0..3 { check(near(a[i], b[i]), id + i as u32); } }

/// Schwarzschild term of the IERS Conventions: GM/(c^2 r^3) [(4 GM/r - v.v) r + 4 (r.v) v].
#[no_mangle]
pub extern "C" fn hr_dy_relativity() {
    let (r, v) = rv();
    let m = CentralBodyRelativity1Pn::earth();
    let d = dot(r, r).sqrt();
    let a = acc(&m, &st(r, v, epoch()), &DynamicsContext::empty());
    reach(1);
    let (gm, c) = (398600.4418, 299792.458);
    for i in 0..3 { check(near(a[i] * (c * c * d * d * d * d), gm * ((4.0 * gm - dot(v, v) * d) * r[i] + 4.0 * d * dot(r, v) * v[i])), 1 + i as u32); }
}
/// Radial, transverse and normal components come out along those axes.
#[no_mangle]
pub extern "C" fn hr_dy_rtn() {
    let (r, v) = rv();
    let k = vec(7, 1e-3);
    let h = cross(r, v);
    assume(dot(h, h) > 0.0);
    let q = |x: f64| KmPerSecondsSquared::new(x);
    let a = acc(&EmpiricalAcceleration::rtn(q(k[0]), q(k[1]), q(k[2])), &st(r, v, epoch()), &DynamicsContext::empty());
    reach(1);
    let (rn, hn) = (dot(r, r).sqrt(), dot(h, h).sqrt());
    check(near(dot(a, r), k[0] * rn), 1);
    check(near(dot(a, cross(h, r)), k[1] * rn * hn), 2);
    check(near(dot(a, h), k[2] * hn), 3);
}
const RS: [[f64; 3]; 4] = [[7000.0, 0.0, 0.0], [0.0, -6900.0, 0.0], [3000.0, 4000.0, 5500.0], [-4100.0, 39000.0, -14300.0]];
const VS: [[f64; 3]; 4] = [[0.0, 6.5, 3.5], [7.5, 0.0, -1.0], [-5.0, 4.0, 2.25], [1.5, 1.0, -2.0]];
/// Cosine and sine amplitudes at the harmonic of the given period since the reference epoch.
#[no_mangle]
pub extern "C" fn hr_dy_periodic() {
    let i = pick(93, 4) as usize;
    let (r, v) = (RS[i], VS[i]);
    let h = cross(r, v);
    let t = epoch();
    let t0 = JulianDate::new(2451544.25);
    let p = f64_in(13, 5000.0, 90000.0);
    let k = [vec(7, 1e-3), vec(10, 1e-3)];
    let q = |x: f64| KmPerSecondsSquared::new(x);
    let two = pick(91, 2) == 1;
    let harm = if two { PeriodicHarmonic::TwicePerRev } else { PeriodicHarmonic::OncePerRev };
    // angular argument 2 pi dt / P
    let m = EmpiricalPeriodicAcceleration::new(harm, t0, Second::new(p), q(k[0][0]), q(k[1][0]), q(k[0][1]), q(k[1][1]), q(k[0][2]), q(k[1][2]));
    let dt = (t.raw().value() - t0.raw().value()) * 86400.0;
    let th = if two { 2.0 } else { 1.0 } * (2.0 * core::f64::consts::PI / p) * dt;
    let (s, c) = (th.sin(), th.cos());
    let a = acc(&m, &st(r, v, t), &DynamicsContext::empty());
    reach(1);
    let (rn, hn) = (dot(r, r).sqrt(), dot(h, h).sqrt());
    let e = |i: usize| k[0][i] * c + k[1][i] * s;
    check(near(dot(a, r) / rn, e(0)), 1);
    check(near(dot(a, cross(h, r)) / (rn * hn), e(1)), 2);
    check(near(dot(a, h) / hn, e(2)), 3);
}
struct Rho(f64);
impl DensityProvider for Rho {
    fn name(&self) -> &'static str { "rho" }
    fn density(&self, _: Kilometers) -> Result<DensityKg, DynamicsError> { Ok(DensityKg::new(self.0)) }
}
type DensityKg = siderust::qtty::density::KilogramsPerCubicMeter;
/// -1/2 Cd A/m rho |v_rel| v_rel with the velocity relative to the rotating atmosphere.
#[no_mangle]
pub extern "C" fn hr_dy_drag() {
    let r = [[7000.0, 0.0, 0.0], [0.0, -6900.0, 0.0], [3000.0, 4000.0, 5500.0], [-4100.0, 3900.0, -4300.0]][pick(91, 4) as usize];
    let v = vec(4, 20.0);
    let (cd, am, rho) = (f64_in(7, 0.0, 5.0), f64_in(8, 0.0, 1.0), f64_in(9, 0.0, 1e-6));
    let ctx = DynamicsContext::builder().with_atmosphere(Arc::new(Rho(rho))).build();
    let w = OMEGA_EARTH_RAD_S.value();
    let u = [v[0] + w * r[1], v[1] - w * r[0], v[2]];
    let n = dot(u, u).sqrt();
    let a = acc(&DragForce::new(DragCoefficient::new(cd), AreaToMass::new(am)), &st(r, v, epoch()), &ctx);
    reach(1);
    for i in 0..3 { check(near(a[i], -0.5 * cd * am * rho * 1000.0 * n * u[i]), 1 + i as u32); }
}
type DragCoefficient = siderust::qtty::DragCoefficient;
/// rho0 exp(-(h-h0)/H); below the surface is an error.
#[no_mangle]
pub extern "C" fn hr_dy_density() {
    let (r0, h0, s, h) = (f64_in(1, 0.0, 1.0), f64_in(2, 0.0, 1000.0), f64_in(3, 1.0, 100.0), f64_in(4, -100.0, 2000.0));
    let m = ExponentialAtmosphere { rho0: DensityKg::new(r0), h0: Kilometers::new(h0), scale_height: Kilometers::new(s) };
    match m.density(Kilometers::new(h)) {
        Ok(d) => { reach(1); check(h >= 0.0, 1); check(near(d.value(), r0 * ((h0 - h) / s).exp()), 2); }
        Err(_) => { reach(2); check(h < 0.0, 3); }
    }
}
/// An ephemeris with arbitrary Sun and Moon.
pub struct Any;
/// One with chosen positions.
pub struct Fix;
macro_rules! p3 { ($t:expr, $u:ty) => {{ let t = $t; (Quantity::<$u>::new(uf1(t, 0.0)), Quantity::<$u>::new(uf1(t + 1, 0.0)), Quantity::<$u>::new(uf1(t + 2, 0.0))) }} }
const E0: [f64; 3] = [0.375, -0.875, 0.0625];
const SUN: [f64; 3] = [1.25, -0.25, 0.5];
const MOON: [f64; 3] = [-250_000.0, 300_000.0, 20_000.0];
macro_rules! eph_impl { ($n:ty, $sun:expr, $moon:expr) => {
    impl Ephemeris for $n {
        fn sun_barycentric(_: JulianDate) -> Pos<Barycentric, AstronomicalUnit> { $sun }
        fn earth_barycentric(_: JulianDate) -> Pos<Barycentric, AstronomicalUnit> { Pos::new(E0[0], E0[1], E0[2]) }
        fn earth_heliocentric(_: JulianDate) -> Pos<Heliocentric, AstronomicalUnit> { Pos::new(9.0, 9.0, 9.0) }
        fn earth_barycentric_velocity(_: JulianDate) -> siderust::coordinates::cartesian::Velocity<EclipticMeanJ2000, Per<AstronomicalUnit, Day>> { siderust::coordinates::cartesian::Velocity::new(0.0, 0.0, 0.0) }
        fn moon_geocentric(_: JulianDate) -> Pos<Geocentric, Kilometer> { $moon }
    }
} }
eph_impl!(Any, { let (x, y, z) = p3!(200, AstronomicalUnit); Pos::new(x, y, z) }, { let (x, y, z) = p3!(240, Kilometer); Pos::new(x, y, z) });
eph_impl!(Fix, { Pos::new(SUN[0], SUN[1], SUN[2]) }, Pos::new(MOON[0], MOON[1], MOON[2]));
const AU: f64 = 149_597_870.7;
/// ecliptic J2000 -> equator: the mean obliquity of J2000 (84381.406")
fn equ(v: [f64; 3]) -> [f64; 3] {
    let e: f64 = 84381.406 / 3600.0 * core::f64::consts::PI / 180.0;
    let (s, c) = (e.sin(), e.cos());
    [v[0], c * v[1] - s * v[2], s * v[1] + c * v[2]]
}
fn sun() -> [f64; 3] { let g = |i: u32| (uf1(200 + i, 0.0) - E0[i as usize]) * AU; equ([g(0), g(1), g(2)]) }
fn moon() -> [f64; 3] { let g = |i: u32| uf1(240 + i, 0.0); equ([g(0), g(1), g(2)]) }
fn eph() -> DynamicsContext { DynamicsContext::builder().with_ephemeris(Arc::new(Any)).build() }
/// A perturbing body at an arbitrary place.
struct Body { p: [f64; 3], gm: f64 }
impl ThirdBodyProvider for Body {
    fn name(&self) -> &'static str { "body" }
    fn gm(&self) -> GravitationalParameter { GravitationalParameter::new(self.gm) }
    fn position_relative_to_origin(&self, _: &Arc<dyn siderust::ephemeris::DynEphemeris + Send + Sync>, _: JulianDate) -> Result<siderust::coordinates::cartesian::Displacement<GCRS, Kilometer>, DynamicsError> {
        Ok(siderust::coordinates::cartesian::Displacement::new(self.p[0], self.p[1], self.p[2]))
    }
}
fn pull(r: [f64; 3], b: [f64; 3], gm: f64) -> [f64; 3] {
    let d = [b[0] - r[0], b[1] - r[1], b[2] - r[2]];
    let (bn, k) = (dot(b, b).sqrt(), (dot(d, d) / dot(b, b)).sqrt());
    core::array::from_fn(|i| gm * (d[i] / (k * k * k) - b[i]) / (bn * bn * bn))
}
/// Direct minus indirect attraction of a body.
#[no_mangle]
pub extern "C" fn hr_dy_third() {
    let i = pick(93, 4) as usize;
    let (r, v) = (RS[i], VS[i]);
    let u = [[1.0, 0.0, 0.0], [0.0, -0.6, 0.8], [0.48, 0.6, -0.64]][pick(94, 3) as usize];
    let k = f64_in(1, 2e5, 2e6);
    let b = [k * u[0], k * u[1], k * u[2]];
    let gm = f64_in(4, 1.0, 2e6);
    let a = acc(&ThirdBody::new().with(Box::new(Body { p: b, gm })), &st(r, v, epoch()), &DynamicsContext::builder().with_ephemeris(Arc::new(Fix)).build());
    reach(1);
    same(a, pull(r, b, gm), 1);
}
/// The Sun and the Moon come from the ephemeris, referred to the equator.
#[no_mangle]
pub extern "C" fn hr_dy_bodies() {
    let e: Arc<dyn siderust::ephemeris::DynEphemeris + Send + Sync> = Arc::new(Any);
    let m = pick(91, 2) == 1;
    let p = if m { MoonPerturbation.position_relative_to_origin(&e, epoch()) } else { SunPerturbation.position_relative_to_origin(&e, epoch()) };
    let p = match p { Ok(p) => p, Err(_) => { check(false, 99); panic!() } };
    reach(1);
    let w = if m { moon() } else { sun() };
    let big = uf1(200, 0.0);
    assume(big < 100.0 && big > -100.0);
    for (i, x) in [p.x().value(), p.y().value(), p.z().value()].into_iter().enumerate() { check(near((x - w[i]) / AU, 0.0), 1 + i as u32); }
}
/// The perturbations add up.
#[no_mangle]
pub extern "C" fn hr_dy_third_sum() {
    let i = pick(93, 4) as usize;
    let r = RS[i];
    let t = epoch();
    let s = st(r, VS[i], t);
    let c = DynamicsContext::builder().with_ephemeris(Arc::new(Fix)).build();
    let e: Arc<dyn siderust::ephemeris::DynEphemeris + Send + Sync> = Arc::new(Fix);
    let g = |p: Result<siderust::coordinates::cartesian::Displacement<GCRS, Kilometer>, DynamicsError>| match p { Ok(p) => [p.x().value(), p.y().value(), p.z().value()], Err(_) => panic!() };
    let (sp, mp) = (g(SunPerturbation.position_relative_to_origin(&e, t)), g(MoonPerturbation.position_relative_to_origin(&e, t)));
    let (x, y) = (pull(r, sp, GM_SUN.value()), pull(r, mp, GM_MOON.value()));
    let gm = f64_in(4, 1.0, 2e6);
    let z = pull(r, [-5e5, 1e5, 3e5], gm);
    let all = acc(&ThirdBody::sun_and_moon().with(Box::new(Body { p: [-5e5, 1e5, 3e5], gm })), &s, &c);
    reach(1);
    same(all, [x[0] + y[0] + z[0], x[1] + y[1] + z[1], x[2] + y[2] + z[2]], 1);
    same(acc(&ThirdBody::new().with_moon(), &s, &c), y, 4);
    same(acc(&ThirdBody::new().with_sun(), &s, &c), x, 7);
}
/// Push away from the Sun, inverse-square, switched off inside the shadow.
#[no_mangle]
pub extern "C" fn hr_dy_srp() {
    let t = epoch();
    let e: Arc<dyn siderust::ephemeris::DynEphemeris + Send + Sync> = Arc::new(Fix);
    let s = match SunPerturbation.position_relative_to_origin(&e, t) { Ok(p) => [p.x().value(), p.y().value(), p.z().value()], Err(_) => { check(false, 98); panic!() } };
    let sn = dot(s, s).sqrt();
    let (u, w) = ([s[0] / sn, s[1] / sn, s[2] / sn], [s[1] / sn, -s[0] / sn, 0.0]);
    // along and across the direction of the Sun
    let (al, ac, dark) = [(7000.0, 0.0, false), (0.0, 8000.0, false), (-7000.0, 0.0, true), (-9000.0, 5000.0, true), (-9000.0, 8000.0, false), (-40000.0, 6000.0, true)][pick(94, 6) as usize];
    let wn = dot(w, w).sqrt();
    let r: [f64; 3] = core::array::from_fn(|i| al * u[i] + ac * w[i] / wn);
    let d = [r[0] - s[0], r[1] - s[1], r[2] - s[2]];
    let (cr, am) = (f64_in(7, 0.0, 3.0), f64_in(8, 0.0, 1.0));
    let (c, a2m) = (SrpCoefficient::new(cr), AreaToMass::new(am));
    let o = st(r, [0.0, 7.0, 1.0], t);
    let x = DynamicsContext::builder().with_ephemeris(Arc::new(Fix)).build();
    let k = pick(91, 2);
    let a = if k == 0 { acc(&CannonballSrp::<NoEclipse>::new(c, a2m), &o, &x) } else { acc(&CannonballSrp::<Cylindrical>::new(c, a2m), &o, &x) };
    let dn = dot(d, d).sqrt();
    let lit = k == 0 || !dark;
    reach(if lit { 1 } else { 2 });
    for i in 0..3 {
        let e = if lit { cr * am * 4.56e-6 * (AU / dn) * (AU / dn) / 1000.0 * (d[i] / dn) } else { 0.0 };
        check(near((a[i] - e) * 1e6, 0.0), 1 + i as u32);
    }
}
/// The shadow cylinder lies behind the Earth and is one Earth radius wide.
#[no_mangle]
pub extern "C" fn hr_dy_cylinder() {
    let r = vec(1, 1e5);
    let u = [[1.0, 0.0, 0.0], [0.0, -0.6, 0.8], [0.36, 0.48, -0.8]][pick(94, 3) as usize];
    let p = dot(r, u);
    let q = dot(r, r) - p * p;
    let re2 = 6378.137 * 6378.137;
    let lit = decide(p >= 1e-6) || { assume(p < -1e-6); decide(q >= re2 + 1e-3) || { assume(q < re2 - 1e-3); false } };
    let d = |v: [f64; 3]| siderust::coordinates::cartesian::Displacement::<GCRS, Kilometer>::new(v[0], v[1], v[2]);
    let k = 1.5e8;
    let f = Cylindrical::eclipse_factor(d(r), d([k * u[0], k * u[1], k * u[2]])).value();
    reach(if lit { 1 } else { 2 });
    check(f == if lit { 1.0 } else { 0.0 }, 1);
}
type SrpCoefficient = siderust::qtty::SrpCoefficient;
/// Partial eclipse: the visible share of the solar disc.
#[no_mangle]
pub extern "C" fn hr_dy_conical() {
    let s = [149_597_870.7, 0.0, 0.0];
    let r = [-7000.0, f64_in(1, 0.0, 9000.0), 0.0];
    let d = |v: [f64; 3]| siderust::coordinates::cartesian::Displacement::<GCRS, Kilometer>::new(v[0], v[1], v[2]);
    let f = Conical::eclipse_factor(d(r), d(s)).value();
    let t = [s[0] - r[0], s[1] - r[1], s[2] - r[2]];
    let (rn, tn) = (dot(r, r).sqrt(), dot(t, t).sqrt());
    let e = (6378.137 / rn).asin();
    let q = (695_700.0 / tn).asin();
    let c = (-dot(r, t) / (rn * tn)).acos();
    reach(1);
    check(f >= 0.0 && f <= 1.0, 1);
    if decide(c >= q + e) { reach(2); check(f == 1.0, 2); }
    if decide(e >= q && c <= e - q) { reach(3); check(f == 0.0, 3); }
}
/// Field of chosen coefficients in the rotating frame.
struct Field { c20: f64, c22: f64, s22: f64 }
const RE: f64 = 6378.0;
const MU: f64 = 398600.0;
impl GravityFieldProvider for Field {
    fn mu(&self) -> GravitationalParameter { GravitationalParameter::new(MU) }
    fn reference_radius(&self) -> Kilometers { Kilometers::new(RE) }
    fn max_degree(&self) -> usize { 2 }
    fn max_order(&self) -> usize { 2 }
    fn c_normalized(&self, n: usize, m: usize) -> Result<f64, PrErr> { Ok(match (n, m) { (0, 0) => 1.0, (2, 0) => self.c20, (2, 2) => self.c22, _ => 0.0 }) }
    fn s_normalized(&self, n: usize, m: usize) -> Result<f64, PrErr> { Ok(if (n, m) == (2, 2) { self.s22 } else { 0.0 }) }
}
type PrErr = principia::PrincipiaError;
/// Gradient of the degree-2 potential, turned with the Earth rotation angle.
#[no_mangle]
pub extern "C" fn hr_dy_gravity() {
    let t = epoch();
    let i = pick(93, 4) as usize;
    let (r, v) = (RS[i], VS[i]);
    let ord = 2 * pick(91, 2) as usize;
    let f = Field { c20: f64_in(7, -1e-3, 1e-3), c22: f64_in(8, -1e-3, 1e-3), s22: f64_in(9, -1e-3, 1e-3) };
    let th = siderust::astro::era::earth_rotation_angle(t).value();
    let (s, c) = if ord == 0 { (0.0, 1.0) } else { (th.sin(), th.cos()) };
    let b = [c * r[0] + s * r[1], c * r[1] - s * r[0], r[2]];
    let ctx = DynamicsContext::builder().with_gravity(Arc::new(Field { c20: f.c20, c22: f.c22, s22: f.s22 })).build();
    let a = acc(&Geopotential::new(2, ord), &st(r, v, t), &ctx);
    reach(1);
    let r2 = dot(r, r);
    let d = r2.sqrt();
    // V = mu/d + mu R^2 [ n0 c20 (3 z^2 - d^2)/2 + n2 (3 c22 (x^2-y^2) + 6 s22 x y) ] / d^5
    let (n0, n2) = (5f64.sqrt(), (5.0f64 / 12.0).sqrt());
    let (x, y, z) = (b[0], b[1], b[2]);
    let (c22, s22) = if ord == 0 { (0.0, 0.0) } else { (f.c22, f.s22) };
    let q = n0 * f.c20 * (2.0 * z * z - x * x - y * y) * 0.5 + n2 * (3.0 * c22 * (x * x - y * y) + 6.0 * s22 * x * y);
    let g = [-n0 * f.c20 * x + n2 * (6.0 * c22 * x + 6.0 * s22 * y), -n0 * f.c20 * y + n2 * (-6.0 * c22 * y + 6.0 * s22 * x), 2.0 * n0 * f.c20 * z];
    // a d^7 = -mu r d^4 + mu R^2 (g d^2 - 5 q r)
    let e: [f64; 3] = core::array::from_fn(|i| MU * (-b[i] * r2 * r2 + RE * RE * (g[i] * r2 - 5.0 * q * b[i])));
    let e = [c * e[0] - s * e[1], s * e[0] + c * e[1], e[2]];
    for i in 0..3 { check(near(a[i], e[i] / (r2 * r2 * r2 * d)), 1 + i as u32); }
}
/// Without its data source a model refuses instead of returning a value.
#[no_mangle]
pub extern "C" fn hr_dy_missing() {
    let s = st([7000.0, f64_in(1, -1e4, 1e4), 100.0], [0.0, 7.5, 0.0], epoch());
    let c = DynamicsContext::empty();
    let e = match pick(91, 6) {
        0 => ThirdBody::sun_and_moon().acceleration(&s, &c).is_err(),
        1 => CannonballSrp::<NoEclipse>::new(SrpCoefficient::new(1.0), AreaToMass::new(0.01)).acceleration(&s, &c).is_err(),
        2 => DragForce::new(DragCoefficient::new(2.2), AreaToMass::new(0.01)).acceleration(&s, &c).is_err(),
        3 => Geopotential::new(2, 0).acceleration(&s, &c).is_err(),
        // more terms than the field has
        4 => Geopotential::new(3, 0).acceleration(&s, &DynamicsContext::builder().with_gravity(Arc::new(Field { c20: 0.0, c22: 0.0, s22: 0.0 })).build()).is_err(),
        // position at the centre
        _ => EmpiricalAcceleration::rtn(KmPerSecondsSquared::new(1.0), KmPerSecondsSquared::new(1.0), KmPerSecondsSquared::new(1.0)).acceleration(&st([0.0; 3], [0.0, 7.5, 0.0], epoch()), &c).is_err(),
    };
    reach(1);
    check(e, 1);
}
