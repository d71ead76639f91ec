use crate::sv::*;
use siderust::astro::aberration::*;
use siderust::astro::apparent::{AppliedCorrections, CorrectionPolicy, CORRECTION_ORDER};
use siderust::astro::light_deflection::*;
use siderust::astro::proper_motion::*;
use siderust::coordinates::cartesian::{self, Displacement, Velocity};
use siderust::coordinates::frames::EquatorialMeanJ2000;
use siderust::coordinates::observation::{Apparent, Astrometric, ObserverState};
use siderust::coordinates::spherical::position;
use siderust::qtty::*;
use siderust::time::JulianDate;
type Dir = cartesian::Direction<EquatorialMeanJ2000>;
type AuPerDay = Per<AstronomicalUnit, Day>;
const PI: f64 = core::f64::consts::PI;
const D: f64 = PI / 180.0;
/// Speed of light in au per day; the value itself is checked in `hr_sc_rest`.
const C: f64 = siderust::qtty::velocity::AU_PER_DAY_C.value();
const SRS: f64 = 1.97412574336e-8;
fn close(a: f64, b: f64, tol: f64) -> bool { let d = a - b; d < tol && d > -tol }
fn near(a: f64, b: f64) -> bool { close(a, b, 1e-11) }
fn same(a: [f64; 3], b: [f64; 3], id: u32) { for k in 0..3 { check(near(a[k], b[k]), id); } }
fn dot(a: [f64; 3], b: [f64; 3]) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn arr<F: siderust::coordinates::frames::ReferenceFrame>(d: &cartesian::Direction<F>) -> [f64; 3] { [d.x(), d.y(), d.z()] }
fn raw(v: [f64; 3]) -> Dir { Dir::new_unchecked(v[0], v[1], v[2]) }
/// Frames along the axes, so that every component takes every role.
const AX: [[[f64; 3]; 3]; 3] = [
    [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
    [[0.0, -1.0, 0.0], [0.0, 0.0, 1.0], [-1.0, 0.0, 0.0]],
    [[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]],
];
fn lin(a: f64, u: [f64; 3], b: f64, v: [f64; 3]) -> [f64; 3] { [a * u[0] + b * v[0], a * u[1] + b * v[1], a * u[2] + b * v[2]] }
fn vel(v: [f64; 3]) -> Velocity<EquatorialMeanJ2000, AuPerDay> { Velocity::new(v[0], v[1], v[2]) }
/// Cosine and sine of an angle within 174 degrees of zero, from its half-angle tangent.
fn cs(tag: u32, m: f64) -> (f64, f64) { let k = f64_in(tag, -m, m); let d = 1.0 + k * k; ((1.0 - k * k) / d, 2.0 * k / d) }
/// Cosine and sine of the angle between star and motion.
const CS: [(f64, f64); 9] = [(1.0, 0.0), (0.8, 0.6), (0.28, 0.96), (0.0, 1.0), (-0.28, 0.96), (-0.6, 0.8), (-1.0, 0.0), (-0.96, -0.28), (0.6, -0.8)];
/// Any speed below light's, in a direction of the list; the star at an angle of the list.
fn setting(na: u64, nc: u64) -> ([[f64; 3]; 3], f64, f64, f64, Velocity<EquatorialMeanJ2000, AuPerDay>) {
    let ax = AX[pick(90, na) as usize];
    let (c, s) = CS[pick(91, nc) as usize];
    let m = f64_in(1, 1e-6, 0.9);
    let b = 2.0 * m / (1.0 + m * m);
    let v = vel(lin(b * C, ax[0], 0.0, ax[1]));
    (ax, c, s, b, v)
}
/// A star is displaced towards the direction of motion as special relativity says.
#[no_mangle]
pub extern "C" fn hr_sc_aberration() {
    let (ax, c, s, b, v) = setting(3, 9);
    let u = lin(c, ax[0], s, ax[1]);
    let g = (1.0 - b * b).sqrt();
    reach(1);
    if pick(92, 2) == 0 {
        let den = 1.0 + b * c;
        let want = lin((c + b) / den, ax[0], g * s / den, ax[1]);
        same(arr(&apply_aberration_to_direction_with_velocity(raw(u), &v)), want, 1);
    } else {
        let den = 1.0 - b * c;
        let back = lin((c - b) / den, ax[0], g * s / den, ax[1]);
        same(arr(&remove_aberration_from_direction_with_velocity(raw(u), &v)), back, 2);
    }
}
/// An observer at rest sees no change; light covers 173.1446 au a day.
#[no_mangle]
pub extern "C" fn hr_sc_rest() {
    let u = [f64_in(1, -1.0, 1.0), f64_in(2, -1.0, 1.0), f64_in(3, -1.0, 1.0)];
    reach(1);
    same(arr(&apply_aberration_to_direction_with_velocity(raw(u), &vel([0.0; 3]))), u, 1);
    same(arr(&remove_aberration_from_direction_with_velocity(raw(u), &vel([0.0; 3]))), u, 2);
    check(close(C, 299792.458 * 86400.0 / 149597870.7, 1e-12), 3);
}
/// Removing undoes applying.
#[no_mangle]
pub extern "C" fn hr_sc_roundtrip() {
    let (ax, c, s, _, v) = setting(1, 6);
    let u = lin(c, ax[0], s, ax[1]);
    reach(1);
    let w = if pick(92, 2) == 0 {
        remove_aberration_from_direction_with_velocity(apply_aberration_to_direction_with_velocity(raw(u), &v), &v)
    } else {
        apply_aberration_to_direction_with_velocity(remove_aberration_from_direction_with_velocity(raw(u), &v), &v)
    };
    same(arr(&w), u, 1);
}
/// Astrometric and apparent directions seen by an observer in motion.
#[no_mangle]
pub extern "C" fn hr_sc_observer() {
    let (ax, c, s, _, v) = setting(3, 4);
    let u = lin(c, ax[0], s, ax[1]);
    let o = ObserverState::from_velocity(v, JulianDate::new(2451545.0));
    reach(1);
    if pick(92, 2) == 0 {
        same(arr(Astrometric::new(raw(u)).to_apparent(&o).direction()), arr(&apply_aberration_to_direction_with_velocity(raw(u), &v)), 1);
    } else {
        same(arr(Apparent::new(raw(u)).to_astrometric(&o).direction()), arr(&remove_aberration_from_direction_with_velocity(raw(u), &v)), 2);
    }
}
/// Light bends round a mass: s + (R/|q|)(e − (s·e)s)/(1 + s·e), away from the mass.
#[no_mangle]
pub extern "C" fn hr_sc_deflect() {
    let ax = AX[pick(90, 3) as usize];
    let (c, s1) = cs(1, 20.0);
    let q = f64_in(2, 0.01, 50.0);
    let s = lin(c, ax[0], s1, ax[1]);
    let e = ax[0];
    let dq = Displacement::<EquatorialMeanJ2000, AstronomicalUnit>::new(q * e[0], q * e[1], q * e[2]);
    let which = pick(91, 4) as usize;
    let r = [SRS, SRS / 1047.348644, SRS / 3497.9018, 3e-7][which];
    let got = match which {
        0 => solar_deflection(raw(s), dq),
        1 => jupiter_deflection(raw(s), dq),
        2 => saturn_deflection(raw(s), dq),
        _ => body_deflection(raw(s), dq, AstronomicalUnits::new(r)),
    };
    // transverse unit vector: e − (s·e)s has length sin t
    let f = r / q / (1.0 + c);
    // in the plane (ax0, ax1): s + f(e − cos t s)
    let (a, b) = (c + f * s1 * s1, s1 - f * c * s1);
    let w = lin(a, ax[0], b, ax[1]);
    let n = (a * a + b * b).sqrt();
    let g = arr(&got);
    reach(1);
    for k in 0..3 { check(close(g[k] * n, w[k], 1e-11), 1); }
    // a deflector without mass does nothing
    same(arr(&body_deflection(raw(s), dq, AstronomicalUnits::new(0.0))), s, 2);
}
/// Size of the deflection.
#[no_mangle]
pub extern "C" fn hr_sc_magnitude() {
    let t = f64_in(1, 0.001, PI);
    let r = f64_in(2, 0.1, 100.0);
    assume((0.5 * t).sin() > 1e-9);
    reach(1);
    let m = solar_deflection_magnitude(Radians::new(t), AstronomicalUnits::new(r)).value() / 3600.0 * D;
    check(close(m * r * (0.5 * t).sin(), SRS * (0.5 * t).cos(), 1e-12), 1);
    check(close(m * r * (0.5 * t).sin() * 1e8, SRS * 1e8 * (0.5 * t).cos(), 1e-9), 2);
}
/// Sets of corrections.
#[no_mangle]
pub extern "C" fn h_sc_policy() {
    let all = [CorrectionPolicy::PROPER_MOTION, CorrectionPolicy::LIGHT_TIME, CorrectionPolicy::ABERRATION, CorrectionPolicy::LIGHT_DEFLECTION];
    let mk = |m: u64| { let mut p = CorrectionPolicy::GEOMETRIC; for k in 0..4 { if m >> k & 1 == 1 { p = p | all[k as usize]; } } p };
    let (a, b) = (pick(1, 16), pick(2, 16));
    let (pa, pb) = (mk(a), mk(b));
    reach(1);
    check(pa.contains(pb) == (a & b == b), 1);
    check(pa.union(pb) == mk(a | b), 2);
    check((pa == pb) == (a == b), 3);
    let mut r = AppliedCorrections::from_request(pa);
    check(r.requested == pa && r.applied == CorrectionPolicy::GEOMETRIC, 4);
    r.record(pb);
    check(r.applied == pb && r.requested == pa, 5);
    check(mk(15) == CorrectionPolicy::APPARENT && CorrectionPolicy::default() == CorrectionPolicy::GEOMETRIC, 6);
    for k in 0..4 { check(CORRECTION_ORDER[k] == all[k], 7); }
}
fn eq(ra: f64, dec: f64, r: f64) -> position::EquatorialMeanJ2000<AstronomicalUnit> { position::EquatorialMeanJ2000::<AstronomicalUnit>::new(Degrees::new(ra), Degrees::new(dec), r) }
type Dpy = siderust::qtty::angular_rate::AngularRate<Degree, Year>;
type Mpy = siderust::qtty::angular_rate::AngularRate<MilliArcsecond, Year>;
const EPOCHS: [f64; 4] = [2451545.0, 2451545.0 + 36525.0, 2451545.0 - 18262.5, 2451545.0 + 3652.5];
/// Linear proper motion: years of 365.25 days since J2000, right ascension rate with or without cos δ.
#[no_mangle]
pub extern "C" fn hr_sc_linear() {
    let jd = EPOCHS[pick(90, 4) as usize];
    let yr = (jd - 2451545.0) / 365.25;
    let (ra, mr, md) = (f64_in(1, 20.0, 340.0), f64_in(2, -0.01, 0.01), f64_in(3, -0.01, 0.01));
    let dec: f64 = [0.0, 35.5, -60.0, 80.0][pick(91, 4) as usize];
    let star = pick(92, 2) == 1;
    let p = if star { ProperMotion::from_mu_alpha_star::<Per<Degree, Year>>(Dpy::new(mr), Dpy::new(md)) } else { ProperMotion::from_mu_alpha::<Per<Degree, Year>>(Dpy::new(mr), Dpy::new(md)) };
    reach(1);
    match set_proper_motion_since_j2000(eq(ra, dec, 7.5), p, JulianDate::new(jd)) {
        Ok(o) => {
            let rate = if star { mr / (dec * D).cos() } else { mr };
            check(close(o.ra().value(), ra + rate * yr, 1e-9), 1);
            check(close(o.dec().value(), dec + md * yr, 1e-9), 2);
            check(close(o.distance.value(), 7.5, 1e-12), 3);
        }
        Err(_) => check(false, 4),
    }
    // no right ascension to change at the poles
    let pole = eq(ra, [90.0, -90.0][pick(93, 2) as usize], 1.0);
    let p = ProperMotion::from_mu_alpha_star::<Per<Degree, Year>>(Dpy::new(mr), Dpy::new(md));
    check(set_proper_motion_since_j2000(pole, p, JulianDate::new(jd)).is_err(), 5);
}
/// Straight motion through space.
#[no_mangle]
pub extern "C" fn hr_sc_space() {
    let t0 = [2451545.0, 2448349.0625][pick(90, 2) as usize];
    let dt = [36525.0, -18262.5][pick(91, 2) as usize];
    let yr = dt / 365.25;
    let (ra, dec): (f64, f64) = [(269.0, 4.7), (10.0, -60.0), (120.0, 85.0)][pick(92, 3) as usize];
    let par = 545.4;
    // each of the three motions in turn takes any value
    let w = pick(94, 3);
    let mr = if w == 0 { f64_in(1, -3000.0, 3000.0) } else { 800.0 };
    let md = if w == 1 { f64_in(2, -11000.0, 11000.0) } else { -300.0 };
    let rv = if w == 2 { f64_in(3, -300.0, 300.0) } else { -110.0 };
    let r = 1.0 / (par / 3.6e6 * D);
    let (sa, ca, sd, cd) = ((ra * D).sin(), (ra * D).cos(), (dec * D).sin(), (dec * D).cos());
    let k = r / 3.6e6 * D * yr;
    let radial = r + rv * 86400.0 / 149597870.7 * dt;
    let (er, ea, ed) = ([cd * ca, cd * sa, sd], [-sa, ca, 0.0], [-sd * ca, -sd * sa, cd]);
    let mut want = [0.0; 3];
    for i in 0..3 { want[i] = radial * er[i] + k * mr * ea[i] + k * md * ed[i]; }
    // the star does not pass through the Sun or above a pole
    assume(want[0] * want[0] + want[1] * want[1] > 1e-4 * r * r);
    let m = StarSpaceMotion { pm_ra_cos_dec: Mpy::new(mr), pm_dec: Mpy::new(md), parallax: MilliArcseconds::new(par), radial_velocity: siderust::qtty::velocity::Velocity::<Kilometer, unit::Second>::new(rv) };
    reach(1);
    let j = |t: f64| JulianDate::new(t);
    let o = if t0 == 2451545.0 { propagate_space_motion_since_j2000(eq(ra, dec, 1.0), m, j(t0 + dt)) } else { propagate_space_motion(eq(ra, dec, 1.0), m, j(t0 + dt), j(t0)) };
    match o {
        Ok(o) => {
            let n = o.distance.value();
            let (a, d) = (o.ra().value() * D, o.dec().value() * D);
            check(close(n * d.sin(), want[2], 1e-9 * r), 1);
            check(close(n * n, want[0] * want[0] + want[1] * want[1] + want[2] * want[2], 1e-8 * r * r), 2);
            // direction in the equator: cross product vanishes (which of the two half turns: not decided)
            check(close(want[0] * a.sin(), want[1] * a.cos(), 1e-9 * r), 3);
        }
        Err(_) => check(false, 5),
    }
}
/// A parallax that is not positive, or a star at a pole, cannot be moved.
#[no_mangle]
pub extern "C" fn h_sc_refuse() {
    let par = f64_(1);
    assume(par <= 0.0);
    let m = StarSpaceMotion { pm_ra_cos_dec: Mpy::new(1.0), pm_dec: Mpy::new(2.0), parallax: MilliArcseconds::new(par), radial_velocity: siderust::qtty::velocity::Velocity::<Kilometer, unit::Second>::new(3.0) };
    reach(1);
    check(propagate_space_motion_since_j2000(eq(10.0, 20.0, 1.0), m, JulianDate::new(2460000.5)).is_err(), 1);
    let m = StarSpaceMotion { parallax: MilliArcseconds::new(5.0), ..m };
    check(propagate_space_motion_since_j2000(eq(10.0, 90.0, 1.0), m, JulianDate::new(2460000.5)).is_err(), 2);
    check(propagate_space_motion_since_j2000(eq(10.0, -90.0, 1.0), m, JulianDate::new(2460000.5)).is_err(), 3);
}
