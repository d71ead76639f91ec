use crate::sv::*;
use siderust::astro::conic::{ConicOrbit, MeanMotionOrbit};
use siderust::astro::conic_equations::{calculate_conic_position, calculate_mean_motion_position, calculate_orbit_position, calculate_orbit_position_with_mu, calculate_prepared_position};
use siderust::astro::orbit::{KeplerianOrbit, PreparedOrbit};
use siderust::coordinates::cartesian::position::EclipticMeanJ2000;
use siderust::qtty::angular_rate::AngularRate;
use siderust::qtty::*;
use siderust::time::JulianDate;
const TAU: f64 = core::f64::consts::TAU;
const PI: f64 = core::f64::consts::PI;
const D: f64 = PI / 180.0;
const K: f64 = 0.01720209895;
fn close(a: f64, b: f64, tol: f64) -> bool { let d = a - b; d < tol && d > -tol }
fn near(a: f64, b: f64) -> bool { close(a, b, 1e-9) }
fn au(x: f64) -> AstronomicalUnits { AstronomicalUnits::new(x) }
fn deg(x: f64) -> Degrees { Degrees::new(x) }
fn jd(x: f64) -> JulianDate { JulianDate::new(x) }
type Pos = EclipticMeanJ2000<AstronomicalUnit>;
fn arr(p: &Pos) -> [f64; 3] { [p.x().value(), p.y().value(), p.z().value()] }
/// Kepler's equation by bisection.
fn kepler(e: f64, m: f64) -> f64 {
    let (mut a, mut b) = (m - 1.1, m + 1.1);
    for _ in 0..90 { let c = 0.5 * (a + b); if c - e * c.sin() < m { a = c } else { b = c } }
    0.5 * (a + b)
}
fn kepler_h(e: f64, m: f64) -> f64 {
    let (mut a, mut b) = (-40.0f64, 40.0f64);
    for _ in 0..110 { let c = 0.5 * (a + b); if e * c.sinh() - c < m { a = c } else { b = c } }
    0.5 * (a + b)
}
/// Orbital plane to ecliptic: Rz(node) Rx(i) Rz(peri).
fn rot(x: f64, y: f64, i: f64, n: f64, w: f64) -> [f64; 3] {
    let (si, ci, sn, cn, sw, cw) = ((i * D).sin(), (i * D).cos(), (n * D).sin(), (n * D).cos(), (w * D).sin(), (w * D).cos());
    let (x1, y1) = (cw * x - sw * y, sw * x + cw * y);
    let (y2, z2) = (ci * y1, si * y1);
    [cn * x1 - sn * y2, sn * x1 + cn * y2, z2]
}
fn angles() -> (f64, f64, f64) { (f64_in(1, 0.0, 180.0), f64_in(2, -360.0, 720.0), f64_in(3, -360.0, 720.0)) }
fn same(p: &Pos, w: [f64; 3], id: u32) { let g = arr(p); for k in 0..3 { check(near(g[k], w[k]), id); } }
const EM: [(f64, f64); 8] = [(0.0, 40.0), (0.1, 0.0), (0.0167, 100.0), (0.2, 250.0), (0.5, 180.0), (0.9, 5.0), (0.7, 359.0), (0.97, 300.0)];
/// Mean-motion orbits: M = n·Δt, periapsis at epoch.
#[no_mangle]
pub extern "C" fn hr_kp_mean() {
    let (e, m) = EM[pick(90, 8) as usize];
    let n = [0.25, 0.9856076686][pick(91, 2) as usize];
    // whole turns before and after the epoch do not matter
    let turns = [0.0, 3.0, -2.0][pick(92, 3) as usize];
    let dt = (m + 360.0 * turns) / n;
    let (i, nd, w) = angles();
    let a = f64_in(4, 0.05, 100.0);
    let o = match MeanMotionOrbit::try_new(au(a), e, deg(i), deg(nd), deg(w), AngularRate::<Degree, Day>::new(n), jd(2451545.0)) { Ok(o) => o, Err(_) => { check(false, 1); return; } };
    let ec = kepler(e, m * D);
    let want = rot(a * (ec.cos() - e), a * (1.0 - e * e).sqrt() * ec.sin(), i, nd, w);
    let t = jd(2451545.0 + dt);
    reach(1);
    match o.position_at(t) { Ok(p) => same6(&p, want, a, 2), Err(_) => check(false, 3) }
    match calculate_mean_motion_position(&o, t) { Ok(p) => same6(&p, want, a, 4), Err(_) => check(false, 5) }
}
/// Relative comparison: 1e-6 of the size covers the rounding of the epochs.
fn same6(p: &Pos, w: [f64; 3], a: f64, id: u32) { let g = arr(p); for k in 0..3 { let d = g[k] - w[k]; check(d < 1e-6 * a && d > -1e-6 * a, id); } }
/// Closed conics: a = q/(1−e), M = M0 + k a^-3/2 Δt.
#[no_mangle]
pub extern "C" fn hr_kp_conic_now() {
    let (e, m) = EM[pick(90, 8) as usize];
    let turns = [0.0, 2.0, -1.0][pick(92, 3) as usize];
    let (i, nd, w) = angles();
    let q = f64_in(4, 0.05, 100.0);
    let o = match ConicOrbit::try_new(au(q), e, deg(i), deg(nd), deg(w), deg(m + 360.0 * turns), jd(2451545.0)) { Ok(o) => o, Err(_) => { check(false, 1); return; } };
    let ec = kepler(e, m * D);
    let a = q / (1.0 - e);
    let want = rot(a * (ec.cos() - e), a * (1.0 - e * e).sqrt() * ec.sin(), i, nd, w);
    reach(1);
    match o.position_at(jd(2451545.0)) { Ok(p) => same6(&p, want, a, 2), Err(_) => check(false, 3) }
}
/// Advancing any orbit: M = M0 + k a^-3/2 Δt, backwards and forwards, for each of the five ways to ask.
#[no_mangle]
pub extern "C" fn hr_kp_advance() {
    let e = [0.0, 0.05, 0.6, 0.95][pick(90, 4) as usize];
    let q: f64 = [0.3, 1.0, 5.2][pick(91, 3) as usize];
    let dt: f64 = [-4000.0, -12.5, 0.25, 90.0, 10000.0][pick(92, 5) as usize];
    let m0 = [0.0, 200.0, -30.0][pick(93, 3) as usize];
    let (i, nd, w) = angles();
    let a = q / (1.0 - e);

    let m = m0 * D + K * dt / (a * a * a).sqrt();
    let m = m - TAU * (m / TAU).floor();
    let ec = kepler(e, m);
    let want = rot(a * (ec.cos() - e), a * (1.0 - e * e).sqrt() * ec.sin(), i, nd, w);
    let t0 = jd(2451545.0);
    let t = jd(2451545.0 + dt);
    reach(1);
    let k = KeplerianOrbit::new(au(a), e, deg(i), deg(nd), deg(w), deg(m0), t0);
    match pick(94, 5) {
        0 => match ConicOrbit::try_new(au(q), e, deg(i), deg(nd), deg(w), deg(m0), t0) { Ok(o) => match calculate_conic_position(&o, t) { Ok(p) => same6(&p, want, a, 1), Err(_) => check(false, 2) }, Err(_) => check(false, 3) },
        1 => same6(&calculate_orbit_position(&k, t), want, a, 4),
        2 => same6(&k.kepler_position(t), want, a, 5),
        3 => match PreparedOrbit::try_from_elements(au(a), e, deg(i), deg(nd), deg(w), deg(m0), t0) { Ok(o) => { same6(&o.position_at(t), want, a, 6); same6(&calculate_prepared_position(&o, t), want, a, 7) } Err(_) => check(false, 8) },
        _ => {
            let mu = K * K * 149597870.7 * 149597870.7 * 149597870.7 / (86400.0 * 86400.0);
            same6(&calculate_orbit_position_with_mu(&k, t, GravitationalParameter::new(mu)), want, a, 9);
            same6(&k.position_with_mu(t, GravitationalParameter::new(mu)), want, a, 10);
        }
    }
}
/// About another body: n = sqrt(mu/a³).
#[no_mangle]
pub extern "C" fn hr_kp_mu() {
    let e = [0.001, 0.3, 0.8][pick(90, 3) as usize];
    let a = [384400.0 / 149597870.7, 42164.0 / 149597870.7][pick(91, 2) as usize];
    let dt = [0.02, 0.3, -0.4][pick(92, 3) as usize];
    let mu: f64 = [398600.4418, 126686531.9][pick(93, 2) as usize];
    let m0 = 77.0;
    let (i, nd, w) = angles();
    let ak: f64 = a * 149597870.7;
    let m = m0 * D + (mu / (ak * ak * ak)).sqrt() * dt * 86400.0;
    let m = m - TAU * (m / TAU).floor();
    let ec = kepler(e, m);
    let want = rot(a * (ec.cos() - e), a * (1.0 - e * e).sqrt() * ec.sin(), i, nd, w);
    let k = KeplerianOrbit::new(au(a), e, deg(i), deg(nd), deg(w), deg(m0), jd(2451545.0));
    reach(1);
    let g = arr(&k.position_with_mu(jd(2451545.0 + dt), GravitationalParameter::new(mu)));
    // the epoch difference carries about 1e-9 days
    for j in 0..3 { check(close(g[j], want[j], 1e-5 * a), 1); }
}
/// Open conics.
#[no_mangle]
pub extern "C" fn hr_kp_hyper() {
    let e: f64 = [1.01, 1.2, 2.5, 6.0][pick(90, 4) as usize];
    let m: f64 = [0.0, 0.3, -2.0, 10.0, -0.01][pick(91, 5) as usize];
    let (i, nd, w) = angles();
    let q = f64_in(4, 0.05, 100.0);
    let o = match ConicOrbit::try_new(au(q), e, deg(i), deg(nd), deg(w), deg(m / D), jd(2451545.0)) { Ok(o) => o, Err(_) => { check(false, 1); return; } };
    let h = kepler_h(e, m);
    let a = q / (e - 1.0);
    let want = rot(a * (e - h.cosh()), a * (e * e - 1.0).sqrt() * h.sinh(), i, nd, w);
    reach(1);
    match o.position_at(jd(2451545.0)) { Ok(p) => same6(&p, want, a * h.cosh(), 2), Err(_) => check(false, 3) }
}
#[no_mangle]
pub extern "C" fn hr_kp_hyper_dt() {
    let e: f64 = [1.05, 1.9, 3.36][pick(90, 3) as usize];
    let q: f64 = [0.25, 2.0][pick(91, 2) as usize];
    let dt: f64 = [-500.0, -3.0, 20.0, 3000.0][pick(92, 4) as usize];
    let m0: f64 = [0.0, 0.4][pick(93, 2) as usize];
    let (i, nd, w) = angles();
    let a = q / (e - 1.0);
    let m = m0 + K * dt / (a * a * a).sqrt();
    let h = kepler_h(e, m);
    let want = rot(a * (e - h.cosh()), a * (e * e - 1.0).sqrt() * h.sinh(), i, nd, w);
    let o = match ConicOrbit::try_new(au(q), e, deg(i), deg(nd), deg(w), deg(m0 / D), jd(2451545.0)) { Ok(o) => o, Err(_) => { check(false, 1); return; } };
    reach(1);
    match o.position_at(jd(2451545.0 + dt)) { Ok(p) => same6(&p, want, a * h.cosh(), 2), Err(_) => check(false, 3) }
}
/// Periapsis and apoapsis distances for every eccentricity.
#[no_mangle]
pub extern "C" fn hr_kp_apsides() {
    let e = f64_in(5, 0.0, 0.99);
    let q = f64_in(4, 0.05, 100.0);
    let o = match ConicOrbit::try_new(au(q), e, deg(20.0), deg(50.0), deg(70.0), deg(0.0), jd(2451545.0)) { Ok(o) => o, Err(_) => { check(false, 1); return; } };
    let want = rot(q, 0.0, 20.0, 50.0, 70.0);
    reach(1);
    match o.position_at(jd(2451545.0)) { Ok(p) => same(&p, want, 2), Err(_) => check(false, 3) }
}
fn ok(x: f64) -> bool { x.is_finite() }
/// Which elements are accepted, over every floating-point value.
#[no_mangle]
pub extern "C" fn h_kp_valid() {
    // one element arbitrary, the others good
    let mut v = [1.5, 0.25, 30.0, 40.0, 50.0, 60.0];
    v[pick(90, 6) as usize] = f64_(1);
    let [q, e, i, nd, w, m] = v;
    let t = jd(2451545.0);
    let size = ok(q) && q > 0.0;
    let orient = ok(i) && ok(nd) && ok(w);
    let pole = i >= 0.0 && i <= 180.0;
    reach(1);
    let shape_c = size && ok(e) && e >= 0.0 && e != 1.0;
    let c = ConicOrbit::try_new(au(q), e, deg(i), deg(nd), deg(w), deg(m), t);
    check(!c.is_ok() || (shape_c && orient && ok(m)), 1);
    check(c.is_ok() || !(shape_c && orient && pole && ok(m)), 2);
    let shape_e = size && ok(e) && e >= 0.0 && e < 1.0;
    let k = KeplerianOrbit::try_new(au(q), e, deg(i), deg(nd), deg(w), deg(m), t);
    check(!k.is_ok() || (shape_e && orient && ok(m)), 3);
    check(k.is_ok() || !(shape_e && orient && pole && ok(m)), 4);
    let n = MeanMotionOrbit::try_new(au(q), e, deg(i), deg(nd), deg(w), AngularRate::<Degree, Day>::new(m), t);
    check(!n.is_ok() || (shape_e && orient && ok(m) && m > 0.0), 5);
    check(n.is_ok() || !(shape_e && orient && pole && ok(m) && m > 0.0), 6);
    if let Ok(c) = c { reach(2); check((c.kind() == siderust::astro::conic::ConicKind::Elliptic) == (e < 1.0), 7); }
}
