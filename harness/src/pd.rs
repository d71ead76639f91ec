use crate::sv::*;
use siderust::astro::dynamics::forces::AccelerationModel;
use siderust::astro::dynamics::*;
use siderust::coordinates::centers::Geocentric;
use siderust::coordinates::frames::GCRS;
use siderust::pod::estimation::NormalEquations;
use siderust::pod::force::{mass_flow_rate, thrust_acceleration, LowThrustLog, ThrustArc};
use siderust::pod::observation::gnss_obs::*;
use siderust::pod::observation::*;
use siderust::pod::problem::covariance::*;
use siderust::pod::problem::parameter::*;
use siderust::pod::process::noise::*;
use siderust::pod::propagation::{Integrator, Rk4Integrator};
use siderust::pod::qc::*;
use siderust::qtty::*;
use siderust::time::JulianDate;
type P3 = siderust::astro::dynamics::Position<GCRS>;
type V3 = siderust::astro::dynamics::Velocity<GCRS>;
type OS = siderust::astro::dynamics::OrbitState;
const C: f64 = 299_792_458.0;
fn near(a: f64, b: f64) -> bool { let d = a - b; d < 1e-12 && d > -1e-12 }
fn close(a: f64, b: f64, tol: f64) -> bool { let d = a - b; d < tol && d > -tol }
fn dot(a: [f64; 3], b: [f64; 3]) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn sub(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn vec(tag: u32, b: f64) -> [f64; 3] { [f64_in(tag, -b, b), f64_in(tag + 1, -b, b), f64_in(tag + 2, -b, b)] }
fn p3(r: [f64; 3]) -> P3 { P3::new(r[0], r[1], r[2]) }
fn v3(r: [f64; 3]) -> V3 { V3::new(r[0], r[1], r[2]) }
fn st(t: JulianDate, r: [f64; 3], v: [f64; 3]) -> OS { OS::new(t.to_j2000s(), p3(r), v3(v)) }
fn t0() -> JulianDate { JulianDate::new(2459000.25) }
struct Clk { r: f64, s: f64 }
impl ProviderBundle for Clk {
    fn gnss_satellite_state_gcrs(&self, _: &str, _: JulianDate) -> Option<(P3, V3)> { None }
    fn gnss_satellite_clock_m(&self, prn: &str, t: JulianDate) -> Meters { if prn == "G07" && t == t0() { Meters::new(self.s) } else { Meters::new(1e9) } }
    fn receiver_clock_m(&self) -> Meters { Meters::new(self.r) }
    fn station_gcrs_km(&self, _: &str, _: JulianDate) -> Option<P3> { None }
}
const SAT: [[f64; 3]; 3] = [[26560.0, 0.0, 0.0], [-12000.0, 15000.0, 17500.0], [3000.0, -22000.0, -14000.0]];
/// Range, clocks, troposphere, Earth rotation and relativistic terms of a GNSS observation, in metres.
struct Geo { rx: [f64; 3], sat: [f64; 3], v: [f64; 3], c: Clk, m: f64, trop: TropModel, tm: f64 }
fn geo() -> Geo {
    let (rx, sat, v) = (vec(1, 1e4), SAT[pick(90, 3) as usize], vec(4, 5.0));
    let (trop, tm) = if pick(91, 2) == 0 { (TropModel::None, 0.0) } else {
        let e = f64_in(12, 0.0, 1.5);
        let s = e.sin();
        let s = if decide(s > 0.07) { s } else { assume(s < 0.07); 0.07 };
        (TropModel::Saastamoinen { elevation_rad: e }, 0.002277 * (1013.25 + (1255.0 / 288.15 + 0.05) * 11.691) / s)
    };
    Geo { rx, sat, v, c: Clk { r: f64_in(7, -1e6, 1e6), s: f64_in(8, -1e6, 1e6) }, m: f64_in(9, 0.0, 1e8), trop, tm }
}
fn model(g: &Geo) -> f64 {
    let d = sub(g.rx, g.sat);
    let w = OMEGA_EARTH_RAD_S.value();
    dot(d, d).sqrt() * 1000.0 + g.c.r - g.c.s + g.tm + w * (g.sat[0] * g.rx[1] - g.sat[1] * g.rx[0]) * 1e6 / C - 2.0 * dot(g.sat, g.v) * 1e6 / C
}
fn pr(g: &Geo, iono: IonoModel, f: f64) -> f64 {
    let o = GnssPseudorangeObs { prn: "G07".to_string(), epoch: t0(), measured_m: Meters::new(g.m), sigma: Meters::new(1.0), sat_pos_gcrs_km: p3(g.sat), sat_vel_gcrs_km_s: v3(g.v), trop: g.trop, iono, frequency_hz: Quantity::<siderust::qtty::Hertz>::new(f) };
    match o.residual(&st(t0(), g.rx, [0.0, 7.5, 0.0]), &g.c) { Ok(x) => x, Err(_) => { check(false, 99); panic!() } }
}
fn ph(g: &Geo, iono: IonoModel, f: f64, n: i32) -> (f64, f64) {
    let o = GnssCarrierPhaseObs { prn: "G07".to_string(), epoch: t0(), measured_m: Meters::new(g.m), sigma: Meters::new(1.0), sat_pos_gcrs_km: p3(g.sat), sat_vel_gcrs_km_s: v3(g.v), trop: g.trop, iono, frequency_hz: Quantity::<siderust::qtty::Hertz>::new(f), integer_ambiguity: n };
    match o.residual(&st(t0(), g.rx, [0.0, 7.5, 0.0]), &g.c) { Ok(x) => (x.residual_m, x.cycles), Err(_) => { check(false, 99); panic!() } }
}
#[no_mangle]
pub extern "C" fn hr_pd_pseudorange() {
    let g = geo();
    let r = pr(&g, if pick(92, 2) == 0 { IonoModel::None } else { IonoModel::IonoFree }, 1.57542e9);
    reach(1);
    check(close(r, g.m - model(&g), 1e-6), 1);
}
#[no_mangle]
pub extern "C" fn hr_pd_phase() {
    let g = geo();
    let f = [1.57542e9, 1.2276e9, 1.17645e9][pick(92, 3) as usize];
    let n = [0, 5, -1234567][pick(93, 3) as usize];
    let (r, c) = ph(&g, IonoModel::None, f, n);
    reach(1);
    check(close(r, g.m - model(&g) - n as f64 * (C / f), 1e-6), 1);
    check(close(c, r * (f / C), 1e-6), 2);
}
/// Klobuchar delay of IS-GPS-200, later for pseudoranges, earlier for phases, scaled by the square of the frequency.
#[no_mangle]
pub extern "C" fn hr_pd_iono() {
    let g = Geo { rx: [7000.0, 100.0, 200.0], sat: SAT[0], v: [0.0; 3], c: Clk { r: 0.0, s: 0.0 }, m: f64_in(9, 0.0, 1e8), trop: TropModel::None, tm: 0.0 };
    let al = [f64_in(1, -1e-7, 1e-7), f64_in(2, -1e-7, 1e-7), f64_in(3, -1e-7, 1e-7), f64_in(4, -1e-7, 1e-7)];
    let be = [[90112.0, 65536.0, -131072.0, -131072.0], [10000.0, 0.0, 0.0, 0.0]][pick(94, 2) as usize];
    let (la, lo, e, az, t) = [(0.2, 0.5, 0.25, 0.3, 50400.0), (0.45, 1.9, 0.05, 0.0, 80000.0), (-0.3, 1.1, 0.45, 1.5, 1000.0), (-0.44, 0.01, 0.1, 1.0, 86399.0), (0.1, 0.9, 0.2, 0.75, 18000.0)][pick(95, 5) as usize];
    let k = KlobucharParams { alpha: al, beta: be, receiver_lat_sc: la, receiver_lon_sc: lo, elevation_sc: e, azimuth_sc: az, utc_seconds: t };
    let pi = core::f64::consts::PI;
    let psi = 0.0137 / (e + 0.11) - 0.022;
    let fi: f64 = la + psi * (az * pi as f64).cos();
    let fi = if fi > 0.416 { 0.416 } else if fi < -0.416 { -0.416 } else { fi };
    let li = lo + psi * (az * pi).sin() / (fi * pi).cos();
    let fm = fi + 0.064 * ((li - 1.617) * pi).cos();
    let mut lt: f64 = 43200.0 * li + t;
    while lt >= 86400.0 { lt -= 86400.0; }
    while lt < 0.0 { lt += 86400.0; }
    let poly = |c: [f64; 4]| c[0] + c[1] * fm + c[2] * (fm * fm) + c[3] * (fm * fm * fm);
    let per = poly(be);
    let per = if per < 72000.0 { 72000.0 } else { per };
    let amp = poly(al);
    let amp = if decide(amp > 0.0) { amp } else { assume(amp < 0.0); 0.0 };
    let x = 2.0 * pi * (lt - 50400.0) / per;
    let z = 0.53 - e;
    let slant = 1.0 + 16.0 * (z * z * z);
    let iv = if x < pi / 2.0 && x > -pi / 2.0 { 5e-9 + amp * x.cos() } else { 5e-9 };
    let f = [1.57542e9, 1.2276e9, 1.17645e9][pick(92, 3) as usize];
    let i = C * slant * iv * (1.57542e9 / f) * (1.57542e9 / f);
    reach(if x < pi / 2.0 && x > -pi / 2.0 { 1 } else { 2 });
    check(close(pr(&g, IonoModel::None, f) - pr(&g, IonoModel::Klobuchar(k), f), i, 1e-7), 1);
    check(close(ph(&g, IonoModel::None, f, 0).0 - ph(&g, IonoModel::Klobuchar(k), f, 0).0, -i, 1e-7), 2);
}
/// Two-way range at the bounce point, Marini-Murray and Shapiro delays.
#[no_mangle]
pub extern "C" fn hr_pd_slr() {
    let s = [[6378.0, 0.0, 0.0], [3000.0, 4000.0, -4000.0]][pick(90, 2) as usize];
    let q = [[7000.0, 1000.0, 500.0], [8000.0, 9000.0, -2500.0]][pick(91, 2) as usize];
    let v = [[0.0, 0.0, 0.0], [-3.0, 5.5, 4.25]][pick(92, 2) as usize];
    let (m, e, l) = (f64_in(1, 0.0, 1e8), f64_in(2, 0.1, 1.5), f64_in(3, 0.3, 1.1));
    let o = SlrNormalPointObs { station_id: "X".to_string(), epoch: t0(), measured_m: Meters::new(m), sigma: Meters::new(0.01), station_gcrs_km: p3(s), sat_pos_gcrs_km: p3(q), sat_vel_gcrs_km_s: v3(v), elevation_rad: e, wavelength_um: l };
    assume(e.sin() > 0.05 && e.cos() > 0.05);
    let r = match Observation::residual(&o, &st(t0(), q, v), &Clk { r: f64_in(5, -1e6, 1e6), s: 3.0 }) { Ok(r) => r, Err(_) => { check(false, 99); return; } };
    reach(1);
    let d = sub(s, q);
    let tau = dot(d, d).sqrt() * 1000.0 / C;
    let q2 = [q[0] - v[0] * tau, q[1] - v[1] * tau, q[2] - v[2] * tau];
    let d = sub(s, q2);
    let (rho, rs, rq) = (dot(d, d).sqrt(), dot(s, s).sqrt(), dot(q2, q2).sqrt());
    let trop = (0.9650 + 0.0164 / (l * l) + 0.000228 / (l * l * l * l)) * (0.002277 * 1013.25) / (e.sin() + 0.0014 / (e.sin() / e.cos() + 0.045));
    let rel = 4.0 * 3.986004418e14 / (C * C) * ((rs + rq + rho) / (rs + rq - rho)).ln();
    check(close(r, m - 2000.0 * rho - 2.0 * trop - rel, 1e-6), 1);
}
/// Corrections act along the line of sight, in turn.
#[no_mangle]
pub extern "C" fn hr_pd_corrections() {
    let (rx, sat) = (vec(1, 1e4), SAT[pick(90, 3) as usize]);
    let d = sub(sat, rx);
    assume(dot(d, d) > 100.0);
    let (a, b) = (vec(4, 1e-2), vec(7, 10.0));
    let rho = f64_in(10, 0.0, 1e8);
    let (m, k) = (dot(d, d).sqrt(), pick(91, 3));
    let mut reg = CorrectionRegistry::new();
    if k != 1 { reg.push(Box::new(PhaseCenterOffset::new(a))); }
    if k != 0 { reg.push(Box::new(EarthTideDisplacement::from_metres(b[0], b[1], b[2]))); }
    let r = reg.apply(Meters::new(rho), p3(rx), p3(sat)).value();
    reach(1);
    let e = rho - if k != 1 { dot(a, d) / m * 1000.0 } else { 0.0 } - if k != 0 { dot(b, d) / m } else { 0.0 };
    check(close(r, e, 1e-9), 1);
    check(reg.len() == if k == 2 { 2 } else { 1 }, 2);
    let (x, y) = ([6878.0, 100.0, -50.0], SAT[1]);
    let rho = [1.2e7, 2.5e7][pick(92, 2) as usize];
    let (rx, ry) = (dot(x, x).sqrt() * 1000.0, dot(y, y).sqrt() * 1000.0);
    let s = ShapiroDelay.apply_to_range(Meters::new(rho), p3(x), p3(y)).value();
    check(close(s - rho, 2.0 * 3.986004418e14 / (C * C) * ((rx + ry + rho) / (rx + ry - rho)).ln(), 1e-7), 3);
}
/// Exactly the observations of the epoch come back, in order.
#[no_mangle]
pub extern "C" fn hr_pd_batch() {
    let mut b = ObservationBatch::new();
    let m = [f64_in(1, 0.0, 1e7), f64_in(2, 0.0, 1e7), f64_in(3, 0.0, 1e7)];
    let ep = [2459000.25, 2459000.25000001, 2459000.5];
    let k = [pick(91, 3) as usize, pick(92, 3) as usize, pick(93, 3) as usize];
    for i in 0..3 {
        b.push(Box::new(GnssPseudorangeObs { prn: "G08".to_string(), epoch: JulianDate::new(ep[k[i]]), measured_m: Meters::new(m[i]), sigma: Meters::new(1.0), sat_pos_gcrs_km: p3(SAT[0]), sat_vel_gcrs_km_s: v3([0.0; 3]), trop: TropModel::None, iono: IonoModel::None, frequency_hz: Quantity::<siderust::qtty::Hertz>::new(1e9) }));
    }
    let w = pick(94, 3) as usize;
    let s = st(JulianDate::new(ep[w]), [7000.0, 0.0, 0.0], [0.0, 7.5, 0.0]);
    let r = b.residuals_at_epoch_with(JulianDate::new(ep[w]), &s, &Clk { r: 1e9, s: 0.0 });
    reach(1);
    check(r.len() == k.iter().filter(|&&x| x == w).count(), 1);
    check(b.len() == 3 && b.epochs().len() == 3 && b.residuals_at_epoch(JulianDate::new(ep[w])).len() == r.len(), 2);
    let mut j = 0;
    for i in 0..3 {
        if k[i] != w { continue; }
        match &r[j] { Ok(ObsResidual::Scalar(x)) => check(close(*x, m[i] - 19_560_000.0, 1e-4), 3), _ => check(false, 4) }
        j += 1;
    }
}
/// Process noise of integrated white acceleration and Gauss-Markov scale factors.
#[no_mangle]
pub extern "C" fn hr_pd_noise() {
    let psd = [f64_in(1, -1.0, 1.0), f64_in(2, -1.0, 1.0), f64_in(3, -1.0, 1.0)];
    let dt = f64_in(4, -10.0, 1e3);
    let k = pick(90, 8);
    let gm = |i: u32| GaussMarkovParams { sigma: f64_in(10 + i, -1.0, 5.0), tau: Second::new(f64_in(12 + i, -100.0, 1e5)) };
    let (d, s) = (gm(0), gm(1));
    let e = [f64_in(14, -1.0, 1.0), f64_in(15, -1.0, 1.0), f64_in(16, -1.0, 1.0)];
    let m = ProcessNoiseModel { position_velocity: WhiteAccelPsd(psd), drag_scale: (k & 1 != 0).then_some(d), srp_scale: (k & 2 != 0).then_some(s), empirical_white: (k & 4 != 0).then_some([KmPerSecondsSquared::new(e[0]), KmPerSecondsSquared::new(e[1]), KmPerSecondsSquared::new(e[2])]) };
    let nd = (k & 1) as usize; let ns = ((k >> 1) & 1) as usize; let ne = ((k >> 2) & 1) as usize;
    let n = 6 + nd + ns + 3 * ne;
    check(m.dim() == n, 1);
    let okg = |g: &GaussMarkovParams| g.sigma >= 0.0 && g.tau.value() > 0.0;
    let valid = dt >= 0.0 && psd[0] >= 0.0 && psd[1] >= 0.0 && psd[2] >= 0.0 && (nd == 0 || okg(&d)) && (ns == 0 || okg(&s)) && (ne == 0 || (e[0] >= 0.0 && e[1] >= 0.0 && e[2] >= 0.0));
    match m.q_matrix(Second::new(dt)) {
        Err(_) => { reach(2); check(!valid, 2); }
        Ok(q) => {
            reach(1);
            check(valid, 3);
            check(q.len() == n, 4);
            for i in 0..n {
                check(q[i].len() == n, 5);
                for j in 0..n {
                    let w = if i < 6 && j < 6 {
                        let p = psd[i % 3];
                        if i % 3 != j % 3 { 0.0 } else if i == j { if i < 3 { p * dt * dt * dt / 3.0 } else { p * dt } } else { p * dt * dt / 2.0 }
                    } else if i != j { 0.0 }
                    else if i < 6 + nd { d.sigma * d.sigma * (1.0 - (-2.0 * dt / d.tau.value()).exp()) }
                    else if i < 6 + nd + ns { s.sigma * s.sigma * (1.0 - (-2.0 * dt / s.tau.value()).exp()) }
                    else { let x = e[i - 6 - nd - ns]; x * x * dt };
                    check(near(q[i][j], w), 6);
                }
            }
        }
    }
}
/// Piecewise-constant noise: the first interval not yet over, the last one for ever.
#[no_mangle]
pub extern "C" fn hr_pd_sigma() {
    let n = pick(90, 4) as usize;
    let d = [f64_in(1, 0.0, 1e4), f64_in(2, 0.0, 1e4), f64_in(3, 0.0, 1e4)];
    let t = f64_in(4, 0.0, 5e4);
    let p = ProcessNoise::PiecewiseConstant { intervals: (0..n).map(|i| PiecewiseSegment { duration: Second::new(d[i]), sigma_pos_m: 1.0 + i as f64, sigma_vel_mps: 10.0 + i as f64 }).collect() };
    let (a, b) = p.sigma_at(Second::new(t));
    reach(1);
    let mut w = n;
    let mut c = 0.0;
    for i in (0..n).rev() { c = d[..=i].iter().sum::<f64>(); if t < c { w = i; } }
    let _ = c;
    if n == 0 { check(a == 0.0 && b == 0.0, 1); return; }
    let w = if w == n { n - 1 } else { w };
    check(a == 1.0 + w as f64 && b == 10.0 + w as f64, 2);
    let (x, y) = ProcessNoise::WhiteNoise { sigma_pos_m: t, sigma_vel_mps: d[0] }.sigma_at(Second::new(d[1]));
    check(x == t && y == d[0], 3);
}
/// Mean, root mean square, standard deviation and extremes of residuals, by group and in all.
#[no_mangle]
pub extern "C" fn hr_pd_stats() {
    let n = pick(90, 5) as usize;
    let x: [f64; 4] = [f64_in(1, -1e3, 1e3), f64_in(2, -1e3, 1e3), f64_in(3, -1e3, 1e3), f64_in(4, -1e3, 1e3)];
    let s = ResidualStats::from_slice(&x[..n]);
    check(s.n == n, 1);
    if n == 0 { check(s.mean == 0.0 && s.std == 0.0 && s.rms == 0.0, 2); return; }
    reach(1);
    let k = n as f64;
    let mean = x[..n].iter().sum::<f64>() / k;
    let ss: f64 = x[..n].iter().map(|v| v * v).sum();
    let vs: f64 = x[..n].iter().map(|v| (v - mean) * (v - mean)).sum();
    check(near(s.mean, mean), 3);
    check(near(s.rms, (ss / k).sqrt()), 4);
    check(near(s.std, if n > 1 { (vs / (k - 1.0)).sqrt() } else { 0.0 }), 5);
    for v in &x[..n] { check(s.min <= *v && s.max >= *v, 6); }
    check(x[..n].iter().any(|v| *v == s.min) && x[..n].iter().any(|v| *v == s.max), 7);
    let g = ResidualsByGroup::from_pairs((0..n).map(|i| (if i % 2 == 0 { "a" } else { "b" }, x[i])));
    check(g.overall.n == n && near(g.overall.mean, mean), 8);
    check(g.groups.len() == if n > 1 { 2 } else { 1 }, 9);
    match g.groups.get("a") { Some(a) => { check(a.n == (n + 1) / 2, 10); check(near(a.mean, if n < 3 { x[0] } else { (x[0] + x[2]) / 2.0 }), 11); } None => check(false, 12) }
}
/// Differences between two orbits along the axes of the reference one.
#[no_mangle]
pub extern "C" fn hr_pd_rtn() {
    let i = pick(90, 3) as usize;
    let (r, v) = ([[7000.0, 0.0, 0.0], [3000.0, 4000.0, 5500.0], [-4100.0, 39000.0, -14300.0]][i], [[0.0, 6.5, 3.5], [-5.0, 4.0, 2.25], [1.5, 1.0, -2.0]][i]);
    let (d, u) = (vec(1, 10.0), vec(4, 0.1));
    let e = [r[0] + d[0], r[1] + d[1], r[2] + d[2]];
    let f = [r[0] - 2.0 * d[0], r[1] + d[2], r[2]];
    let t = t0();
    let o = rtn_diff(&[st(t, e, u), st(t, f, u), st(t, e, u)], &[st(t, r, v), st(t, r, v)]);
    reach(1);
    check(o.len() == 2, 1);
    let h = cross(r, v);
    let q = cross(h, r);
    let nr = |a: [f64; 3]| dot(a, a).sqrt();
    let w = |d: [f64; 3]| [dot(d, r) / nr(r) * 1000.0, dot(d, q) / nr(q) * 1000.0, dot(d, h) / nr(h) * 1000.0];
    let (a, b) = (w(d), w([-2.0 * d[0], d[2], 0.0]));
    check(close(o[0].r_m, a[0], 1e-8) && close(o[0].t_m, a[1], 1e-8) && close(o[0].n_m, a[2], 1e-8), 2);
    check(close(o[1].r_m, b[0], 1e-8) && close(o[1].t_m, b[1], 1e-8) && close(o[1].n_m, b[2], 1e-8), 3);
}
#[no_mangle]
pub extern "C" fn hr_pd_rtn_summary() {
    let x = [vec(1, 1e3), vec(4, 1e3)];
    let d: Vec<RtnDiff> = x.iter().map(|a| RtnDiff { jd_tt: 0.0, r_m: a[0], t_m: a[1], n_m: a[2] }).collect();
    let n = 1 + pick(90, 2) as usize;
    let s = rtn_summary(&d[..n]);
    reach(1);
    let k = n as f64;
    let sq = |i: usize| x[..n].iter().map(|a| a[i] * a[i]).sum::<f64>() / k;
    check(s.n == n, 1);
    check(near(s.rms_r_m * s.rms_r_m, sq(0)) && near(s.rms_t_m * s.rms_t_m, sq(1)) && near(s.rms_n_m * s.rms_n_m, sq(2)), 2);
    check(near(s.rms_3d_m * s.rms_3d_m, sq(0) + sq(1) + sq(2)), 3);
    check(s.rms_r_m >= 0.0 && s.rms_3d_m >= 0.0, 4);
    let p = d[0].position_rtn_km();
    check(near(p.x().value() * 1000.0, x[0][0]) && near(p.y().value() * 1000.0, x[0][1]) && near(p.z().value() * 1000.0, x[0][2]), 5);
}
fn utc(s: i64) -> siderust::time::Time<siderust::time::UTC> {
    let d = chrono::DateTime::<chrono::Utc>::from_timestamp(946_728_000 + s, 0).unwrap();
    siderust::time::Time::<siderust::time::UTC>::try_from_chrono(d).unwrap()
}
/// Thrust: unit direction, acceleration F/m inside [start, stop), mass flow F/(Isp g0), rocket equation.
#[no_mangle]
pub extern "C" fn hr_pd_thrust() {
    let (f, isp, m) = (f64_in(1, 0.0, 100.0), f64_in(2, -10.0, 5000.0), f64_in(3, -10.0, 1e4));
    let d = vec(4, 10.0);
    let (a, b) = [(0, 60), (60, 60), (100, 60)][pick(90, 3) as usize];
    let arc = match ThrustArc::with_normalised_direction(utc(a), utc(b), force::Newtons::new(f), Second::new(isp), d) {
        Err(_) => { reach(2); check(isp <= 0.0 || a >= b || (d[0] == 0.0 && d[1] == 0.0 && d[2] == 0.0), 1); return; }
        Ok(x) => x,
    };
    check(isp > 0.0 && a < b, 2);
    let n = dot(d, d).sqrt();
    for i in 0..3 { check(near(arc.direction[i] * n, d[i]), 3); }
    let (t, on) = [(-1, false), (0, true), (59, true), (60, false)][pick(91, 4) as usize];
    match thrust_acceleration(&arc, Kilograms::new(m), utc(t)) {
        Err(_) => { reach(3); check(m <= 0.0, 4); }
        Ok(v) => { reach(1); check(m > 0.0, 5); for i in 0..3 { check(near(v[i] * m * n, if on { f * d[i] } else { 0.0 }), 6); } }
    }
    match mass_flow_rate(arc.thrust, arc.isp) { Ok(q) => check(near(q * isp * 9.80665, f), 7), Err(_) => check(false, 8) }
}
/// Rocket equation, propellant and mass bookkeeping over two burns.
#[no_mangle]
pub extern "C" fn hr_pd_rocket() {
    let (f1, f2, m) = (f64_in(1, 0.0, 100.0), f64_in(2, 0.0, 100.0), f64_in(3, 1.0, 1e4));
    let isp = [300.0, 1500.0][pick(90, 2) as usize];
    let mut log = LowThrustLog::new(Kilograms::new(m));
    let arc = |f: f64, a: i64, b: i64| ThrustArc { start: utc(a), stop: utc(b), thrust: force::Newtons::new(f), isp: Second::new(isp), direction: [1.0, 0.0, 0.0] };
    let g = 9.80665;
    let m1 = m - f1 / (isp * g) * 60.0;
    let m2 = m1 - f2 / (isp * g) * 1000.0;
    let r1 = log.append(&arc(f1, 0, 60)).map(|r| (r.wet_mass_before.value(), r.propellant_used.value(), r.delta_v.value(), r.duration.value()));
    let Ok(r1) = r1 else { reach(2); check(m1 <= 1e-4, 1); check(log.current_mass().value() == m && log.records().is_empty(), 2); return; };
    check(m1 > -1e-4, 3);
    check(near(r1.0, m) && close(r1.1, m - m1, 1e-4) && close(r1.3, 60.0, 1e-4), 4);
    assume(m1 > 0.5);
    check(near(r1.2, isp * g * (r1.0 / (r1.0 - r1.1)).ln()), 5);
    let ok = log.append(&arc(f2, 100, 1100)).is_ok();
    if !ok { reach(3); check(m2 <= 1e-4, 6); check(close(log.current_mass().value(), m1, 1e-4) && log.records().len() == 1, 7); return; }
    reach(1);
    check(m2 > -1e-4, 8);
    assume(m2 > 0.1);
    check(close(log.current_mass().value(), m2, 1e-4) && close(log.total_propellant().value(), m - m2, 1e-4), 9);
    let q = log.records();
    let (wa, wb) = (q[1].wet_mass_before.value(), q[1].propellant_used.value());
    check(near(q[1].delta_v.value(), isp * g * (wa / (wa - wb)).ln()) && near(log.total_delta_v().value(), r1.2 + q[1].delta_v.value()), 10);
    check(near(wa, m - r1.1), 12);
    check(log.append(&arc(1.0, 50, 50)).is_err() && log.records().len() == 2, 11);
}
/// Covariance checks flag exactly the asymmetric and the negative.
#[no_mangle]
pub extern "C" fn hr_pd_covariance() {
    let x: [f64; 9] = core::array::from_fn(|i| f64_in(1 + i as u32, -10.0, 10.0));
    let tol = f64_in(20, 0.0, 1.0);
    let par = |k| Parameter { kind: k, initial_value: 0.0, apriori_sigma: None };
    let o = ParameterOrdering { params: vec![par(ParameterKind::StatePositionX), par(ParameterKind::DragScale), par(ParameterKind::StateVelocityZ)] };
    check(o.index_of(&ParameterKind::DragScale) == Some(1) && o.index_of(&ParameterKind::StateVelocityZ) == Some(2) && o.index_of(&ParameterKind::SrpScale).is_none(), 1);
    let n = [8, 9, 10][pick(90, 3) as usize];
    let c = ParameterCovariance { params: o, data: (0..n).map(|i| if i < 9 { x[i] } else { 0.0 }).collect() };
    check(c.validate_dim().is_ok() == (n == 9), 2);
    let ab = |v: f64| if v < 0.0 { -v } else { v };
    let sym = ab(x[1] - x[3]) <= tol && ab(x[2] - x[6]) <= tol && ab(x[5] - x[7]) <= tol;
    check(c.validate_symmetric(tol).is_ok() == (n == 9 && sym), 3);
    check(c.validate_diagonal_nonneg().is_ok() == (n == 9 && x[0] >= 0.0 && x[4] >= 0.0 && x[8] >= 0.0), 4);
    reach(if n == 9 { 1 } else { 2 });
}
/// Weighted normal equations: H^T W H, H^T W r and chi squared; a rejected row leaves no trace.
#[no_mangle]
pub extern "C" fn hr_pd_normal() {
    let mut e = NormalEquations::new(3);
    let h: [[f64; 2]; 2] = [[f64_in(1, -10.0, 10.0), f64_in(2, -10.0, 10.0)], [f64_in(3, -10.0, 10.0), f64_in(4, -10.0, 10.0)]];
    let r = [f64_in(5, -10.0, 10.0), f64_in(6, -10.0, 10.0)];
    let s = [0.5, f64_in(7, 0.1, 10.0)];
    let ix = [[(0, 2), (2, 0), (1, 2)][pick(90, 3) as usize], [(0, 1), (2, 1)][pick(91, 2) as usize]];
    let bad = pick(92, 4);
    let mut m = [[0.0; 3]; 3];
    let mut b = [0.0; 3];
    let mut chi = 0.0;
    for k in 0..2 {
        let (i, j) = ix[k];
        check(e.add_row(&[(i, h[k][0]), (j, h[k][1])], r[k], s[k]).is_ok(), 1);
        let w = 1.0 / (s[k] * s[k]);
        let mut row = [0.0; 3];
        row[i] = h[k][0]; row[j] = h[k][1];
        for p in 0..3 { for q in 0..3 { m[p][q] += w * row[p] * row[q]; } b[p] += w * row[p] * r[k]; }
        chi += w * r[k] * r[k];
        if k == 0 {
            let x = match bad { 0 => e.add_row(&[(1, h[1][0]), (3, 1.0)], 1.0, 1.0), 1 => e.add_row(&[(1, 2.0)], 1.0, 0.0), 2 => e.add_row(&[(1, 2.0)], 1.0, -1.0), _ => Err(siderust::pod::estimation::WlsSolverError::other("x")) };
            check(x.is_err(), 2);
        }
    }
    reach(1);
    check(e.n_obs == 2 && e.n_params() == 3, 3);
    check(near(e.chi2, chi), 4);
    for p in 0..3 {
        check(near(e.b[(p, 0)], b[p]), 5);
        for q in p..3 { check(near(e.n_matrix[(p, q)], m[p][q]), 6); }
    }
}
struct Const([f64; 3]);
impl AccelerationModel<DynamicsContext, siderust::time::TT, Geocentric, GCRS> for Const {
    fn name(&self) -> &'static str { "const" }
    fn acceleration(&self, _: &OS, _: &DynamicsContext) -> Result<siderust::astro::dynamics::Acceleration<GCRS>, principia::PrincipiaError> {
        Ok(siderust::astro::dynamics::Acceleration::<GCRS>::new(self.0[0], self.0[1], self.0[2]))
    }
}
/// A process-noise model that is accepted is positive semi-definite.
#[no_mangle]
pub extern "C" fn hr_pd_psd() {
    let m = ProcessNoiseModel { position_velocity: WhiteAccelPsd([f64_in(1, 1e-3, 1.0), f64_in(2, 0.0, 1.0), [0.0, 0.25][pick(91, 2) as usize]]), drag_scale: None, srp_scale: None, empirical_white: None };
    let dt = [0.0, 1.0, 60.0][pick(90, 3) as usize];
    match m.is_psd(Seconds::new(dt)) { Ok(x) => { reach(1); check(x, 1); } Err(_) => check(false, 2) }
}
/// Motion under constant acceleration over any step, forwards and backwards.
#[no_mangle]
pub extern "C" fn hr_pd_rk4() {
    let (r, v, a) = (vec(1, 1e4), vec(4, 10.0), vec(7, 1e-2));
    let dt = [60.0, -60.0, 95.0, 0.0, 7.0][pick(90, 5) as usize];
    let s = match (Rk4Integrator { step: Second::new([30.0, -20.0, 100.0][pick(91, 3) as usize]) }).propagate(&Const(a), st(t0(), r, v), Second::new(dt), &DynamicsContext::empty()) { Ok(s) => s, Err(_) => { check(false, 99); return; } };
    reach(1);
    let x = [s.position.x().value(), s.position.y().value(), s.position.z().value()];
    let y = [s.velocity.x().value(), s.velocity.y().value(), s.velocity.z().value()];
    for i in 0..3 {
        check(close(x[i], r[i] + v[i] * dt + 0.5 * a[i] * dt * dt, 1e-9), 1);
        check(close(y[i], v[i] + a[i] * dt, 1e-9), 2);
    }
    let e = (s.epoch - t0().to_j2000s()).value();
    check(close(e, dt, 1e-9), 3);
}
