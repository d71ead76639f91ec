use crate::sv::*;
use siderust::astro::cio::{cio_locator_s, gcrs_to_cirs_matrix, cip_xy};
use siderust::astro::eop::{EopProvider, EopValues};
use siderust::astro::nutation::Iau2006;
use siderust::astro::orientation::{HasIauRotation, IauRotationParams};
use siderust::astro::{era, precession};
use siderust::bodies::solar_system as b;
use siderust::coordinates::frames::*;
use siderust::coordinates::transform::context::AstroContext;
use siderust::coordinates::transform::providers::{frame_rotation_as, FrameRotationProvider};
use siderust::ephemeris::Vsop87Ephemeris;
use siderust::qtty::*;
use siderust::time::JulianDate;

type M = [[f64; 3]; 3];
const AS: f64 = core::f64::consts::PI / 648000.0;
fn near(a: f64, b: f64) -> bool { let d = a - b; d < 1e-9 && d > -1e-9 }
fn mul(a: &M, b: &M) -> M { let mut o = [[0.0; 3]; 3]; for i in 0..3 { for j in 0..3 { o[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j]; } } o }
fn tr(a: &M) -> M { let mut o = *a; for i in 0..3 { for j in 0..3 { o[i][j] = a[j][i]; } } o }
fn same(a: &M, b: &M, id: u32) { for i in 0..3 { for j in 0..3 { check(near(a[i][j], b[i][j]), id); } } }
// active rotations
fn rx(a: f64) -> M { let (s, c) = (a.sin(), a.cos()); [[1.0, 0.0, 0.0], [0.0, c, -s], [0.0, s, c]] }
fn ry(a: f64) -> M { let (s, c) = (a.sin(), a.cos()); [[c, 0.0, s], [0.0, 1.0, 0.0], [-s, 0.0, c]] }
fn rz(a: f64) -> M { let (s, c) = (a.sin(), a.cos()); [[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]] }

/// Earth orientation parameters that may take any value.
pub struct E(EopValues);
impl Default for E {
    fn default() -> Self {
        let v = |i, b: f64| f64_in(i, -b, b);
        E(EopValues { dut1: Seconds::new(v(11, 0.9)), xp: Arcseconds::new(v(12, 1.0)), yp: Arcseconds::new(v(13, 1.0)), dx: MilliArcseconds::new(v(14, 1.0)), dy: MilliArcseconds::new(v(15, 1.0)), lod: Seconds::new(0.0) })
    }
}
impl EopProvider for E { fn eop_at(&self, _: JulianDate) -> EopValues { self.0 } }
/// No corrections at all.
#[derive(Default)]
pub struct Z;
impl EopProvider for Z { fn eop_at(&self, _: JulianDate) -> EopValues { EopValues::default() } }

fn rot<A, B, P: EopProvider>(jd: JulianDate, c: &AstroContext<Vsop87Ephemeris, P>) -> M where (): FrameRotationProvider<A, B> {
    *frame_rotation_as::<A, B, Iau2006, Vsop87Ephemeris, P>(jd, c).as_matrix()
}
fn jd(t: f64) -> JulianDate { JulianDate::new(t) }
fn any_jd() -> (JulianDate, f64) {
    // four centuries around J2000
    let c = f64_in(1, -2.0, 2.0);
    (jd(2451545.0 + 36525.0 * c), c)
}
/// The four precession angles are the IAU 2006 polynomials, at every epoch.
#[no_mangle]
pub extern "C" fn hr_fr_angles() {
    let (j, t) = any_jd();
    let (g, p, s, e) = precession::precession_fw_angles(j);
    reach(1);
    let p5 = |k: [f64; 6]| (k[0] + t * (k[1] + t * (k[2] + t * (k[3] + t * (k[4] + t * k[5]))))) * AS;
    let want = [
        p5([-0.052928, 10.556378, 0.4932044, -0.00031238, -0.000002788, 0.0000000260]),
        p5([84381.412819, -46.811016, 0.0511268, 0.00053289, -0.000000440, -0.0000000176]),
        p5([-0.041775, 5038.481484, 1.5584175, -0.00018522, -0.000026452, -0.0000000148]),
        p5([84381.406, -46.836769, -0.0001831, 0.00200340, -0.000000576, -0.0000000434]),
    ];
    let got = [g.value(), p.value(), s.value(), e.value()];
    for i in 0..4 { let d = got[i] - want[i]; check(d < 1e-13 && d > -1e-13, 1 + i as u32); }
    let d = precession::mean_obliquity_iau2006(j).value() - want[3];
    check(d < 1e-13 && d > -1e-13, 5);
}
/// ICRS to mean equator of date is R1(-eps) R3(-psi) R1(phi) R3(gamma); with nutation the angles are incremented.
#[no_mangle]
pub extern "C" fn hr_fr_precession() {
    let (j, _) = any_jd();
    let (g, p, s, e) = precession::precession_fw_angles(j);
    let (g, p, s, e) = (g.value(), p.value(), s.value(), e.value());
    let want = mul(&mul(&rx(e), &rz(s)), &mul(&rx(-p), &rz(-g)));
    let c = AstroContext::<Vsop87Ephemeris, Z>::with_types();
    let m = rot::<ICRS, EquatorialMeanOfDate, Z>(j, &c);
    reach(1);
    same(&m, &want, 1);
    let back = rot::<EquatorialMeanOfDate, ICRS, Z>(j, &c);
    same(&back, &tr(&want), 2);
    // ICRS -> J2000 -> of date is the same path
    let b2j = rot::<ICRS, EquatorialMeanJ2000, Z>(j, &c);
    let j2d = rot::<EquatorialMeanJ2000, EquatorialMeanOfDate, Z>(j, &c);
    let d2j = rot::<EquatorialMeanOfDate, EquatorialMeanJ2000, Z>(j, &c);
    same(&mul(&j2d, &b2j), &want, 3);
    same(&tr(&j2d), &d2j, 4);
}
#[no_mangle]
pub extern "C" fn hr_fr_nutation() {
    let (j, _) = any_jd();
    let (g, p, s, e) = precession::precession_fw_angles(j);
    let (g, p, s, e) = (g.value(), p.value(), s.value(), e.value());
    let (dp, de) = (f64_in(2, -1e-3, 1e-3), f64_in(3, -1e-3, 1e-3));
    let want = mul(&mul(&rx(e + de), &rz(s + dp)), &mul(&rx(-p), &rz(-g)));
    let m = precession::precession_nutation_matrix(j, Radians::new(dp), Radians::new(de));
    reach(1);
    same(m.as_matrix(), &want, 1);
    let (x, y) = cip_xy(j, Radians::new(dp), Radians::new(de));
    check(near(x.value(), want[2][0]), 2);
    check(near(y.value(), want[2][1]), 3);
    let sl = cio_locator_s(j, x, y).value();
    let t = (j.raw().value() - 2451545.0) / 36525.0;
    let d = sl + 0.5 * x.value() * y.value() - (94.0 + 3808.65 * t - 122.68 * t * t - 72574.11 * t * t * t) * 1e-6 * AS;
    check(d < 1e-14 && d > -1e-14, 4);
}
/// The celestial-to-intermediate matrix puts the pole at (X, Y, Z) and turns by s about it.
#[no_mangle]
pub extern "C" fn hr_fr_cio() {
    let (x, y) = (f64_in(1, -0.1, 0.1), f64_in(2, -0.1, 0.1));
    let s = f64_in(3, -1.0, 1.0);
    let r2 = x * x + y * y;
    let pole = pick(4, 2) == 1;
    assume(if pole { x == 0.0 && y == 0.0 } else { r2 > 1e-12 });
    let (x, y) = if pole { (0.0, 0.0) } else { (x, y) };
    let z = (1.0 - (x * x + y * y)).max(0.0).sqrt();
    let q = |s: f64| *gcrs_to_cirs_matrix(CipCoordinates::new(x), CipCoordinates::new(y), Radians::new(s)).as_matrix();
    let m = q(0.0);
    reach(1);
    check(near(m[2][0], x), 1);
    check(near(m[2][1], y), 2);
    check(near(m[2][2], z), 3);
    check(near(m[0][0] * (1.0 + z), 1.0 + z - x * x), 4);
    check(near(m[0][1] * (1.0 + z), -x * y), 5);
    check(near(m[0][2], -x), 6);
    check(near(m[1][1] * (1.0 + z), 1.0 + z - y * y), 7);
    check(near(m[1][2], -y), 8);
    let n = q(s);
    same(&n, &mul(&rz(s), &m), 9);
}
/// Body-fixed frames: the z axis is the IAU pole, the x axis the prime meridian.
fn body<F>(p: &IauRotationParams, k: [f64; 6], id: u32) where (): FrameRotationProvider<F, ICRS> + FrameRotationProvider<ICRS, F> {
    let (j, t) = any_jd();
    let c = AstroContext::<Vsop87Ephemeris, Z>::with_types();
    let m = rot::<F, ICRS, Z>(j, &c);
    let n = rot::<ICRS, F, Z>(j, &c);
    let (a, d, w) = (p.alpha0(j).value(), p.delta0(j).value(), p.w(j).value());
    let days = t * 36525.0;
    reach(1);
    let close = |x: f64, y: f64, e: f64| x - y < e && x - y > -e;
    check(close(a, k[0] + k[1] * t, 2e-3), id);
    check(close(d, k[2] + k[3] * t, 2e-3), id + 1);
    check(close(w, k[4] + k[5] * days, 2e-3), id + 2);
    let (a, d, w) = (p.alpha0(j).to::<Radian>().value(), p.delta0(j).to::<Radian>().value(), p.w(j).to::<Radian>().value());
    let pole = [d.cos() * a.cos(), d.cos() * a.sin(), d.sin()];
    let node = [-a.sin(), a.cos(), 0.0];
    let q = [-d.sin() * a.cos(), -d.sin() * a.sin(), d.cos()];
    for i in 0..3 {
        check(near(m[i][2], pole[i]), id + 3);
        check(near(m[i][0], w.cos() * node[i] + w.sin() * q[i]), id + 4);
        check(near(m[i][1], w.cos() * q[i] - w.sin() * node[i]), id + 5);
    }
    same(&n, &tr(&m), id + 6);
}
#[no_mangle]
pub extern "C" fn hr_fr_bodies() {
    match pick(9, 9) {
        0 => body::<MercuryFixed>(&b::Mercury::ROTATION, [281.0103, -0.0328, 61.4155, -0.0049, 329.5988, 6.1385108], 1),
        1 => body::<VenusFixed>(&b::Venus::ROTATION, [272.76, 0.0, 67.16, 0.0, 160.20, -1.4813688], 11),
        2 => body::<MarsFixed>(&b::Mars::ROTATION, [317.269202, -0.10927547, 54.432516, -0.05827105, 176.049863, 350.891982443297], 21),
        3 => body::<MoonPrincipalAxes>(&b::Moon::ROTATION, [269.9949, 0.0031, 66.5392, 0.0130, 38.3213, 13.17635815], 31),
        4 => body::<JupiterSystemIII>(&b::Jupiter::ROTATION, [268.056595, -0.006499, 64.495303, 0.002413, 284.95, 870.5360000], 41),
        5 => body::<SaturnFixed>(&b::Saturn::ROTATION, [40.589, -0.036, 83.537, -0.004, 38.90, 810.7939024], 51),
        6 => body::<UranusFixed>(&b::Uranus::ROTATION, [257.311, 0.0, -15.175, 0.0, 203.81, -501.1600928], 61),
        7 => body::<NeptuneFixed>(&b::Neptune::ROTATION, [299.36, 0.0, 43.46, 0.0, 249.978, 541.1397757], 71),
        _ => body::<PlutoFixed>(&b::Pluto::ROTATION, [132.993, 0.0, -6.163, 0.0, 302.695, 56.3625225], 81),
    }
}
/// Polar motion: W = R2... in the order TIRS -> ITRS of the IERS conventions, and its inverse.
#[no_mangle]
pub extern "C" fn hr_fr_polar() {
    let (xp, yp, sp) = (f64_in(1, -1e-5, 1e-5), f64_in(2, -1e-5, 1e-5), f64_in(3, -1e-6, 1e-6));
    let m = siderust::astro::polar_motion::polar_motion_matrix(Radians::new(xp), Radians::new(yp), Radians::new(sp));
    reach(1);
    same(m.as_matrix(), &mul(&rx(yp), &mul(&ry(xp), &rz(-sp))), 1);
    let (j, t) = any_jd();
    let d = siderust::astro::polar_motion::tio_locator_sp(j).value() + 47e-6 * t * AS;
    check(d < 1e-15 && d > -1e-15, 2);
}
/// Constant frames: right-handed, and placed where the catalogues say.
#[no_mangle]
pub extern "C" fn hr_fr_const() {
    let (j, _) = any_jd();
    let c = AstroContext::<Vsop87Ephemeris, Z>::with_types();
    let det = |m: &M| m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
    let cl = |a: f64, b: f64, e: f64| a - b < e && a - b > -e;
    reach(1);
    let g = rot::<Galactic, ICRS, Z>(j, &c);
    check(cl(det(&g), 1.0, 1e-9), 1);
    // pole at RA 192.85948, Dec 27.12825; centre at RA 266.40500, Dec -28.93617
    for (i, w) in [-0.8676661, -0.1980764, 0.4559838].iter().enumerate() { check(cl(g[i][2], *w, 1e-6), 2); }
    for (i, w) in [-0.0548756, -0.8734371, -0.4838350].iter().enumerate() { check(cl(g[i][0], *w, 1e-6), 3); }
    let f = rot::<FK4B1950, EquatorialMeanJ2000, Z>(j, &c);
    check(cl(det(&f), 1.0, 1e-7), 4);
    check(cl(f[0][0], 0.9999256794956877, 1e-9) && cl(f[0][1], -0.0111814832204662, 1e-9) && cl(f[0][2], -0.0048590038153592, 1e-9) && cl(f[1][2], -0.0000271625947142, 1e-9) && cl(f[2][1], -0.0000271702937440, 1e-9), 5);
    let e = rot::<EclipticMeanJ2000, EquatorialMeanJ2000, Z>(j, &c);
    let eps = 84381.406 * AS;
    let (se, ce) = (eps.sin(), eps.cos());
    check(cl(e[0][0], 1.0, 1e-12) && cl(e[1][1], ce, 1e-9) && cl(e[1][2], -se, 1e-9) && cl(e[2][1], se, 1e-9) && cl(e[2][2], ce, 1e-9), 6);
    // frame bias: -16.6170 mas, -6.8192 mas, -14.6 mas
    let m = rot::<ICRS, EquatorialMeanJ2000, Z>(j, &c);
    let mas = AS / 1000.0;
    check(cl(m[0][1], -14.6 * mas, 2e-11) && cl(m[0][2], 16.6170 * mas, 2e-11) && cl(m[1][2], 6.8192 * mas, 2e-11), 7);
    check(cl(m[1][0], 14.6 * mas, 2e-11) && cl(m[2][0], -16.6170 * mas, 2e-11) && cl(m[2][1], -6.8192 * mas, 2e-11), 8);
}
fn epoch() -> JulianDate { jd([2451545.0, 2459000.25, 2440587.5][pick(2, 3) as usize]) }
/// Celestial to terrestrial chain for every Earth orientation value.
#[no_mangle]
pub extern "C" fn hr_fr_earth() {
    let j = epoch();
    let c = AstroContext::<Vsop87Ephemeris, E>::with_types();
    let e = c.eop_at_tt(j);
    let ut1 = siderust::astro::earth_rotation::jd_ut1_from_tt_eop(j, &e);
    let q = rot::<GCRS, CIRS, E>(j, &c);
    let r = rot::<CIRS, TIRS, E>(j, &c);
    let w = rot::<TIRS, ITRF, E>(j, &c);
    let th = era::earth_rotation_angle(ut1).value();
    reach(1);
    same(&r, &rz(-th), 1);
    let sp = siderust::astro::polar_motion::tio_locator_sp(j).value();
    let (xp, yp) = (Radians::from(e.xp).value(), Radians::from(e.yp).value());
    same(&w, &mul(&rx(yp), &mul(&ry(xp), &rz(-sp))), 2);
    let all = rot::<ICRS, ITRF, E>(j, &c);
    same(&all, &mul(&w, &mul(&r, &q)), 3);
    same(&rot::<ITRF, ICRS, E>(j, &c), &tr(&all), 4);
    same(&rot::<ECEF, ICRS, E>(j, &c), &tr(&all), 5);
}
macro_rules! pairs {
    ($($a:ty, $b:ty;)*) => {{
        let n = 0 $(+ { let _ = stringify!($a); 1 })*;
        let k = pick(3, n);
        let j = epoch();
        let c = AstroContext::<Vsop87Ephemeris, Z>::with_types();
        let mut i = 0;
        $( if k == i {
            let ab = rot::<$a, $b, Z>(j, &c);
            let ba = rot::<$b, $a, Z>(j, &c);
            let ai = rot::<$a, ICRS, Z>(j, &c);
            let ib = rot::<ICRS, $b, Z>(j, &c);
            reach(1);
            for r in 0..3 { for s in 0..3 { check(near(ab[r][s], ba[s][r]), 1); } }
            let p = mul(&ab, &ba);
            for r in 0..3 { for s in 0..3 { let d = p[r][s] - (r == s) as u8 as f64; check(d < 1e-7 && d > -1e-7, 2); } }
            let q = mul(&ib, &ai);
            for r in 0..3 { for s in 0..3 { let d = q[r][s] - ab[r][s]; check(d < 2e-8 && d > -2e-8, 3); } }
        } i += 1; )*
        let _ = i;
    }};
}
/// Every direct route between two frames is the route through ICRS, and is undone by the opposite route.
#[no_mangle]
pub extern "C" fn hr_fr_pairs() {
    pairs!(
        EclipticMeanJ2000, EquatorialMeanJ2000;
        EquatorialMeanJ2000, EquatorialMeanOfDate; EquatorialMeanJ2000, EquatorialTrueOfDate; EquatorialMeanOfDate, EquatorialTrueOfDate;
        EME2000, EclipticMeanJ2000; EME2000, EquatorialMeanOfDate; EME2000, EquatorialTrueOfDate; EME2000, GCRS;
        TEME, EquatorialTrueOfDate; Galactic, EquatorialMeanJ2000; Galactic, EclipticMeanJ2000; FK4B1950, EquatorialMeanJ2000;
        GCRS, CIRS; GCRS, TIRS; GCRS, ITRF; GCRS, ECEF;
        EclipticMeanJ2000, CIRS; EquatorialMeanJ2000, CIRS; EquatorialTrueOfDate, CIRS; TEME, CIRS; Galactic, CIRS; FK4B1950, CIRS;
        EclipticMeanJ2000, ITRF; EquatorialMeanJ2000, TIRS; EquatorialMeanOfDate, ITRF; TEME, ITRF; TEME, ECEF; Galactic, ITRF; ICRF, ECEF; EME2000, ITRF;
        EclipticMeanJ2000, MercuryFixed; EclipticMeanJ2000, MarsFixed; EclipticMeanJ2000, MoonPrincipalAxes; EclipticMeanJ2000, SaturnFixed; EME2000, VenusFixed; EME2000, JupiterSystemIII; EME2000, UranusFixed; EME2000, PlutoFixed; EME2000, NeptuneFixed;
    )
}
