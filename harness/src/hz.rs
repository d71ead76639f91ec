use crate::sv::*;
use siderust::astro::earth_rotation::{gmst_from_tt, jd_ut1_from_tt_eop};
use siderust::astro::eop::{EopProvider, EopValues};
use siderust::astro::nutation::{nutation_iau2000b, Iau2006, Iau2006A, NutationModel};
use siderust::astro::apparent::CorrectionPolicy;
use siderust::astro::sidereal::gast_iau2006;
use siderust::astro::{era, precession, sidereal};
use siderust::coordinates::cartesian::{Direction, Position};
use siderust::coordinates::centers::{Geodetic, Topocentric};
use siderust::coordinates::frames::*;
use siderust::coordinates::spherical;
use siderust::coordinates::transform::context::AstroContext;
use siderust::coordinates::transform::horizontal::*;
use siderust::coordinates::transform::Transform;
use siderust::ephemeris::Vsop87Ephemeris;
use siderust::event::horizontal as eh;
use siderust::qtty::*;
use siderust::time::JulianDate;

const PI: f64 = core::f64::consts::PI;
fn near(a: f64, b: f64) -> bool { let d = a - b; d < 1e-9 && d > -1e-9 }
fn jd(t: f64) -> JulianDate { JulianDate::new(t) }
fn epoch() -> JulianDate { jd([2451545.0, 2459000.25, 2440587.5][pick(90, 3) as usize]) }
fn site() -> (Geodetic<ECEF>, f64, f64) {
    let lon = f64_in(1, -180.0, 180.0);
    let lat = f64_in(2, -90.0, 90.0);
    let mut s = Geodetic::<ECEF>::new(Degrees::new(0.0), Degrees::new(0.0), Meters::new(0.0));
    s.lon = Degrees::new(lon);
    s.lat = Degrees::new(lat);
    (s, lon * (PI / 180.0), lat * (PI / 180.0))
}
/// A unit vector, poles excluded.
fn unit() -> [f64; 3] {
    let (x, y) = (f64_in(3, -1.0, 1.0), f64_in(4, -1.0, 1.0));
    let r2 = x * x + y * y;
    assume(r2 > 0.0 && r2 <= 1.0);
    let z = (1.0 - r2).sqrt();
    [x, y, if decide(bool_(5)) { -z } else { z }]
}
/// North, east, up of an equatorial vector at local sidereal time `t` and latitude `p`.
fn neu(v: [f64; 3], t: f64, p: f64) -> [f64; 3] {
    let (s, c) = (t.sin(), t.cos());
    let (sp, cp) = (p.sin(), p.cos());
    let (m, w) = (c * v[0] + s * v[1], -s * v[0] + c * v[1]);
    [cp * v[2] - sp * m, w, cp * m + sp * v[2]]
}
/// and back
fn eq(v: [f64; 3], t: f64, p: f64) -> [f64; 3] {
    let (s, c) = (t.sin(), t.cos());
    let (sp, cp) = (p.sin(), p.cos());
    let (m, w) = (cp * v[2] - sp * v[0], v[1]);
    [c * m - s * w, s * m + c * w, cp * v[0] + sp * v[2]]
}
/// The image of a unit vector is a unit vector; its pole is excluded.
fn off_pole(w: &[f64; 3]) { assume(w[0] * w[0] + w[1] * w[1] > 0.0); assume(w[2] < 1.0); assume(w[2] > -1.0); }
fn same(a: [f64; 3], b: [f64; 3], id: u32) { for i in 0..3 { check(near(a[i], b[i]), id + i as u32); } }
fn xyz<F: siderust::coordinates::frames::ReferenceFrame>(d: &Direction<F>) -> [f64; 3] { [d.x(), d.y(), d.z()] }

#[no_mangle]
pub extern "C" fn hr_hz_direction() {
    let (s, lon, lat) = site();
    let t = epoch(); let u = jd(t.raw().value() - 0.0008);
    let v = unit();
    let nut = Iau2006A::nutation(t);
    let g = gast_iau2006(u, t, nut.dpsi, nut.mean_obliquity).value();
    let d = Direction::<EquatorialTrueOfDate>::new_unchecked(v[0], v[1], v[2]);
    let w = neu(v, g + lon, lat);
    off_pole(&w);
    let h = d.to_horizontal(&u, &t, &s);
    reach(1);
    same(xyz(&h), w, 1);
}
#[no_mangle]
pub extern "C" fn hr_hz_inverse() {
    let (s, lon, lat) = site();
    let t = epoch(); let u = jd(t.raw().value() - 0.0008);
    let v = unit();
    let nut = Iau2006A::nutation(t);
    let g = gast_iau2006(u, t, nut.dpsi, nut.mean_obliquity).value();
    let d = Direction::<Horizontal>::new_unchecked(v[0], v[1], v[2]);
    let w = eq(v, g + lon, lat);
    off_pole(&w);
    let q = d.to_equatorial(&u, &t, &s);
    reach(1);
    same(xyz(&q), w, 1);
}
type Km = Kilometer;
fn pos<F: ReferenceFrame>(s: Geodetic<ECEF>, v: [f64; 3]) -> Position<Topocentric, F, Km> { Position::<Topocentric, F, Km>::new_with_params(s, Kilometers::new(v[0]), Kilometers::new(v[1]), Kilometers::new(v[2])) }
fn km<F: ReferenceFrame>(p: &Position<Topocentric, F, Km>) -> [f64; 3] { [p.x().value(), p.y().value(), p.z().value()] }
/// Mean equator of date, Cartesian and spherical.
#[no_mangle]
pub extern "C" fn hr_hz_mean() {
    let (s, lon, lat) = site();
    let t = epoch();
    let v = unit();
    let g = gmst_from_tt(t).value();
    let w = neu(v, g + lon, lat);
    off_pole(&w);
    let h: Position<Topocentric, Horizontal, Km> = pos::<EquatorialMeanOfDate>(s, v).transform(t);
    reach(1);
    same(km(&h), w, 1);
    check(h.center_params().lon.value() == s.lon.value() && h.center_params().lat.value() == s.lat.value(), 4);
}
#[no_mangle]
pub extern "C" fn hr_hz_mean_inv() {
    let (s, lon, lat) = site();
    let t = epoch();
    let v = unit();
    let g = gmst_from_tt(t).value();
    let w = eq(v, g + lon, lat);
    off_pole(&w);
    let q: Position<Topocentric, EquatorialMeanOfDate, Km> = pos::<Horizontal>(s, v).transform(t);
    reach(1);
    same(km(&q), w, 1);
}
/// Earth orientation values on request.
pub struct E(EopValues);
impl Default for E { fn default() -> Self { let mut e = EopValues::default(); e.dut1 = Seconds::new([0.0, 0.4, -0.7][pick(91, 3) as usize]); E(e) } }
impl EopProvider for E { fn eop_at(&self, _: JulianDate) -> EopValues { self.0 } }
/// Event-search pipeline: true equator of date, GAST at UT1.
#[no_mangle]
pub extern "C" fn hr_hz_event() {
    let (s, lon, lat) = site();
    let t = jd(2459000.25);
    let (a, d) = (f64_in(3, 0.0, 360.0), f64_in(4, -90.0, 90.0));
    let (ar, dr) = (a * (PI / 180.0), d * (PI / 180.0));
    let v = [dr.cos() * ar.cos(), dr.cos() * ar.sin(), dr.sin()];
    let c = AstroContext::<Vsop87Ephemeris, E>::with_types();
    let e = c.eop_at_tt(t);
    let nut = Iau2006::nutation(t);
    let u = jd_ut1_from_tt_eop(t, &e);
    let g = gast_iau2006(u, t, nut.dpsi, nut.mean_obliquity).value();
    let w = neu(v, g + lon, lat);
    off_pole(&w);
    let p = spherical::Position::<Topocentric, EquatorialTrueOfDate, Km>::new_unchecked_with_params(s, Degrees::new(d), Degrees::new(a), Kilometers::new(2.0));
    let h = eh::equatorial_to_horizontal_true_of_date_with_ctx(&p, s, t, &c.with_model::<Iau2006>());
    reach(1);
    let (al, az) = (h.polar.value() * (PI / 180.0), h.azimuth.value() * (PI / 180.0));
    same([al.cos() * az.cos(), al.cos() * az.sin(), al.sin()], w, 1);
    check(h.distance.value() == 2.0, 4);
}
/// Sidereal time from the published polynomials.
#[no_mangle]
pub extern "C" fn hr_hz_sidereal() {
    let dt = f64_in(1, -36525.0, 36525.0);
    let du = f64_in(2, -36525.0, 36525.0);
    let (t, u) = (jd(2451545.0 + dt), jd(2451545.0 + du));
    let c = dt / 36525.0;
    let as_ = PI / 648000.0;
    let e = 2.0 * PI * (0.7790572732640 + 1.00273781191135448 * du);
    let p = (0.014506 + 4612.156534 * c + 1.3915817 * c * c - 0.00000044 * c * c * c - 0.000029956 * c * c * c * c - 0.0000000368 * c * c * c * c * c) * as_;
    let era = era::earth_rotation_angle(u).value();
    let g = sidereal::gmst_iau2006(u, t).value();
    reach(1);
    check(near(era.sin(), e.sin()) && near(era.cos(), e.cos()), 1);
    check(era >= 0.0 && era < 2.0 * PI, 2);
    let f = era + p;
    check(near(g.sin(), f.sin()) && near(g.cos(), f.cos()), 3);
    check(g >= 0.0 && g < 2.0 * PI, 4);
    let k = era::earth_rotation_angle_parts(2400000.5, 51544.5 + du).value();
    check(near(k.sin(), e.sin()) && near(k.cos(), e.cos()), 5);
}
/// Catalogue stars: J2000 direction, precession-nutation-bias, then the horizon of any site.
#[no_mangle]
pub extern "C" fn hr_hz_star() {
    let (s, lon, lat) = site();
    let t = jd([2451545.0, 2459000.25][pick(90, 2) as usize]);
    let (a, d) = [(101.287, -16.716), (37.95, 89.264), (201.298, -11.161)][pick(92, 3) as usize];
    let (ar, dr) = (a * (PI / 180.0), d * (PI / 180.0));
    let v = [dr.cos() * ar.cos(), dr.cos() * ar.sin(), dr.sin()];
    let nut = nutation_iau2000b(t);
    let v = precession::precession_nutation_matrix(t, nut.dpsi, nut.deps).apply_array(v);
    let c = AstroContext::<Vsop87Ephemeris>::default();
    let u = jd_ut1_from_tt_eop(t, &c.eop_at_tt(t));
    let g = gast_iau2006(u, t, nut.dpsi, nut.mean_obliquity).value();
    let (ra, de) = (v[1].atan2(v[0]), v[2].asin());
    let ha = g + lon - ra;
    let up = de.sin() * lat.sin() + de.cos() * lat.cos() * ha.cos();
    assume(up < 1.0);
    assume(up > -1.0);
    let h = eh::star_horizontal(Degrees::new(a), Degrees::new(d), &s, t);
    reach(1);
    check(near((h.polar.value() * (PI / 180.0)).sin(), up), 1);
    check(h.azimuth.value() >= 0.0 && h.azimuth.value() <= 360.0, 2);
}
