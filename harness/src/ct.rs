use crate::sv::*;
use siderust::astro::eop::{EopProvider, EopValues};
use siderust::astro::nutation::Iau2006;
use siderust::astro::orbit::KeplerianOrbit;
use siderust::coordinates::cartesian::{Position, Velocity};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::{self, EclipticMeanJ2000, EquatorialMeanJ2000, ECEF, ICRS};
use siderust::coordinates::transform::centers::{to_topocentric_with_ctx, TransformCenter};
use siderust::coordinates::transform::context::AstroContext;
use siderust::coordinates::transform::providers::{center_shift_as, frame_rotation_as, CenterShiftProvider, FrameRotationProvider};
use siderust::coordinates::transform::TransformFrame;
use siderust::ephemeris::Ephemeris;
use siderust::qtty::*;
use siderust::time::JulianDate;

type AU = AstronomicalUnit;
fn near(a: f64, b: f64) -> bool { let d = a - b; d < 1e-9 && d > -1e-9 }
/// An ephemeris that may put the bodies anywhere.
pub struct Any;
fn u(t: u32, jd: JulianDate) -> f64 { let v = uf1(t, jd.raw().value()); assume(v > -100.0 && v < 100.0); v }
type AuPerDay = siderust::qtty::Per<AstronomicalUnit, Day>;
impl Ephemeris for Any {
    fn sun_barycentric(jd: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AU> { Position::new(u(21, jd), u(22, jd), u(23, jd)) }
    fn earth_barycentric(jd: JulianDate) -> Position<Barycentric, EclipticMeanJ2000, AU> { Position::new(u(24, jd), u(25, jd), u(26, jd)) }
    fn earth_heliocentric(jd: JulianDate) -> Position<Heliocentric, EclipticMeanJ2000, AU> { Position::new(u(24, jd) - u(21, jd), u(25, jd) - u(22, jd), u(26, jd) - u(23, jd)) }
    fn earth_barycentric_velocity(jd: JulianDate) -> Velocity<EclipticMeanJ2000, AuPerDay> { Velocity::new(u(31, jd), u(32, jd), u(33, jd)) }
    fn moon_geocentric(jd: JulianDate) -> Position<Geocentric, EclipticMeanJ2000, Kilometer> { Position::new(u(27, jd) * 149597870.7, u(28, jd) * 149597870.7, u(29, jd) * 149597870.7) }
}
/// Earth orientation parameters that may take any value.
pub struct E(EopValues);
impl Default for E {
    fn default() -> Self {
        let v = |i, b: f64| f64_in(i, -b, b);
        E(EopValues { dut1: Seconds::new([0.0, -0.35, 0.6][pick(11, 3) as usize]), xp: Arcseconds::new(v(12, 1.0)), yp: Arcseconds::new(v(13, 1.0)), dx: MilliArcseconds::new(0.0), dy: MilliArcseconds::new(0.0), lod: Seconds::new(0.0) })
    }
}
impl EopProvider for E { fn eop_at(&self, _: JulianDate) -> EopValues { self.0 } }
#[derive(Default)]
pub struct Z;
impl EopProvider for Z { fn eop_at(&self, _: JulianDate) -> EopValues { EopValues::default() } }
fn epoch() -> JulianDate { JulianDate::new([2451545.0, 2459000.25][pick(2, 2) as usize]) }
type V = [f64; 3];
fn sh<A, B, F>(j: JulianDate, c: &AstroContext<Any, Z>) -> V where (): CenterShiftProvider<A, B, F> {
    let s = center_shift_as::<A, B, F, Iau2006, Any, Z>(j, c);
    [s[0].value(), s[1].value(), s[2].value()]
}
fn eqv(a: V, b: V, id: u32) { for i in 0..3 { check(near(a[i], b[i]), id); } }
fn add(a: V, b: V) -> V { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
fn neg(a: V) -> V { [-a[0], -a[1], -a[2]] }
fn in_f<F>(v: V, j: JulianDate, c: &AstroContext<Any, Z>) -> V where (): FrameRotationProvider<EclipticMeanJ2000, F> {
    let m = *frame_rotation_as::<EclipticMeanJ2000, F, Iau2006, Any, Z>(j, c).as_matrix();
    let r = |i: usize| m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2];
    [r(0), r(1), r(2)]
}
fn std_shifts<F: frames::ReferenceFrame>(id: u32) where (): FrameRotationProvider<EclipticMeanJ2000, F> {
    let j = epoch();
    let c = AstroContext::<Any, Z>::with_types();
    let p = |x: f64, y: f64, z: f64| in_f::<F>([x, y, z], j, &c);
    let sun = p(u(21, j), u(22, j), u(23, j));
    let earth = p(u(24, j), u(25, j), u(26, j));
    let moon = p(u(27, j), u(28, j), u(29, j));
    let hb = sh::<Heliocentric, Barycentric, F>(j, &c);
    reach(1);
    eqv(hb, sun, id);
    eqv(sh::<Barycentric, Heliocentric, F>(j, &c), neg(sun), id + 1);
    eqv(sh::<Geocentric, Barycentric, F>(j, &c), earth, id + 2);
    eqv(sh::<Barycentric, Geocentric, F>(j, &c), neg(earth), id + 3);
    eqv(sh::<Heliocentric, Geocentric, F>(j, &c), add(sun, neg(earth)), id + 4);
    eqv(sh::<Geocentric, Heliocentric, F>(j, &c), add(earth, neg(sun)), id + 5);
    eqv(sh::<Geocentric, Selenocentric, F>(j, &c), neg(moon), id + 6);
    eqv(sh::<Selenocentric, Geocentric, F>(j, &c), moon, id + 7);
    eqv(sh::<Selenocentric, Barycentric, F>(j, &c), add(moon, earth), id + 8);
    eqv(sh::<Selenocentric, Heliocentric, F>(j, &c), add(add(moon, earth), neg(sun)), id + 9);
    eqv(sh::<Heliocentric, Selenocentric, F>(j, &c), neg(add(add(moon, earth), neg(sun))), id + 10);
}
/// Shifts between the Sun, Earth, Moon and barycentre for any ephemeris.
#[no_mangle]
pub extern "C" fn hr_ct_shift() {
    match pick(1, 3) { 0 => std_shifts::<EclipticMeanJ2000>(1), 1 => std_shifts::<ICRS>(21), _ => std_shifts::<EquatorialMeanJ2000>(41) }
}
macro_rules! bodies { ($j:ident $c:ident $k:ident; $($n:expr, $b:ty;)*) => { $( if $k == $n {
    let (sun, earth) = ([u(21, $j), u(22, $j), u(23, $j)], [u(24, $j), u(25, $j), u(26, $j)]);
    let b = sh::<$b, Barycentric, EclipticMeanJ2000>($j, &$c);
    reach(1);
    eqv(sh::<Barycentric, $b, EclipticMeanJ2000>($j, &$c), neg(b), 1);
    eqv(sh::<$b, Heliocentric, EclipticMeanJ2000>($j, &$c), add(b, neg(sun)), 2);
    eqv(sh::<Heliocentric, $b, EclipticMeanJ2000>($j, &$c), add(sun, neg(b)), 3);
    eqv(sh::<$b, Geocentric, EclipticMeanJ2000>($j, &$c), add(b, neg(earth)), 4);
    eqv(sh::<Geocentric, $b, EclipticMeanJ2000>($j, &$c), add(earth, neg(b)), 5);
    eqv(sh::<$b, Barycentric, ICRS>($j, &$c), in_f::<ICRS>(b, $j, &$c), 6);
} )* } }
/// The same for the planets: whatever their place, the shifts form a group and rotate with the frame.
#[no_mangle]
pub extern "C" fn hr_ct_planets() {
    let k = pick(1, 8);
    let j = JulianDate::new(2451545.0);
    let c = AstroContext::<Any, Z>::with_types();
    bodies!(j c k; 0, Mercurycentric; 1, Venuscentric; 2, Marscentric; 3, Jovicentric; 4, Saturnocentric; 5, Uranocentric; 6, Neptunocentric; 7, Plutocentric;);
}
/// Positions: going to another centre and back is the identity, and any two routes agree.
#[no_mangle]
pub extern "C" fn hr_ct_position() {
    let j = epoch();
    let c = AstroContext::<Any, Z>::with_types();
    let v = [f64_in(3, -50.0, 50.0), f64_in(4, -50.0, 50.0), f64_in(5, -50.0, 50.0)];
    let p: Position<Geocentric, ICRS, AU> = Position::new(v[0], v[1], v[2]);
    let arr = |x: f64, y: f64, z: f64| [x, y, z];
    let h: Position<Heliocentric, ICRS, AU> = p.to_center_as::<Any, Z, Iau2006>((), j, &c);
    let b: Position<Barycentric, ICRS, AU> = h.to_center_as::<Any, Z, Iau2006>((), j, &c);
    let g: Position<Geocentric, ICRS, AU> = b.to_center_as::<Any, Z, Iau2006>((), j, &c);
    reach(1);
    eqv(arr(g.x().value(), g.y().value(), g.z().value()), v, 1);
    let e = in_f::<ICRS>([u(24, j), u(25, j), u(26, j)], j, &c);
    eqv(arr(b.x().value(), b.y().value(), b.z().value()), add(v, e), 2);
}
fn orbit() -> KeplerianOrbit {
    KeplerianOrbit::new(AstronomicalUnits::new(1.5), 0.1, Degrees::new(10.0), Degrees::new(20.0), Degrees::new(30.0), Degrees::new(40.0), JulianDate::new(2451545.0))
}
macro_rules! body_trip { ($C:ty, $v:ident, $j:ident, $c:ident, $par:ident, $off:expr, $id:expr) => {{
    let p: Position<$C, EquatorialMeanJ2000, AU> = Position::new($v[0], $v[1], $v[2]);
    let q: Position<Bodycentric, EquatorialMeanJ2000, AU> = p.to_center_as::<Any, Z, Iau2006>($par, $j, &$c);
    reach(1);
    let w = in_f::<EquatorialMeanJ2000>($off, $j, &$c);
    eqv([q.x().value(), q.y().value(), q.z().value()], add($v, neg(w)), $id);
    let g: Position<Geocentric, EquatorialMeanJ2000, AU> = p.to_center_as::<Any, Z, Iau2006>((), $j, &$c);
    let r: Position<Geocentric, EquatorialMeanJ2000, AU> = q.to_center_as::<Any, Z, Iau2006>((), $j, &$c);
    eqv([r.x().value(), r.y().value(), r.z().value()], [g.x().value(), g.y().value(), g.z().value()], $id + 1);
}} }
/// Body-centred positions use the context's own ephemeris and come back to where they started.
#[no_mangle]
pub extern "C" fn hr_ct_bodycentric() {
    let j = epoch();
    let c = AstroContext::<Any, Z>::with_types();
    let v = [f64_in(3, -50.0, 50.0), f64_in(4, -50.0, 50.0), f64_in(5, -50.0, 50.0)];
    let o = pick(6, 3);
    let par = match o { 0 => BodycentricParams::geocentric(orbit()), 1 => BodycentricParams::heliocentric(orbit()), _ => BodycentricParams::barycentric(orbit()) };
    let k = par.orbit.position_with_mu(j, par.mu);
    let k = [k.x().value(), k.y().value(), k.z().value()];
    let (sun, earth) = ([u(21, j), u(22, j), u(23, j)], [u(24, j), u(25, j), u(26, j)]);
    let bary = match o { 0 => add(k, earth), 1 => add(k, sun), _ => k };
    match pick(7, 3) {
        0 => body_trip!(Geocentric, v, j, c, par, add(bary, neg(earth)), 1),
        1 => body_trip!(Heliocentric, v, j, c, par, add(bary, neg(sun)), 3),
        _ => body_trip!(Barycentric, v, j, c, par, bary, 5),
    }
}
fn site<P: EopProvider + Default>(known: bool) {
    let j = if known { JulianDate::new(2459015.5) } else { epoch() };
    let c = AstroContext::<Any, P>::with_types();
    let h = if known { 0.0 } else { f64_in(3, -400.0, 9000.0) };
    let (lo, la) = if known { (-17.8925, 28.7543) } else { [(0.0, 0.0), (-17.8925, 28.7543), (120.0, -45.0)][pick(4, 3) as usize] };
    let s = Geodetic::<ECEF>::new(Degrees::new(lo), Degrees::new(la), Meters::new(h));
    let r: Position<Geocentric, ECEF, Kilometer> = s.to_cartesian();
    let r = [r.x().value(), r.y().value(), r.z().value()];
    let v = if known { [0.0; 3] } else { [f64_in(5, -1e5, 1e5), f64_in(6, -1e5, 1e5), f64_in(7, -1e5, 1e5)] };
    let p: Position<Geocentric, EquatorialMeanJ2000, Kilometer> = Position::new(v[0], v[1], v[2]);
    let q = to_topocentric_with_ctx::<EquatorialMeanJ2000, Kilometer, Any, P, Iau2006>(&p, s, j, &c);
    let d = add(v, neg([q.x().value(), q.y().value(), q.z().value()]));
    let cl = |a: f64, b: f64| a - b < 1e-3 && a - b > -1e-3;
    let ap = |m: &[[f64; 3]; 3], v: V| { let r = |i: usize| m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2]; [r(0), r(1), r(2)] };
    let rot = *frame_rotation_as::<ECEF, EquatorialMeanJ2000, Iau2006, Any, P>(j, &c).as_matrix();
    let want = ap(&rot, r);
    reach(1);
    if known { for i in 0..3 { check(cl(d[i], want[i]), 1); } return }
    // known finding: the site is turned by the Earth rotation angle the wrong way
    let w = *frame_rotation_as::<frames::ITRF, frames::TIRS, Iau2006, Any, P>(j, &c).as_matrix();
    let q2 = *frame_rotation_as::<frames::CIRS, EquatorialMeanJ2000, Iau2006, Any, P>(j, &c).as_matrix();
    let t = *frame_rotation_as::<frames::CIRS, frames::TIRS, Iau2006, Any, P>(j, &c).as_matrix();
    let wrong = ap(&q2, ap(&t, ap(&w, r)));
    // every component is that of one of the two, consistently
    let ok = cl(d[0], want[0]) && cl(d[1], want[1]) && cl(d[2], want[2]);
    let ko = cl(d[0], wrong[0]) && cl(d[1], wrong[1]) && cl(d[2], wrong[2]);
    check(ok || ko, 2);
    let g: Position<Geocentric, EquatorialMeanJ2000, Kilometer> = q.to_center_as::<Any, P, Iau2006>((), j, &c);
    for (a, b) in [(g.x().value(), v[0]), (g.y().value(), v[1]), (g.z().value(), v[2])] { check(cl(a, b), 3); }
}
/// The observer's place is taken off the position, and put back.
#[no_mangle]
pub extern "C" fn hr_ct_site() { site::<E>(false) }
#[no_mangle]
pub extern "C" fn hr_ct_known_site() { site::<Z>(true) }
/// Geodetic coordinates lie on the WGS84 ellipsoid raised by the height.
#[no_mangle]
pub extern "C" fn hr_ct_geodetic() {
    let (lo, la) = (f64_in(1, -180.0, 180.0), f64_in(2, -90.0, 90.0));
    let h = f64_in(3, -1000.0, 100000.0);
    let s = Geodetic::<ECEF>::new(Degrees::new(lo), Degrees::new(la), Meters::new(h));
    let r: Position<Geocentric, ECEF, Meter> = s.to_cartesian();
    let (x, y, z) = (r.x().value(), r.y().value(), r.z().value());
    let (a, f) = (6378137.0, 1.0 / 298.257223563);
    let (b2, a2) = (a * a * (1.0 - f) * (1.0 - f), a * a);
    let (l, p) = (s.lon.to::<Radian>().value(), s.lat.to::<Radian>().value());
    let up = [p.cos() * l.cos(), p.cos() * l.sin(), p.sin()];
    reach(1);
    // foot point on the ellipsoid, normal along the local vertical
    let (fx, fy, fz) = (x - h * up[0], y - h * up[1], z - h * up[2]);
    let n = (1.0 - (2.0 * f - f * f) * p.sin() * p.sin()).sqrt();
    let cl = |a: f64, b: f64| a - b < 1e-3 && a - b > -1e-3;
    let _ = (a2, b2);
    check(cl(fx * n, a * up[0]), 1);
    check(cl(fy * n, a * up[1]), 2);
    check(cl(fz * n, a * (1.0 - f) * (1.0 - f) * up[2]), 3);
}
fn _t() where EquatorialMeanJ2000: Sized { let _ = <Position<Geocentric, ICRS, AU> as TransformFrame<Position<Geocentric, EclipticMeanJ2000, AU>>>::to_frame; }
