use crate::sv::*;
use siderust::coordinates::cartesian::{Direction, Position, Velocity};
use siderust::coordinates::centers::Geocentric;
use siderust::coordinates::frames::ECEF;
use siderust::mission::geometry::*;
use siderust::qtty::*;
type P = Position<Geocentric, ECEF, Meter>;
type V = Velocity<ECEF, Per<Meter, unit::Second>>;
const TAU: f64 = core::f64::consts::TAU;
const PI: f64 = core::f64::consts::PI;
fn close(a: f64, b: f64, tol: f64) -> bool { let d = a - b; d < tol && d > -tol }
fn near(a: f64, b: f64) -> bool { close(a, b, 1e-12) }
fn dot(a: [f64; 3], b: [f64; 3]) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn cross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn sub(a: [f64; 3], b: [f64; 3]) -> [f64; 3] { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn vec(tag: u32, b: f64) -> [f64; 3] { [f64_in(tag, -b, b), f64_in(tag + 1, -b, b), f64_in(tag + 2, -b, b)] }
fn p(v: [f64; 3]) -> P { P::new(v[0], v[1], v[2]) }
fn w(v: [f64; 3]) -> V { V::new(v[0], v[1], v[2]) }
fn m(x: f64) -> Meters { Meters::new(x) }
fn rad(x: f64) -> Radians { Radians::new(x) }
/// A segment is obstructed exactly when it meets the body.
#[no_mangle]
pub extern "C" fn hr_mi_los() {
    // observer at height y on a line parallel to an axis, from x1 to x2
    let (x1, x2, y, r) = (f64_in(1, -1e5, 1e5), f64_in(2, -1e5, 1e5), f64_in(3, -1e5, 1e5), f64_in(4, 1.0, 1e5));
    let z = f64_in(5, -1e5, 1e5);
    let k = pick(90, 3) as usize;
    let at = |x: f64| { let mut v = [y, y, y]; v[k] = x; v[(k + 1) % 3] = y; v[(k + 2) % 3] = z; v };
    let h2 = y * y + z * z;
    let (lo, hi) = if decide(x1 <= x2) { (x1, x2) } else { assume(x1 > x2); (x2, x1) };
    assume(lo < hi);
    // nearest point of the segment to the centre, and the farthest one
    let n = if decide(lo > 0.0) { lo } else { assume(lo <= 0.0); if decide(hi < 0.0) { hi } else { assume(hi >= 0.0); 0.0 } };
    let d2 = n * n + h2;
    let inside = decide(lo * lo + h2 < r * r) && decide(hi * hi + h2 < r * r);
    let touch = decide(d2 < r * r);
    if !touch { assume(d2 > r * r); }
    let o = line_of_sight_obstructed(&p(at(x1)), &p(at(x2)), m(r));
    reach(if touch { 1 } else { 2 });
    check(o == touch, 1);
    let _ = inside;
}
/// Slanted segments.
#[no_mangle]
pub extern "C" fn hr_mi_los_slant() {
    let a = [[7000.0, 0.0, 0.0], [4000.0, -5000.0, 6000.0]][pick(90, 2) as usize];
    let b = [[-7000.0, 2000.0, 500.0], [4000.0, 9000.0, 6000.0], [8000.0, -10000.0, 12000.0], [-4000.0, 5000.0, -6000.0]][pick(91, 4) as usize];
    let r = f64_in(1, 1.0, 2e4);
    let d = sub(b, a);
    let t = -dot(a, d) / dot(d, d);
    let t = if t < 0.0 { 0.0 } else if t > 1.0 { 1.0 } else { t };
    let q = [a[0] + t * d[0], a[1] + t * d[1], a[2] + t * d[2]];
    let n = dot(q, q).sqrt();
    let hit = decide(r > n + 1e-3) || { assume(r < n - 1e-3); false };
    reach(if hit { 1 } else { 2 });
    check(line_of_sight_obstructed(&p(a), &p(b), m(r)) == hit, 1);
    // a single point is obstructed inside the body
    let na = dot(a, a).sqrt();
    let i = decide(r > na + 1e-3) || { assume(r < na - 1e-3); false };
    check(line_of_sight_obstructed(&p(a), &p(a), m(r)) == i, 2);
}
/// Share of a disc behind another one: none apart, all when covered, ratio of areas in transit, lens between.
#[no_mangle]
pub extern "C" fn hr_mi_occult() {
    let o = [[0.0, 0.0, 0.0], [100.0, -200.0, 50.0]][pick(90, 2) as usize];
    // directions towards both bodies separated by a known angle
    let sep = [0.0, 0.001, 0.004, 0.006, 0.02, 1.0][pick(91, 6) as usize];
    let (dt, dk) = (1.5e8, 4e5);
    let (rt, rk) = (f64_in(1, 1.0, 1.5e6), f64_in(2, 1.0, 1e4));
    let sep: f64 = sep;
    let t = [o[0] + dt, o[1], o[2]];
    let k = [o[0] + dk * sep.cos(), o[1] + dk * sep.sin(), o[2]];
    let (u, v) = (sub(t, o), sub(k, o));
    let (nu, nv) = (dot(u, u).sqrt(), dot(v, v).sqrt());
    let (at, ak) = ((rt / nu).atan(), (rk / nv).atan());
    let sep = { let c = dot(u, v) / (nu * nv); if c > 1.0 { 0.0 } else { c.acos() } };
    assume(at > 0.0 && ak > 0.0 && at < 0.02 && ak < 0.03);
    let eps = 1e-7;
    let which = if decide(sep > at + ak + eps) { 1 } else { assume(sep < at + ak - eps); if decide(sep + at < ak - eps) { 2 } else { assume(sep + at > ak + eps); if decide(sep + ak < at - eps) { 3 } else { assume(sep + ak > at + eps); 4 } } };
    let f = occultation_fraction(&p(o), &p(t), m(rt), &p(k), m(rk));
    reach(which);
    match which {
        1 => check(f == 0.0, 1),
        2 => check(f == 1.0, 2),
        3 => check(near(f * (at * at), ak * ak), 3),
        _ => check(f >= 0.0 && f <= 1.0, 4),
    }
    let e = eclipse_state(&p(o), &p(t), m(rt), &p(k), m(rk));
    match which { 1 => check(e == EclipseState::Sunlight, 5), 2 => check(e == EclipseState::Umbra, 6), 3 => { assume(ak * ak < 0.999 * (at * at)); check(e == EclipseState::Penumbra, 7) } _ => {} }
    check(solar_eclipsing(&p(o), &p(t), m(rt), &p(k), m(rk)) == (e != EclipseState::Sunlight), 8);
}
/// The lens area for chosen overlaps against quadrature by hand.
#[no_mangle]
pub extern "C" fn hr_mi_lens() {
    // equal discs a radius apart: 2/3 - sqrt(3)/(2 pi)
    let (dt, k) = (f64_in(1, 1e5, 1e8), [0.2, 1.0][pick(90, 2) as usize]);
    let _ = dt;
    let d = 1e8;
    let a = 0.005f64;
    let r = a.tan() * d;
    let s = a;
    let t = [d, 0.0, 0.0];
    let o = [k * d * s.cos(), 0.0, k * d * s.sin()];
    let f = occultation_fraction(&p([0.0; 3]), &p(t), m(r), &p(o), m(r * k));
    reach(1);
    check(close(f, 2.0 / 3.0 - 3f64.sqrt() / (2.0 * PI), 1e-6), 1);
}
/// Conical and rectangular fields of view.
#[no_mangle]
pub extern "C" fn hr_mi_fov() {
    let (h, a, b, x) = (f64_in(1, 0.0, 3.0), f64_in(2, 0.0, 3.0), f64_in(3, 0.0, 3.0), f64_in(4, -4.0, 4.0));
    let off = if x < 0.0 { -x } else { x };
    check(Fov::Conical { half_angle: rad(h) }.contains_boresight(rad(x)) == (off <= h), 1);
    let s = if a < b { a } else { b };
    check(Fov::Rectangular { across_track: rad(a), along_track: rad(b) }.contains_boresight(rad(x)) == (off <= s / 2.0), 2);
    reach(1);
}
/// Linear interpolation around the circle, in any order and winding of the samples.
#[no_mangle]
pub extern "C" fn hr_mi_terrain() {
    let e = [f64_in(1, -0.5, 1.5), f64_in(2, -0.5, 1.5), f64_in(3, -0.5, 1.5)];
    let base = [0.5, 2.5, 5.0];
    let wind = [[0.0, 0.0, 0.0], [0.0, 0.0, -TAU], [TAU, 0.0, 0.0], [-TAU, 2.0 * TAU, 0.0]][pick(90, 4) as usize];
    let ord = [[0, 1, 2], [2, 0, 1], [1, 0, 2]][pick(91, 3) as usize];
    let t = TerrainMask::new(ord.iter().map(|&i| (rad(base[i] + wind[i]), rad(e[i]))).collect());
    let x = f64_in(4, 0.0, 6.28);
    let q = x + TAU * [0.0, -1.0, 1.0][pick(92, 3) as usize];
    let seg = if decide(x < base[0]) { 3 } else { assume(x >= base[0]); if decide(x < base[1]) { 0 } else { assume(x >= base[1]); if decide(x < base[2]) { 1 } else { assume(x >= base[2]); 2 } } };
    let (a0, a1, e0, e1) = match seg { 0 => (base[0], base[1], e[0], e[1]), 1 => (base[1], base[2], e[1], e[2]), 2 => (base[2], base[0] + TAU, e[2], e[0]), _ => (base[2] - TAU, base[0], e[2], e[0]) };
    let z = e0 + (x - a0) / (a1 - a0) * (e1 - e0);
    reach(1 + seg);
    check(close(t.elevation_at(rad(q)).value(), z, 1e-9), 1);
    let el = f64_in(5, -1.0, 2.0);
    if decide(el > z + 1e-6) { check(t.clears(rad(q), rad(el)), 2); } else { assume(el < z - 1e-6); check(!t.clears(rad(q), rad(el)), 3); }
}
#[no_mangle]
pub extern "C" fn hr_mi_terrain_small() {
    let x = f64_in(1, -20.0, 20.0);
    let e = f64_in(2, -1.0, 1.0);
    check(TerrainMask::new(vec![]).elevation_at(rad(x)).value() == 0.0, 1);
    let a = [0.0, 3.0, 6.28, -0.5][pick(90, 4) as usize];
    check(near(TerrainMask::new(vec![(rad(a), rad(e))]).elevation_at(rad(x)).value(), e), 2);
    reach(1);
}
/// Range, rate, light time and direction of a target from a station.
#[no_mangle]
pub extern "C" fn hr_mi_azel() {
    let (lat, lon) = [(0.0, 0.0), (0.75, 2.5), (-1.25, -0.5), (core::f64::consts::FRAC_PI_2, 1.0)][pick(90, 4) as usize];
    let o = [[6378e3, 0.0, 0.0], [-3e6, 2e6, 5e6]][pick(91, 2) as usize];
    let d = [[1e6, 0.0, 0.0], [-4e5, 3e6, 1e6], [2e5, -7e5, -9e5], [1e3, 2e3, -3e3], [-2e5, 3e5, 4e5]][pick(92, 5) as usize];
    let (v, u) = (vec(1, 1e4), vec(4, 1e4));
    let t = [o[0] + d[0], o[1] + d[1], o[2] + d[2]];
    let r = azimuth_elevation_range(&p(o), &w(v), &p(t), &w(u), LocalFrame::new(rad(lat), rad(lon)));
    reach(1);
    let n = dot(d, d).sqrt();
    check(close(r.range.value(), n, 1e-6), 1);
    check(close(r.range_rate.value(), dot(d, sub(u, v)) / n, 1e-6), 2);
    check(close(r.light_time.value(), n / 299792458.0, 1e-12), 3);
    check(r.status == LineOfSightStatus::Clear, 4);
    let (sp, cp, sl, cl) = (f64::sin(lat), f64::cos(lat), f64::sin(lon), f64::cos(lon));
    let (e, no, up) = (-sl * d[0] + cl * d[1], -sp * cl * d[0] - sp * sl * d[1] + cp * d[2], cp * cl * d[0] + cp * sl * d[1] + sp * d[2]);
    // the angles are kept in radians (see the known finding)
    let (az, el) = (r.pointing.az().value(), r.pointing.alt().value());
    check(close(el, (up / n).asin(), 1e-9) || close(el, (up / n).asin() * 180.0 / PI, 1e-9), 5);
    let k = if close(el, (up / n).asin(), 1e-9) { 1.0 } else { PI / 180.0 };
    check(az >= 0.0 && az * k < TAU + 1e-9, 6);
    let h = (e * e + no * no).sqrt();
    if h > 1.0 { check(close((az * k).sin() * h, e, 1e-3) && close((az * k).cos() * h, no, 1e-3), 7); }
}
#[no_mangle]
pub extern "C" fn hr_mi_known_azel() {
    let r = azimuth_elevation_range(&p([6378e3, 0.0, 0.0]), &w([0.0; 3]), &p([7378e3, 0.0, 0.0]), &w([0.0; 3]), LocalFrame::new(rad(0.0), rad(0.0)));
    check(close(r.pointing.alt().value(), 90.0, 1e-6), 1);
}
/// Straight overhead the elevation is a number, whatever the rounding.
#[no_mangle]
pub extern "C" fn h_mi_zenith() {
    let lat = -1.5 + 0.1 * pick(90, 31) as f64;
    let lon = [0.3, 1.7, -2.9][pick(91, 3) as usize];
    let (sp, cp) = lat.sin_cos();
    let (sl, cl) = f64::sin_cos(lon);
    let up = [cp * cl, cp * sl, sp];
    let at = |k: f64| [up[0] * k, up[1] * k, up[2] * k];
    let r = azimuth_elevation_range(&p(at(6378e3)), &w([0.0; 3]), &p(at(7e6)), &w([0.0; 3]), LocalFrame::new(rad(lat), rad(lon)));
    reach(1);
    check(r.pointing.alt().value() == r.pointing.alt().value(), 1);
    check(r.pointing.alt().value() > 1.5, 2);
}
/// sin(beta) = h . s
#[no_mangle]
pub extern "C" fn hr_mi_beta() {
    let i = pick(90, 4) as usize;
    let (r, v) = ([[7e6, 0.0, 0.0], [3e6, 4e6, 5.5e6], [-4.1e6, 39e6, -14.3e6], [0.0, 0.0, 7e6]][i], [[0.0, 6.5e3, 3.5e3], [-5e3, 4e3, 2250.0], [1.5e3, 1e3, -2e3], [7e3, 0.0, 100.0]][i]);
    let s = [[1.0, 0.0, 0.0], [0.0, -0.6, 0.8], [0.36, 0.48, -0.8], [0.0, 0.0, 1.0], [-0.6, 0.0, -0.8]][pick(91, 5) as usize];
    let k = f64_in(1, 0.5, 2.0);
    let b = beta_angle(&p(r), &w([k * v[0], k * v[1], k * v[2]]), &Direction::<ECEF>::new(s[0], s[1], s[2])).value();
    let h = cross(r, v);
    reach(1);
    check(b >= -PI / 2.0 - 1e-9 && b <= PI / 2.0 + 1e-9, 1);
    check(close(b.sin() , dot(h, s) / dot(h, h).sqrt(), 1e-9), 2);
}
/// Noon under the Sun, 24 hours per turn.
#[no_mangle]
pub extern "C" fn hr_mi_solar_time() {
    let (a, b) = (f64_in(1, -7.0, 7.0), f64_in(2, -7.0, 7.0));
    let t = if pick(90, 2) == 0 { local_solar_time(rad(a), rad(b)) } else { ltan(rad(a), rad(b)) }.value();
    reach(1);
    check(t >= 0.0 && t < 86400.0 + 1e-6, 1);
    let turns = (t - 43200.0) / 86400.0 - (a - b) / TAU;
    // a whole number of turns
    check(close(turns, -3.0, 1e-9) || close(turns, -2.0, 1e-9) || close(turns, -1.0, 1e-9) || close(turns, 0.0, 1e-9) || close(turns, 1.0, 1e-9) || close(turns, 2.0, 1e-9) || close(turns, 3.0, 1e-9), 2);
}
