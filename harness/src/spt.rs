use crate::sv::*;
use siderust::formats::spice::ck::{CkRecord, CkSegment1};
use siderust::formats::spice::sclk::SclkCoeff;
use siderust::formats::spice::text::TextValue;
use siderust::formats::spice::{BodyOrientation, LeapSecondKernel, SclkKernel, TextKernel};
use siderust::spice::SpiceContext;

fn near(a: f64, b: f64) -> bool { let d = a - b; d < 1e-9 && d > -1e-9 }
/// The pole lies at (RA, Dec) and the prime meridian at angle W from the node, at every epoch and for every constants.
#[no_mangle]
pub extern "C" fn hr_pck() {
    let v = |i, b: f64| f64_in(i, -b, b);
    let (a0, a1, d0, d1, w0, w1) = (v(1, 360.0), v(2, 1.0), v(3, 90.0), v(4, 1.0), v(5, 360.0), v(6, 1000.0));
    let short = pick(7, 2) == 1;
    let b = BodyOrientation { pole_ra: if short { vec![a0] } else { vec![a0, a1, 0.0] }, pole_dec: vec![d0, d1], pm: vec![w0, w1, 0.0], radii: None };
    let s = v(8, 1e10);
    let m = b.rotation_to_j2000(s);
    let (c, d) = (s / (36525.0 * 86400.0), s / 86400.0);
    let ra = (if short { a0 } else { a0 + a1 * c }).to_radians();
    let de = (d0 + d1 * c).to_radians();
    let w = (w0 + w1 * d).to_radians();
    reach(1);
    let pole = [de.cos() * ra.cos(), de.cos() * ra.sin(), de.sin()];
    for i in 0..3 { checkeq(m[i][2], pole[i], 1); }
    // node N and Q = pole x N
    let n = [-ra.sin(), ra.cos(), 0.0];
    let q = [-de.sin() * ra.cos(), -de.sin() * ra.sin(), de.cos()];
    for i in 0..3 { checkeq(m[i][0], w.cos() * n[i] + w.sin() * q[i], 2); }
    for i in 0..3 { checkeq(m[i][1], -w.sin() * n[i] + w.cos() * q[i], 3); }
}
const FRAMES: &str = "\\begindata\nFRAME_100_NAME = 'IAU_A'\nFRAME_100_CLASS = 2\nFRAME_100_CLASS_ID = 4\nFRAME_100_CENTER = 4\nFRAME_200_NAME = 'IAU_B'\nFRAME_200_CLASS = 2\nFRAME_200_CLASS_ID = 5\nFRAME_200_CENTER = 5\nFRAME_300_NAME = 'TK'\nFRAME_300_CLASS = 4\nFRAME_300_CLASS_ID = 300\nFRAME_300_CENTER = 4\nTKFRAME_300_SPEC = 'MATRIX'\nTKFRAME_300_RELATIVE = 'IAU_A'\nTKFRAME_300_MATRIX = ( 0 -1 0 1 0 0 0 0 1 )\nBODY4_POLE_RA = ( 10.0 0.0 )\nBODY4_POLE_DEC = ( 50.0 0.0 )\nBODY4_PM = ( 20.0 360.0 )\nBODY5_POLE_RA = ( 200.0 0.0 )\nBODY5_POLE_DEC = ( 30.0 0.0 )\nBODY5_PM = ( 5.0 )\n";
fn mul(a: [[f64; 3]; 3], b: [[f64; 3]; 3]) -> [[f64; 3]; 3] { let mut o = [[0.0; 3]; 3]; for i in 0..3 { for j in 0..3 { for k in 0..3 { o[i][j] += a[i][k] * b[k][j]; } } } o }
/// Frame rotations compose and invert at every epoch.
#[no_mangle]
pub extern "C" fn hr_frames() {
    stub_fmt(false);
    let mut c = SpiceContext::new();
    if c.load_bytes("k", FRAMES.as_bytes().to_vec()).is_err() { check(false, 1); return }
    let s = f64_in(1, -1e9, 1e9);
    let ids = [1, 100, 200, 300];
    let (a, b) = (ids[pick(2, 4) as usize], ids[pick(3, 4) as usize]);
    let g = |x, y| c.rotation_naif(x, y, s).ok();
    let (Some(ab), Some(ba)) = (g(a, b), g(b, a)) else { check(false, 2); return };
    reach(1);
    for i in 0..3 { for j in 0..3 { check(near(ab[i][j], ba[j][i]), 3); } }
    let p = mul(ab, ba);
    for i in 0..3 { for j in 0..3 { check(near(p[i][j], (i == j) as u8 as f64), 4); } }
    let k = 100;
    let (Some(ak), Some(kb)) = (g(a, k), g(k, b)) else { check(false, 5); return };
    let q = mul(kb, ak);
    for i in 0..3 { for j in 0..3 { check(near(q[i][j], ab[i][j]), 6); } }
    // the constant frame is 90 degrees from its parent
    if let Some(t) = g(300, 100) { check(near(t[0][1], -1.0) && near(t[1][0], 1.0) && near(t[2][2], 1.0), 7); }
}
/// Frame loops and bodies without orientation are refused.
#[no_mangle]
pub extern "C" fn h_frames_bad() {
    const L: &str = "\\begindata\nFRAME_300_NAME = 'A'\nFRAME_300_CLASS = 4\nFRAME_300_CLASS_ID = 300\nFRAME_300_CENTER = 4\nTKFRAME_300_SPEC = 'MATRIX'\nTKFRAME_300_RELATIVE = 'B'\nTKFRAME_300_MATRIX = ( 1 0 0 0 1 0 0 0 1 )\nFRAME_400_NAME = 'B'\nFRAME_400_CLASS = 4\nFRAME_400_CLASS_ID = 300\nFRAME_400_CENTER = 4\nTKFRAME_400_SPEC = 'MATRIX'\nTKFRAME_400_RELATIVE = 'A'\nTKFRAME_400_MATRIX = ( 1 0 0 0 1 0 0 0 1 )\nFRAME_100_NAME = 'R'\nFRAME_100_CLASS = 2\nFRAME_100_CLASS_ID = 4\nFRAME_100_CENTER = 4\nBODY4_RADII = ( 1.0 1.0 1.0 )\n";
    stub_fmt(false);
    let mut c = SpiceContext::new();
    if c.load_bytes("k", L.as_bytes().to_vec()).is_err() { check(false, 1); return }
    let from = i32_(1);
    let from = if decide(from == 300 || from == 400 || from == 100 || from == 1) { conc(from as u64) as i32 } else { 77 };
    reach(1);
    let r = c.rotation_naif(from, 1, 0.0);
    check(r.is_ok() == (from == 1), 2);
}
/// Attitude interpolation: unit quaternions, exact at the records, refused outside, independent of the records' signs.
#[no_mangle]
pub extern "C" fn hr_ck() {
    let (x, y) = (f64_in(1, 0.1, 1.0), f64_in(2, -1.0, 1.0));
    assume(x * x + y * y == 1.0);
    let flip = pick(3, 2) == 1;
    let swap = pick(5, 2) == 1;
    let o = [1.0, 0.0, 0.0, 0.0];
    let b = if flip { [-x, 0.0, -y, 0.0] } else { [x, 0.0, y, 0.0] };
    let (qa, qb) = if swap { (b, o) } else { (o, b) };
    let seg = CkSegment1 { inst_id: -5, frame_id: 1, start_sclkdp: 0.0, end_sclkdp: 100.0, records: vec![CkRecord { sclkdp: 0.0, quaternion: qa }, CkRecord { sclkdp: 64.0, quaternion: qb }] };
    let t = [-1.0, 0.0, 32.0, 64.0, 65.0][pick(4, 5) as usize];
    match seg.evaluate(t) {
        Ok(r) => {
            reach(1);
            check(t >= 0.0 && t <= 64.0, 1);
            // the rotation is the same for a quaternion and its negative
            let same = |q: [f64; 4], id| { check(near(r[0] * r[0], q[0] * q[0]), id); check(near(r[0] * r[2], q[0] * q[2]), id + 1); };
            if t == 0.0 { same(qa, 2) }
            if t == 64.0 { same(qb, 4) }
            if t == 32.0 {
                // half way: equal distance to both ends whatever their signs, along the shorter arc
                let dl = r[0] * qa[0] + r[2] * qa[2];
                let dr = r[0] * qb[0] + r[2] * qb[2];
                check(near(dl * dl, dr * dr), 6);
                check(near(r[1], 0.0) && near(r[3], 0.0), 8);
                check(r[2] * r[0] * (x * y) >= -1e-9, 9);
            }
        }
        Err(_) => { reach(2); check(t < 0.0 || t > 64.0, 7) }
    }
}
/// Clock conversions invert each other and increase, across rate changes.
#[no_mangle]
pub extern "C" fn hr_sclk() {
    let (e0, e1, e2) = (f64_in(1, -1e9, 1e9), f64_in(2, -1e9, 1e9), f64_in(3, -1e9, 1e9));
    assume(e0 < e1 && e1 < e2);
    let r = [256.0, 255.5, 256.5];
    let s0 = f64_in(4, 0.0, 1e12);
    let s1 = s0 + (e1 - e0) * r[0];
    let s2 = s1 + (e2 - e1) * r[1];
    let k = SclkKernel { sc_id: -5, coefficients: vec![SclkCoeff { sclkdp: s0, et: e0, rate: r[0] }, SclkCoeff { sclkdp: s1, et: e1, rate: r[1] }, SclkCoeff { sclkdp: s2, et: e2, rate: r[2] }] };
    let (t, u) = (f64_in(5, -2e9, 2e9), f64_in(6, -2e9, 2e9));
    for e in [e0, e1, e2] { decide(t < e); decide(u < e); }
    assume(t < u);
    match (k.et_to_sclkdp(t), k.et_to_sclkdp(u)) {
        (Ok(x), Ok(y)) => {
            reach(1);
            check(t >= e0, 1);
            check(x < y, 2);
            match k.sclkdp_to_et(x) { Ok(b) => check(near(b, t), 3), Err(_) => check(false, 4) }
        }
        (Err(_), _) => { reach(2); check(t < e0, 5) }
        _ => check(false, 6),
    }
}
/// TAI-UTC is the step of the latest epoch not after the argument.
#[no_mangle]
pub extern "C" fn hr_lsk() {
    let e: Vec<f64> = (0..3).map(|i| f64_in(1 + i, -1e9, 1e9)).collect();
    assume(e[0] < e[1] && e[1] < e[2]);
    let k = LeapSecondKernel { delta_t_a: 32.184, leap_table: vec![(e[0], 10.0), (e[1], 11.0), (e[2], 12.0)] };
    let t = f64_in(9, -2e9, 2e9);
    reach(1);
    let want = if t >= e[2] { 12.0 } else if t >= e[1] { 11.0 } else if t >= e[0] { 10.0 } else { 0.0 };
    let g = k.tai_minus_utc_at(t);
    check(g == want, 1);
    check(near(k.tdb_minus_utc_at(t) - g, 32.184), 2);
}
/// Any character anywhere in an assignment: a result or an error, and text values stay verbatim.
#[no_mangle]
pub extern "C" fn h_text() {
    let mut s = *b"\\begindata\nAB += ( 'x=+y' )\nCD='a'\n";
    let w = 11 + pick(1, 24) as usize;
    s[w] = u8_(2);
    assume(s[w] < 128 && !(s[w] >= b'0' && s[w] <= b'9'));
    let Ok(t) = core::str::from_utf8(&s) else { return };
    match TextKernel::parse(t) {
        Ok(k) => {
            reach(1);
            // the quoted character is kept as it is
            if w >= 20 && w <= 23 && s[w] != b'\'' && s[w] != b'\n' && s[w] != b'*' {
                let want = core::str::from_utf8(&s[20..24]).unwrap_or("");
                match k.get("AB") { Some(TextValue::Array(v)) => check(v.len() == 1 && v[0] == TextValue::Text(want.to_string()), 1), _ => check(false, 2) }
            }
        }
        Err(_) => reach(2),
    }
}
/// Leap-second epochs: any year and day spelling gives a finite epoch or an error.
#[no_mangle]
pub extern "C" fn h_lsk_text() {
    let mut s = *b"\\begindata\nDELTET/DELTA_T_A = 32\nDELTET/DELTA_AT = ( 10, @1972-JAN-1 )\n";
    let base = s.len() - 14;
    let w = base + pick(1, 12) as usize;
    s[w] = u8_(2);
    assume(s[w] < 128);
    let big = bool_(3);
    let t = core::str::from_utf8(&s).unwrap_or("");
    let t = if big && w == base { "\\begindata\nDELTET/DELTA_T_A = 32\nDELTET/DELTA_AT = ( 10, @2147483647-DEC-2147483647 )\n" } else { t };
    match LeapSecondKernel::from_text(t) { Ok(k) => { reach(1); for (e, _) in &k.leap_table { check(e.is_finite(), 1) } } Err(_) => reach(2) }
}
