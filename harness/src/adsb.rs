use crate::sv::*;
use siderust::formats::adsb::*;

/// Reference remainder: long division of the 112-bit frame, one bit at a time from the top.
fn rem24(b: &[u8]) -> u32 {
    let mut r = 0u32;
    for &x in b {
        for k in 0..8 {
            let top = (r >> 23) & 1;
            r = (r << 1) & 0xff_ffff;
            r ^= (((x >> (7 - k)) & 1) as u32) << 23 & 0; // data enters below
            r ^= (0u32.wrapping_sub(top ^ ((x >> (7 - k)) & 1) as u32)) & 0xFF_F409;
        }
    }
    r & 0xff_ffff
}
const HEX: &[u8; 16] = b"0123456789ABCDEF";
fn nib(n: u8) -> u8 { n + 48 + 7 * ((n > 9) as u8) }
fn hex(b: &[u8; 14]) -> [u8; 28] {
    let mut h = [0u8; 28];
    for i in 0..14 { h[2 * i] = nib(b[i] >> 4); h[2 * i + 1] = nib(b[i] & 15); }
    h
}
fn text(h: &[u8]) -> &str { unsafe { core::str::from_utf8_unchecked(h) } }
/// An accepted frame whose 11 leading bytes are `head`: the bytes are put in place of those of a
/// frame that passed the parity gate, which is decided on its own.
fn frame(head: [u8; 11]) -> Option<AdsbFrame> {
    let mut f = parse_frame(text(&hex(&OKF))).ok()?;
    let n = core::mem::size_of::<AdsbFrame>();
    if n < 14 { return None }
    let p = unsafe { core::slice::from_raw_parts_mut(&mut f as *mut AdsbFrame as *mut u8, n) };
    for o in 0..=n - 14 {
        if p[o..o + 14] == OKF { p[o..o + 11].copy_from_slice(&head); return Some(f) }
    }
    None
}
const OKF: [u8; 14] = [0x8D, 0x40, 0x62, 0x1D, 0x58, 0xC3, 0x82, 0xD6, 0x90, 0xC8, 0xAC, 0x28, 0x63, 0xA7];

/// Accepted <=> the parity matches and the downlink format is 17 or 18 (one byte anywhere and the parity symbolic).
#[no_mangle]
pub extern "C" fn h_adsb_gate() {
    let mut b = OKF;
    let w = pick(9, 11) as usize;
    for i in [w, 11, 12, 13] { b[i] = u8_(10 + i as u32); }
    let good = rem24(&b[..11]) == ((b[11] as u32) << 16 | (b[12] as u32) << 8 | b[13] as u32);
    let df = b[0] >> 3;
    match parse_frame(text(&hex(&b))) {
        Ok(f) => { reach(1); check(good && (df == 17 || df == 18), 1); check(f.downlink_format() == df, 2); check(f.icao24() == (b[1] as u32) << 16 | (b[2] as u32) << 8 | b[3] as u32, 3); }
        Err(_) => { reach(2); check(!(good && (df == 17 || df == 18)), 4) }
    }
}
/// Every error burst of up to 24 bits is rejected, wherever it starts.
#[no_mangle]
pub extern "C" fn h_adsb_burst() {
    let e = u32_(1);
    assume(e < 1 << 24 && e != 0);
    let byte = pick(2, 12) as usize;
    let sh = pick(3, 8) as u32;
    let pat = ((e as u64) << 8 >> sh) as u32;
    let mut b = OKF;
    b[byte] ^= (pat >> 24) as u8;
    b[byte + 1] ^= (pat >> 16) as u8;
    if byte + 2 < 14 { b[byte + 2] ^= (pat >> 8) as u8; } else { assume((pat >> 8) as u8 == 0); }
    if byte + 3 < 14 { b[byte + 3] ^= pat as u8; } else { assume(pat as u8 == 0); }
    reach(1);
    assume(b != OKF);
    check(parse_frame(text(&hex(&b))).is_err(), 1);
}
/// Arbitrary characters anywhere and arbitrary lengths: no panic, and non-hex text is refused.
#[no_mangle]
pub extern "C" fn h_adsb_text() {
    let mut h = hex(&OKF);
    let w = pick(1, 28) as usize;
    fill(&mut h[w..w + 1], 2);
    let n = if bool_(3) || w % 7 != 0 { 28 } else { pick(4, 29) as usize };
    let Ok(s) = core::str::from_utf8(&h[..n]) else { return };
    let r = parse_frame(s);
    if r.is_ok() {
        reach(1);
        check(n == 28, 1);
        for i in 0..28 { check(s.as_bytes()[i].is_ascii_hexdigit(), 2); }
    } else { reach(2) }
}
fn me_frame(tc: u8) -> Option<([u8; 7], AdsbFrame)> {
    let mut head = [0x8D, 0x48, 0x40, 0xD6, 0, 0, 0, 0, 0, 0, 0];
    let mut me = [0u8; 7];
    fill(&mut me, 1);
    me[0] = tc << 3 | (me[0] & 7);
    head[4..].copy_from_slice(&me);
    frame(head).map(|f| (me, f))
}
/// Position messages carry exactly the bits of the frame.
#[no_mangle]
pub extern "C" fn h_adsb_position() {
    let tc = pick(9, 32) as u8;
    let Some((me, f)) = me_frame(tc) else { check(false, 1); return };
    check(f.me() == me && f.type_code() == tc, 2);
    let bits = me.iter().fold(0u64, |a, &x| a << 8 | x as u64);
    let r = decode_airborne_position(&f);
    check(r.is_ok() == (tc >= 9 && tc <= 18), 3);
    if let Ok(m) = r {
        reach(1);
        check(m.cpr_lon as u64 == bits & 0x1ffff, 4);
        check(m.cpr_lat as u64 == bits >> 17 & 0x1ffff, 5);
        check(m.cpr_odd == (bits >> 34 & 1 == 1), 6);
        check(m.encoded_altitude as u64 == bits >> 36 & 0xfff, 7);
        check(m.surveillance_status as u64 == bits >> 49 & 3, 8);
        check(m.single_antenna == (bits >> 48 & 1 == 1), 9);
    } else { reach(2) }
    check(decode_airborne_velocity(&f).is_ok() == (tc == 19 && (me[0] & 7 == 1 || me[0] & 7 == 2)), 10);
}
/// Callsigns: every character is the one its six bits stand for; reserved codes are refused.
#[no_mangle]
pub extern "C" fn h_adsb_callsign() {
    let tc = pick(9, 6) as u8;
    let mut me = [(tc << 3) | 3, 0x04, 0x10, 0x41, 0x04, 0x10, 0x41];
    let w = pick(8, 4) as usize;
    fill(&mut me[1 + w..4 + w], 1);
    let bits = me.iter().fold(0u64, |a, &x| a << 8 | x as u64);
    let mut head = [0x8D, 0x48, 0x40, 0xD6, 0, 0, 0, 0, 0, 0, 0];
    head[4..].copy_from_slice(&me);
    let Some(f) = frame(head) else { check(false, 1); return };
    let mut ok = tc >= 1 && tc <= 4;
    let mut last = 0;
    for i in 0..8 {
        let c = (bits >> (42 - 6 * i) & 63) as u8;
        ok &= (c >= 1 && c <= 26) | (c == 32) | (c >= 48 && c <= 57);
        if c != 32 { last = i + 1; }
    }
    match decode_identification(&f) {
        Ok(m) => {
            reach(1);
            check(ok, 2);
            check(m.category == me[0] & 7, 3);
            let s = m.callsign.as_bytes();
            check(s.len() == last, 4);
            for i in 0..s.len() { let c = (bits >> (42 - 6 * i) & 63) as u8; check(s[i] == if c <= 26 { c + 64 } else { c }, 5); }
        }
        Err(_) => { reach(2); check(!ok, 6) }
    }
}

fn near(a: f64, b: f64) -> bool { let d = a - b; d < 1e-6 && d > -1e-6 }
/// Altitude: 25-ft steps from -1000 ft, unavailable codes stay unavailable.
#[no_mangle]
pub extern "C" fn hr_adsb_altitude() {
    let e = u16_(1);
    assume(e < 4096);
    match decode_altitude(e) {
        Some(a) => { reach(1); check(e >> 4 & 1 == 1, 1); let n = (e >> 5) * 16 + (e & 15); check(near(a.value(), (n as f64 * 25.0 - 1000.0) * 0.3048), 2); }
        None => { reach(2); check(e >> 4 & 1 == 0, 3) }
    }
}
/// Velocity: raw zero means unavailable; otherwise speed components are (raw-1) knots (x4 when supersonic).
#[no_mangle]
pub extern "C" fn hr_adsb_velocity() {
    let st = 1 + pick(3, 2) as u8;
    let mut me = [0u8; 7];
    me[0] = 19 << 3 | st;
    // one symbolic component at a time, the other one picked
    let mode = pick(5, 4);
    let other = if mode >= 2 { 9 } else { [0u16, 700][pick(4, 2) as usize] };
    let x = if mode == 3 { [0u16, 1, 2, 3, 300, 1023][pick(11, 6) as usize] } else { u16_(6) };
    assume(x < 1024);
    let (rew, rns, rvr) = match mode { 0 => (x, other, 1), 1 => (other, x, 0), 2 => { assume(x < 512); (other, 7, x) }, _ => (x, other, 511) };
    let (sew, sns, svr) = (mode == 3 && pick(8, 2) == 1, (mode == 3 || mode == 1) && pick(9, 2) == 1, mode == 2 && pick(10, 2) == 1);
    me[1] = (sew as u8) << 2 | (rew >> 8) as u8;
    me[2] = rew as u8;
    me[3] = (sns as u8) << 7 | (rns >> 3) as u8;
    me[4] = (rns << 5) as u8 | (svr as u8) << 3 | (rvr >> 6) as u8;
    me[5] = (rvr << 2) as u8;
    let mut head = [0x8D, 0x48, 0x40, 0xD6, 0, 0, 0, 0, 0, 0, 0];
    head[4..].copy_from_slice(&me);
    let Some(f) = frame(head) else { check(false, 1); return };
    let Ok(m) = decode_airborne_velocity(&f) else { check(false, 2); return };
    let avail = rew != 0 && rns != 0;
    check(m.ground_speed_mps.is_some() == avail, 3);
    check(m.vertical_rate_mps.is_some() == (rvr != 0), 4);
    check(m.heading.is_some() == (avail && (rew > 1 || rns > 1)), 5);
    let k = 0.514444 * if st == 2 { 4.0 } else { 1.0 };
    let ve = (rew as f64 - 1.0) * k * if sew { -1.0 } else { 1.0 };
    let vn = (rns as f64 - 1.0) * k * if sns { -1.0 } else { 1.0 };
    if let Some(g) = m.ground_speed_mps { reach(1); let g = g.value(); check(g >= 0.0, 6); check(near(g * g, ve * ve + vn * vn), 7); }
    if let (Some(h), 3) = (m.heading, mode) {
        reach(2);
        let h = h.value();
        check(h >= -1e-6 && h <= 360.0 + 1e-6, 8);
        let t = 1e-6;
        // direction quadrant: east component has the sign of sin, north component that of cos
        if ve > 0.0 { check(h <= 180.0 + t, 9) }
        if ve < 0.0 { check(h >= 180.0 - t, 10) }
        if vn > 0.0 { check(h <= 90.0 + t || h >= 270.0 - t, 11) }
        if vn < 0.0 { check(h >= 90.0 - t && h <= 270.0 + t, 12) }
    }
    if let Some(w) = m.vertical_rate_mps { reach(3); let w = w.value(); check(near(w, (rvr as f64 - 1.0) * 64.0 * 0.00508 * if svr { -1.0 } else { 1.0 }), 13); }
}

const Q: f64 = 131072.0;
/// Global decoding: never outside the globe, for all 2^68 pairs of fields.
#[no_mangle]
pub extern "C" fn hr_adsb_cpr_global_lat() {
    let (a, b) = (u32_(1), u32_(2));
    assume(a < 1 << 17 && b < 1 << 17);
    let odd = bool_(3);
    if let Ok((lat, _)) = cpr::decode_globally(a, 0, b, 0, odd) {
        reach(1);
        let l = lat.value();
        check(l >= -90.0 && l <= 90.0, 1);
        // the latitude carries the fractional field of the selected frame
        let (x, z) = if odd { (b, 59.0) } else { (a, 60.0) };
        let k = l * z / 360.0 - x as f64 / Q;
        check(k == k.floor(), 2);
    } else { reach(2) }
}
/// Global decoding recovers the latitude that was encoded (|lat| <= 87, error at most half a code step).
#[no_mangle]
pub extern "C" fn hr_adsb_cpr_roundtrip_lat() {
    let lat = f64_in(1, -86.9, 86.9);
    let odd = bool_(3);
    let enc = |z: f64| { let t = lat * z / 360.0; let fr = t - t.floor(); (fr * Q + 0.5).floor() };
    let (y0, y1) = (enc(60.0), enc(59.0));
    assume(y0 < Q && y1 < Q);
    let (a, b) = (y0 as u32, y1 as u32);
    if let Ok((l, _)) = cpr::decode_globally(a, 0, b, 0, odd) {
        reach(1);
        let d = l.value() - lat;
        check(d < 0.00003 && d > -0.00003, 1);
    }
}
/// Local decoding: nearest latitude to the reference that carries the field.
#[no_mangle]
pub extern "C" fn hr_adsb_cpr_local() {
    let a = u32_(1);
    assume(a < 1 << 17);
    let r = f64_in(2, -90.0, 90.0);
    let odd = bool_(3);
    let z = if odd { 59.0 } else { 60.0 };
    if let Ok((lat, _)) = cpr::decode_locally(a, 0, odd, r, 0.0) {
        reach(1);
        let l = lat.value();
        check(l >= -90.0 && l <= 90.0, 1);
        check(l - r <= 180.0 / z && r - l <= 180.0 / z, 2);
        let k = l * z / 360.0 - a as f64 / Q;
        check(k == k.floor(), 3);
    } else { reach(2) }
}
/// Longitudes are finite and in [-180, 180) for every longitude field, at latitudes of every zone count.
#[no_mangle]
pub extern "C" fn h_adsb_cpr_lon() {
    const LATS: [f64; 6] = [0.0, 52.2, -33.9, 86.6, 88.5, -88.9];
    let lat = LATS[pick(1, 6) as usize];
    let enc = |z: f64| { let t = lat * z / 360.0; let fr = t - t.floor(); ((fr * Q + 0.5).floor() as u32) & 0x1ffff };
    const XS: [u32; 6] = [0, 1, 43690, 65536, 100000, 131071];
    let a = XS[pick(2, 6) as usize];
    let b = XS[pick(3, 6) as usize];
    if let Ok((_, lon)) = cpr::decode_globally(enc(60.0), a, enc(59.0), b, bool_(4)) { reach(1); let l = lon.value(); check(l >= -180.0 && l < 180.0, 1); }
    let _ = HEX;
}
