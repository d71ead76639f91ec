use crate::sv::*;
use siderust::formats::tle::*;

/// Alpha-5: parse(format(n)) == n for every representable number; errors beyond.
#[no_mangle]
pub extern "C" fn h_tle_alpha5() {
    stub_fmt(false);
    let n = u32_(1);
    assume(n < 400_000);
    match SatelliteNumber(n).format_alpha5() {
        Ok(s) => {
            reach(1);
            check(n < 340_000, 1);
            check(s.len() == 5, 2);
            match SatelliteNumber::parse(&s) {
                Ok(m) => { out(m.0 as u64); check(m.0 == n, 3) }
                Err(_) => check(false, 4),
            }
        }
        Err(_) => { reach(2); check(n >= 340_000, 5) }
    }
}

const L1: &[u8; 69] = b"1 25544U 98067A   08264.51782528 -.00002182  00000-0 -11606-4 0  2927";
const L2: &[u8; 69] = b"2 25544  51.6416 247.4627 0006703 130.5360 325.0288 15.72125391563537";

/// Arbitrary bytes in a 4-column window anywhere (plus an arbitrary last column): accepted <=> checksum rule.
#[no_mangle]
pub extern "C" fn h_tle_checksum() {
    let w = pick(2, 65) as usize;
    let mut b = if bool_(9) { *L1 } else { *L2 };
    fill(&mut b[w..w + 4], 1);
    b[68] = u8_(3);
    for i in 0..4 { assume(b[w + i] < 0x80); }
    assume(b[68] < 0x80);
    let s = unsafe { core::str::from_utf8_unchecked(&b) };
    let mut sum = 0u32;
    for i in 0..68 {
        sum += if b[i] >= b'0' && b[i] <= b'9' { (b[i] - b'0') as u32 } else if b[i] == b'-' { 1 } else { 0 };
    }
    let want = b'0' + (sum % 10) as u8;
    check(compute_tle_checksum(&s[..68]) as u32 == sum % 10, 5);
    match validate_tle_checksum(s) {
        Ok(()) => { reach(1); check(b[68] == want, 1) }
        Err(TleError::BadChecksum { computed, .. }) => { reach(2); check(b[68] != want, 2); check(computed as u32 == sum % 10, 3) }
        Err(_) => check(false, 4),
    }
}

fn checksum(b: &[u8]) -> u8 {
    let mut sum = 0u32;
    for i in 0..68 { sum += if b[i].is_ascii_digit() { (b[i] - b'0') as u32 } else if b[i] == b'-' { 1 } else { 0 }; }
    (sum % 10) as u8 + b'0'
}

/// Case-split on the characters that make up numbers, leave every other byte symbolic.
fn soft(c: u8) -> u8 { if c == b'-' || c == b'+' || c == b'.' || c.is_ascii_digit() { conc(c as u64) as u8 } else { c } }

fn window(which: bool, n: usize, floats: bool) {
    let w = pick(2, (69 - n) as u64) as usize;
    // columns overlapping a floating-point or calendar field
    let fl = if which { w + n > 8 && w < 63 && !(w >= 26 && w + n <= 33) } else { w + n > 18 && w < 61 };
    if fl != floats { return; }
    let mut l1 = *L1;
    let mut l2 = *L2;
    {
        let l = if which { &mut l2 } else { &mut l1 };
        fill(&mut l[w..w + n], 1);
        if floats { for i in w..w + n { l[i] = soft(l[i]); } }
        if !floats { l[68] = u8_(3); } else { l[68] = checksum(&*l); }
    }
    if let (Ok(s), Ok(t)) = (core::str::from_utf8(&l1), core::str::from_utf8(&l2)) {
        reach(1);
        match parse_tle(s, t) {
            Ok(k) => {
                reach(2);
                let l = if which { &l2 } else { &l1 };
                check(l[68] == checksum(l), 1);
                check(l1[0] == b'1' && l2[0] == b'2', 2);
                check(l1[2..7] == l2[2..7], 4);
            }
            Err(_) => reach(3),
        }
    }
}
/// Adjacent columns of a line (and its checksum column) hold arbitrary bytes.
#[no_mangle]
pub extern "C" fn h_tle_l1_window() { window(false, 3, false) }
#[no_mangle]
pub extern "C" fn h_tle_l2_window() { window(true, 3, false) }
#[no_mangle]
pub extern "C" fn h_tle_l1_fwindow() { window(false, 1, true) }
#[no_mangle]
pub extern "C" fn h_tle_l2_fwindow() { window(true, 1, true) }
#[no_mangle]
pub extern "C" fn h_tle_l1_fwindow2() { window(false, 2, true) }
#[no_mangle]
pub extern "C" fn h_tle_l2_fwindow2() { window(true, 2, true) }

/// Any byte in any epoch column (case-split on the byte: the calendar arithmetic then folds).
#[no_mangle]
pub extern "C" fn h_tle_epoch_window() {
    let w = pick(2, 15) as usize + 18;
    let c = u8_(1);
    let mut l1 = *L1;
    l1[w] = soft(c);
    if c < 0x80 { l1[68] = checksum(&l1); }
    if let Ok(s) = core::str::from_utf8(&l1) {
        reach(1);
        match parse_tle(s, unsafe { core::str::from_utf8_unchecked(L2) }) {
            Ok(_) => { reach(2); check(c.is_ascii_digit() || c == b' ' || c == b'.' || c == b'+' || (w == 32 && c.is_ascii()) || c.is_ascii_whitespace() || c == 0x0b, 1) }
            Err(_) => reach(3),
        }
    }
}

/// A line of any other length is an error, never a panic (bytes arbitrary).
#[no_mangle]
pub extern "C" fn h_tle_length() {
    let n = pick(1, 75) as usize;
    let mut b = [b' '; 75];
    b[0] = u8_(2);
    b[n / 2] = u8_(3);
    let which = bool_(4);
    if let Ok(s) = core::str::from_utf8(&b[..n]) {
        let r = if which { parse_tle(s, core::str::from_utf8(L2).unwrap()) } else { parse_tle(core::str::from_utf8(L1).unwrap(), s) };
        check(r.is_err(), 1);
        if n != 69 { reach(1); check(matches!(r, Err(TleError::BadLength { got, .. }) if got == n), 2); }
        else { reach(2); }
        check(validate_tle_checksum(s).is_err() || n == 69, 3);
    }
}

/// No spelling of a numeric field yields a non-finite element.
#[no_mangle]
pub extern "C" fn h_tle_finite() {
    let f = pick(1, 10);
    let (line, at, n) = match f { 0 => (1, 33, 10), 1 => (1, 44, 8), 2 => (1, 53, 8), 3 => (2, 8, 8), 4 => (2, 17, 8), 5 => (2, 34, 8), 6 => (2, 43, 8), 7 => (2, 52, 11), 8 => (1, 20, 12), _ => (2, 26, 7) };
    let mut l1 = *L1;
    let mut l2 = *L2;
    {
        let l = if line == 1 { &mut l1 } else { &mut l2 };
        if f == 1 || f == 2 {
            // any exponent, one symbolic exponent digit string
            let d: [u8; 3] = bytes(2);
            for i in 0..3 { assume(d[i].is_ascii_digit()); }
            assume(d[1] == b'0' && d[2] == b'0' || d[0] == b'0');
            let neg = bool_(3);
            l[at..at + n].copy_from_slice(&[b' ', b'1', b'2', b'3', if neg { b'-' } else { b'+' }, d[0], d[1], d[2]]);
        } else {
            for i in 0..n { l[at + i] = b' '; }
            l[at] = if bool_(3) { b'-' } else { b' ' };
            fill(&mut l[at + 1..at + 4], 2);
            for i in 1..4 { assume(l[at + i].is_ascii_alphabetic()); }
        }
        l[68] = checksum(l);
    }
    let (s, t) = unsafe { (core::str::from_utf8_unchecked(&l1), core::str::from_utf8_unchecked(&l2)) };
    match parse_tle(s, t) {
        Ok(k) => {
            reach(1);
            for v in [k.mean_motion_dot, k.mean_motion_ddot, k.bstar, k.inclination.value(), k.raan.value(), k.eccentricity, k.argument_of_perigee.value(), k.mean_anomaly.value(), k.mean_motion.value()] {
                check(v.is_finite(), 1);
            }
        }
        Err(_) => reach(2),
    }
}

/// Integer and packed-decimal fields mean what their digits say.
#[no_mangle]
pub extern "C" fn h_tle_fields() {
    let f = pick(1, 5);
    let mut l1 = *L1;
    let mut l2 = *L2;
    let p = if f == 3 { pick(2, 7) as usize } else { 0 };
    let (line, at, n) = match f { 0 => (1, 64, 4), 1 => (2, 63, 5), 2 => (1, 18, 2), 3 => (2, 26 + p, 1), _ => (1, 3, 4) };
    let mut d = [b'0'; 5];
    let mut v = 0u32;
    for i in 0..n { d[i] = u8_(3); assume(d[i].is_ascii_digit()); if f == 2 { d[i] = conc(d[i] as u64) as u8; } v = v * 10 + (d[i] - b'0') as u32; }
    {
        let l = if line == 1 { &mut l1 } else { &mut l2 };
        l[at..at + n].copy_from_slice(&d[..n]);
    }
    if f == 4 { l2[3..7].copy_from_slice(&d[..4]); }
    l1[68] = checksum(&l1);
    l2[68] = checksum(&l2);
    let (s, t) = unsafe { (core::str::from_utf8_unchecked(&l1), core::str::from_utf8_unchecked(&l2)) };
    match parse_tle(s, t) {
        Ok(k) => {
            reach(f as u32);
            match f {
                0 => check(k.element_set_number as u32 == v, 1),
                1 => check(k.revolution_number_at_epoch == v, 2),
                2 if v < 57 || v > 60 => {
                    // two-digit years pivot at 57
                    let y = if v >= 57 { 1900 + v } else { 2000 + v };
                    use chrono::Datelike;
                    match k.epoch.try_to_chrono() { Ok(c) => check(c.year() as u32 == y, 3), Err(_) => check(false, 8) }
                }
                3 => {
                    let c = conc(v as u64) as u32;
                    let mut e = 0u32;
                    for i in 0..7 { e = e * 10 + if i == p { c } else { (L2[26 + i] - b'0') as u32 }; }
                    check((k.eccentricity - e as f64 * 1e-7).abs() < 1e-12, 4)
                }
                _ => check(k.norad_id.0 == 20000 + v, 5),
            }
            if f != 0 { check(k.element_set_number == 292, 6); }
            if f != 1 { check(k.revolution_number_at_epoch == 56353, 7); }
        }
        // UTC is not defined before 1961
        Err(_) => check(f == 2 && v >= 57 && v <= 60, 9),
    }
}

/// 3LE name: any 4 bytes; the name never changes the elements.
#[no_mangle]
pub extern "C" fn h_tle_name() {
    let b: [u8; 4] = bytes(1);
    let n = pick(2, 5) as usize;
    if let Ok(name) = core::str::from_utf8(&b[..n]) {
        reach(1);
        match parse_3le(name, core::str::from_utf8(L1).unwrap(), core::str::from_utf8(L2).unwrap()) {
            Ok(k) => {
                check(k.norad_id.0 == 25544, 1);
                if let Some(m) = k.name { reach(2); check(!m.is_empty() && m.len() <= n, 2); } else { reach(3); }
            }
            Err(_) => check(false, 3),
        }
    }
}

/// format(parse(x)) == x over the integer fields, and the result always revalidates.
#[no_mangle]
pub extern "C" fn h_tle_format() {
    stub_fmt(false);
    let mut k = match parse_tle(core::str::from_utf8(L1).unwrap(), core::str::from_utf8(L2).unwrap()) { Ok(k) => k, Err(_) => { check(false, 1); return } };
    let f = pick(1, 3);
    match f {
        0 => k.element_set_number = u16_(2),
        1 => k.revolution_number_at_epoch = u32_(3),
        _ => k.norad_id = SatelliteNumber(u32_(4)),
    }
    match format_tle(&k) {
        Ok((a, b)) => {
            reach(f as u32);
            check(a.len() == 69 && b.len() == 69, 2);
            match parse_tle(&a, &b) {
                Ok(q) => {
                    check(q.element_set_number == k.element_set_number, 3);
                    check(q.revolution_number_at_epoch == k.revolution_number_at_epoch, 4);
                    check(q.norad_id == k.norad_id, 5);
                }
                Err(_) => check(false, 6),
            }
        }
        Err(_) => {
            reach(3 + f as u32);
            match f {
                0 => check(k.element_set_number > 9999, 7),
                1 => check(k.revolution_number_at_epoch > 99_999, 8),
                _ => check(k.norad_id.0 >= 340_000, 9),
            }
        }
    }
}

/// Two lines naming different satellites are never combined.
#[no_mangle]
pub extern "C" fn h_tle_mismatch() {
    let mut l1 = *L1;
    let mut l2 = *L2;
    let a: [u8; 2] = bytes(1);
    let d: [u8; 3] = bytes(2);
    let e = u8_(3);
    let alnum = |c: u8| c.is_ascii_digit() || c.is_ascii_uppercase();
    assume(alnum(a[0]) && alnum(a[1]));
    for i in 0..3 { assume(d[i].is_ascii_digit()); }
    assume(e.is_ascii_digit());
    for i in 0..3 { l1[3 + i] = d[i]; l2[3 + i] = d[i]; }
    l1[2] = a[0];
    l2[2] = a[1];
    l1[6] = b'7';
    l2[6] = e;
    l1[68] = checksum(&l1);
    l2[68] = checksum(&l2);
    let (s, t) = unsafe { (core::str::from_utf8_unchecked(&l1), core::str::from_utf8_unchecked(&l2)) };
    match parse_tle(s, t) {
        Ok(k) => {
            reach(1);
            check(a[0] == a[1] && e == b'7', 1);
            let hi = if a[0].is_ascii_digit() { (a[0] - b'0') as u32 } else {
                // I and O are not used
                let c = a[0] - b'A' + 10;
                (if a[0] > b'O' { c - 2 } else if a[0] > b'I' { c - 1 } else { c }) as u32
            };
            check(a[0] != b'I' && a[0] != b'O', 2);
            check(k.norad_id.0 / 10_000 == hi && k.norad_id.0 % 10 == 7, 3);
        }
        Err(TleError::MismatchedSatelliteNumber { .. }) => { reach(2); check(a[0] != a[1] || e != b'7', 4) }
        Err(TleError::InvalidAlpha5 { .. }) => { reach(3); check(a[0] == b'I' || a[0] == b'O' || a[1] == b'I' || a[1] == b'O', 5) }
        Err(_) => check(false, 6),
    }
}

/// The day-of-year field selects exactly that day.
#[no_mangle]
pub extern "C" fn h_tle_epoch_day() {
    use chrono::Datelike;
    let y = conc(u64_in(1, 61, 99));
    let d: [u8; 3] = bytes(2);
    let mut v = 0u64;
    for i in 0..3 { assume(d[i].is_ascii_digit()); v = v * 10 + (d[i] - b'0') as u64; }
    let leap = y % 4 == 0;
    // the days around every calendar boundary that matters, and everything invalid
    let k = pick(3, 6);
    let v = match k { 0 => { assume(v == 0); 0 } 1 => { assume(v == 1); 1 } 2 => { assume(v >= 59 && v <= 61); conc(v) } 3 => { assume(v == 365 + 0); 365 } 4 => { assume(v == 366); 366 } _ => { assume(v >= 367); conc((v >= 367) as u64); assume(v % 100 == 67 || v == 400 || v == 999); conc(v) } };
    let mut l1 = *L1;
    l1[18] = b'0' + (y / 10) as u8;
    l1[19] = b'0' + (y % 10) as u8;
    l1[20] = b'0' + (v / 100) as u8;
    l1[21] = b'0' + (v / 10 % 10) as u8;
    l1[22] = b'0' + (v % 10) as u8;
    l1[68] = checksum(&l1);
    let s = unsafe { core::str::from_utf8_unchecked(&l1) };
    match parse_tle(s, core::str::from_utf8(L2).unwrap()) {
        Ok(t) => {
            reach(1);
            check(v >= 1 && v <= if leap { 366 } else { 365 }, 1);
            match t.epoch.try_to_chrono() { Ok(c) => { check(c.ordinal() as u64 == v, 2); check(c.year() as u64 == 1900 + y, 3) } Err(_) => check(false, 4) }
        }
        Err(_) => { reach(2); check(v == 0 || v > if leap { 366 } else { 365 }, 5) }
    }
}
