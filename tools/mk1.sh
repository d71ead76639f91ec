python3 tools/mkbug.py tle_plus C01 src/formats/tle/parse.rs <<'X'
%%old
        } else if b == b'-' {
%%new
        } else if b == b'-' || b == b'+' {
%%demo
use siderust::formats::tle::compute_tle_checksum;
fn main() {
    // only digits and '-' count
    let a = compute_tle_checksum("1 25544U 98067A   08264.51782528  .00002182  00000 0  11606 4 0  292");
    let b = compute_tle_checksum("1 25544U 98067A   08264.51782528 +.00002182  00000+0 +11606+4 0  292");
    assert_eq!(a, b);
}
%%needs
a line that contains a '+' sign
%%breaks
the checksum counts plus signs, so valid lines with '+' are rejected and invalid ones accepted
X
python3 tools/mkbug.py tle_alpha_n C02 src/formats/tle/tle.rs <<'X'
%%old
            b'J'..=b'N' => first - b'J' + 18,
%%new
            b'J'..b'N' => first - b'J' + 18,
%%demo
use siderust::formats::tle::SatelliteNumber;
fn main() {
    for n in (0..340_000).step_by(37).chain([339_999]) {
        assert_eq!(SatelliteNumber::parse(&SatelliteNumber(n).format_alpha5().unwrap()).unwrap().0, n);
    }
}
%%needs
a catalog number in 220000..230000
%%breaks
Alpha-5 numbers starting with N are rejected
X
python3 tools/mkbug.py tle_mismatch C02 src/formats/tle/parse.rs <<'X'
%%old
    if norad_l1 != norad_l2 {
%%new
    if norad_l1.0 % 100_000 != norad_l2.0 % 100_000 {
%%demo
use siderust::formats::tle::*;
fn main() {
    let mut l1 = String::from("1 05544U 98067A   62264.51782528 -.00002182  00000-0 -11606-4 0  292");
    l1.push_str(&compute_tle_checksum(&l1).to_string());
    let mut l2 = String::from("2 A5544  51.6416 247.4627 0006703 130.5360 325.0288 15.7212539156353");
    l2.push_str(&compute_tle_checksum(&l2).to_string());
    assert!(parse_tle(&l1, &l2).is_err());
}
%%needs
an Alpha-5 number on one line whose last five decimal digits equal the other line's number
%%breaks
lines of two different satellites are merged
X
