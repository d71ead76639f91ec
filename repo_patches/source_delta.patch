From 137510ac6d276dae17904cf41f570625b77368c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 01/18] fix: reject non-ASCII TLE lines instead of panicking on
 a column slice

---
 src/formats/tle/parse.rs | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/formats/tle/parse.rs b/src/formats/tle/parse.rs
index 676d2a1..d82af4a 100644
--- a/src/formats/tle/parse.rs
+++ b/src/formats/tle/parse.rs
@@ -32,12 +32,7 @@ pub fn validate_tle_checksum(line: &str) -> Result<(), TleError> {
     } else {
         0u8
     };
-    if line.len() != 69 {
-        return Err(TleError::BadLength {
-            line: line_no,
-            got: line.len(),
-        });
-    }
+    check_columns(line, line_no)?;
     let bytes = line.as_bytes();
     let stated_byte = bytes[68];
     if !stated_byte.is_ascii_digit() {
@@ -59,6 +54,25 @@ pub fn validate_tle_checksum(line: &str) -> Result<(), TleError> {
     Ok(())
 }
 
+/// A TLE line is exactly 69 single-byte (ASCII) columns; anything else cannot
+/// be sliced by column.
+fn check_columns(line: &str, line_no: u8) -> Result<(), TleError> {
+    if line.len() != 69 {
+        return Err(TleError::BadLength {
+            line: line_no,
+            got: line.len(),
+        });
+    }
+    if !line.is_ascii() {
+        // 69 bytes but fewer characters.
+        return Err(TleError::BadLength {
+            line: line_no,
+            got: line.chars().count(),
+        });
+    }
+    Ok(())
+}
+
 /// Compute the canonical TLE checksum digit for the first 68 columns.
 ///
 /// # Examples
@@ -127,18 +141,8 @@ pub fn parse_3le(name: &str, line1: &str, line2: &str) -> Result<TLE, TleError>
 }
 
 fn parse_tle_inner(name: Option<String>, line1: &str, line2: &str) -> Result<TLE, TleError> {
-    if line1.len() != 69 {
-        return Err(TleError::BadLength {
-            line: 1,
-            got: line1.len(),
-        });
-    }
-    if line2.len() != 69 {
-        return Err(TleError::BadLength {
-            line: 2,
-            got: line2.len(),
-        });
-    }
+    check_columns(line1, 1)?;
+    check_columns(line2, 2)?;
     let l1b = line1.as_bytes();
     let l2b = line2.as_bytes();
     if l1b[0] as char != '1' {
-- 
2.43.0


From a704ea764d414f368d4e1fde0cea43ef577539b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 02/18] fix: reject negative TLE counter fields instead of
 wrapping them

---
 src/formats/tle/parse.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/formats/tle/parse.rs b/src/formats/tle/parse.rs
index d82af4a..ef821ce 100644
--- a/src/formats/tle/parse.rs
+++ b/src/formats/tle/parse.rs
@@ -165,13 +165,12 @@ fn parse_tle_inner(name: Option<String>, line1: &str, line2: &str) -> Result<TLE
     let norad_l1 = SatelliteNumber::parse(&line1[2..7])?;
     let classification = Classification::from_char(line1.as_bytes()[7] as char)?;
     let intl_des = InternationalDesignator(line1[9..17].trim().to_string());
-    let epoch_year_2 = parse_int_field(&line1[18..20], "epoch_year")?;
+    let epoch_year_2: u8 = parse_int_field(&line1[18..20], "epoch_year")?;
     let epoch_day = parse_float_field(&line1[20..32], "epoch_day")?;
     let mean_motion_dot = parse_signed_decimal(&line1[33..43], "mean_motion_dot")?;
     let mean_motion_ddot = parse_assumed_decimal_exponent(&line1[44..52], "mean_motion_ddot")?;
     let bstar = parse_assumed_decimal_exponent(&line1[53..61], "bstar")?;
-    let element_set_number =
-        parse_int_field(line1[64..68].trim_start(), "element_set_number")? as u16;
+    let element_set_number = parse_int_field(&line1[64..68], "element_set_number")?;
 
     let norad_l2 = SatelliteNumber::parse(&line2[2..7])?;
     if norad_l1 != norad_l2 {
@@ -200,8 +199,7 @@ fn parse_tle_inner(name: Option<String>, line1: &str, line2: &str) -> Result<TLE
     let mean_anomaly = Degrees::new(parse_float_field(&line2[43..51], "mean_anomaly")?);
     let mean_motion_revs_per_day = parse_float_field(&line2[52..63], "mean_motion")?;
     let mean_motion = AngularRate::<Turn, Day>::new(mean_motion_revs_per_day);
-    let revolution_number_at_epoch =
-        parse_int_field(line2[63..68].trim_start(), "revolution_number")? as u32;
+    let revolution_number_at_epoch = parse_int_field(&line2[63..68], "revolution_number")?;
 
     let epoch = epoch_from_year_doy(expand_two_digit_year(epoch_year_2 as i32), epoch_day)?;
 
@@ -255,9 +253,9 @@ pub(crate) fn epoch_from_year_doy(year: i32, day_of_year: f64) -> Result<Time<UT
     Time::<UTC>::try_from_chrono(dt).map_err(|e| TleError::EpochConversion(format!("{e:?}")))
 }
 
-fn parse_int_field(raw: &str, field: &'static str) -> Result<i64, TleError> {
+fn parse_int_field<T: std::str::FromStr>(raw: &str, field: &'static str) -> Result<T, TleError> {
     let s = raw.trim();
-    s.parse::<i64>().map_err(|_| TleError::InvalidNumber {
+    s.parse::<T>().map_err(|_| TleError::InvalidNumber {
         field,
         raw: raw.into(),
     })
-- 
2.43.0


From e9cad592ebfd580b366b70578dc54adbc99963c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 03/18] fix: reject non-finite numbers in TLE fields

---
 src/formats/tle/parse.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/formats/tle/parse.rs b/src/formats/tle/parse.rs
index ef821ce..af6aa3e 100644
--- a/src/formats/tle/parse.rs
+++ b/src/formats/tle/parse.rs
@@ -263,18 +263,24 @@ fn parse_int_field<T: std::str::FromStr>(raw: &str, field: &'static str) -> Resu
 
 fn parse_float_field(raw: &str, field: &'static str) -> Result<f64, TleError> {
     let s = raw.trim();
-    s.parse::<f64>().map_err(|_| TleError::InvalidNumber {
-        field,
-        raw: raw.into(),
-    })
+    match s.parse::<f64>() {
+        Ok(v) if v.is_finite() => Ok(v),
+        _ => Err(TleError::InvalidNumber {
+            field,
+            raw: raw.into(),
+        }),
+    }
 }
 
 fn parse_signed_decimal(raw: &str, field: &'static str) -> Result<f64, TleError> {
     let s = raw.trim();
-    s.parse::<f64>().map_err(|_| TleError::InvalidNumber {
-        field,
-        raw: raw.into(),
-    })
+    match s.parse::<f64>() {
+        Ok(v) if v.is_finite() => Ok(v),
+        _ => Err(TleError::InvalidNumber {
+            field,
+            raw: raw.into(),
+        }),
+    }
 }
 
 /// Parse the TLE assumed-decimal-with-exponent encoding (e.g. `" 12345-3"` →
@@ -321,5 +327,12 @@ pub(crate) fn parse_assumed_decimal_exponent(
         field,
         raw: raw.into(),
     })?;
-    Ok(sign * mantissa * 10f64.powi(exp))
+    let value = sign * mantissa * 10f64.powi(exp);
+    if !value.is_finite() {
+        return Err(TleError::InvalidNumber {
+            field,
+            raw: raw.into(),
+        });
+    }
+    Ok(value)
 }
-- 
2.43.0


From 3bbc4f0b514ee4d694a0b8a286a532c54e516080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 04/18] fix: format_tle keeps the mantissa within five digits
 and reports overflowing fields

---
 src/formats/tle/builder.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/formats/tle/builder.rs b/src/formats/tle/builder.rs
index b9da383..aaa6259 100644
--- a/src/formats/tle/builder.rs
+++ b/src/formats/tle/builder.rs
@@ -360,7 +360,8 @@ impl TleBuilder {
 /// Render a [`TLE`] back to its canonical 2-line ASCII representation.
 ///
 /// The returned tuple is `(line1, line2)`; both are 69 ASCII characters
-/// long with a valid checksum digit. Composing them with the satellite
+/// long with a valid checksum digit; an element too large for its columns is
+/// reported as [`TleError::BadLength`]. Composing them with the satellite
 /// `name` recovers the 3LE form.
 ///
 /// # Examples
@@ -395,11 +396,12 @@ pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
     let elset = format!("{:>4}", tle.element_set_number);
     let mut l1 =
         format!("1 {cat}{cls} {intl} {yy:02}{day_full:012.8} {n_dot} {n_ddot} {bstar_s} 0 {elset}");
-    debug_assert_eq!(
-        l1.len(),
-        68,
-        "rendered TLE line1 prefix not 68 chars: {l1:?}"
-    );
+    if l1.len() != 68 {
+        return Err(TleError::BadLength {
+            line: 1,
+            got: l1.chars().count() + 1,
+        });
+    }
     let cs1 = compute_tle_checksum(&l1);
     l1.push_str(&cs1.to_string());
 
@@ -412,11 +414,12 @@ pub fn format_tle(tle: &TLE) -> Result<(String, String), TleError> {
     let n_str = format!("{:11.8}", tle.mean_motion.value());
     let rev = format!("{:>5}", tle.revolution_number_at_epoch);
     let mut l2 = format!("2 {cat} {inc} {raan} {ecc} {argp} {m_ano} {n_str}{rev}");
-    debug_assert_eq!(
-        l2.len(),
-        68,
-        "rendered TLE line2 prefix not 68 chars: {l2:?}"
-    );
+    if l2.len() != 68 {
+        return Err(TleError::BadLength {
+            line: 2,
+            got: l2.chars().count() + 1,
+        });
+    }
     let cs2 = compute_tle_checksum(&l2);
     l2.push_str(&cs2.to_string());
     Ok((l1, l2))
@@ -438,7 +441,7 @@ fn format_assumed_decimal_exponent(v: f64) -> String {
     let mut exp = mag.log10().floor() as i32 + 1;
     let mut mantissa = mag / 10f64.powi(exp);
     let scaled = (mantissa * 1.0e5).round() as u64;
-    if scaled >= 1_000_000 {
+    if scaled >= 100_000 {
         mantissa /= 10.0;
         exp += 1;
     }
-- 
2.43.0


From 289b4fbc684a3ad78efe05df6105d03fa5bddf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 05/18] hook: verif_hooks module re-exporting event search
 internals (cfg verif_hooks only)

---
 src/lib.rs         |  6 +++
 src/verif_hooks.rs | 96 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 102 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index dd222d8..aac574f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -119,6 +119,8 @@
 //!
 //! For a runnable tour of the library, see the `examples/` directory.
 
+#![allow(unexpected_cfgs)] // `verif_hooks`: see src/verif_hooks.rs
+
 pub(crate) use ::qtty as ext_qtty;
 
 pub mod astro;
@@ -195,3 +197,7 @@ pub use targets::{CoordinateWithPM, Trackable};
 
 #[cfg(feature = "bench-internals")]
 pub mod bench_internals;
+
+#[cfg(verif_hooks)]
+#[doc(hidden)]
+pub mod verif_hooks;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..0e2c0fa
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,96 @@
+// SPDX-License-Identifier: AGPL-3.0-only
+// Copyright (C) 2026 Vallés Puig, Ramon
+
+//! Access to crate-internal search machinery for external verification.
+//!
+//! Compiled only with `--cfg verif_hooks`; thin re-exports and forwarders, no logic.
+#![allow(missing_docs)]
+
+use crate::qtty::Days;
+use crate::time::{Interval, ModifiedJulianDate};
+
+pub use crate::event::search::bracketing::{
+    adaptive_step_brackets, extrema_based_brackets, fixed_step_brackets,
+};
+pub use crate::event::search::extrema::{
+    classify, find_extrema_tol, maximize_tol, minimize_tol, Extremum, ExtremumKind,
+};
+pub use crate::event::search::intervals::{
+    above_threshold_periods, above_threshold_periods_directed, above_threshold_periods_segmented,
+    build_above_periods, build_above_periods_directed, find_crossings, find_crossings_in_segments,
+    find_directed_crossings, in_range_periods, in_range_periods_directed,
+    in_range_periods_segmented, label_crossings, LabeledCrossing,
+};
+pub use crate::event::search::root_finding::{bisection, brent, brent_tol, brent_with_values};
+
+pub fn assemble_above_threshold_periods(
+    labelled: &[LabeledCrossing],
+    window: Interval<ModifiedJulianDate>,
+    start_above: bool,
+) -> Vec<Interval<ModifiedJulianDate>> {
+    crate::event::search::periods::assemble_above_threshold_periods(labelled, window, start_above)
+}
+
+pub fn complement_threshold_periods(
+    window: Interval<ModifiedJulianDate>,
+    above: &[Interval<ModifiedJulianDate>],
+) -> Vec<Interval<ModifiedJulianDate>> {
+    crate::event::search::periods::complement_threshold_periods(window, above)
+}
+
+pub fn assemble_in_range_periods(
+    min_crossings: &[LabeledCrossing],
+    start_above_min: bool,
+    max_crossings: &[LabeledCrossing],
+    start_above_max: bool,
+    window: Interval<ModifiedJulianDate>,
+) -> Vec<Interval<ModifiedJulianDate>> {
+    crate::event::search::periods::assemble_in_range_periods(
+        min_crossings,
+        start_above_min,
+        max_crossings,
+        start_above_max,
+        window,
+    )
+}
+
+#[allow(clippy::too_many_arguments)]
+pub fn scan_labelled_crossings<F: Fn(ModifiedJulianDate) -> f64>(
+    period: Interval<ModifiedJulianDate>,
+    step: Days,
+    signal: &F,
+    threshold_sin: f64,
+    time_tolerance: Days,
+    max_residual: f64,
+) -> Vec<LabeledCrossing> {
+    let mut diagnostics = crate::event::search::crossings::SearchDiagnostics::default();
+    crate::event::search::scan_fallback::scan_labelled_crossings(
+        period,
+        step,
+        signal,
+        threshold_sin,
+        time_tolerance,
+        max_residual,
+        &mut diagnostics,
+    )
+}
+
+pub fn brent_f64<F: FnMut(f64) -> f64>(
+    lo: f64,
+    hi: f64,
+    f_lo: f64,
+    f_hi: f64,
+    f: F,
+    time_tol: f64,
+    residual_tol: f64,
+) -> Option<f64> {
+    crate::event::search::scan_fallback::brent_f64(
+        lo,
+        hi,
+        f_lo,
+        f_hi,
+        f,
+        time_tol,
+        residual_tol,
+    )
+}
-- 
2.43.0


From 933ef0d516c271d6aaf47ab43d79f7dac71389aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 06/18] fix: keep crossings that fall exactly on a scan sample
 and drop sample tangencies in the scan fallback

---
 src/event/search/intervals.rs     | 3 ++-
 src/event/search/scan_fallback.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/event/search/intervals.rs b/src/event/search/intervals.rs
index d0881ca..0e8582b 100644
--- a/src/event/search/intervals.rs
+++ b/src/event/search/intervals.rs
@@ -103,7 +103,8 @@ where
         };
         let next_v = g(next_t);
 
-        if (prev < zero && next_v > zero) || (prev > zero && next_v < zero) {
+        // A root exactly on a sample point belongs to the bracket that ends on it.
+        if (prev < zero && next_v >= zero) || (prev > zero && next_v <= zero) {
             if let Some(root_t) =
                 root_finding::brent_with_values(Interval::new(t, next_t), prev, next_v, g)
             {
diff --git a/src/event/search/scan_fallback.rs b/src/event/search/scan_fallback.rs
index 0ae4ca4..97786f2 100644
--- a/src/event/search/scan_fallback.rs
+++ b/src/event/search/scan_fallback.rs
@@ -77,7 +77,7 @@ where
             }
         }
 
-        if prev.signum() * next_v.signum() < 0.0 {
+        if (prev < 0.0 && next_v > 0.0) || (prev > 0.0 && next_v < 0.0) {
             let direction = if prev < 0.0 { 1 } else { -1 };
             if let Some(root_days) = brent_f64(
                 mjd_days(t),
-- 
2.43.0


From d74743169be57e701f6493c2b856d476bd5bf95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:45 +0000
Subject: [PATCH 07/18] fix: ADS-B decoding keeps CPR positions on the globe
 and reports unavailable velocity fields as unavailable

---
 src/formats/adsb/cpr.rs | 25 +++++++++++++++++++++++--
 src/formats/adsb/mod.rs | 17 +++++++++++------
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/formats/adsb/cpr.rs b/src/formats/adsb/cpr.rs
index 0b051bf..e1ce19a 100644
--- a/src/formats/adsb/cpr.rs
+++ b/src/formats/adsb/cpr.rs
@@ -53,6 +53,18 @@ fn nl(lat: f64) -> f64 {
     n.clamp(1.0, 59.0)
 }
 
+/// Reject decoded latitudes that are not on the globe.
+fn check_latitude(lat: f64) -> Result<(), FormatError> {
+    if (-90.0..=90.0).contains(&lat) {
+        return Ok(());
+    }
+    Err(FormatError::located(
+        "ADS-B DO-260B §2.2.3.2.6",
+        FileLocation::default(),
+        "decoded latitude is outside [-90, 90] degrees",
+    ))
+}
+
 /// Decode a globally-unambiguous geodetic position from an even and odd
 /// CPR frame pair.
 ///
@@ -101,6 +113,8 @@ pub fn decode_globally(
 
     let lat_e = if lat_e >= 270.0 { lat_e - 360.0 } else { lat_e };
     let lat_o = if lat_o >= 270.0 { lat_o - 360.0 } else { lat_o };
+    check_latitude(lat_e)?;
+    check_latitude(lat_o)?;
 
     // NL check: both frames must be in the same latitude band
     if (nl(lat_e) - nl(lat_o)).abs() > 0.5 {
@@ -123,7 +137,7 @@ pub fn decode_globally(
         let m = (lon0 as f64 * (nl_lat - 1.0) / 131_072.0 - lon1 as f64 * nl_lat / 131_072.0 + 0.5)
             .floor();
         (
-            dlon * (m.rem_euclid(nl_lat - 1.0) + lon1 as f64 / 131_072.0),
+            dlon * (m.rem_euclid((nl_lat - 1.0).max(1.0)) + lon1 as f64 / 131_072.0),
             lat_o,
         )
     } else {
@@ -178,6 +192,7 @@ pub fn decode_locally(
     let j = (ref_lat / d_lat - cpr_lat as f64 / 131_072.0 + 0.5).floor();
     let lat = d_lat * (j + cpr_lat as f64 / 131_072.0);
     let lat = if lat >= 270.0 { lat - 360.0 } else { lat };
+    check_latitude(lat)?;
 
     let nl_val = nl(lat);
     let n_lon = if odd {
@@ -188,7 +203,13 @@ pub fn decode_locally(
     let d_lon = 360.0 / n_lon;
     let m = (ref_lon / d_lon - cpr_lon as f64 / 131_072.0 + 0.5).floor();
     let lon = d_lon * (m + cpr_lon as f64 / 131_072.0);
-    let lon = if lon >= 180.0 { lon - 360.0 } else { lon };
+    let lon = if lon >= 180.0 {
+        lon - 360.0
+    } else if lon < -180.0 {
+        lon + 360.0
+    } else {
+        lon
+    };
 
     Ok((Degrees::new(lat), Degrees::new(lon)))
 }
diff --git a/src/formats/adsb/mod.rs b/src/formats/adsb/mod.rs
index f60d019..9ae702e 100644
--- a/src/formats/adsb/mod.rs
+++ b/src/formats/adsb/mod.rs
@@ -384,17 +384,21 @@ pub fn decode_airborne_velocity(frame: &AdsbFrame) -> Result<AirborneVelocityMes
     // Sub-types 1 and 2: ground-speed-based velocity
     if sub_type == 1 || sub_type == 2 {
         let sign_ew: f64 = if (me[1] & 0x04) != 0 { -1.0 } else { 1.0 };
-        let v_ew = (((me[1] as u16 & 0x03) << 8) | me[2] as u16) as f64 - 1.0;
+        let raw_ew = ((me[1] as u16 & 0x03) << 8) | me[2] as u16;
+        let v_ew = raw_ew as f64 - 1.0;
         let sign_ns: f64 = if (me[3] & 0x80) != 0 { -1.0 } else { 1.0 };
-        let v_ns = (((me[3] as u16 & 0x7F) << 3) | (me[4] >> 5) as u16) as f64 - 1.0;
+        let raw_ns = ((me[3] as u16 & 0x7F) << 3) | (me[4] >> 5) as u16;
+        let v_ns = raw_ns as f64 - 1.0;
 
         // Convert knots → m/s (1 knot = 0.514444 m/s)
         let scale: f64 = if sub_type == 2 { 4.0 } else { 1.0 };
         let vew_mps = sign_ew * v_ew * scale * 0.514_444;
         let vns_mps = sign_ns * v_ns * scale * 0.514_444;
 
+        // Raw value 0 means "no information available".
+        let available = raw_ew != 0 && raw_ns != 0;
         let gs = (vew_mps * vew_mps + vns_mps * vns_mps).sqrt();
-        let heading = if v_ew == 0.0 && v_ns == 0.0 {
+        let heading = if !available || (v_ew == 0.0 && v_ns == 0.0) {
             None
         } else {
             let track_deg = vew_mps.atan2(vns_mps).to_degrees().rem_euclid(360.0);
@@ -403,14 +407,15 @@ pub fn decode_airborne_velocity(frame: &AdsbFrame) -> Result<AirborneVelocityMes
 
         // Vertical rate: bits 30–38 of ME
         let vr_sign: f64 = if (me[4] & 0x08) != 0 { -1.0 } else { 1.0 };
-        let vr_raw = (((me[4] as u16 & 0x07) << 6) | (me[5] >> 2) as u16) as f64 - 1.0;
+        let raw_vr = ((me[4] as u16 & 0x07) << 6) | (me[5] >> 2) as u16;
+        let vr_raw = raw_vr as f64 - 1.0;
         let vr_fpm = vr_sign * vr_raw * 64.0; // feet per minute
         let vr_mps = vr_fpm * 0.00508; // fpm → m/s
 
         return Ok(AirborneVelocityMessage {
             heading,
-            ground_speed_mps: Some(MetersPerSecond::new(gs)),
-            vertical_rate_mps: Some(MetersPerSecond::new(vr_mps)),
+            ground_speed_mps: available.then(|| MetersPerSecond::new(gs)),
+            vertical_rate_mps: (raw_vr != 0).then(|| MetersPerSecond::new(vr_mps)),
         });
     }
     Err(FormatError::located(
-- 
2.43.0


From af2889c54100006deab660869375725ee12ece1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:32 +0000
Subject: [PATCH 08/18] fix: DAF/SPK/CK readers reject malformed record chains
 and word addresses instead of panicking or looping, and honour big-endian
 data

---
 src/formats/spice/ck.rs      |  2 +-
 src/formats/spice/daf.rs     | 81 ++++++++++++++++++++++++++----------
 src/formats/spice/segment.rs | 24 ++++++++++-
 src/formats/spice/spk.rs     |  2 +-
 4 files changed, 83 insertions(+), 26 deletions(-)

diff --git a/src/formats/spice/ck.rs b/src/formats/spice/ck.rs
index f2b7b22..36d3fc5 100644
--- a/src/formats/spice/ck.rs
+++ b/src/formats/spice/ck.rs
@@ -198,7 +198,7 @@ fn read_type1_segment(
     start_word: usize,
     end_word: usize,
 ) -> Result<CkSegment1, SpiceError> {
-    if end_word <= start_word {
+    if start_word == 0 || end_word <= start_word || end_word > daf.bytes().len() / 8 {
         return Err(SpiceError::FormatParse(
             "CK segment has an invalid word range".to_string(),
         ));
diff --git a/src/formats/spice/daf.rs b/src/formats/spice/daf.rs
index b665dd5..7a36723 100644
--- a/src/formats/spice/daf.rs
+++ b/src/formats/spice/daf.rs
@@ -95,9 +95,47 @@ pub struct DafRaw {
     pub locator: String,
     /// All raw summaries parsed from the kernel.
     pub raw_summaries: Vec<RawSummary>,
+    little_endian: bool,
     bytes: Vec<u8>,
 }
 
+/// Byte offset of 1-based summary record `rec`, checked against the file size.
+fn record_offset(rec: usize, data_len: usize) -> Result<usize, SpiceError> {
+    rec.checked_sub(1)
+        .and_then(|r| r.checked_mul(1024))
+        .filter(|off| off.checked_add(1024).is_some_and(|end| end <= data_len))
+        .ok_or_else(|| {
+            SpiceError::FormatParse(format!("Summary record {rec} extends past EOF"))
+        })
+}
+
+/// Reject summary-record chains that visit more records than the file holds.
+fn check_chain_length(visited: usize, data_len: usize) -> Result<(), SpiceError> {
+    if visited > data_len / 1024 {
+        return Err(SpiceError::FormatParse(
+            "DAF summary-record chain contains a cycle".to_string(),
+        ));
+    }
+    Ok(())
+}
+
+/// Number of summaries in one record, which must fit the 1024-byte record.
+fn summary_count(nsum: f64, summary_words: usize, rec: usize) -> Result<usize, SpiceError> {
+    if !(0.0..=125.0).contains(&nsum) || nsum as usize * summary_words > 125 {
+        return Err(SpiceError::FormatParse(format!(
+            "Summary record {rec} claims {nsum} summaries, more than it can hold"
+        )));
+    }
+    Ok(nsum as usize)
+}
+
+/// Word addresses are positive in a well-formed summary.
+fn word_address(word: i32) -> Result<usize, SpiceError> {
+    usize::try_from(word).map_err(|_| {
+        SpiceError::FormatParse(format!("DAF summary has a negative word address {word}"))
+    })
+}
+
 impl Daf {
     /// Parse a DAF container from raw file bytes.
     pub fn parse(data: &[u8]) -> Result<Self, SpiceError> {
@@ -135,7 +173,7 @@ impl Daf {
         let read_i32 = if le { read_i32_le } else { read_i32_be };
         let read_f64 = if le { read_f64_le } else { read_f64_be };
 
-        let fward = read_i32(data, 76) as usize;
+        let fward = word_address(read_i32(data, 76))?;
 
         if nd != 2 || ni != 6 {
             return Err(SpiceError::FormatParse(format!(
@@ -148,19 +186,16 @@ impl Daf {
 
         let mut summaries = Vec::new();
         let mut rec = fward;
+        let mut visited = 0_usize;
 
         while rec > 0 {
-            let rec_offset = (rec - 1) * 1024;
-            if rec_offset + 1024 > data.len() {
-                return Err(SpiceError::FormatParse(format!(
-                    "Summary record {} extends past EOF",
-                    rec
-                )));
-            }
+            let rec_offset = record_offset(rec, data.len())?;
+            visited += 1;
+            check_chain_length(visited, data.len())?;
 
             let next = read_f64(data, rec_offset) as i64 as usize;
             let _prev = read_f64(data, rec_offset + 8);
-            let nsum = read_f64(data, rec_offset + 16) as usize;
+            let nsum = summary_count(read_f64(data, rec_offset + 16), ss, rec)?;
 
             for i in 0..nsum {
                 let off = rec_offset + 24 + i * ss * 8;
@@ -179,8 +214,8 @@ impl Daf {
                 let center_id = read_i32(data, int_off + 4);
                 let frame_id = read_i32(data, int_off + 8);
                 let data_type = read_i32(data, int_off + 12);
-                let start_word = read_i32(data, int_off + 16) as usize;
-                let end_word = read_i32(data, int_off + 20) as usize;
+                let start_word = word_address(read_i32(data, int_off + 16))?;
+                let end_word = word_address(read_i32(data, int_off + 20))?;
 
                 summaries.push(Summary {
                     start_et,
@@ -245,22 +280,19 @@ impl DafRaw {
 
         let read_i32 = if le { read_i32_le } else { read_i32_be };
         let read_f64 = if le { read_f64_le } else { read_f64_be };
-        let fward = read_i32(&data, 76) as usize;
+        let fward = word_address(read_i32(&data, 76))?;
         let ss = nd + ni.div_ceil(2);
 
         let mut raw_summaries = Vec::new();
         let mut rec = fward;
+        let mut visited = 0_usize;
         while rec > 0 {
-            let rec_offset = (rec - 1) * 1024;
-            if rec_offset + 1024 > data.len() {
-                return Err(SpiceError::FormatParse(format!(
-                    "Summary record {} extends past EOF",
-                    rec
-                )));
-            }
+            let rec_offset = record_offset(rec, data.len())?;
+            visited += 1;
+            check_chain_length(visited, data.len())?;
 
             let next = read_f64(&data, rec_offset) as i64 as usize;
-            let nsum = read_f64(&data, rec_offset + 16) as usize;
+            let nsum = summary_count(read_f64(&data, rec_offset + 16), ss, rec)?;
             for i in 0..nsum {
                 let off = rec_offset + 24 + i * ss * 8;
                 if off + ss * 8 > data.len() {
@@ -289,15 +321,20 @@ impl DafRaw {
             ni,
             locator,
             raw_summaries,
+            little_endian: le,
             bytes: data,
         })
     }
 
-    /// Read an `f64` at a 1-based word index (little-endian).
+    /// Read an `f64` at a 1-based word index, in the byte order of the file.
     #[inline]
     pub fn read_f64_at_word(&self, word: usize) -> f64 {
         let offset = (word - 1) * 8;
-        read_f64_le(&self.bytes, offset)
+        if self.little_endian {
+            read_f64_le(&self.bytes, offset)
+        } else {
+            read_f64_be(&self.bytes, offset)
+        }
     }
 
     /// Borrow the raw kernel bytes.
diff --git a/src/formats/spice/segment.rs b/src/formats/spice/segment.rs
index 0a2fb55..1e48128 100644
--- a/src/formats/spice/segment.rs
+++ b/src/formats/spice/segment.rs
@@ -384,6 +384,9 @@ pub fn segment_for_summary(
     daf: &Daf,
     summary: &Summary,
 ) -> Result<SpkSegment, SpiceError> {
+    if matches!(summary.data_type, 2 | 3 | 9 | 13) {
+        ensure_words_in_file(file_data, summary)?;
+    }
     match summary.data_type {
         2 => Ok(SpkSegment::Type2(read_chebyshev(
             file_data, daf, summary, 3,
@@ -401,6 +404,23 @@ pub fn segment_for_summary(
     }
 }
 
+/// Every word of a segment's address range must lie in the file.
+fn ensure_words_in_file(file_data: &[u8], summary: &Summary) -> Result<(), SpiceError> {
+    let words = file_data.len() / 8;
+    if summary.start_word == 0
+        || summary.start_word > summary.end_word
+        || summary.end_word > words
+    {
+        return Err(SpiceError::Parse {
+            message: format!(
+                "segment word range [{}..{}] is outside the file ({words} words)",
+                summary.start_word, summary.end_word
+            ),
+        });
+    }
+    Ok(())
+}
+
 fn read_chebyshev(
     file_data: &[u8],
     daf: &Daf,
@@ -526,8 +546,8 @@ fn read_discrete_states(
         message: format!("SPK Type {data_type} state count overflow: {n_records}"),
     })?;
     let epoch_start = state_len;
-    let epoch_end = epoch_start + n_records;
-    if epoch_end + 2 > words.len() {
+    let epoch_end = state_len.saturating_add(n_records);
+    if epoch_end.saturating_add(2) > words.len() {
         return Err(SpiceError::Parse {
             message: format!("SPK Type {data_type} payload too short for {n_records} records"),
         });
diff --git a/src/formats/spice/spk.rs b/src/formats/spice/spk.rs
index 813f5ab..b62fc4d 100644
--- a/src/formats/spice/spk.rs
+++ b/src/formats/spice/spk.rs
@@ -128,7 +128,7 @@ pub fn read_segment(
             summary.end_word, summary.start_word
         )));
     }
-    if summary.end_word < summary.start_word + 3 {
+    if summary.end_word - summary.start_word < 3 {
         return Err(SpiceError::FormatParse(format!(
             "SPK summary span too small for trailer (start={}, end={})",
             summary.start_word, summary.end_word
-- 
2.43.0


From 6b29a206117eadcbf6d092d780d3824ed8b445f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:54 +0000
Subject: [PATCH 09/18] fix: PCK pole orientation, radii-only bodies, TK frame
 cycles, '+=' inside text values, LSK year overflow and SPK segment precedence

---
 src/formats/spice/kernel.rs |  5 +++--
 src/formats/spice/lsk.rs    |  1 +
 src/formats/spice/pck.rs    | 13 ++++++++-----
 src/formats/spice/text.rs   |  9 +++++----
 src/spice/context.rs        | 22 ++++++++++++++++++++--
 5 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/formats/spice/kernel.rs b/src/formats/spice/kernel.rs
index f969d90..2c885f4 100644
--- a/src/formats/spice/kernel.rs
+++ b/src/formats/spice/kernel.rs
@@ -246,7 +246,8 @@ impl SpkKernel {
             }
             // Outgoing forward edges (segments where node is the target).
             if let Some(idxs) = self.by_target.get(&node) {
-                for &i in idxs {
+                // Later segments take precedence over earlier ones.
+                for &i in idxs.iter().rev() {
                     let s = &self.segments[i];
                     if epoch < s.start_tdb_seconds || epoch > s.end_tdb_seconds {
                         continue;
@@ -258,7 +259,7 @@ impl SpkKernel {
                 }
             }
             // Reverse edges (segments where node is the center).
-            for (i, s) in self.segments.iter().enumerate() {
+            for (i, s) in self.segments.iter().enumerate().rev() {
                 if s.center != node {
                     continue;
                 }
diff --git a/src/formats/spice/lsk.rs b/src/formats/spice/lsk.rs
index 094ffb7..5173553 100644
--- a/src/formats/spice/lsk.rs
+++ b/src/formats/spice/lsk.rs
@@ -164,6 +164,7 @@ fn month_number(month: &str) -> Result<i32, SpiceError> {
 }
 
 fn gregorian_to_jd(year: i32, month: i32, day: i32) -> f64 {
+    let (year, month, day) = (i64::from(year), i64::from(month), i64::from(day));
     let term1 = 367 * year;
     let term2 = 7 * (year + (month + 9) / 12) / 4;
     let term3 = 275 * month / 9;
diff --git a/src/formats/spice/pck.rs b/src/formats/spice/pck.rs
index 42d20c8..899f8cf 100644
--- a/src/formats/spice/pck.rs
+++ b/src/formats/spice/pck.rs
@@ -43,9 +43,12 @@ impl BodyOrientation {
     pub fn rotation_to_j2000(&self, tdb_s: f64) -> [[f64; 3]; 3] {
         let t = tdb_s / (36_525.0 * 86_400.0);
         let d = tdb_s / 86_400.0;
-        let ra_deg = self.pole_ra[0] + self.pole_ra.get(1).copied().unwrap_or(0.0) * t;
-        let dec_deg = self.pole_dec[0] + self.pole_dec.get(1).copied().unwrap_or(0.0) * t;
-        let w_deg = self.pm[0] + self.pm.get(1).copied().unwrap_or(0.0) * d;
+        let ra_deg = self.pole_ra.first().copied().unwrap_or(0.0)
+            + self.pole_ra.get(1).copied().unwrap_or(0.0) * t;
+        let dec_deg = self.pole_dec.first().copied().unwrap_or(0.0)
+            + self.pole_dec.get(1).copied().unwrap_or(0.0) * t;
+        let w_deg = self.pm.first().copied().unwrap_or(0.0)
+            + self.pm.get(1).copied().unwrap_or(0.0) * d;
 
         let ra = ra_deg.to_radians();
         let dec = dec_deg.to_radians();
@@ -53,8 +56,8 @@ impl BodyOrientation {
 
         mat3_mul(
             mat3_mul(
-                r3(std::f64::consts::FRAC_PI_2 + ra),
-                r1(std::f64::consts::FRAC_PI_2 - dec),
+                r3(-(std::f64::consts::FRAC_PI_2 + ra)),
+                r1(-(std::f64::consts::FRAC_PI_2 - dec)),
             ),
             r3(-w),
         )
diff --git a/src/formats/spice/text.rs b/src/formats/spice/text.rs
index 42ad81f..b1840fa 100644
--- a/src/formats/spice/text.rs
+++ b/src/formats/spice/text.rs
@@ -168,10 +168,11 @@ fn statement_complete(statement: &str) -> bool {
 }
 
 fn parse_assignment(statement: &str) -> Result<(String, bool, TextValue), SpiceError> {
-    let (key, value, append) = if let Some(idx) = statement.find("+=") {
-        (&statement[..idx], &statement[idx + 2..], true)
-    } else if let Some(idx) = statement.find('=') {
-        (&statement[..idx], &statement[idx + 1..], false)
+    let (key, value, append) = if let Some(idx) = statement.find('=') {
+        match statement[..idx].strip_suffix('+') {
+            Some(key) => (key, &statement[idx + 1..], true),
+            None => (&statement[..idx], &statement[idx + 1..], false),
+        }
     } else {
         return Err(SpiceError::FormatParse(format!(
             "text kernel assignment missing '=': {statement}"
diff --git a/src/spice/context.rs b/src/spice/context.rs
index 0dd4e1f..d8a9652 100644
--- a/src/spice/context.rs
+++ b/src/spice/context.rs
@@ -231,10 +231,25 @@ impl SpiceContext {
         &self,
         frame_id: i32,
         epoch_tdb_s: f64,
+    ) -> Result<[[f64; 3]; 3], SpiceContextError> {
+        self.frame_to_j2000_via(frame_id, epoch_tdb_s, &mut Vec::new())
+    }
+
+    fn frame_to_j2000_via(
+        &self,
+        frame_id: i32,
+        epoch_tdb_s: f64,
+        visited: &mut Vec<i32>,
     ) -> Result<[[f64; 3]; 3], SpiceContextError> {
         if frame_id == 1 {
             return Ok(identity_3x3());
         }
+        if visited.contains(&frame_id) {
+            return Err(SpiceContextError::UnsupportedKernelQuery {
+                message: format!("TK frame chain contains a cycle at frame {frame_id}"),
+            });
+        }
+        visited.push(frame_id);
 
         let spec = self
             .frame_registry
@@ -246,7 +261,7 @@ impl SpiceContext {
                 .frame_registry
                 .frame_by_name(relative_name)
                 .map_err(spice_error_to_context)?;
-            let relative_to_j2000 = self.frame_to_j2000(relative.id, epoch_tdb_s)?;
+            let relative_to_j2000 = self.frame_to_j2000_via(relative.id, epoch_tdb_s, visited)?;
             return Ok(mat3_mul(relative_to_j2000, *matrix));
         }
 
@@ -272,7 +287,10 @@ impl SpiceContext {
         epoch_tdb_s: f64,
     ) -> Result<[[f64; 3]; 3], SpiceContextError> {
         for pck in self.kernel_set.pck_text_kernels().rev() {
-            if let Some(orientation) = pck.body(body_id) {
+            // Entries holding only radii carry no orientation.
+            if let Some(orientation) = pck.body(body_id).filter(|body| {
+                !(body.pole_ra.is_empty() || body.pole_dec.is_empty() || body.pm.is_empty())
+            }) {
                 return Ok(orientation.rotation_to_j2000(epoch_tdb_s));
             }
         }
-- 
2.43.0


From 053d2e7317cac5df5e09fd4120a8390a20326f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:33 +0000
Subject: [PATCH 10/18] fix: read SPK data words in the byte order of the file

---
 src/formats/spice/daf.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/formats/spice/daf.rs b/src/formats/spice/daf.rs
index 7a36723..305d0a0 100644
--- a/src/formats/spice/daf.rs
+++ b/src/formats/spice/daf.rs
@@ -239,8 +239,15 @@ impl Daf {
     #[inline]
     pub fn read_f64_at_word(&self, data: &[u8], word: usize) -> f64 {
         let offset = (word - 1) * 8;
-        // DE440/DE441 kernels from NAIF are little-endian on modern systems.
-        read_f64_le(data, offset)
+        // The byte order is the one in which the file record shows ND and NI.
+        let big_endian = data.len() >= 16
+            && i32::try_from(self.nd) == Ok(read_i32_be(data, 8))
+            && i32::try_from(self.ni) == Ok(read_i32_be(data, 12));
+        if big_endian {
+            read_f64_be(data, offset)
+        } else {
+            read_f64_le(data, offset)
+        }
     }
 }
 
-- 
2.43.0


From a5732eb6987f6ca357f3d80483e5d62cd531071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 11/18] fix: GCRS->CIRS keeps the pole on the CIP, Galactic and
 planetary body-fixed frames are no longer mirrored, polar motion uses the
 SOFA rotation order

---
 src/astro/cio.rs                              | 19 +++++++------------
 src/astro/earth_rotation_provider.rs          |  7 +++----
 src/astro/polar_motion.rs                     |  8 ++++----
 .../transform/providers/frames_catalog.rs     | 12 ++++++------
 src/coordinates/transform/providers/mod.rs    |  6 +++---
 src/formats/spice/daf.rs                      |  4 +---
 src/formats/spice/pck.rs                      |  4 ++--
 src/formats/spice/segment.rs                  |  4 +---
 src/verif_hooks.rs                            | 10 +---------
 9 files changed, 28 insertions(+), 46 deletions(-)

diff --git a/src/astro/cio.rs b/src/astro/cio.rs
index 9250fb0..8c76d28 100644
--- a/src/astro/cio.rs
+++ b/src/astro/cio.rs
@@ -24,7 +24,7 @@
 //! bias-precession-nutation (NPB) matrix rather than truncated series. The
 //! CIO locator is implemented in the simplified high-accuracy form
 //! `s ≈ −½ X Y`, sufficient for ~1 μas precision. The intermediate-frame
-//! rotation `Q(t) = R₃(−E)·R₂(−d)·R₃(E)·R₃(s)` with
+//! rotation `Q(t) = R₃(−(E+s))·R₂(d)·R₃(E)` with
 //! `E = atan2(Y, X)`, `d = acos(√(1 − X² − Y²))` is built directly from
 //! `affn::Rotation3` factors.
 //!
@@ -119,7 +119,7 @@ pub fn cip_cio(jd: JulianDate, dpsi: Radians, deps: Radians) -> CipCio {
 /// (CIRS), using the CIP coordinates (X, Y) and CIO locator s.
 ///
 /// ```text
-/// Q(t) = R₃(−E)·R₂(−d)·R₃(E + s)
+/// Q(t) = R₃(−(E + s))·R₂(d)·R₃(E)
 /// ```
 ///
 /// where `E = atan2(Y, X)`, `d = acos(√(1 − X² − Y²))`.
@@ -136,7 +136,7 @@ pub fn gcrs_to_cirs_matrix(x: CipCoordinates, y: CipCoordinates, s: Radians) ->
     let (se, ce) = e.sin_cos();
     let (sd, cd) = d.sin_cos();
 
-    // R₃(-(E+s)) · R₂(-d) · R₃(E)
+    // R₃(-(E+s)) · R₂(d) · R₃(E); the bottom row is the CIP direction (X, Y, Z)
     // Following SOFA's iauC2ixys construction:
     let es = e + s.value();
     let (ses, ces) = es.sin_cos();
@@ -146,25 +146,20 @@ pub fn gcrs_to_cirs_matrix(x: CipCoordinates, y: CipCoordinates, s: Radians) ->
         [
             ces * cd * ce + ses * se,
             ces * cd * se - ses * ce,
-            ces * sd,
+            -ces * sd,
         ],
         [
             ses * cd * ce - ces * se,
             ses * cd * se + ces * ce,
-            ses * sd,
+            -ses * sd,
         ],
         [
-            -sd * ce,
-            -sd * se,
+            sd * ce,
+            sd * se,
             cd,
         ],
     ];
 
-    // The matrix above is Q^T (intermediate-to-celestial). We need Q (celestial-to-intermediate).
-    // Actually, SOFA's C2IXYS returns the celestial-to-intermediate matrix directly.
-    // Let's verify: at J2000 with X≈0, Y≈0, s≈0, this should be ≈ identity.
-    // E = atan2(0,0) = 0, d = 0, s = 0.
-    // m[0][0] = 1, m[1][1] = 1, m[2][2] = 1. ✓
     Rotation3::from_matrix_unchecked(m)
 }
 
diff --git a/src/astro/earth_rotation_provider.rs b/src/astro/earth_rotation_provider.rs
index 6d1d709..eb7bf33 100644
--- a/src/astro/earth_rotation_provider.rs
+++ b/src/astro/earth_rotation_provider.rs
@@ -111,10 +111,9 @@ pub(crate) fn itrs_to_equatorial_mean_j2000_rotation<Eph, Eop: EopProvider, Nut:
     let w = polar_motion_matrix_from_eop(eop.xp, eop.yp, jd);
     let era = earth_rotation_angle(jd_ut1);
 
-    // NOTE: `cio::gcrs_to_cirs_matrix` and `Rotation3::rz` conventions are
-    // aligned such that this composition matches the SOFA chain for
-    // ITRS -> GCRS in this codebase.
-    let itrs_to_gcrs = q * affn::Rotation3::rz(-era) * w.inverse();
+    // NOTE: the `Rotation3::rz` convention is aligned such that this
+    // composition matches the SOFA chain for ITRS -> GCRS in this codebase.
+    let itrs_to_gcrs = q.inverse() * affn::Rotation3::rz(-era) * w.inverse();
     let icrs_to_j2000 =
         <() as FrameRotationProvider<ICRS, EquatorialMeanJ2000>>::rotation::<Eph, Eop, Nut>(
             jd, ctx,
diff --git a/src/astro/polar_motion.rs b/src/astro/polar_motion.rs
index ac36b89..12c68d0 100644
--- a/src/astro/polar_motion.rs
+++ b/src/astro/polar_motion.rs
@@ -23,7 +23,7 @@
 //! The polar-motion matrix is assembled as
 //!
 //! ```text
-//! W = R₃(−s') · R₂(xₚ) · R₁(yₚ)
+//! W = R₁(−yₚ) · R₂(−xₚ) · R₃(s')
 //! ```
 //!
 //! where `s'` is the TIO locator, here implemented as the linear-in-time
@@ -60,17 +60,17 @@ pub fn tio_locator_sp(jd_tt: JulianDate) -> Radians {
 /// Polar motion matrix **W**.
 ///
 /// Transforms from TIRS to ITRS (or equivalently, from the intermediate
-/// frame to the Earth-fixed frame):
+/// frame to the Earth-fixed frame), in the frame-rotation convention of SOFA:
 ///
 /// ```text
-/// W = R₃(−s') · R₂(xₚ) · R₁(yₚ)
+/// W = R₁(−yₚ) · R₂(−xₚ) · R₃(s')
 /// ```
 ///
 /// ## References
 /// * IERS Conventions (2010), §5.4.2
 /// * SOFA routine `iauPom00`
 pub fn polar_motion_matrix(xp: Radians, yp: Radians, sp: Radians) -> Rotation3 {
-    Rotation3::rz(-sp) * Rotation3::ry(xp) * Rotation3::rx(yp)
+    Rotation3::rx(yp) * Rotation3::ry(xp) * Rotation3::rz(-sp)
 }
 
 /// Convenience: compute W from pole coordinates as [`Arcseconds`] and Julian Date.
diff --git a/src/coordinates/transform/providers/frames_catalog.rs b/src/coordinates/transform/providers/frames_catalog.rs
index a01fab2..1082261 100644
--- a/src/coordinates/transform/providers/frames_catalog.rs
+++ b/src/coordinates/transform/providers/frames_catalog.rs
@@ -16,17 +16,17 @@ use crate::coordinates::transform::frames::bias;
 const GALACTIC_TO_ICRS: Rotation3 = Rotation3::from_matrix_unchecked([
     [
         -0.054_875_560_416_215_4,
-        -0.873_437_090_234_885_1,
-        -0.483_835_015_548_713_2,
+        0.494_109_427_875_583_7,
+        -0.867_666_149_019_004_7,
     ],
     [
-        0.494_109_427_875_583_7,
+        -0.873_437_090_234_885_1,
         -0.444_829_629_960_011_2,
-        0.746_982_244_580_286_6,
+        -0.198_076_373_431_201_5,
     ],
     [
-        -0.867_666_149_019_004_7,
-        -0.198_076_373_431_201_5,
+        -0.483_835_015_548_713_2,
+        0.746_982_244_497_218_9,
         0.455_983_776_175_066_9,
     ],
 ]);
diff --git a/src/coordinates/transform/providers/mod.rs b/src/coordinates/transform/providers/mod.rs
index 5250fc3..30d5706 100644
--- a/src/coordinates/transform/providers/mod.rs
+++ b/src/coordinates/transform/providers/mod.rs
@@ -455,9 +455,9 @@ fn iau_body_fixed_to_icrs(params: &IauRotationParams, jd: JulianDate) -> Rotatio
     let w = params.w(jd).to::<crate::qtty::Radian>();
     let right_angle = crate::qtty::Degrees::new(90.0).to::<crate::qtty::Radian>();
 
-    let z1 = -w;
-    let x = -(right_angle - delta0);
-    let z2 = -(alpha0 + right_angle);
+    let z1 = w;
+    let x = right_angle - delta0;
+    let z2 = alpha0 + right_angle;
     Rotation3::from_euler_zxz(z1, x, z2)
 }
 
diff --git a/src/formats/spice/daf.rs b/src/formats/spice/daf.rs
index 305d0a0..b832dde 100644
--- a/src/formats/spice/daf.rs
+++ b/src/formats/spice/daf.rs
@@ -104,9 +104,7 @@ fn record_offset(rec: usize, data_len: usize) -> Result<usize, SpiceError> {
     rec.checked_sub(1)
         .and_then(|r| r.checked_mul(1024))
         .filter(|off| off.checked_add(1024).is_some_and(|end| end <= data_len))
-        .ok_or_else(|| {
-            SpiceError::FormatParse(format!("Summary record {rec} extends past EOF"))
-        })
+        .ok_or_else(|| SpiceError::FormatParse(format!("Summary record {rec} extends past EOF")))
 }
 
 /// Reject summary-record chains that visit more records than the file holds.
diff --git a/src/formats/spice/pck.rs b/src/formats/spice/pck.rs
index 899f8cf..f7f3124 100644
--- a/src/formats/spice/pck.rs
+++ b/src/formats/spice/pck.rs
@@ -47,8 +47,8 @@ impl BodyOrientation {
             + self.pole_ra.get(1).copied().unwrap_or(0.0) * t;
         let dec_deg = self.pole_dec.first().copied().unwrap_or(0.0)
             + self.pole_dec.get(1).copied().unwrap_or(0.0) * t;
-        let w_deg = self.pm.first().copied().unwrap_or(0.0)
-            + self.pm.get(1).copied().unwrap_or(0.0) * d;
+        let w_deg =
+            self.pm.first().copied().unwrap_or(0.0) + self.pm.get(1).copied().unwrap_or(0.0) * d;
 
         let ra = ra_deg.to_radians();
         let dec = dec_deg.to_radians();
diff --git a/src/formats/spice/segment.rs b/src/formats/spice/segment.rs
index 1e48128..61476c1 100644
--- a/src/formats/spice/segment.rs
+++ b/src/formats/spice/segment.rs
@@ -407,9 +407,7 @@ pub fn segment_for_summary(
 /// Every word of a segment's address range must lie in the file.
 fn ensure_words_in_file(file_data: &[u8], summary: &Summary) -> Result<(), SpiceError> {
     let words = file_data.len() / 8;
-    if summary.start_word == 0
-        || summary.start_word > summary.end_word
-        || summary.end_word > words
+    if summary.start_word == 0 || summary.start_word > summary.end_word || summary.end_word > words
     {
         return Err(SpiceError::Parse {
             message: format!(
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 0e2c0fa..10547e3 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -84,13 +84,5 @@ pub fn brent_f64<F: FnMut(f64) -> f64>(
     time_tol: f64,
     residual_tol: f64,
 ) -> Option<f64> {
-    crate::event::search::scan_fallback::brent_f64(
-        lo,
-        hi,
-        f_lo,
-        f_hi,
-        f,
-        time_tol,
-        residual_tol,
-    )
+    crate::event::search::scan_fallback::brent_f64(lo, hi, f_lo, f_hi, f, time_tol, residual_tol)
 }
-- 
2.43.0


From 52c9b1c1e74a44c969b9304d975f4fc50aa961dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:32 +0000
Subject: [PATCH 12/18] fix: bodycentric shifts use the caller's context,
 topocentric sites the caller's EOP provider

---
 src/astro/earth_rotation_provider.rs          |  7 ++---
 .../centers/position/to_bodycentric.rs        | 31 ++++++++++++-------
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/astro/earth_rotation_provider.rs b/src/astro/earth_rotation_provider.rs
index eb7bf33..69162af 100644
--- a/src/astro/earth_rotation_provider.rs
+++ b/src/astro/earth_rotation_provider.rs
@@ -37,7 +37,7 @@
 //! * SOFA Earth-rotation cookbook (`iauC2t06a` and friends)
 
 use crate::astro::cio;
-use crate::astro::earth_rotation::{jd_ut1_from_tt_eop, try_jd_utc_from_tt};
+use crate::astro::earth_rotation::jd_ut1_from_tt_eop;
 use crate::astro::eop::{EopProvider, EopValues};
 use crate::astro::era::earth_rotation_angle;
 use crate::astro::nutation::NutationModel;
@@ -99,10 +99,7 @@ pub(crate) fn itrs_to_equatorial_mean_j2000_rotation<Eph, Eop: EopProvider, Nut:
     jd: JulianDate,
     ctx: &AstroContext<Eph, Eop>,
 ) -> affn::Rotation3 {
-    let eop = match try_jd_utc_from_tt(jd) {
-        Ok(jd_utc) => ctx.eop_at(jd_utc),
-        Err(_) => EopValues::default(),
-    };
+    let eop = ctx.eop_at_tt(jd);
     let jd_ut1 = jd_ut1_from_tt_eop(jd, &eop);
 
     let (dpsi, deps) = nutation_with_celestial_pole_offsets::<Nut>(jd, eop);
diff --git a/src/coordinates/transform/centers/position/to_bodycentric.rs b/src/coordinates/transform/centers/position/to_bodycentric.rs
index 49a1f5b..bbca6ec 100644
--- a/src/coordinates/transform/centers/position/to_bodycentric.rs
+++ b/src/coordinates/transform/centers/position/to_bodycentric.rs
@@ -66,7 +66,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -85,7 +85,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_helio_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -94,7 +95,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_bary_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
         };
@@ -123,7 +125,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -142,7 +144,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> = body_geo_ecl.to_center(jd);
+                let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> =
+                    body_geo_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_helio_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -152,7 +155,7 @@ where
                     body_ecliptic_au.z(),
                 );
                 let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> =
-                    body_bary_ecl.to_center(jd);
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_helio_ecl.to_frame()
             }
         };
@@ -181,7 +184,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -200,7 +203,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> = body_helio_ecl.to_center(jd);
+                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_bary_ecl.to_frame()
             }
             OrbitReferenceCenter::Geocentric => {
@@ -209,7 +213,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> = body_geo_ecl.to_center(jd);
+                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> =
+                    body_geo_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_bary_ecl.to_frame()
             }
         };
@@ -238,7 +243,7 @@ where
         &self,
         _params: (),
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Geocentric, F, U> {
         let body_params = *self.center_params();
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
@@ -258,7 +263,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_helio_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -267,7 +273,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_bary_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
         };
-- 
2.43.0


From 2c75c082469d01c8348b5e189a9fff60b031c54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:32 +0000
Subject: [PATCH 13/18] fix: Cartesian horizontal transform has y to the east,
 no NaN at zenith or poles

---
 .../transform/frames/to_horizontal.rs         | 24 +++++++++----------
 src/event/horizontal.rs                       |  6 ++---
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/coordinates/transform/frames/to_horizontal.rs b/src/coordinates/transform/frames/to_horizontal.rs
index 9e40394..a7394f2 100644
--- a/src/coordinates/transform/frames/to_horizontal.rs
+++ b/src/coordinates/transform/frames/to_horizontal.rs
@@ -85,7 +85,9 @@ fn equatorial_to_horizontal_angles(
     let cos_ha = ha.cos();
 
     // Use precomputed sin/cos of latitude
-    let alt_val = (sin_dec * site_trig.sin_lat + cos_dec * site_trig.cos_lat * cos_ha).asin();
+    let alt_val = (sin_dec * site_trig.sin_lat + cos_dec * site_trig.cos_lat * cos_ha)
+        .clamp(-1.0, 1.0)
+        .asin();
     let az_val = (-cos_dec * ha.sin())
         .atan2(sin_dec * site_trig.cos_lat - cos_dec * cos_ha * site_trig.sin_lat);
 
@@ -118,13 +120,11 @@ fn horizontal_to_equatorial_angles(
 
     // Calculate declination
     let sin_dec = sin_alt * site_trig.sin_lat + cos_alt * site_trig.cos_lat * az.cos();
-    let dec_val = sin_dec.asin();
+    let dec_val = sin_dec.clamp(-1.0, 1.0).asin();
 
     // Calculate hour angle
-    let cos_ha =
-        (sin_alt - site_trig.sin_lat * dec_val.sin()) / (site_trig.cos_lat * dec_val.cos());
-    let sin_ha = -cos_alt * az.sin() / dec_val.cos();
-    let ha_val = sin_ha.atan2(cos_ha);
+    let ha_val = (-cos_alt * az.sin())
+        .atan2(sin_alt * site_trig.cos_lat - cos_alt * az.cos() * site_trig.sin_lat);
 
     // Convert hour angle to right ascension
     let gmst = gmst_from_tt(jd);
@@ -153,22 +153,22 @@ impl<U: LengthUnit> Transform<cartesian::Position<Topocentric, Horizontal, U>>
         let r = self.distance();
 
         let dec: Radians = if r.value() > 0.0 {
-            Quantity::<Radian>::new((self.z() / r).asin())
+            Quantity::<Radian>::new((self.z() / r).clamp(-1.0, 1.0).asin())
         } else {
             Quantity::<Radian>::new(0.0)
         };
 
-        let ra: Radians = Quantity::<Radian>::new((self.y() / r).atan2(self.x() / r));
+        let ra: Radians = Quantity::<Radian>::new(self.y().value().atan2(self.x().value()));
 
         let site_trig = SiteTrig::from_site(site);
         let (alt, az) =
             equatorial_to_horizontal_angles(ra.to::<Deg>(), dec.to::<Deg>(), site, &site_trig, jd);
 
         // Convert back to Cartesian in horizontal frame
-        // In horizontal: x = North, y = West, z = Zenith
+        // In horizontal: x = North, y = East, z = Zenith
         // Trig functions return f64, multiply by Quantity<U> to get Quantity<U>
         let new_x = r * alt.cos() * az.cos();
-        let new_y = -r * alt.cos() * az.sin(); // negative for East-positive azimuth
+        let new_y = r * alt.cos() * az.sin();
         let new_z = r * alt.sin();
 
         cartesian::Position::from_array(*site, [new_x, new_y, new_z])
@@ -193,12 +193,12 @@ impl<U: LengthUnit> Transform<cartesian::Position<Topocentric, EquatorialMeanOfD
         let r = self.distance();
         // Division of same units gives Per<U,U> which has .asin() returning f64
         let alt: Radians = if r.value() > 0.0 {
-            Quantity::<Radian>::new((self.z() / r).asin())
+            Quantity::<Radian>::new((self.z() / r).clamp(-1.0, 1.0).asin())
         } else {
             Quantity::<Radian>::new(0.0)
         };
         // atan2 on Quantity<U> values - extract raw values for atan2
-        let az: Radians = Quantity::<Radian>::new((-self.y() / r).atan2(self.x() / r));
+        let az: Radians = Quantity::<Radian>::new(self.y().value().atan2(self.x().value()));
 
         let site_trig = SiteTrig::from_site(site);
         let (ra, dec) = horizontal_to_equatorial_angles(alt, az, site, &site_trig, jd);
diff --git a/src/event/horizontal.rs b/src/event/horizontal.rs
index 702de3b..5646ec1 100644
--- a/src/event/horizontal.rs
+++ b/src/event/horizontal.rs
@@ -207,7 +207,7 @@ where
 
     // Altitude: sin(alt) = sin(dec)·sin(lat) + cos(dec)·cos(lat)·cos(HA)
     let sin_alt = dec_rad.sin() * lat.sin() + dec_rad.cos() * lat.cos() * ha.cos();
-    let alt = Radians::new(sin_alt.asin()).to::<Degree>();
+    let alt = Radians::new(sin_alt.clamp(-1.0, 1.0).asin()).to::<Degree>();
 
     // Azimuth: tan(az) = -sin(HA) / (cos(lat)·tan(dec) - sin(lat)·cos(HA))
     let az_rad = (-dec_rad.cos() * ha.sin())
@@ -273,7 +273,7 @@ pub fn star_horizontal_with_policy(
 
     // True-of-date RA/Dec
     let ra_tod = Radians::new(y_t.atan2(x_t));
-    let dec_tod = Radians::new(z_t.asin());
+    let dec_tod = Radians::new(z_t.clamp(-1.0, 1.0).asin());
 
     // True-of-date RA/Dec requires apparent sidereal time (GAST).
     let ctx: AstroContext = AstroContext::default();
@@ -286,7 +286,7 @@ pub fn star_horizontal_with_policy(
     // Equatorial → horizontal
     let lat = site.lat.to::<Radian>();
     let sin_alt = dec_tod.sin() * lat.sin() + dec_tod.cos() * lat.cos() * ha.cos();
-    let alt = Radians::new(sin_alt.asin()).to::<Degree>();
+    let alt = Radians::new(sin_alt.clamp(-1.0, 1.0).asin()).to::<Degree>();
 
     let az_rad = (-dec_tod.cos() * ha.sin())
         .atan2(dec_tod.sin() * lat.cos() - dec_tod.cos() * ha.cos() * lat.sin());
-- 
2.43.0


From ea7b87bbf56f324cba815ee12fdf42200380e74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:28 +0000
Subject: [PATCH 14/18] fix: scale the GNSS relativistic clock term from km^2/s
 to metres

---
 src/pod/observation/gnss_obs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pod/observation/gnss_obs.rs b/src/pod/observation/gnss_obs.rs
index 7a8807e..33c812d 100644
--- a/src/pod/observation/gnss_obs.rs
+++ b/src/pod/observation/gnss_obs.rs
@@ -238,7 +238,8 @@ fn relativistic_gps_clock_m(pos_km: Position<GCRS>, vel_km_s: Velocity<GCRS>) ->
     let dot = pos_km.x().value() * vel_km_s.x().value()
         + pos_km.y().value() * vel_km_s.y().value()
         + pos_km.z().value() * vel_km_s.z().value();
-    -2.0 * dot * 1_000.0 / C.value()
+    // r·v is in km²/s.
+    -2.0 * dot * 1_000_000.0 / C.value()
 }
 
 /// Compute geometric range (m) and receiver-to-satellite unit vector.
-- 
2.43.0


From 709aba240000448154bd83479aae25011d2fe2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:45 +0000
Subject: [PATCH 15/18] fix: leave the normal equations untouched by a rejected
 measurement row

---
 src/pod/estimation/wls.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pod/estimation/wls.rs b/src/pod/estimation/wls.rs
index b884caa..b63e9cf 100644
--- a/src/pod/estimation/wls.rs
+++ b/src/pod/estimation/wls.rs
@@ -122,7 +122,7 @@ impl NormalEquations {
                 "residual must be finite (got {residual})"
             )));
         }
-        let w = 1.0 / (sigma * sigma);
+        // Reject the row as a whole: nothing is accumulated from a bad one.
         for &(i, hi) in partials {
             if i >= self.n {
                 return Err(WlsSolverError::InvalidIndex {
@@ -135,6 +135,9 @@ impl NormalEquations {
                     "partial at index {i} must be finite (got {hi})"
                 )));
             }
+        }
+        let w = 1.0 / (sigma * sigma);
+        for &(i, hi) in partials {
             // Accumulate into the upper triangle; symmetrise at solve time.
             self.b[(i, 0)] += w * hi * residual;
             for &(j, hj) in partials {
-- 
2.43.0


From 98b038fa22ada921a703f4b5bbf2e13dc04e7883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:45 +0000
Subject: [PATCH 16/18] fix: sort terrain-mask samples by wrapped azimuth

---
 src/mission/geometry/terrain_mask.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mission/geometry/terrain_mask.rs b/src/mission/geometry/terrain_mask.rs
index 4d31e4d..cc7da44 100644
--- a/src/mission/geometry/terrain_mask.rs
+++ b/src/mission/geometry/terrain_mask.rs
@@ -19,12 +19,13 @@ pub struct TerrainMask {
 impl TerrainMask {
     /// Build a terrain mask from `(azimuth, elevation)` samples. Empty
     /// inputs produce a flat zero mask.
-    pub fn new(mut samples: Vec<(Radians, Radians)>) -> Self {
-        samples.sort_by(|a, b| a.0.value().partial_cmp(&b.0.value()).unwrap());
-        let s = samples
+    pub fn new(samples: Vec<(Radians, Radians)>) -> Self {
+        let mut s: Vec<(f64, f64)> = samples
             .into_iter()
             .map(|(a, e)| (a.value().rem_euclid(core::f64::consts::TAU), e.value()))
             .collect();
+        // Order by the wrapped azimuth, which is what the lookup walks.
+        s.sort_by(|a, b| a.0.total_cmp(&b.0));
         Self { samples: s }
     }
 
-- 
2.43.0


From b5fab36089e29e6b1f2ecde8f9d2108ebdbc25da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:45 +0000
Subject: [PATCH 17/18] fix: keep the elevation defined when rounding pushes
 its sine past one

---
 src/mission/geometry/az_el_range.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mission/geometry/az_el_range.rs b/src/mission/geometry/az_el_range.rs
index cc5d965..658b2ff 100644
--- a/src/mission/geometry/az_el_range.rs
+++ b/src/mission/geometry/az_el_range.rs
@@ -91,7 +91,8 @@ where
     if az < 0.0 {
         az += TAU;
     }
-    let el = u_comp.asin();
+    // Rounding can push the projection past one at the zenith.
+    let el = u_comp.clamp(-1.0, 1.0).asin();
 
     // Range rate = (v_target - v_observer) · LOS direction.
     let rel_v = target_vel - observer_vel;
-- 
2.43.0


From 99d50cf6315815ddf2c4ceb520357dad7e2de512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:05 +0000
Subject: [PATCH 18/18] fix: convert radial velocity per Julian year in
 space-motion propagation

---
 src/astro/proper_motion.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/astro/proper_motion.rs b/src/astro/proper_motion.rs
index 5a3f9bf..1214809 100644
--- a/src/astro/proper_motion.rs
+++ b/src/astro/proper_motion.rs
@@ -331,10 +331,11 @@ pub fn propagate_space_motion(
     let v_alpha_au_yr = pm_ra_rad_yr * r_au * cos_d;
     let v_delta_au_yr = pm_dec_rad_yr * r_au;
 
-    // Radial velocity in AU/yr (positive = away).
+    // Radial velocity in AU per Julian year (positive = away), the year Δt is
+    // counted in below; qtty's `Year` is the Gregorian one.
     let v_r_au_yr = motion
         .radial_velocity
-        .to::<Per<AstronomicalUnit, Year>>()
+        .to::<Per<AstronomicalUnit, qtty::unit::JulianYear>>()
         .value();
 
     // BCRS velocity vector in AU/yr.
-- 
2.43.0

