use crate::sv::*;
use siderust::formats::spice::daf::{Daf, DafRaw};
use siderust::formats::spice::segment::{segment_for_summary, ChebSegment, DiscreteStatesSegment, SpkSegment};
use siderust::formats::spice::spk::{IndexedSegmentData, SegmentData};
use siderust::formats::spice::{CkKernel, SpkKernel, SpkKernelSet};

fn pi32(b: &mut [u8], o: usize, v: i32, be: bool) { b[o..o + 4].copy_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() }) }
fn pf64(b: &mut [u8], o: usize, v: f64, be: bool) { let u = v.to_bits(); b[o..o + 8].copy_from_slice(&if be { u.to_be_bytes() } else { u.to_le_bytes() }) }
fn header(n: usize, kind: &[u8; 8], be: bool) -> Vec<u8> {
    let mut b = vec![0u8; n];
    b[..8].copy_from_slice(kind);
    pi32(&mut b, 8, 2, be);
    pi32(&mut b, 12, 6, be);
    pi32(&mut b, 76, 2, be);
    b
}
/// Control words: every kind of value a reader must cope with.
fn coarse(t: u32) -> f64 {
    const V: [f64; 10] = [0.0, 1.0, 2.0, 3.0, 12.0, 13.0, -1.0, 2.5, f64::NAN, 1e18];
    V[pick(t, 10) as usize]
}
/// Addresses near the file are enumerated, all others stay symbolic.
fn addr(t: u32) -> i32 {
    let a = i32_(t);
    if decide(a >= 0 && a <= 300) { assume(a < 2 || a == 257 || a == 288 || a == 289); conc(a as u64) as i32 } else { a }
}
struct Sum { t: i32, c: i32, f: i32, ty: i32, s: i32, e: i32 }
/// Summary i of record 2.
fn summary(b: &mut [u8], i: usize, s: &Sum, be: bool) {
    let o = 1024 + 24 + 40 * i;
    pf64(b, o, -1e9, be);
    pf64(b, o + 8, 1e9, be);
    for (k, v) in [s.t, s.c, s.f, s.ty, s.s, s.e].iter().enumerate() { pi32(b, o + 16 + 4 * k, *v, be); }
    pf64(b, 1024 + 16, (i + 1) as f64, be);
}
/// Any forward pointer, any next pointers and any summary counts: an answer, no panic, no endless loop.
#[no_mangle]
pub extern "C" fn h_daf_chain() {
    let be = pick(1, 2) == 1;
    let mut b = header(3072, b"DAF/SPK ", be);
    let f = i32_(2);
    pi32(&mut b, 76, if decide(f >= 0 && f <= 4) { conc(f as u64) as i32 } else { f }, be);
    let mode = pick(3, 3);
    let n1 = if mode != 1 { coarse(4) } else { 3.0 };
    let n2 = if mode == 1 { coarse(5) } else { 2.0 };
    pf64(&mut b, 1024, n1, be);
    pf64(&mut b, 2048, n2, be);
    if mode == 2 { pf64(&mut b, 2048 + 16, coarse(6), be); }
    let r = Daf::parse(&b);
    if let Ok(d) = &r { reach(1); check(d.nd == 2 && d.ni == 6, 1); check(d.summaries.len() <= 75, 2); } else { reach(2) }
}
/// Any value of the two size words: refused unless it is an SPK layout; the raw reader accepts others.
#[no_mangle]
pub extern "C" fn h_daf_sizes() {
    let be = pick(1, 2) == 1;
    let mut b = header(2048, b"DAF/SPK ", be);
    let (nd, ni) = (i32_(2), i32_(3));
    pi32(&mut b, 8, nd, be);
    pi32(&mut b, 12, ni, be);
    pf64(&mut b, 1024 + 16, coarse(4), be);
    if Daf::parse(&b).is_ok() { reach(1); check(nd == 2 && ni == 6, 1) } else { reach(2) }
    if nd == 2 && ni == 6 { pi32(&mut b, 8, 2, be); pi32(&mut b, 12, 6, be); if let Ok(d) = DafRaw::parse(b) { reach(3); for s in &d.raw_summaries { check(s.doubles.len() == 2 && s.integers.len() == 6, 2) } } }
}
/// Any word addresses in a summary: the segment is read inside the file or refused.
#[no_mangle]
pub extern "C" fn h_spk_words() {
    let ty = [2, 3, 9, 13, 5][pick(1, 5) as usize];
    let (s, e) = (addr(2), addr(3));
    let mut b = header(2304, b"DAF/SPK ", false);
    summary(&mut b, 0, &Sum { t: 3, c: 0, f: 1, ty, s, e }, false);
    // a plausible two-record payload in words 257..=288
    for w in 257..=288usize { pf64(&mut b, (w - 1) * 8, w as f64, false); }
    let k = pick(4, 3);
    let tail = if k == 0 { coarse(5) } else { 2.0 };
    let pre = if k == 1 { coarse(6) } else { if ty == 9 || ty == 13 { 1.0 } else if ty == 3 { 8.0 } else { 5.0 } };
    pf64(&mut b, 287 * 8, tail, false);
    pf64(&mut b, 286 * 8, pre, false);
    pf64(&mut b, 285 * 8, if k == 2 && ty < 9 { coarse(7) } else { 285.0 }, false);
    let Ok(d) = Daf::parse(&b) else { reach(2); return };
    match segment_for_summary(&b, &d, &d.summaries[0]) {
        Ok(g) => { reach(1); check(s >= 1 && e <= 288 && s < e, 1); let n = match &g { SpkSegment::Type2(c) | SpkSegment::Type3(c) => c.records.len() == c.n_records * c.rsize, SpkSegment::Type9(c) | SpkSegment::Type13(c) => c.states.len() == 6 * c.n_records && c.epochs.len() == c.n_records }; check(n, 2); }
        Err(_) => reach(3),
    }
}
/// The same for the kernel-set reader.
#[no_mangle]
pub extern "C" fn h_spk_index_words() {
    let ty = [2, 3][pick(1, 2) as usize];
    let (s, e) = (addr(2), addr(3));
    let mut b = header(2304, b"DAF/SPK ", false);
    summary(&mut b, 0, &Sum { t: 3, c: 0, f: 1, ty, s, e }, false);
    let k = pick(4, 3);
    pf64(&mut b, 287 * 8, if k == 0 { coarse(5) } else { 2.0 }, false);
    pf64(&mut b, 286 * 8, if k == 1 { coarse(6) } else { if ty == 3 { 8.0 } else { 5.0 } }, false);
    pf64(&mut b, 285 * 8, if k == 2 { coarse(7) } else { 10.0 }, false);
    if siderust::formats::spice::spk::parse_indexed_segments(&b).is_ok() { reach(1); check(s >= 1 && e <= 288 && s < e, 1) } else { reach(2) }
}
/// Attitude kernels: any word addresses and record count.
#[no_mangle]
pub extern "C" fn h_ck_words() {
    let (s, e) = (addr(2), addr(3));
    let mut b = header(2304, b"DAF/CK  ", false);
    summary(&mut b, 0, &Sum { t: -5, c: 1, f: 1, ty: 0, s, e }, false);
    pf64(&mut b, 287 * 8, if pick(4, 2) == 0 { coarse(5) } else { 2.0 }, false);
    match CkKernel::from_bytes(b) {
        Ok(k) => { reach(1); check(k.segments().len() == 1 && s >= 1 && e <= 288, 1); check(!k.segments()[0].records.is_empty(), 2) }
        Err(_) => reach(2),
    }
}
fn seg_bytes(b: &mut [u8], w: usize, v: [f64; 3], be: bool) {
    // one Type 2 record: mid, radius, x, y, z, then init, intlen, rsize, n
    for (i, x) in [0.0, 1e6, v[0], v[1], v[2], -1e6, 2e6, 5.0, 1.0].iter().enumerate() { pf64(b, (w - 1 + i) * 8, *x, be); }
}
/// A big-endian file means what the little-endian one does; later segments win; chains add and reverse.
#[no_mangle]
pub extern "C" fn h_spk_chain() {
    let be = pick(1, 2) == 1;
    let x = |t: u32| { let v = f64_(t); assume(v > 1e-3 && v < 1e9); v };
    let (emb, moon, emb2) = ([x(10), 2.0, 3.0], [x(11), 5.0, 6.0], [x(12), 8.0, 9.0]);
    let mut b = header(2560, b"DAF/SPK ", be);
    seg_bytes(&mut b, 257, emb, be);
    seg_bytes(&mut b, 266, moon, be);
    seg_bytes(&mut b, 275, emb2, be);
    summary(&mut b, 0, &Sum { t: 3, c: 0, f: 1, ty: 2, s: 257, e: 265 }, be);
    summary(&mut b, 1, &Sum { t: 301, c: 3, f: 1, ty: 2, s: 266, e: 274 }, be);
    let two = pick(2, 2) == 1;
    if two { summary(&mut b, 2, &Sum { t: 3, c: 0, f: 1, ty: 2, s: 275, e: 283 }, be); }
    let k = match SpkKernel::from_bytes(b) { Ok(k) => k, Err(e) => { if native() { eprintln!("{e}") } check(false, 1); return } };
    let top = if two { emb2 } else { emb };
    let et = [0.0, -1e6, 1e6, 123.5][pick(3, 4) as usize];
    let near = |a: f64, b: f64| a == b;
    let Ok(s) = k.state(3, 0, et) else { check(false, 2); return };
    reach(1);
    check(near(s[0], 0.0 + top[0]) && s[1] == top[1] && s[2] == top[2], 3);
    let Ok(r) = k.state(0, 3, et) else { check(false, 4); return };
    check(near(r[0], 0.0 - top[0]) && r[1] == -top[1], 5);
    let Ok(m) = k.state(301, 0, et) else { check(false, 6); return };
    check(near(m[0], (0.0 + moon[0]) + top[0]) && m[1] == top[1] + 5.0, 7);
    check(k.state(301, 0, 1e6 + 1.0).is_err(), 8);
    check(k.state(399, 0, et).is_err(), 9);
}

// ---- evaluation over exact reals ----
/// Chebyshev records: inside coverage the record that contains the epoch is evaluated (value and derivative), outside is refused.
#[no_mangle]
pub extern "C" fn hr_spk_cheb2() {
    let init = -604_800.0;
    let len = 1_382_400.0;
    let et = f64_in(3, -2e9, 2e9);
    let n = 3usize;
    let mut rec = vec![];
    let mut co = vec![];
    for i in 0..n {
        let c = [f64_in(10 + i as u32, -1e9, 1e9), f64_in(20 + i as u32, -1e9, 1e9), f64_in(30 + i as u32, -1e9, 1e9)];
        co.push(c);
        rec.push(init + len * (i as f64 + 0.5));
        rec.push(len / 2.0);
        for _ in 0..3 { rec.extend_from_slice(&c); }
    }
    let g = SpkSegment::Type2(ChebSegment { init, intlen: len, rsize: 11, ncoeff: 3, n_records: n, components: 3, records: rec });
    let end = init + len * 3.0;
    for i in 0..=n { decide(et < init + len * i as f64); }
    match g.evaluate(et) {
        Ok(s) => {
            reach(1);
            check(le(init, et, 1e-9) && le(et, end, 1e-9), 1);
            let mut hit = false;
            for i in 0..n {
                let lo = init + len * i as f64;
                if decide(et >= lo && (et < lo + len || (i == 2 && et <= end))) {
                    hit = true;
                    let tau = (et - lo) / (len / 2.0) - 1.0;
                    let [a, b, c] = co[i];
                    checkeq(s[0], a + b * tau + c * (2.0 * tau * tau - 1.0), 2);
                    checkeq(s[4], (b + 4.0 * c * tau) / (len / 2.0), 3);
                }
            }
            check(hit, 4);
        }
        Err(_) => { reach(2); check(et < init || et > end, 5) }
    }
}
#[no_mangle]
pub extern "C" fn hr_spk_cheb3() {
    let len = 691_200.0;
    let et = f64_in(3, -2e9, 2e9);
    decide(et < len);
    let mut rec = vec![];
    let mut v = vec![];
    for i in 0..2 {
        rec.push(len * (i as f64 + 0.5));
        rec.push(len / 2.0);
        for k in 0..6 { let (a, b) = (f64_in(10 + 20 * i + 2 * k, -1e9, 1e9), f64_in(11 + 20 * i + 2 * k, -1e9, 1e9)); v.push((a, b)); rec.push(a); rec.push(b); }
    }
    let g = SpkSegment::Type3(ChebSegment { init: 0.0, intlen: len, rsize: 14, ncoeff: 2, n_records: 2, components: 6, records: rec });
    match g.evaluate(et) {
        Ok(s) => {
            reach(1);
            let i = if decide(et < len) { 0 } else { 1 };
            let tau = et / (len / 2.0) - 1.0 - 2.0 * i as f64;
            for k in 0..6 { let (a, b) = v[i * 6 + k]; checkeq(s[k], a + b * tau, 1); }
        }
        Err(_) => { reach(2); check(et < 0.0 || et > 2.0 * len, 2) }
    }
}
fn grid(n: usize) -> Vec<f64> {
    // uneven concrete epochs
    [0.0, 10.0, 25.0, 30.0, 55.0, 60.0][..n].to_vec()
}
/// Discrete-state Lagrange segments reproduce every polynomial of their degree at every covered epoch.
#[no_mangle]
pub extern "C" fn hr_spk_lagrange() {
    let deg = 1 + pick(1, 3) as usize;
    let c: Vec<f64> = (0..=deg).map(|i| f64_in(10 + i as u32, -1e6, 1e6)).collect();
    let p = |t: f64| { let mut v = 0.0; for a in c.iter().rev() { v = v * t + a; } v };
    let ep = grid(5);
    let mut st = vec![];
    for t in &ep { for k in 0..6 { st.push(if k == 2 { p(*t) } else { k as f64 }); } }
    let g = SpkSegment::Type9(DiscreteStatesSegment { data_type: 9, interpolation_size: deg, n_records: 5, states: st, epochs: ep, epoch_directory: vec![] });
    let et = f64_in(3, -100.0, 200.0);
    for t in grid(6) { decide(et < t); decide(et == t); }
    match g.evaluate(et) {
        Ok(s) => { reach(1); check(et >= 0.0 && et <= 55.0, 1); checkeq(s[2], p(et), 2); checkeq(s[4], 4.0, 3); }
        Err(_) => { reach(2); check(et < 0.0 || et > 55.0, 4) }
    }
}
/// Hermite segments reproduce cubics (two samples) and quintics (three samples), value and velocity.
#[no_mangle]
pub extern "C" fn hr_spk_hermite() {
    let m = 2 + pick(1, 2) as usize;
    let c: Vec<f64> = (0..2 * m).map(|i| f64_in(10 + i as u32, -1e6, 1e6)).collect();
    let p = |t: f64| { let mut v = 0.0; for a in c.iter().rev() { v = v * t + a; } v };
    let dp = |t: f64| { let mut v = 0.0; for i in (1..2 * m).rev() { v = v * t + c[i] * i as f64; } v };
    let ep = grid(4);
    let mut st = vec![];
    for t in &ep { for k in 0..3 { st.push(if k == 1 { p(*t) } else { k as f64 }); } for k in 0..3 { st.push(if k == 1 { dp(*t) } else { 0.0 }); } }
    let g = SpkSegment::Type13(DiscreteStatesSegment { data_type: 13, interpolation_size: m, n_records: 4, states: st, epochs: ep, epoch_directory: vec![] });
    let et = f64_in(3, -100.0, 200.0);
    for t in grid(6) { decide(et < t); decide(et == t); }
    match g.evaluate(et) {
        Ok(s) => { reach(1); check(et >= 0.0 && et <= 30.0, 1); checkeq(s[1], p(et), 2); checkeq(s[4], dp(et), 3); checkeq(s[2], 2.0, 4); }
        Err(_) => { reach(2); check(et < 0.0 || et > 30.0, 5) }
    }
}
fn ix(t: i32, c: i32, v: f64, s: f64, e: f64) -> IndexedSegmentData {
    IndexedSegmentData { target_id: t, center_id: c, frame_id: 1, start_et: s, end_et: e, data: SegmentData { data_type: 2, init: s, intlen: e - s, rsize: 5, ncoeff: 1, n_records: 1, records: vec![(s + e) / 2.0, (e - s) / 2.0, v, 0.0, 0.0] } }
}
/// Kernel sets: chains add up, reverse with the sign, later segments win inside their coverage, Earth falls back to the Moon ratio.
#[no_mangle]
pub extern "C" fn hr_spk_set() {
    let v = |i| f64_in(i, -1e9, 1e9);
    let (emb, moon, sun, late) = (v(10), v(11), v(12), v(13));
    let d = 86400.0;
    let mut segs = vec![ix(3, 0, emb, -100.0 * d, 100.0 * d), ix(301, 3, moon, -100.0 * d, 100.0 * d), ix(10, 0, sun, -100.0 * d, 100.0 * d), ix(10, 0, late, 0.0, 50.0 * d)];
    let own = pick(1, 2) == 1;
    let ev = v(14);
    if own { segs.push(ix(399, 3, ev, -100.0 * d, 100.0 * d)); }
    let set = SpkKernelSet::from_indexed_segments(segs);
    let t = [-60.0, 20.0, 70.0][pick(2, 3) as usize];
    let jd = siderust::time::JulianDate::new(2_451_545.0 + t);
    let s = if t > 0.0 && t < 50.0 { late } else { sun };
    let earth = if own { emb + ev } else { emb - moon / 81.300_569_074_190_62 };
    let g = |a, b| set.try_geometric_state(a, b, jd).map(|p| p.x().value());
    let (Ok(se), Ok(es), Ok(sm), Ok(mm)) = (g(10, 399), g(399, 10), g(10, 0), g(301, 399)) else { check(false, 1); return };
    reach(1);
    checkeq(sm, s, 2);
    let near = |a: f64, b: f64| a - b < 1e-3 && b - a < 1e-3;
    check(near(se, s - earth), 3);
    check(near(es, earth - s), 4);
    check(near(mm, emb + moon - earth), 5);
    check(g(499, 0).is_err(), 6);
    let jo = siderust::time::JulianDate::new(2_451_545.0 + 101.0);
    check(set.try_geometric_state(10, 399, jo).is_err(), 7);
}
