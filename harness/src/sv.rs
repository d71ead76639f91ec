//! Interface between a harness and the symbolic executor / the native replay runtime.
#![allow(dead_code)]
extern "C" {
    fn sv_u64(tag: u32) -> u64;
    fn sv_u32(tag: u32) -> u32;
    fn sv_u16(tag: u32) -> u16;
    fn sv_u8(tag: u32) -> u8;
    fn sv_f64(tag: u32) -> f64;
    fn sv_bytes(p: *mut u8, n: usize, tag: u32);
    fn sv_uf(tag: u32, nargs: u32, x: f64, y: f64, z: f64) -> f64;
    fn sv_assume(c: bool);
    fn sv_check(c: bool, id: u32);
    fn sv_reach(id: u32);
    fn sv_out(v: u64);
    fn sv_outf(v: f64);
    fn sv_panic_ok(b: bool);
    fn sv_stub_fmt(b: bool);
    fn sv_conc(v: u64) -> u64;
    fn sv_decide(c: bool) -> bool;
    fn sv_native() -> i32;
}
/// A fresh arbitrary value.
pub fn u64_(tag: u32) -> u64 { unsafe { sv_u64(tag) } }
pub fn i64_(tag: u32) -> i64 { unsafe { sv_u64(tag) as i64 } }
pub fn u32_(tag: u32) -> u32 { unsafe { sv_u32(tag) } }
pub fn i32_(tag: u32) -> i32 { unsafe { sv_u32(tag) as i32 } }
pub fn u16_(tag: u32) -> u16 { unsafe { sv_u16(tag) } }
pub fn u8_(tag: u32) -> u8 { unsafe { sv_u8(tag) } }
pub fn bool_(tag: u32) -> bool { unsafe { sv_u8(tag) & 1 == 1 } }
pub fn f64_(tag: u32) -> f64 { unsafe { sv_f64(tag) } }
pub fn bytes<const N: usize>(tag: u32) -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { sv_bytes(b.as_mut_ptr(), N, tag) };
    b
}
pub fn fill(b: &mut [u8], tag: u32) { unsafe { sv_bytes(b.as_mut_ptr(), b.len(), tag) } }
/// An arbitrary but fixed real function (uninterpreted).
pub fn uf1(tag: u32, x: f64) -> f64 { unsafe { sv_uf(tag, 1, x, 0.0, 0.0) } }
pub fn uf2(tag: u32, x: f64, y: f64) -> f64 { unsafe { sv_uf(tag, 2, x, y, 0.0) } }
pub fn uf3(tag: u32, x: f64, y: f64, z: f64) -> f64 { unsafe { sv_uf(tag, 3, x, y, z) } }
pub fn assume(c: bool) { unsafe { sv_assume(c) } }
pub fn check(c: bool, id: u32) { unsafe { sv_check(c, id) } }
pub fn reach(id: u32) { unsafe { sv_reach(id) } }
pub fn out(v: u64) { unsafe { sv_out(v) } }
pub fn outf(v: f64) { unsafe { sv_outf(v) } }
/// From here on a panic is an accepted outcome of the path.
pub fn panic_ok(b: bool) { unsafe { sv_panic_ok(b) } }
/// `false`: execute `format!` for real instead of the empty-string stub.
pub fn stub_fmt(b: bool) { unsafe { sv_stub_fmt(b) } }
/// Fork so that the value is a constant on each path.
pub fn conc(v: u64) -> u64 { unsafe { sv_conc(v) } }
pub fn decide(c: bool) -> bool { unsafe { sv_decide(c) } }
pub fn native() -> bool { unsafe { sv_native() != 0 } }
/// Bounded float (finite).
pub fn f64_in(tag: u32, lo: f64, hi: f64) -> f64 {
    let x = f64_(tag);
    assume(x >= lo && x <= hi);
    x
}
pub fn u64_in(tag: u32, lo: u64, hi: u64) -> u64 { let x = u64_(tag); assume(x >= lo && x <= hi); x }
pub fn i64_in(tag: u32, lo: i64, hi: i64) -> i64 { let x = i64_(tag); assume(x >= lo && x <= hi); x }
/// A value chosen among 0..n, concrete on each path.
pub fn pick(tag: u32, n: u64) -> u64 { let x = u64_(tag); assume(x < n); conc(x) }
/// Equality of reals: exact for the solver, relative/absolute tolerance in the native replay.
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    if native() { (a - b).abs() <= tol * (1.0 + a.abs() + b.abs()) } else { a == b }
}
/// `a <= b` with slack in the native replay.
pub fn le(a: f64, b: f64, tol: f64) -> bool { if native() { a <= b + tol * (1.0 + a.abs() + b.abs()) } else { a <= b } }
pub fn checkeq(a: f64, b: f64, id: u32) { check(close(a, b, 1e-9), id) }
/// Hide from the optimiser that the value is known.
pub fn opaque<T>(v: T) -> T { core::hint::black_box(v) }
