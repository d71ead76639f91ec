//! Minimal hand-written binding to libz3 and the DAG -> SMT translation.
use crate::expr::*;
use rustc_hash::{FxHashMap as HashMap, FxHashSet as HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

pub type P = *mut c_void;
macro_rules! z3fns { ($($n:ident ( $($a:ty),* ) -> $r:ty;)*) => {
    #[allow(non_snake_case)]
    extern "C" { $(fn $n($(_: $a),*) -> $r;)* }
} }
#[link(name = "z3")]
extern "C" {}
z3fns! {
    Z3_mk_config() -> P;
    Z3_set_param_value(P, *const c_char, *const c_char) -> ();
    Z3_mk_context(P) -> P;
    Z3_inc_ref(P, P) -> ();
    Z3_mk_string_symbol(P, *const c_char) -> P;
    Z3_mk_bv_sort(P, c_uint) -> P;
    Z3_mk_real_sort(P) -> P;
    Z3_mk_fpa_sort_double(P) -> P;
    Z3_mk_fpa_sort_single(P) -> P;
    Z3_mk_const(P, P, P) -> P;
    Z3_mk_numeral(P, *const c_char, P) -> P;
    Z3_mk_true(P) -> P;
    Z3_mk_not(P, P) -> P;
    Z3_mk_eq(P, P, P) -> P;
    Z3_mk_ite(P, P, P, P) -> P;
    Z3_mk_and(P, c_uint, *const P) -> P;
    Z3_mk_or(P, c_uint, *const P) -> P;
    Z3_mk_xor(P, P, P) -> P;
    Z3_mk_bvadd(P, P, P) -> P; Z3_mk_bvsub(P, P, P) -> P; Z3_mk_bvmul(P, P, P) -> P;
    Z3_mk_bvudiv(P, P, P) -> P; Z3_mk_bvsdiv(P, P, P) -> P; Z3_mk_bvurem(P, P, P) -> P; Z3_mk_bvsrem(P, P, P) -> P;
    Z3_mk_bvand(P, P, P) -> P; Z3_mk_bvor(P, P, P) -> P; Z3_mk_bvxor(P, P, P) -> P;
    Z3_mk_bvshl(P, P, P) -> P; Z3_mk_bvlshr(P, P, P) -> P; Z3_mk_bvashr(P, P, P) -> P;
    Z3_mk_bvult(P, P, P) -> P; Z3_mk_bvule(P, P, P) -> P; Z3_mk_bvslt(P, P, P) -> P; Z3_mk_bvsle(P, P, P) -> P;
    Z3_mk_zero_ext(P, c_uint, P) -> P; Z3_mk_sign_ext(P, c_uint, P) -> P;
    Z3_mk_extract(P, c_uint, c_uint, P) -> P; Z3_mk_concat(P, P, P) -> P;
    Z3_mk_bv2int(P, P, bool) -> P; Z3_mk_int2real(P, P) -> P; Z3_mk_real2int(P, P) -> P; Z3_mk_int2bv(P, c_uint, P) -> P;
    Z3_mk_fpa_round_nearest_ties_to_even(P) -> P; Z3_mk_fpa_round_nearest_ties_to_away(P) -> P;
    Z3_mk_fpa_round_toward_zero(P) -> P; Z3_mk_fpa_round_toward_negative(P) -> P; Z3_mk_fpa_round_toward_positive(P) -> P;
    Z3_mk_fpa_to_fp_bv(P, P, P) -> P; Z3_mk_fpa_to_ieee_bv(P, P) -> P;
    Z3_mk_fpa_add(P, P, P, P) -> P; Z3_mk_fpa_sub(P, P, P, P) -> P; Z3_mk_fpa_mul(P, P, P, P) -> P; Z3_mk_fpa_div(P, P, P, P) -> P;
    Z3_mk_fpa_sqrt(P, P, P) -> P; Z3_mk_fpa_rem(P, P, P) -> P; Z3_mk_fpa_neg(P, P) -> P; Z3_mk_fpa_abs(P, P) -> P;
    Z3_mk_fpa_round_to_integral(P, P, P) -> P;
    Z3_mk_fpa_eq(P, P, P) -> P; Z3_mk_fpa_lt(P, P, P) -> P; Z3_mk_fpa_leq(P, P, P) -> P; Z3_mk_fpa_is_nan(P, P) -> P;
    Z3_mk_fpa_to_sbv(P, P, P, c_uint) -> P; Z3_mk_fpa_to_ubv(P, P, P, c_uint) -> P;
    Z3_mk_fpa_to_fp_signed(P, P, P, P) -> P; Z3_mk_fpa_to_fp_unsigned(P, P, P, P) -> P; Z3_mk_fpa_to_fp_float(P, P, P, P) -> P;
    Z3_mk_add(P, c_uint, *const P) -> P; Z3_mk_sub(P, c_uint, *const P) -> P; Z3_mk_mul(P, c_uint, *const P) -> P; Z3_mk_div(P, P, P) -> P; Z3_mk_unary_minus(P, P) -> P;
    Z3_mk_lt(P, P, P) -> P; Z3_mk_le(P, P, P) -> P; Z3_mk_ge(P, P, P) -> P;
    Z3_mk_func_decl(P, P, c_uint, *const P, P) -> P; Z3_mk_app(P, P, c_uint, *const P) -> P;
    Z3_func_decl_to_ast(P, P) -> P;
    Z3_mk_solver(P) -> P; Z3_mk_simple_solver(P) -> P; Z3_mk_tactic(P, *const c_char) -> P; Z3_tactic_inc_ref(P, P) -> (); Z3_mk_solver_from_tactic(P, P) -> P;
    Z3_solver_inc_ref(P, P) -> (); Z3_solver_dec_ref(P, P) -> ();
    Z3_mk_params(P) -> P; Z3_params_inc_ref(P, P) -> (); Z3_params_set_uint(P, P, P, c_uint) -> (); Z3_solver_set_params(P, P, P) -> ();
    Z3_solver_assert(P, P, P) -> (); Z3_solver_check(P, P) -> c_int; Z3_solver_get_model(P, P) -> P;
    Z3_model_inc_ref(P, P) -> (); Z3_model_dec_ref(P, P) -> (); Z3_model_eval(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_string(P, P) -> *const c_char; Z3_get_numeral_decimal_string(P, P, c_uint) -> *const c_char;
    Z3_get_ast_kind(P, P) -> c_int; Z3_ast_to_string(P, P) -> *const c_char; Z3_solver_to_string(P, P) -> *const c_char;
    Z3_set_error_handler(P, Option<extern "C" fn(P, c_int)>) -> ();
    Z3_get_full_version() -> *const c_char;
    Z3_is_algebraic_number(P, P) -> bool;
}

pub enum Res { Sat(Model), Unsat, Unknown }

pub struct Z3 {
    c: P,
    ast: HashMap<E, P>,
    side: HashMap<E, Vec<P>>,
    ufd: HashMap<u32, P>,
    rne: P,
    pub real: bool,
    pub timeout_ms: u32,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    cache: HashMap<Vec<E>, (u8, Option<Model>)>,
    pub cache_hits: u64,
    pub slowest: f64,
    pub deadline: Instant,
    /// encoding comparisons through polynomial normal forms
    pm: bool,
    pvar: HashMap<u32, P>,
    pside: Vec<P>,
    pure: bool,
}

extern "C" fn err(c: P, e: c_int) { let _ = c; panic!("z3 error {e}"); }

impl Z3 {
    pub fn new(real: bool, timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(err));
            let rne = Z3_mk_fpa_round_nearest_ties_to_even(c);
            Z3_inc_ref(c, rne);
            Z3 { c, ast: HashMap::default(), side: HashMap::default(), ufd: HashMap::default(), rne, real, timeout_ms, queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, cache: HashMap::default(), cache_hits: 0, slowest: 0.0, deadline: Instant::now() + std::time::Duration::from_secs(100000), pm: false, pvar: HashMap::default(), pside: vec![], pure: true }
        }
    }
    pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }
    fn keep(&self, a: P) -> P { unsafe { Z3_inc_ref(self.c, a); } a }
    fn num(&self, s: &str, sort: P) -> P { let cs = CString::new(s).unwrap(); unsafe { Z3_mk_numeral(self.c, cs.as_ptr(), sort) } }
    fn symb(&self, s: &str) -> P { let cs = CString::new(s).unwrap(); unsafe { Z3_mk_string_symbol(self.c, cs.as_ptr()) } }
    fn sort(&self, s: Sort) -> P {
        unsafe { match s {
            Sort::B(w) => Z3_mk_bv_sort(self.c, w as c_uint),
            Sort::F64 => if self.real { Z3_mk_real_sort(self.c) } else { Z3_mk_fpa_sort_double(self.c) },
            Sort::F32 => Z3_mk_fpa_sort_single(self.c),
        } }
    }
    fn rat(&self, v: f64) -> P {
        let s = f64_rational(v);
        unsafe { self.num(&s, Z3_mk_real_sort(self.c)) }
    }
    /// Boolean expressions are 1-bit vectors in the DAG; convert to Z3 Bool.
    fn boolean(&mut self, x: &Ctx, e: E) -> P {
        // produce Bool directly for comparison nodes
        let a = self.tr(x, e);
        unsafe { let one = self.num("1", Z3_mk_bv_sort(self.c, 1)); self.keep(Z3_mk_eq(self.c, a, one)) }
    }
    fn tobv(&self, b: P) -> P { unsafe { let s = Z3_mk_bv_sort(self.c, 1); Z3_mk_ite(self.c, b, self.num("1", s), self.num("0", s)) } }
    pub fn tr(&mut self, x: &Ctx, e: E) -> P {
        if let Some(&p) = self.ast.get(&e) { return p; }
        let mut stack = vec![e];
        while let Some(&t) = stack.last() {
            if self.ast.contains_key(&t) { stack.pop(); continue; }
            let n = *x.node(t);
            if self.pm && matches!(n.op, Op::FEq | Op::FLt | Op::FLe) {
                if let Some(p) = self.pcmp(x, t, &n) { self.keep(p); self.ast.insert(t, p); stack.pop(); continue; }
            }
            let mut ready = true;
            for c in n.a { if c != NE && !self.ast.contains_key(&c) { stack.push(c); ready = false; } }
            if !ready { continue; }
            stack.pop();
            let p = self.tr1(x, t, &n);
            self.keep(p);
            self.ast.insert(t, p);
        }
        self.ast[&e]
    }
    fn tr1(&mut self, x: &Ctx, t: E, n: &Node) -> P {
        let c = self.c;
        let g = |i: usize| -> P { self.ast[&n.a[i]] };
        unsafe {
            match n.op {
                Op::Const => match n.sort {
                    Sort::B(w) => self.num(&n.k.to_string(), Z3_mk_bv_sort(c, w as c_uint)),
                    Sort::F64 if self.real => self.rat(f64::from_bits(n.k as u64)),
                    s => { let w = if s == Sort::F64 { 64 } else { 32 }; let b = self.num(&n.k.to_string(), Z3_mk_bv_sort(c, w)); Z3_mk_fpa_to_fp_bv(c, b, self.sort(s)) }
                },
                Op::Sym => { let nm = self.symb(&format!("{}_{}", x.syms[n.k as usize].name, n.k)); Z3_mk_const(c, nm, self.sort(n.sort)) }
                Op::Add => Z3_mk_bvadd(c, g(0), g(1)),
                Op::Sub => Z3_mk_bvsub(c, g(0), g(1)),
                Op::Mul => Z3_mk_bvmul(c, g(0), g(1)),
                Op::UDiv => Z3_mk_bvudiv(c, g(0), g(1)),
                Op::SDiv => Z3_mk_bvsdiv(c, g(0), g(1)),
                Op::URem => Z3_mk_bvurem(c, g(0), g(1)),
                Op::SRem => Z3_mk_bvsrem(c, g(0), g(1)),
                Op::And => Z3_mk_bvand(c, g(0), g(1)),
                Op::Or => Z3_mk_bvor(c, g(0), g(1)),
                Op::Xor => Z3_mk_bvxor(c, g(0), g(1)),
                Op::Shl => Z3_mk_bvshl(c, g(0), g(1)),
                Op::LShr => Z3_mk_bvlshr(c, g(0), g(1)),
                Op::AShr => Z3_mk_bvashr(c, g(0), g(1)),
                Op::Eq => self.tobv(Z3_mk_eq(c, g(0), g(1))),
                Op::Ult => self.tobv(Z3_mk_bvult(c, g(0), g(1))),
                Op::Ule => self.tobv(Z3_mk_bvule(c, g(0), g(1))),
                Op::Slt => self.tobv(Z3_mk_bvslt(c, g(0), g(1))),
                Op::Sle => self.tobv(Z3_mk_bvsle(c, g(0), g(1))),
                Op::Ite => { let one = self.num("1", Z3_mk_bv_sort(c, 1)); Z3_mk_ite(c, Z3_mk_eq(c, g(0), one), g(1), g(2)) }
                Op::ZExt => Z3_mk_zero_ext(c, (x.w(t) - x.w(n.a[0])) as c_uint, g(0)),
                Op::SExt => Z3_mk_sign_ext(c, (x.w(t) - x.w(n.a[0])) as c_uint, g(0)),
                Op::Extract => Z3_mk_extract(c, n.k as c_uint + x.w(t) as c_uint - 1, n.k as c_uint, g(0)),
                Op::Concat => Z3_mk_concat(c, g(0), g(1)),
                Op::Uf => {
                    let ar = n.a.iter().filter(|a| **a != NE).count();
                    let fs = self.sort(Sort::F64);
                    let d = match self.ufd.get(&(n.k as u32)) { Some(d) => *d, None => {
                        let dom = [fs; 3];
                        let nm = self.symb(&format!("uf_{}", x.ufs[n.k as usize].0));
                        let d = Z3_mk_func_decl(c, nm, ar as c_uint, dom.as_ptr(), fs);
                        self.keep(Z3_func_decl_to_ast(c, d));
                        self.ufd.insert(n.k as u32, d);
                        d } };
                    let args: Vec<P> = (0..ar).map(|i| self.ast[&n.a[i]]).collect();
                    let a = Z3_mk_app(c, d, ar as c_uint, args.as_ptr());
                    self.keep(a);
                    let name = x.ufs[n.k as usize].0.clone();
                    let s = self.uf_axioms(x, &name, n, a);
                    if !s.is_empty() { self.side.insert(t, s); }
                    a
                }
                _ if self.real => self.tr_real(x, t, n),
                _ => self.tr_fp(x, t, n),
            }
        }
    }
    fn get_uf(&mut self, name: &str, arg: P) -> P {
        // auxiliary application of a named unary UF (shared with DAG-level ufs through the declaration name)
        unsafe {
            let fs = self.sort(Sort::F64);
            let d = Z3_mk_func_decl(self.c, self.symb(&format!("uf_{name}")), 1, [fs].as_ptr(), fs);
            self.keep(Z3_func_decl_to_ast(self.c, d));
            self.keep(Z3_mk_app(self.c, d, 1, [arg].as_ptr()))
        }
    }
    fn uf_axioms(&mut self, x: &Ctx, name: &str, n: &Node, a: P) -> Vec<P> {
        let c = self.c;
        let _ = x;
        let mut out = vec![];
        unsafe {
            if self.real {
                let r = |z: &Z3, v: f64| z.rat(v);
                let sq = |p: P| Z3_mk_mul(c, 2, [p, p].as_ptr());
                let a0 = self.ast[&n.a[0]];
                match name {
                    "sin" | "cos" => {
                        let o = self.get_uf(if name == "sin" { "cos" } else { "sin" }, a0);
                        out.push(Z3_mk_eq(c, Z3_mk_add(c, 2, [sq(a), sq(o)].as_ptr()), r(self, 1.0)));
                        out.push(Z3_mk_le(c, a, r(self, 1.0)));
                        out.push(Z3_mk_le(c, r(self, -1.0), a));
                    }
                    "atan2" => {
                        // y = rho sin a, x = rho cos a, rho = sqrt(x^2+y^2) (rho given its own symbol), -pi <= a <= pi
                        let a1 = self.ast[&n.a[1]];
                        let s = self.get_uf("sin", a);
                        let co = self.get_uf("cos", a);
                        let rho = self.get_uf("rho_of", a);
                        out.push(Z3_mk_le(c, r(self, 0.0), rho));
                        out.push(Z3_mk_eq(c, sq(rho), Z3_mk_add(c, 2, [sq(a0), sq(a1)].as_ptr())));
                        out.push(Z3_mk_eq(c, Z3_mk_mul(c, 2, [rho, s].as_ptr()), a0));
                        out.push(Z3_mk_eq(c, Z3_mk_mul(c, 2, [rho, co].as_ptr()), a1));
                        out.push(Z3_mk_eq(c, Z3_mk_add(c, 2, [sq(s), sq(co)].as_ptr()), r(self, 1.0)));
                        out.push(Z3_mk_le(c, a, r(self, std::f64::consts::PI + 1e-15)));
                        out.push(Z3_mk_le(c, r(self, -std::f64::consts::PI - 1e-15), a));
                        let (z, h, mh) = (r(self, 0.0), r(self, std::f64::consts::FRAC_PI_2), r(self, -std::f64::consts::FRAC_PI_2));
                        out.push(Z3_mk_eq(c, Z3_mk_lt(c, a, z), Z3_mk_lt(c, a0, z)));
                        out.push(Z3_mk_eq(c, Z3_mk_eq(c, a, z), Z3_mk_and(c, 2, [Z3_mk_eq(c, a0, z), Z3_mk_le(c, z, a1)].as_ptr())));
                        out.push(Z3_mk_eq(c, Z3_mk_or(c, 2, [Z3_mk_lt(c, h, a), Z3_mk_lt(c, a, mh)].as_ptr()), Z3_mk_lt(c, a1, z)));
                    }
                    "asin" => {
                        let s = self.get_uf("sin", a);
                        let co = self.get_uf("cos", a);
                        out.push(Z3_mk_eq(c, s, a0));
                        out.push(Z3_mk_le(c, r(self, 0.0), co));
                        out.push(Z3_mk_eq(c, Z3_mk_add(c, 2, [sq(s), sq(co)].as_ptr()), r(self, 1.0)));
                        out.push(Z3_mk_le(c, a, r(self, std::f64::consts::FRAC_PI_2 + 1e-15)));
                        out.push(Z3_mk_le(c, r(self, -std::f64::consts::FRAC_PI_2 - 1e-15), a));
                    }
                    "acos" => {
                        let s = self.get_uf("sin", a);
                        let co = self.get_uf("cos", a);
                        out.push(Z3_mk_eq(c, co, a0));
                        out.push(Z3_mk_le(c, r(self, 0.0), s));
                        out.push(Z3_mk_eq(c, Z3_mk_add(c, 2, [sq(s), sq(co)].as_ptr()), r(self, 1.0)));
                        out.push(Z3_mk_le(c, a, r(self, std::f64::consts::PI + 1e-15)));
                        out.push(Z3_mk_le(c, r(self, 0.0), a));
                    }
                    "exp" => { out.push(Z3_mk_lt(c, r(self, 0.0), a)); }
                    _ => {}
                }
            } else {
                let fs = self.sort(Sort::F64);
                let k = |z: &Z3, v: f64| -> P { let b = z.num(&v.to_bits().to_string(), Z3_mk_bv_sort(c, 64)); Z3_mk_fpa_to_fp_bv(c, b, fs) };
                let a0 = self.ast[&n.a[0]];
                match name {
                    "sin" | "cos" => {
                        let inr = Z3_mk_and(c, 2, [Z3_mk_fpa_leq(c, k(self, -1.0), a), Z3_mk_fpa_leq(c, a, k(self, 1.0))].as_ptr());
                        let fin = Z3_mk_and(c, 2, [Z3_mk_fpa_leq(c, k(self, -f64::MAX), a0), Z3_mk_fpa_leq(c, a0, k(self, f64::MAX))].as_ptr());
                        out.push(Z3_mk_ite(c, fin, inr, Z3_mk_fpa_is_nan(c, a)));
                    }
                    _ => {}
                }
            }
        }
        out.iter().map(|p| self.keep(*p)).collect()
    }
    fn tr_fp(&mut self, x: &Ctx, t: E, n: &Node) -> P {
        let c = self.c;
        let g = |i: usize| -> P { self.ast[&n.a[i]] };
        let s0 = x.sort(n.a[0]);
        unsafe {
            match n.op {
                Op::FFromBits => Z3_mk_fpa_to_fp_bv(c, g(0), self.sort(n.sort)),
                Op::FBits => Z3_mk_fpa_to_ieee_bv(c, g(0)),
                Op::FAdd => Z3_mk_fpa_add(c, self.rne, g(0), g(1)),
                Op::FSub => Z3_mk_fpa_sub(c, self.rne, g(0), g(1)),
                Op::FMul => Z3_mk_fpa_mul(c, self.rne, g(0), g(1)),
                Op::FDiv => Z3_mk_fpa_div(c, self.rne, g(0), g(1)),
                Op::FSqrt => Z3_mk_fpa_sqrt(c, self.rne, g(0)),
                Op::FNeg => Z3_mk_fpa_neg(c, g(0)),
                Op::FAbs => Z3_mk_fpa_abs(c, g(0)),
                Op::FRem => {
                    let (ax, ay) = (Z3_mk_fpa_abs(c, g(0)), Z3_mk_fpa_abs(c, g(1)));
                    let r = Z3_mk_fpa_rem(c, ax, ay);
                    let zero = Z3_mk_fpa_to_fp_bv(c, self.num("0", Z3_mk_bv_sort(c, if s0 == Sort::F64 { 64 } else { 32 })), self.sort(s0));
                    let r2 = Z3_mk_ite(c, Z3_mk_fpa_lt(c, r, zero), Z3_mk_fpa_add(c, self.rne, r, ay), r);
                    let r3 = Z3_mk_fpa_abs(c, r2);
                    Z3_mk_ite(c, Z3_mk_fpa_lt(c, g(0), zero), Z3_mk_fpa_neg(c, r3), r3)
                }
                Op::FRound => {
                    let rm = match n.k { 0 => Z3_mk_fpa_round_toward_negative(c), 1 => Z3_mk_fpa_round_toward_positive(c), 2 => Z3_mk_fpa_round_toward_zero(c), 3 => self.rne, _ => Z3_mk_fpa_round_nearest_ties_to_away(c) };
                    Z3_mk_fpa_round_to_integral(c, rm, g(0))
                }
                Op::FEq => self.tobv(Z3_mk_fpa_eq(c, g(0), g(1))),
                Op::FLt => self.tobv(Z3_mk_fpa_lt(c, g(0), g(1))),
                Op::FLe => self.tobv(Z3_mk_fpa_leq(c, g(0), g(1))),
                Op::FNan => self.tobv(Z3_mk_fpa_is_nan(c, g(0))),
                Op::FToSI | Op::FToUI => {
                    let w = x.w(t);
                    let rtz = Z3_mk_fpa_round_toward_zero(c);
                    let kf = |v: f64| -> P {
                        if s0 == Sort::F64 { Z3_mk_fpa_to_fp_bv(c, self.num(&v.to_bits().to_string(), Z3_mk_bv_sort(c, 64)), self.sort(s0)) }
                        else { Z3_mk_fpa_to_fp_bv(c, self.num(&(v as f32).to_bits().to_string(), Z3_mk_bv_sort(c, 32)), self.sort(s0)) }
                    };
                    let bs = Z3_mk_bv_sort(c, w as c_uint);
                    let (lo, hi, lov, hiv, mid) = if n.op == Op::FToSI {
                        (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1), (1u128 << (w - 1)), mask(w - 1), Z3_mk_fpa_to_sbv(c, rtz, g(0), w as c_uint))
                    } else { (0.0, 2f64.powi(w as i32), 0, mask(w), Z3_mk_fpa_to_ubv(c, rtz, g(0), w as c_uint)) };
                    let zero = self.num("0", bs);
                    let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, kf(hi), g(0)), self.num(&hiv.to_string(), bs), mid);
                    let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, g(0), kf(lo)), self.num(&lov.to_string(), bs), r);
                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, g(0)), zero, r)
                }
                Op::SIToF => Z3_mk_fpa_to_fp_signed(c, self.rne, g(0), self.sort(n.sort)),
                Op::UIToF => Z3_mk_fpa_to_fp_unsigned(c, self.rne, g(0), self.sort(n.sort)),
                Op::FExt | Op::FTrunc => Z3_mk_fpa_to_fp_float(c, self.rne, g(0), self.sort(n.sort)),
                _ => panic!("tr_fp {:?}", n.op),
            }
        }
    }
    fn tr_real(&mut self, x: &Ctx, t: E, n: &Node) -> P {
        let c = self.c;
        let g = |i: usize| -> P { self.ast[&n.a[i]] };
        unsafe {
            match n.op {
                Op::FAdd => Z3_mk_add(c, 2, [g(0), g(1)].as_ptr()),
                Op::FSub => Z3_mk_sub(c, 2, [g(0), g(1)].as_ptr()),
                Op::FMul => Z3_mk_mul(c, 2, [g(0), g(1)].as_ptr()),
                Op::FDiv => Z3_mk_div(c, g(0), g(1)),
                Op::FNeg => Z3_mk_unary_minus(c, g(0)),
                Op::FAbs => Z3_mk_ite(c, Z3_mk_lt(c, g(0), self.rat(0.0)), Z3_mk_unary_minus(c, g(0)), g(0)),
                Op::FSqrt => {
                    let v = Z3_mk_const(c, self.symb(&format!("sqrt_{t}")), Z3_mk_real_sort(c));
                    self.keep(v);
                    let a = self.keep(Z3_mk_le(c, self.rat(0.0), v));
                    let b = self.keep(Z3_mk_eq(c, Z3_mk_mul(c, 2, [v, v].as_ptr()), g(0)));
                    self.side.insert(t, vec![a, b]);
                    v
                }
                Op::FRound => {
                    let fl = |p: P| Z3_mk_int2real(c, Z3_mk_real2int(c, p));
                    let neg = |p: P| Z3_mk_unary_minus(c, p);
                    let pos = Z3_mk_le(c, self.rat(0.0), g(0));
                    let half = self.rat(0.5);
                    match n.k {
                        0 => fl(g(0)),
                        1 => neg(fl(neg(g(0)))),
                        2 => Z3_mk_ite(c, pos, fl(g(0)), neg(fl(neg(g(0))))),
                        _ => Z3_mk_ite(c, pos, fl(Z3_mk_add(c, 2, [g(0), half].as_ptr())), neg(fl(Z3_mk_add(c, 2, [neg(g(0)), half].as_ptr())))),
                    }
                }
                Op::FRem => {
                    let q = Z3_mk_div(c, g(0), g(1));
                    let fl = |p: P| Z3_mk_int2real(c, Z3_mk_real2int(c, p));
                    let pos = Z3_mk_le(c, self.rat(0.0), q);
                    let tr = Z3_mk_ite(c, pos, fl(q), Z3_mk_unary_minus(c, fl(Z3_mk_unary_minus(c, q))));
                    Z3_mk_sub(c, 2, [g(0), Z3_mk_mul(c, 2, [g(1), tr].as_ptr())].as_ptr())
                }
                Op::FEq => self.tobv(Z3_mk_eq(c, g(0), g(1))),
                Op::FLt => self.tobv(Z3_mk_lt(c, g(0), g(1))),
                Op::FLe => self.tobv(Z3_mk_le(c, g(0), g(1))),
                Op::FNan => self.num("0", Z3_mk_bv_sort(c, 1)),
                Op::SIToF => Z3_mk_int2real(c, Z3_mk_bv2int(c, g(0), true)),
                Op::UIToF => Z3_mk_int2real(c, Z3_mk_bv2int(c, g(0), false)),
                Op::FToSI | Op::FToUI => {
                    let fl = |p: P| Z3_mk_real2int(c, p);
                    let pos = Z3_mk_le(c, self.rat(0.0), g(0));
                    let i = Z3_mk_ite(c, pos, fl(g(0)), Z3_mk_unary_minus(c, fl(Z3_mk_unary_minus(c, g(0)))));
                    Z3_mk_int2bv(c, x.w(t) as c_uint, i)
                }
                _ => panic!("tr_real {:?}", n.op),
            }
        }
    }
    fn pcmp(&mut self, x: &Ctx, t: E, n: &Node) -> Option<P> {
        let d = crate::poly::cmp_poly(x, t)?;
        if d.len() > 150 { return None; }
        let p = self.penc(x, &d)?;
        let z = self.rat(0.0);
        unsafe { Some(self.tobv(match n.op { Op::FEq => Z3_mk_eq(self.c, p, z), Op::FLt => Z3_mk_lt(self.c, z, p), _ => Z3_mk_le(self.c, z, p) })) }
    }
    fn penc(&mut self, x: &Ctx, d: &crate::poly::Poly) -> Option<P> {
        let mut sum = vec![];
        for (m, k) in d {
            let mut f = vec![];
            if !(k.n == 1.into() && k.d == 1.into()) || m.is_empty() { f.push(self.num(&format!("{}/{}", k.n, k.d), unsafe { Z3_mk_real_sort(self.c) })); }
            for (a, e) in m {
                let v = self.patom(x, *a)?;
                let v = if *e < 0 { self.pinv(*a, v) } else { v };
                for _ in 0..e.unsigned_abs() { f.push(v); }
            }
            sum.push(self.keep(if f.len() == 1 { f[0] } else { unsafe { Z3_mk_mul(self.c, f.len() as c_uint, f.as_ptr()) } }));
        }
        Some(self.keep(match sum.len() { 0 => self.rat(0.0), 1 => sum[0], n => unsafe { Z3_mk_add(self.c, n as c_uint, sum.as_ptr()) } }))
    }
    fn rvar(&self, s: &str) -> P { unsafe { self.keep(Z3_mk_const(self.c, self.symb(s), Z3_mk_real_sort(self.c))) } }
    fn pinv(&mut self, a: u32, v: P) -> P {
        if let Some(&p) = self.pvar.get(&(a | 1 << 31)) { return p; }
        let i = self.rvar(&format!("pinv_{a}"));
        self.pvar.insert(a | 1 << 31, i);
        unsafe { let c = self.c; self.pside.push(self.keep(Z3_mk_eq(c, Z3_mk_mul(c, 2, [i, v].as_ptr()), self.rat(1.0)))); }
        i
    }
    fn patom(&mut self, x: &Ctx, a: u32) -> Option<P> {
        use crate::poly::Atom;
        if let Some(&p) = self.pvar.get(&a) { return Some(p); }
        let c = self.c;
        let at = crate::poly::atom_of(a);
        let zero = self.keep(self.rat(0.0));
        let one = self.keep(self.rat(1.0));
        let p = unsafe { match &at {
            Atom::Node(e) => { if !matches!(x.node(*e).op, Op::Sym) { self.pure = false; } let p = self.tr(x, *e); for t in self.cone(x, &[*e]) { if let Some(sd) = self.side.get(&t) { self.pside.extend(sd.iter().copied()); } } p }
            Atom::Sin(q) | Atom::Cos(q) => {
                let (si, ci) = crate::poly::pair_of(&at).unwrap();
                let (s, o) = (self.rvar(&format!("psin_{q}")), self.rvar(&format!("pcos_{q}")));
                self.pvar.insert(si, s);
                self.pvar.insert(ci, o);
                self.pside.push(self.keep(Z3_mk_eq(c, Z3_mk_add(c, 2, [Z3_mk_mul(c, 2, [s, s].as_ptr()), Z3_mk_mul(c, 2, [o, o].as_ptr())].as_ptr()), one)));
                let mone = self.rat(-1.0);
                for v in [s, o] { self.pside.push(self.keep(Z3_mk_le(c, v, one))); self.pside.push(self.keep(Z3_mk_le(c, mone, v))); }
                if si == a { s } else { o }
            }
            Atom::Sqrt(q) => {
                let v = self.rvar(&format!("psqrt_{q}"));
                self.pvar.insert(a, v);
                let q = self.penc(x, &crate::poly::poly_of(*q))?;
                self.pside.push(self.keep(Z3_mk_le(c, zero, v)));
                self.pside.push(self.keep(Z3_mk_eq(c, Z3_mk_mul(c, 2, [v, v].as_ptr()), q)));
                v
            }
            Atom::Abs(q) => { let q = self.penc(x, &crate::poly::poly_of(*q))?; self.keep(Z3_mk_ite(c, Z3_mk_lt(c, q, zero), Z3_mk_unary_minus(c, q), q)) }
            Atom::P(q) => self.penc(x, &crate::poly::poly_of(*q))?,
            Atom::Round(k, q) => {
                self.pure = false;
                let q = self.penc(x, &crate::poly::poly_of(*q))?;
                let fl = |p: P| Z3_mk_int2real(c, Z3_mk_real2int(c, p));
                let neg = |p: P| Z3_mk_unary_minus(c, p);
                let pos = Z3_mk_le(c, zero, q);
                let half = self.rat(0.5);
                self.keep(match *k { 0 => fl(q), 1 => neg(fl(neg(q))), 2 => Z3_mk_ite(c, pos, fl(q), neg(fl(neg(q)))), _ => Z3_mk_ite(c, pos, fl(Z3_mk_add(c, 2, [q, half].as_ptr())), neg(fl(Z3_mk_add(c, 2, [neg(q), half].as_ptr())))) })
            }
            Atom::FnIte(e) => {
                let n = *x.node(*e);
                let b = self.tr(x, n.a[0]);
                let (t, f) = (crate::poly::norm(x, n.a[1])?, crate::poly::norm(x, n.a[2])?);
                let (t, f) = (self.penc(x, &t)?, self.penc(x, &f)?);
                let b1 = self.num("1", Z3_mk_bv_sort(c, 1));
                self.keep(Z3_mk_ite(c, Z3_mk_eq(c, b, b1), t, f))
            }
            Atom::Fn(k, ids) => {
                self.pure = false;
                let mut args = vec![];
                for i in ids { args.push(self.penc(x, &crate::poly::poly_of(*i))?); }
                let fs = self.sort(Sort::F64);
                let name = x.ufs[*k as usize].0.clone();
                let d = match self.ufd.get(k) { Some(d) => *d, None => { let dom = [fs; 3]; let d = Z3_mk_func_decl(c, self.symb(&format!("uf_{name}")), args.len() as c_uint, dom.as_ptr(), fs); self.keep(Z3_func_decl_to_ast(c, d)); self.ufd.insert(*k, d); d } };
                let v = self.keep(Z3_mk_app(c, d, args.len() as c_uint, args.as_ptr()));
                let pi = std::f64::consts::PI;
                let bnd = |z: &mut Z3, l: f64, h: f64| { let (l, h) = (z.rat(l), z.rat(h)); z.pside.push(z.keep(Z3_mk_le(c, l, v))); z.pside.push(z.keep(Z3_mk_le(c, v, h))); };
                let iff = |z: &mut Z3, p: P, q: P| { let t = z.keep(Z3_mk_eq(c, p, q)); z.pside.push(t); };
                match name.as_str() {
                    "atan2" => {
                        bnd(self, -pi, pi);
                        let (y, xx) = (args[0], args[1]);
                        let h = self.keep(self.rat(pi / 2.0));
                        let mh = self.keep(self.rat(-pi / 2.0));
                        iff(self, Z3_mk_lt(c, v, zero), Z3_mk_lt(c, y, zero));
                        iff(self, Z3_mk_eq(c, v, zero), Z3_mk_and(c, 2, [Z3_mk_eq(c, y, zero), Z3_mk_le(c, zero, xx)].as_ptr()));
                        iff(self, Z3_mk_or(c, 2, [Z3_mk_lt(c, h, v), Z3_mk_lt(c, v, mh)].as_ptr()), Z3_mk_lt(c, xx, zero));
                    }
                    "asin" => { bnd(self, -pi / 2.0, pi / 2.0); iff(self, Z3_mk_lt(c, v, zero), Z3_mk_lt(c, args[0], zero)); iff(self, Z3_mk_lt(c, zero, v), Z3_mk_lt(c, zero, args[0])); }
                    "acos" => { bnd(self, 0.0, pi); let h = self.keep(self.rat(pi / 2.0)); iff(self, Z3_mk_lt(c, v, h), Z3_mk_lt(c, zero, args[0])); iff(self, Z3_mk_lt(c, h, v), Z3_mk_lt(c, args[0], zero)); }
                    "atan" => { bnd(self, -pi / 2.0, pi / 2.0); iff(self, Z3_mk_lt(c, v, zero), Z3_mk_lt(c, args[0], zero)); iff(self, Z3_mk_lt(c, zero, v), Z3_mk_lt(c, zero, args[0])); }
                    "exp" => self.pside.push(self.keep(Z3_mk_lt(c, zero, v))),
                    _ => {}
                }
                v
            }
        } };
        self.keep(p);
        self.pvar.insert(a, p);
        Some(p)
    }
    fn solve(&mut self, asserts: &[P], tmo: u32, nlsat: bool) -> (c_int, P) {
        unsafe {
            let c = self.c;
            let s = if nlsat { let t = Z3_mk_tactic(c, c"qfnra-nlsat".as_ptr()); Z3_tactic_inc_ref(c, t); Z3_mk_solver_from_tactic(c, t) } else { Z3_mk_solver(c) };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, self.symb("timeout"), tmo);
            Z3_solver_set_params(c, s, p);
            for b in asserts { Z3_solver_assert(c, s, *b); }
            if std::env::var("SV_DUMP").is_ok() {
                let _ = std::fs::write(format!("/tmp/q{}{}.smt2", self.queries, if nlsat { "n" } else { "" }), format!("{}(check-sat)\n", CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy()));
            }
            (Z3_solver_check(c, s), s)
        }
    }
    /// Exact-real query with every comparison in polynomial normal form.
    fn check_poly(&mut self, x: &Ctx, key: &[E], cone: &[E], tmo: u32) -> Res {
        crate::poly::begin(x, key);
        let ast = std::mem::take(&mut self.ast);
        let side = std::mem::take(&mut self.side);
        self.pm = true;
        self.pure = true;
        self.pvar.clear();
        self.pside.clear();
        let mut bs: Vec<P> = key.iter().map(|e| self.boolean(x, *e)).collect();
        for e in cone { if let Some(sd) = self.side.get(e) { bs.extend(sd.iter().copied()); } }
        bs.extend(self.pside.iter().copied());
        for &e in cone { if x.node(e).op == Op::Sym { self.tr(x, e); } }
        let pure = self.pure && cone.iter().all(|e| !matches!(x.sort(*e), Sort::B(w) if w > 1) || x.cv(*e).is_some());
        let (mut r, mut s) = self.solve(&bs, if pure { tmo.min(3000) } else { tmo }, false);
        if r == 0 && pure { (r, s) = self.solve(&bs, tmo, true); }
        let syms: Vec<E> = cone.iter().copied().filter(|e| x.node(*e).op == Op::Sym).collect();
        let has_uf = cone.iter().any(|e| x.node(*e).op == Op::Uf);
        let out = unsafe { match r {
            1 => {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                let md = self.extract_model(x, &syms, m);
                Z3_model_dec_ref(self.c, m);
                Res::Sat(md)
            }
            -1 => Res::Unsat,
            _ => Res::Unknown,
        } };
        unsafe { Z3_solver_dec_ref(self.c, s); }
        self.pm = false;
        self.ast = ast;
        self.side = side;
        if let (Res::Sat(md), true) = (&out, has_uf) {
            // values of the uninterpreted applications for the replay: solve again with the inputs fixed
            let mut bs: Vec<P> = key.iter().map(|e| self.boolean(x, *e)).collect();
            for e in cone { if let Some(sd) = self.side.get(e) { bs.extend(sd.iter().copied()); } }
            for &e in &syms { let a = self.tr(x, e); let Some(&v) = md.v.get(&(x.node(e).k as u32)) else { continue }; let k = match x.sort(e) { Sort::B(w) => self.num(&v.to_string(), unsafe { Z3_mk_bv_sort(self.c, w as c_uint) }), _ => { let (n, d) = crate::rat::exact(f64::from_bits(v as u64)); self.num(&format!("{n}/{d}"), unsafe { Z3_mk_real_sort(self.c) }) } }; bs.push(unsafe { Z3_mk_eq(self.c, a, k) }); }
            let (r, s) = self.solve(&bs, 500, false);
            let mut o = None;
            if r == 1 { unsafe { let m = Z3_solver_get_model(self.c, s); Z3_model_inc_ref(self.c, m); o = Some(self.extract_model(x, cone, m)); Z3_model_dec_ref(self.c, m); } }
            unsafe { Z3_solver_dec_ref(self.c, s); }
            if let Some(m) = o { return Res::Sat(m); }
        }
        out
    }
    fn cone(&self, x: &Ctx, es: &[E]) -> Vec<E> {
        let mut seen: HashSet<E> = HashSet::default();
        let mut st: Vec<E> = es.to_vec();
        let mut out = vec![];
        while let Some(e) = st.pop() {
            if !seen.insert(e) { continue; }
            out.push(e);
            for a in x.node(e).a { if a != NE { st.push(a); } }
        }
        out
    }
    /// Decide satisfiability of the conjunction of 1-bit expressions.
    pub fn check(&mut self, x: &Ctx, es: &[E], want_model: bool) -> Res { self.check_t(x, es, want_model, self.timeout_ms) }
    pub fn check_t(&mut self, x: &Ctx, es: &[E], want_model: bool, tmo: u32) -> Res {
        let mut key: Vec<E> = es.to_vec();
        key.sort_unstable();
        key.dedup();
        if key.iter().any(|e| x.cv(*e) == Some(0)) { return Res::Unsat; }
        key.retain(|e| x.cv(*e).is_none());
        if key.is_empty() { return Res::Sat(Model::default()); }
        if let Some((r, m)) = self.cache.get(&key) {
            match r {
                0 => { self.cache_hits += 1; return Res::Unsat; }
                1 => if !want_model || m.is_some() { self.cache_hits += 1; return Res::Sat(m.clone().unwrap_or_default()); },
                _ => {}
            }
        }
        if Instant::now() > self.deadline { self.unknown += 1; return Res::Unknown; }
        let t0 = Instant::now();
        self.queries += 1;
        let cone = self.cone(x, &key);
        let bs: Vec<P> = key.iter().map(|e| self.boolean(x, *e)).collect();
        let two = self.real && cone.iter().any(|e| matches!(x.node(*e).op, Op::FEq | Op::FLt | Op::FLe));
        let tmo0 = if two { tmo.min(400) } else { tmo };
        let mut r = unsafe {
            let c = self.c;
            let s = Z3_mk_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, self.symb("timeout"), tmo0);
            Z3_solver_set_params(c, s, p);
            for b in bs { Z3_solver_assert(c, s, b); }
            for e in &cone { if let Some(sd) = self.side.get(e) { for a in sd { Z3_solver_assert(c, s, *a); } } }
            if std::env::var("SV_DUMP").is_ok() {
                let _ = std::fs::write(format!("/tmp/q{}.smt2", self.queries), format!("{}(check-sat)\n", CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy()));
            }
            let r = Z3_solver_check(c, s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let md = self.extract_model(x, &cone, m);
                    Z3_model_dec_ref(c, m);
                    Res::Sat(md)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(c, s);
            out
        };
        if two && matches!(r, Res::Unknown) { r = self.check_poly(x, &key, &cone, tmo); }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.slowest { self.slowest = dt; }
        if std::env::var("SV_TRACEQ").is_ok() && dt > 1.0 { eprintln!("slow query {} {:.1}s: {} constraints: {}", self.queries, dt, key.len(), key.iter().map(|e| x.show(*e, 4)).collect::<Vec<_>>().join("\n   ")); }
        match &r {
            Res::Sat(m) => { self.sat += 1; self.cache.insert(key, (1, Some(m.clone()))); }
            Res::Unsat => { self.unsat += 1; self.cache.insert(key, (0, None)); }
            Res::Unknown => { self.unknown += 1; }
        }
        r
    }
    unsafe fn eval_str(&self, m: P, a: P) -> String {
        let mut o: P = std::ptr::null_mut();
        if !Z3_model_eval(self.c, m, a, true, &mut o) { return "0".into(); }
        CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_string_lossy().into_owned()
    }
    unsafe fn eval_real(&self, m: P, a: P) -> f64 {
        let mut o: P = std::ptr::null_mut();
        if !Z3_model_eval(self.c, m, a, true, &mut o) { return 0.0; }
        if Z3_get_ast_kind(self.c, o) != 0 && !Z3_is_algebraic_number(self.c, o) { return 0.0; }
        let s = CStr::from_ptr(Z3_get_numeral_decimal_string(self.c, o, 25)).to_string_lossy().into_owned();
        s.trim_end_matches('?').parse().unwrap_or(0.0)
    }
    unsafe fn extract_model(&self, x: &Ctx, cone: &[E], m: P) -> Model {
        let mut md = Model::default();
        let bits = |e: E| -> u128 {
            let a = self.ast[&e];
            match x.sort(e) {
                Sort::B(_) => self.eval_str(m, a).parse().unwrap_or(0),
                _ if self.real => self.eval_real(m, a).to_bits() as u128,
                _ => self.eval_str(m, Z3_mk_fpa_to_ieee_bv(self.c, a)).parse().unwrap_or(0),
            }
        };
        for &e in cone {
            let n = x.node(e);
            if n.op == Op::Sym { md.v.insert(n.k as u32, bits(e)); }
            if n.op == Op::Uf {
                let mut k = [0u64; 3];
                for i in 0..3 { if n.a[i] != NE { k[i] = match x.cv(n.a[i]) { Some(v) => v as u64, None => bits(n.a[i]) as u64 }; } }
                md.uf.insert((n.k as u32, k), bits(e) as u64);
                md.has_uf = true;
            }
        }
        md
    }
}
/// "num/den" of the real a finite f64 literal stands for
pub fn f64_rational(v: f64) -> String { let (n, d) = crate::rat::snap(v); if d == num_bigint::BigInt::from(1) { n.to_string() } else { format!("{n}/{d}") } }
