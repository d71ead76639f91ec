//! Symbolic executor over the parsed LLVM IR.
use crate::expr::*;
use crate::ll::{self, *};
use crate::z3::{Res, Z3};
use rustc_hash::{FxHashMap as HashMap, FxHashSet as HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    I(u16, u128),
    F64(u64),
    F32(u32),
    E(E),
    A(Rc<Vec<V>>),
    Undef,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<(E, u8)>>,
    pub freed: bool,
    pub ro: bool,
}

const HEAP0: u32 = 0x0100_0000;

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub body: Rc<Body>,
    pub blk: u32,
    pub ip: usize,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
    pub ret: u32,
    pub ret_blk: Option<u32>, // for invoke
}

#[derive(Clone)]
pub struct State {
    pub fr: Vec<Frame>,
    pub mem: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub globals: HashMap<u32, Rc<Obj>>,
    pub pc: Vec<E>,
    pub pcset: HashSet<E>,
    pub model: Option<Model>,
    pub inputs: Vec<(u32, E)>,
    pub reach: Vec<u32>,
    pub outs: Vec<V>,
    pub panic_ok: bool,
    pub stub_fmt: bool,
    pub depth_forks: u32,
    pub steps: u64,
    pub ufcalls: Vec<(u32, Vec<E>, E)>,
}

pub enum Stop {
    /// path killed silently (assumption false)
    Kill,
    /// path ended with a panic / abort
    Panic(String),
    /// engine cannot proceed
    Err(String),
    Done,
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: u32,
    pub desc: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(u32, String, u128)>,
    pub ufs: Vec<(u32, Vec<u64>, u64)>,
}
#[derive(Clone, Debug)]
pub struct Sample {
    pub inputs: Vec<(u32, String, u128)>,
    pub ufs: Vec<(u32, Vec<u64>, u64)>,
    pub reach: Vec<u32>,
    pub outs: Vec<String>,
    pub end: String,
}

pub struct Limits {
    pub wall: f64,
    pub max_paths: u64,
    pub max_steps: u64,
    pub max_viol: usize,
    pub check_ms: u32,
    pub branch_ms: u32,
}

pub struct Ex<'m> {
    pub m: &'m Module,
    pub x: Ctx,
    pub z: Z3,
    pub work: Vec<State>,
    pub gcache: HashMap<u32, Rc<Obj>>,
    pub lim: Limits,
    pub t0: Instant,
    pub paths: u64,
    pub killed: u64,
    pub panics: u64,
    pub forks: u64,
    pub steps: u64,
    pub errors: Vec<String>,
    pub viol: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub checks: HashMap<u32, (u64, u64)>, // id -> (times evaluated, decided by solver)
    pub reached: HashMap<u32, u64>,
    pub funcs: HashMap<u32, u64>,
    pub fclass: HashMap<u32, FClass>,
    pub divassume: u64,
    pub unknown_branches: u64,
    pub inconclusive: Vec<String>,
    pub poly: u64,
    pub regions: HashMap<(u32, u32), Option<u32>>,
    pub merge: bool,
    pub merges: u64,
    pub recent: Vec<Model>,
    pub model_hits: u64,
    pub known_viol: HashSet<(String, u32, String)>,
    pub forksites: HashMap<(u32, u32), u64>,
    pub max_samples: usize,
    pub bounds: std::collections::BTreeSet<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FClass { Normal, Panic, FmtInner, Ext }

fn err<T>(s: impl Into<String>) -> R<T> { Err(Stop::Err(s.into())) }

impl<'m> Ex<'m> {
    pub fn new(m: &'m Module, real: bool, lim: Limits) -> Self {
        let mut x = Ctx::new();
        x.real = real;
        let z = Z3::new(real, lim.branch_ms);
        Ex { m, x, z, work: vec![], gcache: HashMap::default(), lim, t0: Instant::now(), paths: 0, killed: 0, panics: 0, forks: 0, steps: 0, errors: vec![], viol: vec![], samples: vec![], checks: HashMap::default(), reached: HashMap::default(), funcs: HashMap::default(), fclass: HashMap::default(), divassume: 0, unknown_branches: 0, inconclusive: vec![], poly: 0, regions: HashMap::default(), merge: std::env::var("SV_NOMERGE").is_err(), merges: 0, recent: vec![], model_hits: 0, known_viol: HashSet::default(), forksites: HashMap::default(), max_samples: 6, bounds: Default::default() }
    }
    fn ty(&self, t: TyId) -> Ty { self.m.types.borrow().get(t).clone() }
    fn tsize(&self, t: TyId) -> u64 { self.m.types.borrow().size(t) }

    // ------------------------------------------------------------ values
    pub fn e(&mut self, v: &V, w: u16) -> E {
        match v {
            V::I(w, x) => self.x.c(*w, *x),
            V::F64(b) => self.x.constant(Sort::F64, *b as u128),
            V::F32(b) => self.x.constant(Sort::F32, *b as u128),
            V::E(e) => *e,
            V::Undef => self.x.c(w, 0),
            V::A(_) => panic!("agg as scalar"),
        }
    }
    pub fn v(&self, e: E) -> V {
        let n = self.x.node(e);
        if n.op == Op::Const {
            match n.sort { Sort::B(w) => V::I(w, n.k), Sort::F64 => V::F64(n.k as u64), Sort::F32 => V::F32(n.k as u32) }
        } else { V::E(e) }
    }
    fn zero(&self, t: TyId) -> V {
        match self.ty(t) {
            Ty::Int(w) => V::I(w, 0),
            Ty::F32 => V::F32(0),
            Ty::F64 => V::F64(0),
            Ty::Ptr => V::I(64, 0),
            Ty::OtherFp(w) => V::I(w, 0),
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                let n = self.m.types.borrow().nelem(t);
                V::A(Rc::new((0..n).map(|i| { let et = self.m.types.borrow().elem(t, i); self.zero(et) }).collect()))
            }
            _ => V::Undef,
        }
    }
    fn sym_addr(&self, s: u32, off: i64) -> u64 {
        let (s, o) = self.m.resolve(s);
        (((s + 1) as u64) << 32).wrapping_add((off + o) as u64)
    }
    fn cval(&self, c: &C) -> V {
        match c {
            C::Int(w, v) => V::I(*w, *v),
            C::F64(b) => V::F64(*b),
            C::F32(b) => V::F32(*b),
            C::Agg(v) => V::A(Rc::new(v.iter().map(|c| self.cval(c)).collect())),
            C::Zero(t) | C::Undef(t) => self.zero(*t),
            C::Sym(s, o) => V::I(64, self.sym_addr(*s, *o) as u128),
            C::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::I(8, *x as u128)).collect())),
        }
    }
    fn opd(&self, st: &State, o: &Opd) -> V {
        match o {
            Opd::Reg(r) => st.fr.last().unwrap().regs[*r as usize].clone(),
            Opd::C(c) => self.cval(c),
        }
    }

    // ------------------------------------------------------------ memory
    pub fn alloc(&self, st: &mut State, size: u64) -> u64 {
        let o = Rc::new(Obj { data: vec![0; size as usize], sym: None, freed: false, ro: false });
        if let Some(i) = st.free.pop() { st.mem[i as usize] = Some(o); return ((HEAP0 + i) as u64) << 32; }
        st.mem.push(Some(o));
        ((HEAP0 + st.mem.len() as u32 - 1) as u64) << 32
    }
    fn obj(&mut self, st: &State, id: u32) -> R<Rc<Obj>> {
        if id >= HEAP0 {
            match st.mem.get((id - HEAP0) as usize) {
                Some(Some(o)) if !o.freed => Ok(o.clone()),
                _ => err(format!("access to dead object {id:#x}")),
            }
        } else if id == 0 { err("null dereference") } else {
            if let Some(o) = st.globals.get(&id) { return Ok(o.clone()); }
            self.gobj(id)
        }
    }
    fn gobj(&mut self, id: u32) -> R<Rc<Obj>> {
        if let Some(o) = self.gcache.get(&id) { return Ok(o.clone()); }
        let s = id - 1;
        if s as usize >= self.m.syms.len() { return err("wild pointer"); }
        let Some(init) = self.m.global_init(s) else { return err(format!("deref of function {}", self.m.syms[s as usize].name)) };
        let size = self.tsize(init.0);
        let mut o = Obj { data: vec![0; size as usize], sym: None, freed: false, ro: false };
        self.fill(&mut o.data, 0, init.0, &init.1);
        let o = Rc::new(o);
        self.gcache.insert(id, o.clone());
        Ok(o)
    }
    fn fill(&self, d: &mut [u8], off: usize, t: TyId, c: &C) {
        match c {
            C::Int(w, v) => { let n = (*w as usize).div_ceil(8); d[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]); }
            C::F64(b) => d[off..off + 8].copy_from_slice(&b.to_le_bytes()),
            C::F32(b) => d[off..off + 4].copy_from_slice(&b.to_le_bytes()),
            C::Bytes(b) => d[off..off + b.len()].copy_from_slice(b),
            C::Zero(_) | C::Undef(_) => {}
            C::Sym(s, o) => d[off..off + 8].copy_from_slice(&self.sym_addr(*s, *o).to_le_bytes()),
            C::Agg(v) => {
                for (i, c) in v.iter().enumerate() {
                    let (fo, et) = { let ts = self.m.types.borrow(); (ts.field_off(t, i), ts.elem(t, i)) };
                    self.fill(d, off + fo as usize, et, c);
                }
            }
        }
    }
    fn objmut<'a>(&mut self, st: &'a mut State, id: u32) -> R<&'a mut Obj> {
        if id >= HEAP0 {
            match st.mem.get_mut((id - HEAP0) as usize) {
                Some(Some(o)) if !o.freed => Ok(Rc::make_mut(o)),
                _ => err(format!("write to dead object {id:#x}")),
            }
        } else {
            if !st.globals.contains_key(&id) { let o = self.gobj(id)?; st.globals.insert(id, o); }
            Ok(Rc::make_mut(st.globals.get_mut(&id).unwrap()))
        }
    }
    /// Read `n` bytes as a bit-vector or a float expression.
    fn load_bytes(&mut self, o: &Obj, off: usize, n: usize) -> R<V> {
        if off + n > o.data.len() { return err(format!("out-of-bounds read off {off} n {n} size {}", o.data.len())); }
        let conc = match &o.sym { None => true, Some(s) => s[off..off + n].iter().all(|b| b.0 == NE) };
        if conc {
            let mut v = 0u128;
            for i in (0..n).rev() { v = v << 8 | o.data[off + i] as u128; }
            return Ok(V::I(n as u16 * 8, v));
        }
        let s = o.sym.as_ref().unwrap();
        let (e0, i0) = s[off];
        if e0 != NE && i0 == 0 && self.x.w(e0) as usize == n * 8 && (0..n).all(|k| s[off + k] == (e0, k as u8)) {
            return Ok(V::E(e0));
        }
        // assemble pieces, merging runs
        let mut acc: Option<E> = None;
        let mut k = 0;
        while k < n {
            let (e, i) = s[off + k];
            let mut run = 1;
            let piece = if e == NE {
                let mut v = o.data[off + k] as u128;
                while k + run < n && s[off + k + run].0 == NE { v |= (o.data[off + k + run] as u128) << (8 * run); run += 1; }
                self.x.c(run as u16 * 8, v)
            } else {
                while k + run < n && s[off + k + run] == (e, i + run as u8) { run += 1; }
                let b = self.bits(e)?;
                self.x.extract(b, i as u16 * 8, run as u16 * 8)
            };
            acc = Some(match acc { None => piece, Some(a) => self.x.concat(piece, a) });
            k += run;
        }
        Ok(self.v(acc.unwrap()))
    }
    /// bit-vector view
    fn bits(&mut self, e: E) -> R<E> {
        match self.x.sort(e) { Sort::B(_) => Ok(e), _ => Ok(self.x.f_bits(e)) }
    }
    fn load_at(&mut self, st: &State, a: u64, t: TyId) -> R<V> {
        let o = self.obj(st, (a >> 32) as u32)?;
        self.load_obj(&o, (a & 0xffff_ffff) as usize, t)
    }
    fn load_obj(&mut self, o: &Obj, off: usize, t: TyId) -> R<V> {
        match self.ty(t) {
            Ty::Int(w) => {
                let n = (w as usize).div_ceil(8);
                let v = self.load_bytes(o, off, n)?;
                Ok(match v {
                    V::I(_, x) => V::I(w, x & mask(w)),
                    V::E(e) => { let b = self.bits(e)?; let r = if self.x.w(b) != w { self.x.extract(b, 0, w) } else { b }; self.v(r) }
                    v => v,
                })
            }
            Ty::Ptr => { match self.load_bytes(o, off, 8)? { V::E(e) => { let b = self.bits(e)?; Ok(self.v(b)) } v => Ok(v) } }
            Ty::F64 => match self.load_bytes(o, off, 8)? {
                V::I(_, x) => Ok(V::F64(x as u64)),
                V::E(e) => { if self.x.sort(e) == Sort::F64 { Ok(V::E(e)) } else { let r = self.x.f_from_bits(e, Sort::F64); Ok(self.v(r)) } }
                v => Ok(v),
            },
            Ty::F32 => match self.load_bytes(o, off, 4)? {
                V::I(_, x) => Ok(V::F32(x as u32)),
                V::E(e) => { if self.x.sort(e) == Sort::F32 { Ok(V::E(e)) } else { let r = self.x.f_from_bits(e, Sort::F32); Ok(self.v(r)) } }
                v => Ok(v),
            },
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                if let Ty::Vec(n, et) = self.ty(t) { if self.ty(et) == Ty::Int(1) {
                    let nb = (n as usize).div_ceil(8);
                    let v = self.load_bytes(o, off, nb)?;
                    let e = self.e(&v, nb as u16 * 8);
                    return Ok(V::A(Rc::new((0..n).map(|i| { let b = self.x.extract(e, i as u16, 1); self.v(b) }).collect())));
                } }
                let n = self.m.types.borrow().nelem(t);
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    let (fo, et) = { let ts = self.m.types.borrow(); (ts.field_off(t, i), ts.elem(t, i)) };
                    v.push(self.load_obj(o, off + fo as usize, et)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            t => err(format!("load of {t:?}")),
        }
    }
    fn store_at(&mut self, st: &mut State, a: u64, t: TyId, v: &V) -> R<()> {
        let ty = self.ty(t);
        match (&ty, v) {
            (Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..), V::A(vs)) => {
                if let Ty::Vec(n, et) = ty { if self.ty(et) == Ty::Int(1) {
                    let mut acc = self.x.c(1, 0);
                    for i in 0..n as usize { let b = self.e(&vs[i], 1); acc = if i == 0 { b } else { self.x.concat(b, acc) }; }
                    let nb = (n as u16).div_ceil(8);
                    let z = self.x.zext(acc, nb * 8);
                    let vv = self.v(z);
                    let it = self.m.types.borrow_mut().mk(Ty::Int(nb * 8));
                    return self.store_at(st, a, it, &vv);
                } }
                for i in 0..vs.len() {
                    let (fo, et) = { let ts = self.m.types.borrow(); (ts.field_off(t, i), ts.elem(t, i)) };
                    self.store_at(st, a + fo, et, &vs[i])?;
                }
                return Ok(());
            }
            _ => {}
        }
        let off = (a & 0xffff_ffff) as usize;
        let n = match ty { Ty::Int(w) => (w as usize).div_ceil(8), Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8, _ => return if matches!(v, V::Undef) { Ok(()) } else { err("store type") } };
        let v = match (&ty, v) {
            (Ty::Int(w), V::E(e)) if w % 8 != 0 => { let z = self.x.zext(*e, n as u16 * 8); V::E(z) }
            _ => v.clone(),
        };
        let o = self.objmut(st, (a >> 32) as u32)?;
        if off + n > o.data.len() { return err(format!("out-of-bounds write off {off} n {n} size {}", o.data.len())); }
        match v {
            V::I(_, x) => { o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]); clear(o, off, n); }
            V::F64(x) => { o.data[off..off + n].copy_from_slice(&x.to_le_bytes()); clear(o, off, n); }
            V::F32(x) => { o.data[off..off + n].copy_from_slice(&x.to_le_bytes()); clear(o, off, n); }
            V::E(e) => {
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![(NE, 0); len]);
                for k in 0..n { s[off + k] = (e, k as u8); }
            }
            V::Undef => {}
            V::A(_) => return err("store agg"),
        }
        Ok(())
    }
    fn memcopy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let so = self.obj(st, (s >> 32) as u32)?;
        let (sf, df, n) = ((s & 0xffff_ffff) as usize, (d & 0xffff_ffff) as usize, n as usize);
        if sf + n > so.data.len() { return err("memcpy oob read"); }
        let o = self.objmut(st, (d >> 32) as u32)?;
        if df + n > o.data.len() { return err("memcpy oob write"); }
        let data = so.data[sf..sf + n].to_vec();
        let sy = so.sym.as_ref().map(|s| s[sf..sf + n].to_vec());
        drop(so);
        o.data[df..df + n].copy_from_slice(&data);
        match sy {
            Some(v) if v.iter().any(|b| b.0 != NE) => { let len = o.data.len(); let s = o.sym.get_or_insert_with(|| vec![(NE, 0); len]); s[df..df + n].copy_from_slice(&v); }
            _ => clear(o, df, n),
        }
        Ok(())
    }
    pub fn read_conc(&mut self, st: &State, a: u64, n: u64) -> Option<Vec<u8>> {
        let o = self.obj(st, (a >> 32) as u32).ok()?;
        let f = (a & 0xffff_ffff) as usize;
        if f + n as usize > o.data.len() { return None; }
        Some(o.data[f..f + n as usize].to_vec())
    }

    // ------------------------------------------------------------ path condition
    fn slice(&self, st: &State, q: &[E]) -> Vec<E> {
        // constraints transitively sharing symbols with q
        let mut deps: HashSet<u32> = HashSet::default();
        for e in q { deps.extend(self.x.depset(*e).iter().copied()); }
        let mut used = vec![false; st.pc.len()];
        let mut out: Vec<E> = q.to_vec();
        loop {
            let mut ch = false;
            for (i, c) in st.pc.iter().enumerate() {
                if used[i] { continue; }
                let d = self.x.depset(*c);
                if d.iter().any(|s| deps.contains(s)) {
                    used[i] = true;
                    ch = true;
                    deps.extend(d.iter().copied());
                    out.push(*c);
                }
            }
            if !ch { break; }
        }
        out
    }
    fn query(&mut self, st: &State, c: E, ms: u32) -> Res {
        let q = self.slice(st, &[c]);
        if self.x.real {
            // linear / monomial abstraction first: an unsat answer there is sound
            if crate::poly::refute(&mut self.x, &mut self.z, &q, false) { self.poly += 1; return Res::Unsat; }
        } else {
            // a recent model may already satisfy the query
            for i in (0..self.recent.len()).rev() {
                let mut memo = HashMap::default();
                let m = &self.recent[i];
                if q.iter().all(|c| self.x.eval(*c, m, &mut memo) == Some(1)) {
                    self.model_hits += 1;
                    // keep only the symbols of this slice: the rest of the path keeps its own values
                    let mut deps: HashSet<u32> = HashSet::default();
                    for e in &q { deps.extend(self.x.depset(*e).iter().copied()); }
                    let mut r = Model::default();
                    for d in &deps { if d & 0x8000_0000 == 0 { r.v.insert(*d, m.v.get(d).copied().unwrap_or(0)); } }
                    for (k, v) in &m.uf { if deps.contains(&(0x8000_0000 | k.0)) { r.uf.insert(*k, *v); r.has_uf = true; } }
                    return Res::Sat(r);
                }
            }
        }
        let r = self.z.check_t(&self.x, &q, true, ms);
        if let Res::Sat(m) = &r { if !self.x.real { let f = self.merged(st, m.clone()); if self.recent.len() >= 12 { self.recent.remove(0); } self.recent.push(f); } }
        r
    }
    fn merged(&self, st: &State, m: Model) -> Model {
        match &st.model {
            Some(o) => { let mut r = o.clone(); for (k, v) in m.v { r.v.insert(k, v); } for (k, v) in m.uf { r.uf.insert(k, v); } r.has_uf |= m.has_uf; r }
            None => m,
        }
    }
    fn eval(&self, st: &State, e: E) -> Option<u128> {
        let m = st.model.as_ref()?;
        if self.x.real && matches!(self.x.sort(e), Sort::B(1)) { /* approximate */ }
        let mut memo = HashMap::default();
        self.x.eval(e, m, &mut memo)
    }
    fn add_pc(&mut self, st: &mut State, c: E) {
        if self.x.cv(c) == Some(1) { return; }
        // split conjunctions
        let n = *self.x.node(c);
        if n.op == Op::And && n.sort == Sort::B(1) { self.add_pc(st, n.a[0]); self.add_pc(st, n.a[1]); return; }
        if st.pcset.insert(c) { st.pc.push(c); }
    }
    /// Is `c` possible / is `!c` possible.  Returns models.
    fn both(&mut self, st: &mut State, c: E) -> R<(Option<Option<Model>>, Option<Option<Model>>)> {
        if let Some(k) = self.x.cv(c) { return Ok(if k == 1 { (Some(st.model.clone()), None) } else { (None, Some(st.model.clone())) }); }
        let nc = self.x.not(c);
        if st.pcset.contains(&c) { return Ok((Some(st.model.clone()), None)); }
        if st.pcset.contains(&nc) { return Ok((None, Some(st.model.clone()))); }
        let ev = self.eval(st, c);
        let bm = self.lim.branch_ms;
        let mut ask = |me: &mut Self, st: &State, q: E| -> Option<Option<Model>> {
            match me.query(st, q, bm) {
                Res::Sat(m) => Some(Some(me.merged(st, m))),
                Res::Unsat => None,
                Res::Unknown => { me.unknown_branches += 1; if std::env::var("SV_TRACEQ").is_ok() { eprintln!("UNKNOWN branch {} in {}", me.x.show(q, 6), me.loc(st)); } Some(None) }
            }
        };
        Ok(match ev {
            Some(1) => { let f = ask(self, st, nc); (Some(st.model.clone()), f) }
            Some(_) => { let t = ask(self, st, c); (t, Some(st.model.clone())) }
            None => { let t = ask(self, st, c); if t.is_none() { (None, Some(st.model.clone())) } else { let f = ask(self, st, nc); (t, f) } }
        })
    }
    fn fork(&mut self, st: &State, c: E, m: Option<Model>) -> State {
        let mut s = st.clone();
        s.model = m;
        self.add_pc(&mut s, c);
        s.depth_forks += 1;
        self.forks += 1;
        let f = st.fr.last().unwrap();
        *self.forksites.entry((f.f, f.blk)).or_insert(0) += 1;
        s
    }
    /// Fork so that `e` has a single value on the current path; other values re-execute the instruction.
    fn conc(&mut self, st: &mut State, v: &V) -> R<u128> {
        let e = match v { V::I(_, x) => return Ok(*x), V::F64(b) => return Ok(*b as u128), V::Undef => return Ok(0), V::E(e) => *e, _ => return err("conc") };
        if !matches!(self.x.sort(e), Sort::B(_)) { return err("concretize float"); }
        let w = self.x.w(e);
        if self.x.real { if let Some(v) = self.conc_real(st, e)? { return Ok(v); } }
        // already pinned?
        let val = match self.eval(st, e) { Some(v) => v, None => {
            // solve
            let t = self.x.sym("conc_tmp".into(), Sort::B(w));
            let q = self.x.eq(t, e);
            match self.query(st, q, self.lim.branch_ms) { Res::Sat(m) => { let md = self.merged(st, m); st.model = Some(md); match self.eval(st, e) { Some(v) => v, None => return err("concretize: no value") } } _ => return err("concretize: unknown") }
        } };
        let k = self.x.c(w, val);
        let c = self.x.eq(e, k);
        let nc = self.x.not(c);
        if !st.pcset.contains(&c) {
            match self.query(st, nc, self.lim.branch_ms) {
                Res::Sat(m) => { let md = self.merged(st, m); let s = self.fork(st, nc, Some(md)); self.work.push(s); }
                Res::Unsat => {}
                Res::Unknown => { self.unknown_branches += 1; let s = self.fork(st, nc, None); self.work.push(s); }
            }
            self.add_pc(st, c);
        }
        Ok(val)
    }
    /// Value of a bit-vector built from comparisons, deciding each comparison that matters.
    fn conc_real(&mut self, st: &mut State, e: E) -> R<Option<u128>> {
        if let Some(v) = self.x.cv(e) { return Ok(Some(v)); }
        let n = *self.x.node(e);
        match n.op {
            Op::FEq | Op::FLt | Op::FLe => Ok(Some(self.decide(st, e)? as u128)),
            Op::Ite => { match self.conc_real(st, n.a[0])? { Some(1) => self.conc_real(st, n.a[1]), Some(_) => self.conc_real(st, n.a[2]), None => Ok(None) } }
            Op::Sym | Op::Uf | Op::FToSI | Op::FToUI | Op::FBits | Op::FNan => Ok(None),
            _ => {
                let mut memo = HashMap::default();
                for c in n.a { if c != NE {
                    if !matches!(self.x.sort(c), Sort::B(_)) { return Ok(None); }
                    match self.conc_real(st, c)? { Some(v) => { memo.insert(c, Some(v)); } None => return Ok(None) }
                } }
                Ok(self.x.eval(e, &Model::default(), &mut memo))
            }
        }
    }
    /// Decide a boolean on this path, forking (re-executing) the other side.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.x.cv(c) { return Ok(k == 1); }
        let (t, f) = self.both(st, c)?;
        let nc = self.x.not(c);
        match (t, f) {
            (Some(mt), Some(mf)) => {
                let s = self.fork(st, nc, mf);
                self.work.push(s);
                st.model = mt;
                self.add_pc(st, c);
                Ok(true)
            }
            (Some(m), None) => { st.model = m; self.add_pc(st, c); Ok(true) }
            (None, Some(m)) => { st.model = m; self.add_pc(st, nc); Ok(false) }
            (None, None) => Err(Stop::Kill),
        }
    }
    fn loc(&self, st: &State) -> String {
        let f = st.fr.last().unwrap();
        format!("{}#{}", self.fname(f.f), f.blk)
    }
    pub fn fname(&self, f: u32) -> String { format!("{:#}", rustc_demangle::demangle(&self.m.syms[f as usize].name)) }

    /// Resolve a possibly symbolic address for an access of n bytes.
    /// Returns object id and offset expression (None = concrete).
    fn addr(&mut self, st: &mut State, v: &V, n: u64) -> R<(u64, Option<E>)> {
        let e = match v { V::I(_, a) => return Ok((*a as u64, None)), V::Undef => return Ok((0, None)), V::E(e) => *e, _ => return err("addr") };
        // ite of pointers: decide the condition
        let nd = *self.x.node(e);
        if nd.op == Op::Ite {
            let b = self.decide(st, nd.a[0])?;
            let v = self.v(if b { nd.a[1] } else { nd.a[2] });
            return self.addr(st, &v, n);
        }
        if nd.op == Op::Add { let a0 = *self.x.node(nd.a[0]); if a0.op == Op::Ite && self.x.cv(a0.a[1]).map(|v| v >> 32 != 0).unwrap_or(false) {
            let b = self.decide(st, a0.a[0])?;
            let s = self.x.bin(Op::Add, if b { a0.a[1] } else { a0.a[2] }, nd.a[1]);
            let v = self.v(s);
            return self.addr(st, &v, n);
        } }
        let val = match self.eval(st, e) { Some(v) => v as u64, None => { let c = self.conc(st, v)?; return Ok((c as u64, None)); } };
        let id = (val >> 32) as u32;
        let o = match self.obj(st, id) { Ok(o) => o, Err(_) => { let c = self.conc(st, v)?; return Ok((c as u64, None)); } };
        let base = self.x.c(64, (id as u128) << 32);
        let off = self.x.bin(Op::Sub, e, base);
        if n as usize > o.data.len() { let c = self.conc(st, v)?; return Ok((c as u64, None)); }
        let lim = self.x.c(64, (o.data.len() as u64 - n) as u128);
        let inb = self.x.bin(Op::Ule, off, lim);
        if !self.decide(st, inb)? { let c = self.conc(st, v)?; return Ok((c as u64, None)); }
        Ok(((id as u64) << 32, Some(off)))
    }
    fn cands(&mut self, st: &State, off: E, max: u64) -> R<Vec<u64>> {
        // stride from known low zero bits / constant low part
        let mut lowk = 0u16;
        let mut lowv = 0u64;
        for k in 1..=6u16 { let x = self.x.extract(off, 0, k); match self.x.cv(x) { Some(v) => { lowk = k; lowv = v as u64; } None => break } }
        let stride = 1u64 << lowk;
        let hi = self.umax(off).min(max as u128) as u64;
        let mut v = vec![];
        let mut o = lowv;
        while o <= hi { v.push(o); o += stride; if v.len() > 4096 { return err("symbolic index over too large an object"); } }
        if v.len() > 24 {
            // prune with a few solver bounds
            let (mut a, mut b) = (0usize, v.len() - 1);
            while a < b {
                let mid = (a + b) / 2;
                let k = self.x.c(64, v[mid] as u128);
                let q = self.x.bin(Op::Ult, k, off);
                match self.query(st, q, self.lim.branch_ms) { Res::Unsat => b = mid, _ => a = mid + 1 }
            }
            v.truncate(a + 1);
        }
        Ok(v)
    }
    fn umax(&self, e: E) -> u128 { self.x.range(e).1 }
    fn load(&mut self, st: &mut State, p: &V, t: TyId) -> R<V> {
        let n = self.tsize(t);
        let (a, off) = self.addr(st, p, n)?;
        let Some(off) = off else { return self.load_at(st, a, t) };
        let o = self.obj(st, (a >> 32) as u32)?;
        let cs = self.cands(st, off, o.data.len() as u64 - n)?;
        // scalar types only; aggregates by concretisation
        if matches!(self.ty(t), Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..)) { let c = self.conc(st, p)?; return self.load_at(st, c as u64, t); }
        let mut acc: Option<E> = None;
        let mut items: Vec<(u64, E)> = vec![];
        for c in cs {
            let v = match self.load_obj(&o, c as usize, t) { Ok(v) => v, Err(e) => return Err(e) };
            let w = (n * 8) as u16;
            items.push((c, self.e(&v, w)));
        }
        for (c, v) in items.into_iter().rev() {
            acc = Some(match acc { None => v, Some(a) => { if a == v { a } else { let k = self.x.c(64, c as u128); let q = self.x.eq(off, k); self.x.ite(q, v, a) } } });
        }
        Ok(self.v(acc.unwrap()))
    }
    fn store(&mut self, st: &mut State, p: &V, t: TyId, v: &V) -> R<()> {
        let n = self.tsize(t);
        let (a, off) = self.addr(st, p, n)?;
        let Some(off) = off else { return self.store_at(st, a, t, v) };
        let o = self.obj(st, (a >> 32) as u32)?;
        let cs = self.cands(st, off, o.data.len() as u64 - n)?;
        if cs.len() > 64 || matches!(self.ty(t), Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..)) { let c = self.conc(st, p)?; return self.store_at(st, c as u64, t, v); }
        let nv = self.e(v, (n * 8) as u16);
        for c in cs {
            let old = self.load_obj(&o, c as usize, t)?;
            let oe = self.e(&old, (n * 8) as u16);
            let k = self.x.c(64, c as u128);
            let q = self.x.eq(off, k);
            let r = self.x.ite(q, nv, oe);
            let rv = self.v(r);
            self.store_at(st, a + c, t, &rv)?;
        }
        Ok(())
    }

    // ------------------------------------------------------------ running
    pub fn run(&mut self, entry: &str) {
        let Some(&f) = self.m.by_name.get(entry) else { self.errors.push(format!("entry {entry} not found")); return; };
        let body = self.m.body(f).unwrap();
        let nregs = body.nregs as usize;
        let st = State {
            fr: vec![Frame { f, body, blk: 0, ip: 0, regs: vec![V::Undef; nregs], allocas: vec![], ret: NOREG, ret_blk: None }],
            mem: vec![], free: vec![], globals: HashMap::default(), pc: vec![], pcset: HashSet::default(), model: Some(Model::default()), inputs: vec![], reach: vec![], outs: vec![], panic_ok: false, stub_fmt: true, depth_forks: 0, steps: 0, ufcalls: vec![],
        };
        self.work.push(st);
        self.t0 = Instant::now();
        self.z.deadline = self.t0 + std::time::Duration::from_secs_f64(self.lim.wall);
        while let Some(mut st) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.lim.wall { self.errors.push(format!("wall-clock bound reached with {} paths pending", self.work.len() + 1)); break; }
            if self.paths + self.panics > self.lim.max_paths { self.errors.push("path bound reached".into()); break; }
            if self.viol.len() >= self.lim.max_viol { break; }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.path(&mut st)));
            match r {
                Ok(Stop::Done) => { self.paths += 1; self.sample(&st, "ok"); }
                Ok(Stop::Kill) => { self.killed += 1; }
                Ok(Stop::Panic(p)) => {
                    self.panics += 1;
                    if st.panic_ok { self.sample(&st, "panic"); } else { self.violation(&st, None, "panic", 0, &p); }
                }
                Ok(Stop::Err(e)) => { let l = self.loc(&st); let stk = self.stack(&st); self.errors.push(format!("{e} at {l} [{}]", stk.join(" < "))); if self.errors.len() > 20 { break; } }
                Err(e) => {
                    let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    let l = self.loc(&st);
                    self.errors.push(format!("engine: {s} at {l}"));
                    if self.errors.len() > 20 { break; }
                }
            }
        }
    }
    pub fn stack(&self, st: &State) -> Vec<String> { st.fr.iter().rev().take(12).map(|f| self.fname(f.f)).collect() }
    fn full_model(&mut self, st: &State, extra: Option<E>, ms: u32) -> Option<Model> {
        // model of the entire path condition
        let mut m = Model::default();
        if let (Some(md), None) = (&st.model, extra) {
            if !self.x.real {
                let mut memo = HashMap::default();
                if st.pc.iter().all(|c| self.x.eval(*c, md, &mut memo) == Some(1)) { return Some(md.clone()); }
            }
        }
        let mut q = st.pc.clone();
        q.extend(extra);
        // solve independent components separately
        let mut comps: Vec<(HashSet<u32>, Vec<E>)> = vec![];
        for c in q {
            let d: HashSet<u32> = self.x.depset(c).iter().copied().collect();
            let mut nd = d;
            let mut nv = vec![c];
            let mut rest = vec![];
            for (cd, cv) in comps { if cd.iter().any(|s| nd.contains(s)) { nd.extend(cd); nv.extend(cv); } else { rest.push((cd, cv)); } }
            rest.push((nd, nv));
            comps = rest;
        }
        for (_, c) in comps {
            match self.z.check_t(&self.x, &c, true, ms) {
                Res::Sat(md) => { for (k, v) in md.v { m.v.insert(k, v); } for (k, v) in md.uf { m.uf.insert(k, v); } }
                Res::Unsat => return None,
                Res::Unknown => return None,
            }
        }
        Some(m)
    }
    fn inputs(&self, st: &State, m: &Model) -> (Vec<(u32, String, u128)>, Vec<(u32, Vec<u64>, u64)>) {
        let mut iv = vec![];
        for (tag, e) in &st.inputs {
            let n = self.x.node(*e);
            let (k, v) = match n.op {
                Op::Sym => (n.k as u32, m.v.get(&(n.k as u32)).copied().unwrap_or(0)),
                Op::FFromBits => { let s = self.x.node(n.a[0]); (s.k as u32, m.v.get(&(s.k as u32)).copied().unwrap_or(0)) }
                _ => (0, 0),
            };
            iv.push((*tag, self.x.syms[k as usize].name.clone(), v));
        }
        let mut uv = vec![];
        for (tag, args, r) in &st.ufcalls {
            let mut memo = HashMap::default();
            let a: Vec<u64> = args.iter().map(|e| self.x.eval(*e, m, &mut memo).unwrap_or(0) as u64).collect();
            let rv = self.x.eval(*r, m, &mut memo).unwrap_or(0) as u64;
            uv.push((*tag, a, rv));
        }
        (iv, uv)
    }
    fn violation(&mut self, st: &State, extra: Option<E>, kind: &str, id: u32, desc: &str) {
        let stack = self.stack(st);
        let key = (kind.to_string(), id, if kind == "panic" { desc.to_string() } else { String::new() });
        if self.known_viol.contains(&key) { return; }
        let ms = self.lim.check_ms;
        match self.full_model(st, extra, ms) {
            Some(m) => {
                self.known_viol.insert(key);
                let (inputs, ufs) = self.inputs(st, &m);
                self.viol.push(Violation { kind: kind.into(), id, desc: desc.into(), stack, inputs, ufs });
            }
            None => { // infeasible after all, or undecided
                let mut q = st.pc.clone();
                q.extend(extra);
                match self.z.check_t(&self.x, &q, true, ms) {
                    Res::Unsat => { self.killed += 1; }
                    Res::Sat(m) => { self.known_viol.insert(key); let (inputs, ufs) = self.inputs(st, &m); self.viol.push(Violation { kind: kind.into(), id, desc: desc.into(), stack, inputs, ufs }); }
                    Res::Unknown => { self.inconclusive.push(format!("{kind} {id} {desc}: solver gave no answer")); }
                }
            }
        }
    }
    fn sample(&mut self, st: &State, end: &str) {
        for r in &st.reach { *self.reached.entry(*r).or_insert(0) += 1; }
        // keep a spread of samples: first few, then replace occasionally
        let n = self.paths + self.panics;
        let take = self.samples.len() < self.max_samples || (n.is_power_of_two());
        if !take || self.x.real { if !self.x.real { return; } if !take { return; } }
        let Some(m) = self.full_model(st, None, self.lim.branch_ms) else { return };
        let (inputs, ufs) = self.inputs(st, &m);
        let mut memo = HashMap::default();
        let mut outs = vec![];
        for o in &st.outs {
            let o2 = match o { V::E(e) => self.x.eval(*e, &m, &mut memo).map(|v| v as u64), V::I(_, v) => Some(*v as u64), V::F64(b) => Some(*b), _ => None };
            outs.push(match o2 { Some(v) => format!("{v:x}"), None => "?".into() });
        }
        self.samples.push(Sample { inputs, ufs, reach: st.reach.clone(), outs, end: end.into() });
    }

    fn path(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
            self.steps += 1;
            st.steps += 1;
            if st.steps > self.lim.max_steps { return Stop::Err("step bound reached".into()); }
            if self.steps & 0xffff == 0 && self.t0.elapsed().as_secs_f64() > self.lim.wall { return Stop::Err("wall-clock bound reached inside a path".into()); }
        }
    }
    fn set(&self, st: &mut State, dst: u32, v: V) { if dst != NOREG { st.fr.last_mut().unwrap().regs[dst as usize] = v; } }
    fn goto(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = st.fr.last().unwrap();
        let from = fr.blk;
        let body = fr.body.clone();
        let b = &body.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, _, inc) in &b.phis {
                let o = inc.iter().find(|(l, _)| *l == from).map(|(_, o)| o);
                let Some(o) = o else { return err("phi without incoming") };
                vals.push((*d, self.opd(st, o)));
            }
            for (d, v) in vals { self.set(st, d, v); }
        }
        let fr = st.fr.last_mut().unwrap();
        fr.blk = to;
        fr.ip = 0;
        Ok(())
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.fr.last().unwrap();
        let body = fr.body.clone();
        let (dst, ins) = &body.blocks[fr.blk as usize].ins[fr.ip];
        let dst = *dst;
        match ins {
            Ins::Bin(op, t, a, b) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let r = self.binop(st, *op, *t, &x, &y)?;
                self.set(st, dst, r);
            }
            Ins::ICmp(p, t, a, b) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let r = self.icmp(*p, *t, &x, &y)?;
                self.set(st, dst, r);
            }
            Ins::FCmp(p, t, a, b) => {
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let r = self.fcmp(*p, *t, &x, &y)?;
                self.set(st, dst, r);
            }
            Ins::FNeg(t, a) => {
                let x = self.opd(st, a);
                let r = self.map1(*t, &x, &mut |me, t, v| { let e = me.fe(v, t); let r = me.x.fop(Op::FNeg, 0, e, NE); Ok(me.v(r)) })?;
                self.set(st, dst, r);
            }
            Ins::Cast(op, t, a, tt) => {
                let x = self.opd(st, a);
                let r = self.cast(*op, *t, &x, *tt)?;
                self.set(st, dst, r);
            }
            Ins::Load(t, p) => {
                let a = self.opd(st, p);
                let v = self.load(st, &a, *t)?;
                self.set(st, dst, v);
            }
            Ins::Store(t, v, p) => {
                let val = self.opd(st, v);
                let a = self.opd(st, p);
                self.store(st, &a, *t, &val)?;
            }
            Ins::Gep(b, off, dynv) => {
                let base = self.opd(st, b);
                let mut acc = base;
                if *off != 0 { acc = self.ibin(Op::Add, &acc, &V::I(64, *off as u64 as u128), 64); }
                for (o, w, scale) in dynv {
                    let i = self.opd(st, o);
                    let i = match i { V::I(w, x) => V::I(64, (sx(x, w) as u128) & mask(64)), V::Undef => V::I(64, 0), V::E(e) => { let _ = w; let r = if self.x.w(e) > 64 { self.x.extract(e, 0, 64) } else { self.x.sext(e, 64) }; self.v(r) } _ => return err("gep") };
                    let s = self.ibin(Op::Mul, &i, &V::I(64, *scale as u128), 64);
                    acc = self.ibin(Op::Add, &acc, &s, 64);
                }
                self.set(st, dst, acc);
            }
            Ins::Alloca(t, cnt, _) => {
                let c = self.opd(st, cnt);
                let V::I(_, c) = c else { return err("symbolic alloca") };
                let n = self.tsize(*t) * c as u64;
                let a = self.alloc(st, n);
                st.fr.last_mut().unwrap().allocas.push((a >> 32) as u32);
                self.set(st, dst, V::I(64, a as u128));
            }
            Ins::Select(t, c, a, b) => {
                let cv = self.opd(st, c);
                let (x, y) = (self.opd(st, a), self.opd(st, b));
                let r = self.select(st, *t, &cv, &x, &y)?;
                self.set(st, dst, r);
            }
            Ins::ExtractValue(a, _, ix) => {
                let mut v = self.opd(st, a);
                for i in ix { v = match v { V::A(x) => x[*i as usize].clone(), V::Undef => V::Undef, _ => return err("extractvalue") }; }
                self.set(st, dst, v);
            }
            Ins::InsertValue(a, t, b, ix) => {
                let mut v = self.opd(st, a);
                if matches!(v, V::Undef) { v = self.zero(*t); }
                let nv = self.opd(st, b);
                let r = insert(&v, ix, nv);
                self.set(st, dst, r);
            }
            Ins::ExtractElem(_, a, i) => {
                let v = self.opd(st, a);
                let iv = self.opd(st, i);
                let i = self.conc(st, &iv)?;
                let r = match v { V::A(x) => x[i as usize].clone(), _ => return err("extractelement") };
                self.set(st, dst, r);
            }
            Ins::InsertElem(t, a, v, i) => {
                let mut b = self.opd(st, a);
                if matches!(b, V::Undef) { b = self.zero(*t); }
                let nv = self.opd(st, v);
                let iv = self.opd(st, i);
                let i = self.conc(st, &iv)?;
                let r = insert(&b, &[i as u32], nv);
                self.set(st, dst, r);
            }
            Ins::Shuffle(t, a, b, mask) => {
                let z = self.zero(*t);
                let g = |v: V| -> Rc<Vec<V>> { match v { V::A(x) => x, _ => match &z { V::A(x) => x.clone(), _ => unreachable!() } } };
                let (x, y) = (g(self.opd(st, a)), g(self.opd(st, b)));
                let n = x.len() as i32;
                let r = mask.iter().map(|&m| if m < 0 { x[0].clone() } else if m < n { x[m as usize].clone() } else { y[(m - n) as usize].clone() }).collect();
                self.set(st, dst, V::A(Rc::new(r)));
            }
            Ins::AtomicRmw(op, t, p, v) => {
                let a = self.opd(st, p);
                let val = self.opd(st, v);
                let old = self.load(st, &a, *t)?;
                let new = match &**op {
                    "xchg" => val,
                    "add" => self.binop(st, BinOp::Add, *t, &old, &val)?,
                    "sub" => self.binop(st, BinOp::Sub, *t, &old, &val)?,
                    "and" => self.binop(st, BinOp::And, *t, &old, &val)?,
                    "or" => self.binop(st, BinOp::Or, *t, &old, &val)?,
                    "xor" => self.binop(st, BinOp::Xor, *t, &old, &val)?,
                    o => return err(format!("atomicrmw {o}")),
                };
                self.store(st, &a, *t, &new)?;
                self.set(st, dst, old);
            }
            Ins::CmpXchg(t, p, c, n) => {
                let a = self.opd(st, p);
                let (cv, nv) = (self.opd(st, c), self.opd(st, n));
                let old = self.load(st, &a, *t)?;
                let eqv = self.icmp(ll::ICmp::Eq, *t, &old, &cv)?;
                let e = self.e(&eqv, 1);
                let ok = self.decide(st, e)?;
                if ok { self.store(st, &a, *t, &nv)?; }
                self.set(st, dst, V::A(Rc::new(vec![old, V::I(1, ok as u128)])));
            }
            Ins::Freeze(a) => { let v = self.opd(st, a); self.set(st, dst, v); }
            Ins::Fence | Ins::LandingPad => {}
            Ins::Call(rt, callee, args) => {
                return self.call(st, dst, *rt, callee, args, None);
            }
            Ins::Invoke(rt, callee, args, n) => {
                return self.call(st, dst, *rt, callee, args, Some(*n));
            }
            Ins::Br(l) => return self.goto(st, *l),
            Ins::CondBr(c, t, f) => {
                let cv = self.opd(st, c);
                let e = match cv { V::I(_, k) => return self.goto(st, if k & 1 == 1 { *t } else { *f }), V::Undef => return self.goto(st, *f), V::E(e) => e, _ => return err("br") };
                if t == f { return self.goto(st, *t); }
                let ne0 = self.x.not(e);
                if !st.pcset.contains(&e) && !st.pcset.contains(&ne0) {
                    let ip = st.fr.last().unwrap().ip;
                    let blk = st.fr.last().unwrap().blk;
                    if self.try_merge(st)? { return Ok(()); }
                    let fr = st.fr.last_mut().unwrap();
                    fr.ip = ip; fr.blk = blk;
                }
                let (mt, mf) = self.both(st, e)?;
                let ne = self.x.not(e);
                match (mt, mf) {
                    (Some(a), Some(b)) => {
                        let mut o = self.fork(st, ne, b);
                        self.goto(&mut o, *f)?;
                        self.work.push(o);
                        st.model = a;
                        self.add_pc(st, e);
                        return self.goto(st, *t);
                    }
                    (Some(a), None) => { st.model = a; self.add_pc(st, e); return self.goto(st, *t); }
                    (None, Some(b)) => { st.model = b; self.add_pc(st, ne); return self.goto(st, *f); }
                    (None, None) => return Err(Stop::Kill),
                }
            }
            Ins::Switch(_, v, d, cs) => {
                let cv = self.opd(st, v);
                let e = match cv {
                    V::I(_, k) => { let t = cs.iter().find(|(c, _)| *c == k).map(|x| x.1).unwrap_or(*d); return self.goto(st, t); }
                    V::Undef => { return self.goto(st, *d); }
                    V::E(e) => e,
                    _ => return err("switch"),
                };
                {
                    let (ip, blk) = (st.fr.last().unwrap().ip, st.fr.last().unwrap().blk);
                    if self.try_merge(st)? { return Ok(()); }
                    let fr = st.fr.last_mut().unwrap();
                    fr.ip = ip; fr.blk = blk;
                }
                // group by target
                let w = self.x.w(e);
                let mut groups: Vec<(u32, E)> = vec![];
                let mut none = self.x.c(1, 1);
                for (k, l) in cs {
                    let kc = self.x.c(w, *k);
                    let q = self.x.eq(e, kc);
                    let nq = self.x.not(q);
                    none = self.x.and1(none, nq);
                    match groups.iter_mut().find(|g| g.0 == *l) { Some(g) => g.1 = self.x.or1(g.1, q), None => groups.push((*l, q)) }
                }
                match groups.iter_mut().find(|g| g.0 == *d) { Some(g) => g.1 = self.x.or1(g.1, none), None => groups.push((*d, none)) }
                let mut feas = vec![];
                for (l, q) in groups {
                    let known = self.eval(st, q) == Some(1);
                    if known { feas.push((l, q, st.model.clone())); continue; }
                    if self.x.cv(q) == Some(0) { continue; }
                    match self.query(st, q, self.lim.branch_ms) {
                        Res::Sat(m) => { let md = self.merged(st, m); feas.push((l, q, Some(md))); }
                        Res::Unsat => {}
                        Res::Unknown => { self.unknown_branches += 1; feas.push((l, q, None)); }
                    }
                }
                if feas.is_empty() { return Err(Stop::Kill); }
                let (l0, q0, m0) = feas.pop().unwrap();
                for (l, q, m) in feas {
                    let mut o = self.fork(st, q, m);
                    self.goto(&mut o, l)?;
                    self.work.push(o);
                }
                st.model = m0;
                self.add_pc(st, q0);
                return self.goto(st, l0);
            }
            Ins::Ret(v) => {
                let rv = v.as_ref().map(|o| self.opd(st, o));
                let fr = st.fr.pop().unwrap();
                for a in fr.allocas { let i = a - HEAP0; st.mem[i as usize] = None; st.free.push(i); }
                if st.fr.is_empty() { st.fr.push(Frame { allocas: vec![], ..fr }); return Err(Stop::Done); }
                if let Some(v) = rv { self.set(st, fr.ret, v); }
                match fr.ret_blk { Some(b) => return self.goto(st, b), None => { st.fr.last_mut().unwrap().ip += 1; return Ok(()); } }
            }
            Ins::Unreachable => return Err(Stop::Panic(format!("unreachable in {}", self.loc(st)))),
            Ins::Resume => return Err(Stop::Panic("resume".into())),
        }
        st.fr.last_mut().unwrap().ip += 1;
        Ok(())
    }

    // ------------------------------------------------------------ if-conversion
    /// Join block of the smallest acyclic side-effect-free region below block `b`.
    fn region(&mut self, f: u32, body: &Body, b: u32) -> Option<u32> {
        if let Some(r) = self.regions.get(&(f, b)) { return *r; }
        let r = find_region(body, b);
        self.regions.insert((f, b), r);
        r
    }
    /// Execute both sides of a pure region and merge the phi values of its join block.
    fn try_merge(&mut self, st: &mut State) -> R<bool> {
        if !self.merge { return Ok(false); }
        let fr = st.fr.last().unwrap();
        let (f, b, body) = (fr.f, fr.blk, fr.body.clone());
        let Some(j) = self.region(f, &body, b) else { return Ok(false) };
        let jb = &body.blocks[j as usize];
        if self.x.real { for (_, t, _) in &jb.phis { if matches!(self.ty(*t), Ty::F64 | Ty::F32) { return Ok(false); } } }
        if jb.phis.iter().any(|(_, t, _)| matches!(self.ty(*t), Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..))) { return Ok(false); }
        let mut outs: Vec<(E, Vec<V>)> = vec![];
        let tru = self.x.tru();
        let ip = st.fr.last().unwrap().ip;
        let ok = self.walk(st, &body, b, ip, j, tru, &mut outs)?;
        st.fr.last_mut().unwrap().blk = b;
        if !ok || outs.is_empty() { return Ok(false); }
        let n = jb.phis.len();
        let mut res = vec![];
        for k in 0..n {
            let t = jb.phis[k].1;
            let mut acc = outs.last().unwrap().1[k].clone();
            for (c, vs) in outs.iter().rev().skip(1) {
                let v = vs[k].clone();
                if let (V::I(_, p), V::I(_, q)) = (&v, &acc) { if p == q { continue; } if self.ty(t) == Ty::Ptr { return Ok(false); } if *p >= (1 << 32) && self.ty(t) == Ty::Int(64) && (p >> 32) < 0x8000_0000 && *q >= (1 << 32) { return Ok(false); } }
                else if self.ty(t) == Ty::Ptr { return Ok(false); }
                let cv = self.v(*c);
                acc = self.select(st, t, &cv, &v, &acc)?;
            }
            res.push((jb.phis[k].0, acc));
        }
        for (d, v) in res { self.set(st, d, v); }
        self.merges += 1;
        let fr = st.fr.last_mut().unwrap();
        fr.blk = j;
        fr.ip = 0;
        Ok(true)
    }
    fn walk(&mut self, st: &mut State, body: &Rc<Body>, b: u32, ip0: usize, j: u32, c: E, outs: &mut Vec<(E, Vec<V>)>) -> R<bool> {
        if outs.len() > 24 { return Ok(false); }
        let blk = &body.blocks[b as usize];
        for (dst, ins) in &blk.ins[ip0..] {
            let dst = *dst;
            let edges: Vec<(E, u32)> = match ins {
                Ins::Br(l) => vec![(c, *l)],
                Ins::CondBr(o, t, f) => match self.opd(st, o) {
                    V::I(_, k) => vec![(c, if k & 1 == 1 { *t } else { *f })],
                    V::E(e) => {
                        let ne = self.x.not(e);
                        if st.pcset.contains(&e) { vec![(c, *t)] } else if st.pcset.contains(&ne) { vec![(c, *f)] } else {
                        let (p, q) = (self.x.and1(c, e), self.x.and1(c, ne)); vec![(p, *t), (q, *f)] }
                    }
                    _ => return Ok(false),
                },
                Ins::Switch(_, o, d, cs) => match self.opd(st, o) {
                    V::I(_, k) => vec![(c, cs.iter().find(|(x, _)| *x == k).map(|x| x.1).unwrap_or(*d))],
                    V::E(e) => {
                        let w = self.x.w(e);
                        let mut v = vec![];
                        let mut none = c;
                        for (k, l) in cs { let kc = self.x.c(w, *k); let q = self.x.eq(e, kc); let p = self.x.and1(c, q); v.push((p, *l)); let nq = self.x.not(q); none = self.x.and1(none, nq); }
                        v.push((none, *d));
                        v
                    }
                    _ => return Ok(false),
                },
                Ins::Load(t, p) => {
                    let V::I(_, a) = self.opd(st, p) else { return Ok(false) };
                    match self.load_at(st, a as u64, *t) { Ok(v) => { self.set(st, dst, v); } Err(_) => return Ok(false) }
                    continue;
                }
                _ => {
                    // pure instruction: run the ordinary step on it
                    let fr = st.fr.last_mut().unwrap();
                    fr.blk = b;
                    let Some(k) = blk.ins.iter().position(|(_, i)| std::ptr::eq(i, ins)) else { return Ok(false) };
                    fr.ip = k;
                    let (nw, np) = (self.work.len(), st.pc.len());
                    match self.step(st) { Ok(()) => {}, Err(_) => { self.work.truncate(nw); return Ok(false) } }
                    if self.work.len() != nw || st.pc.len() != np { return err("impure instruction in merged region"); }
                    continue;
                }
            };
            for (q, l) in edges {
                if self.x.cv(q) == Some(0) { continue; }
                let lb = &body.blocks[l as usize];
                if l != j && matches!(lb.ins.last(), Some((_, Ins::Unreachable))) {
                    // panic edge: fine as long as it is infeasible here
                    match self.query(st, q, self.lim.branch_ms) { Res::Unsat => continue, _ => return Ok(false) }
                }
                let mut vals = Vec::with_capacity(lb.phis.len());
                for (d, _, inc) in &lb.phis {
                    let Some((_, o)) = inc.iter().find(|(x, _)| *x == b) else { return Ok(false) };
                    vals.push((*d, self.opd(st, o)));
                }
                if l == j { outs.push((q, vals.into_iter().map(|x| x.1).collect())); continue; }
                for (d, v) in vals { self.set(st, d, v); }
                if !self.walk(st, body, l, 0, j, q, outs)? { return Ok(false); }
            }
            return Ok(true);
        }
        Ok(false)
    }

    // ------------------------------------------------------------ operators
    fn fe(&mut self, v: &V, t: TyId) -> E {
        match v {
            V::Undef => { let s = if self.ty(t) == Ty::F32 { Sort::F32 } else { Sort::F64 }; self.x.constant(s, 0) }
            _ => self.e(v, 64),
        }
    }
    fn map1(&mut self, t: TyId, v: &V, f: &mut dyn FnMut(&mut Self, TyId, &V) -> R<V>) -> R<V> {
        if let V::A(x) = v {
            let et = self.m.types.borrow().elem(t, 0);
            let mut o = vec![];
            for y in x.iter() { o.push(f(self, et, y)?); }
            return Ok(V::A(Rc::new(o)));
        }
        f(self, t, v)
    }
    fn ibin(&mut self, op: Op, a: &V, b: &V, w: u16) -> V {
        if let (V::I(w1, x), V::I(_, y)) = (a, b) { let (rw, r) = eval_bin(op, *w1, *x, *y); return V::I(rw, r); }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.x.bin(op, x, y);
        self.v(r)
    }
    fn binop(&mut self, st: &mut State, op: BinOp, t: TyId, a: &V, b: &V) -> R<V> {
        if matches!(self.ty(t), Ty::Vec(..)) {
            let et = self.m.types.borrow().elem(t, 0);
            let z = self.zero(t);
            let g = |v: &V| -> Rc<Vec<V>> { match v { V::A(x) => x.clone(), _ => match &z { V::A(x) => x.clone(), _ => unreachable!() } } };
            let (x, y) = (g(a), g(b));
            let mut o = vec![];
            for i in 0..x.len() { o.push(self.binop(st, op, et, &x[i], &y[i])?); }
            return Ok(V::A(Rc::new(o)));
        }
        use BinOp::*;
        let iop = match op {
            Add => Op::Add, Sub => Op::Sub, Mul => Op::Mul, UDiv => Op::UDiv, SDiv => Op::SDiv, URem => Op::URem, SRem => Op::SRem,
            And => Op::And, Or => Op::Or, Xor => Op::Xor, Shl => Op::Shl, LShr => Op::LShr, AShr => Op::AShr,
            FAdd | FSub | FMul | FDiv | FRem => {
                let fop = match op { FAdd => Op::FAdd, FSub => Op::FSub, FMul => Op::FMul, FDiv => Op::FDiv, _ => Op::FRem };
                let (x, y) = (self.fe(a, t), self.fe(b, t));
                if self.x.real && matches!(fop, Op::FDiv | Op::FRem) && self.x.cv(y).is_none() {
                    // real arithmetic: the divisor is assumed non-zero on this path (counted and reported)
                    let z = self.x.f64c(0.0);
                    let c = self.x.fop(Op::FEq, 0, y, z);
                    let nc = self.x.not(c);
                    if !st.pcset.contains(&nc) { self.divassume += 1; self.add_pc(st, nc); }
                }
                let r = self.x.fop(fop, 0, x, y);
                return Ok(self.v(r));
            }
        };
        let w = match self.ty(t) { Ty::Int(w) => w, Ty::Ptr => 64, _ => return err("binop type") };
        Ok(self.ibin(iop, a, b, w))
    }
    fn icmp(&mut self, p: ll::ICmp, t: TyId, a: &V, b: &V) -> R<V> {
        if matches!(self.ty(t), Ty::Vec(..)) {
            let et = self.m.types.borrow().elem(t, 0);
            let z = self.zero(t);
            let g = |v: &V| -> Rc<Vec<V>> { match v { V::A(x) => x.clone(), _ => match &z { V::A(x) => x.clone(), _ => unreachable!() } } };
            let (x, y) = (g(a), g(b));
            let mut o = vec![];
            for i in 0..x.len() { o.push(self.icmp(p, et, &x[i], &y[i])?); }
            return Ok(V::A(Rc::new(o)));
        }
        let w = match self.ty(t) { Ty::Int(w) => w, Ty::Ptr => 64, _ => return err("icmp type") };
        // real mode: sign test on the bits of a real
        if self.x.real {
            if let (V::E(e), V::I(_, k)) = (a, b) {
                let n = *self.x.node(*e);
                if n.op == Op::FBits {
                    let z = self.x.f64c(0.0);
                    let f = n.a[0];
                    let r = match (p, *k) {
                        (ll::ICmp::Slt, 0) => self.x.fop(Op::FLt, 0, f, z),
                        (ll::ICmp::Sgt, k) if k == mask(64) => { let l = self.x.fop(Op::FLt, 0, f, z); self.x.not(l) }
                        (ll::ICmp::Sge, 0) => { let l = self.x.fop(Op::FLt, 0, f, z); self.x.not(l) }
                        _ => return err(format!("real mode: integer compare of float bits {p:?} {k:#x}")),
                    };
                    return Ok(self.v(r));
                }
            }
        }
        use ll::ICmp::*;
        let (op, sw, neg) = match p {
            Eq => (Op::Eq, false, false), Ne => (Op::Eq, false, true),
            Ult => (Op::Ult, false, false), Ule => (Op::Ule, false, false), Ugt => (Op::Ult, true, false), Uge => (Op::Ule, true, false),
            Slt => (Op::Slt, false, false), Sle => (Op::Sle, false, false), Sgt => (Op::Slt, true, false), Sge => (Op::Sle, true, false),
        };
        let (x, y) = if sw { (b, a) } else { (a, b) };
        let r = self.ibin(op, x, y, w);
        if neg { Ok(self.ibin(Op::Xor, &r, &V::I(1, 1), 1)) } else { Ok(r) }
    }
    fn fcmp(&mut self, p: ll::FCmp, t: TyId, a: &V, b: &V) -> R<V> {
        if matches!(self.ty(t), Ty::Vec(..)) {
            let et = self.m.types.borrow().elem(t, 0);
            let (V::A(x), V::A(y)) = (a, b) else { return err("fcmp vec") };
            let (x, y) = (x.clone(), y.clone());
            let mut o = vec![];
            for i in 0..x.len() { o.push(self.fcmp(p, et, &x[i], &y[i])?); }
            return Ok(V::A(Rc::new(o)));
        }
        let (x, y) = (self.fe(a, t), self.fe(b, t));
        use ll::FCmp::*;
        let uno = |me: &mut Self| { let p = me.x.fop(Op::FNan, 0, x, NE); let q = if x == y { p } else { me.x.fop(Op::FNan, 0, y, NE) }; me.x.or1(p, q) };
        let f = |me: &mut Self, op, x, y| me.x.fop(op, 0, x, y);
        let r = match p {
            False => self.x.c(1, 0),
            True => self.x.c(1, 1),
            Oeq => f(self, Op::FEq, x, y),
            Olt => f(self, Op::FLt, x, y),
            Ole => f(self, Op::FLe, x, y),
            Ogt => f(self, Op::FLt, y, x),
            Oge => f(self, Op::FLe, y, x),
            Une => { let e = f(self, Op::FEq, x, y); self.x.not(e) }
            Ult => { let e = f(self, Op::FLe, y, x); self.x.not(e) }
            Ule => { let e = f(self, Op::FLt, y, x); self.x.not(e) }
            Ugt => { let e = f(self, Op::FLe, x, y); self.x.not(e) }
            Uge => { let e = f(self, Op::FLt, x, y); self.x.not(e) }
            Uno => uno(self),
            Ord => { let u = uno(self); self.x.not(u) }
            One => { let l = f(self, Op::FLt, x, y); let g = f(self, Op::FLt, y, x); self.x.or1(l, g) }
            Ueq => { let l = f(self, Op::FLt, x, y); let g = f(self, Op::FLt, y, x); let o = self.x.or1(l, g); self.x.not(o) }
        };
        Ok(self.v(r))
    }
    fn cast(&mut self, op: Cast, t: TyId, v: &V, tt: TyId) -> R<V> {
        let (ft, to) = (self.ty(t), self.ty(tt));
        if op == Cast::BitCast {
            if ft == to { return Ok(v.clone()); }
            return self.bitcast(t, v, tt);
        }
        if let Ty::Vec(..) = ft {
            let (et, ett) = { let ts = self.m.types.borrow(); (ts.elem(t, 0), ts.elem(tt, 0)) };
            let V::A(x) = v else { return Ok(self.zero(tt)) };
            let mut o = vec![];
            for y in x.iter() { o.push(self.cast(op, et, y, ett)?); }
            return Ok(V::A(Rc::new(o)));
        }
        let wof = |t: &Ty| match t { Ty::Int(w) => *w, _ => 64 };
        let sof = |t: &Ty| match t { Ty::Int(w) => Sort::B(*w), Ty::F32 => Sort::F32, Ty::F64 => Sort::F64, _ => Sort::B(64) };
        Ok(match op {
            Cast::Trunc => match v { V::I(_, x) => V::I(wof(&to), x & mask(wof(&to))), _ => { let e = self.e(v, wof(&ft)); let r = self.x.extract(e, 0, wof(&to)); self.v(r) } },
            Cast::ZExt => match v { V::I(_, x) => V::I(wof(&to), *x), _ => { let e = self.e(v, wof(&ft)); let r = self.x.zext(e, wof(&to)); self.v(r) } },
            Cast::SExt => { let e = self.e(v, wof(&ft)); let r = self.x.sext(e, wof(&to)); self.v(r) }
            Cast::PtrToInt | Cast::IntToPtr => { let e = self.e(v, wof(&ft)); let (a, b) = (wof(&ft), wof(&to)); let r = if b < a { self.x.extract(e, 0, b) } else { self.x.zext(e, b) }; self.v(r) }
            Cast::FPTrunc | Cast::FPExt | Cast::FPToUI | Cast::FPToSI | Cast::UIToFP | Cast::SIToFP => {
                let o = match op { Cast::FPTrunc => Op::FTrunc, Cast::FPExt => Op::FExt, Cast::FPToUI => Op::FToUI, Cast::FPToSI => Op::FToSI, Cast::UIToFP => Op::UIToF, _ => Op::SIToF };
                let e = match v { V::Undef => self.x.constant(sof(&ft), 0), _ => self.e(v, wof(&ft)) };
                if self.x.real && matches!(o, Op::FTrunc | Op::FExt) && self.x.cv(e).is_none() { return err("f32 in real mode"); }
                let r = self.x.conv(o, e, sof(&to));
                self.v(r)
            }
            Cast::BitCast => unreachable!(),
        })
    }
    fn bitcast(&mut self, t: TyId, v: &V, tt: TyId) -> R<V> {
        // through bits
        let (ft, to) = (self.ty(t), self.ty(tt));
        match (&ft, &to) {
            (Ty::F64, Ty::Int(64)) | (Ty::F32, Ty::Int(32)) => { let e = self.fe(v, t); let r = self.x.f_bits(e); return Ok(self.v(r)); }
            (Ty::Int(64), Ty::F64) => { let e = self.e(v, 64); let r = self.x.f_from_bits(e, Sort::F64); return Ok(self.v(r)); }
            (Ty::Int(32), Ty::F32) => { let e = self.e(v, 32); let r = self.x.f_from_bits(e, Sort::F32); return Ok(self.v(r)); }
            _ => {}
        }
        let flat = |me: &mut Self, t: TyId, v: &V| -> R<E> {
            match (me.ty(t), v) {
                (Ty::Vec(n, et), V::A(xs)) => {
                    let ety = me.ty(et);
                    let mut acc = NE;
                    for i in 0..n as usize {
                        let b = match ety { Ty::F64 | Ty::F32 => { let e = me.fe(&xs[i], et); me.x.f_bits(e) } Ty::Int(w) => me.e(&xs[i], w), _ => me.e(&xs[i], 64) };
                        acc = if i == 0 { b } else { me.x.concat(b, acc) };
                    }
                    Ok(acc)
                }
                (Ty::Int(w), v) => Ok(me.e(v, w)),
                (Ty::F64, v) => { let e = me.fe(v, t); Ok(me.x.f_bits(e)) }
                _ => err("bitcast flat"),
            }
        };
        let e = flat(self, t, v)?;
        if e == NE { return err("bitcast"); }
        match to {
            Ty::Vec(n, et) => {
                let ety = self.ty(et);
                let w = match ety { Ty::Int(w) => w, Ty::F32 => 32, _ => 64 };
                let mut o = vec![];
                for i in 0..n as u16 {
                    let x = self.x.extract(e, i * w, w);
                    let r = match ety { Ty::F64 => self.x.f_from_bits(x, Sort::F64), Ty::F32 => self.x.f_from_bits(x, Sort::F32), _ => x };
                    o.push(self.v(r));
                }
                Ok(V::A(Rc::new(o)))
            }
            Ty::Int(_) => Ok(self.v(e)),
            Ty::F64 => { let r = self.x.f_from_bits(e, Sort::F64); Ok(self.v(r)) }
            _ => err("bitcast to"),
        }
    }
    fn select(&mut self, st: &mut State, t: TyId, c: &V, a: &V, b: &V) -> R<V> {
        match c {
            V::I(_, k) => Ok(if k & 1 == 1 { a.clone() } else { b.clone() }),
            V::Undef => Ok(b.clone()),
            V::A(cs) => {
                let et = self.m.types.borrow().elem(t, 0);
                let z = self.zero(t);
                let g = |v: &V| -> Rc<Vec<V>> { match v { V::A(x) => x.clone(), _ => match &z { V::A(x) => x.clone(), _ => unreachable!() } } };
                let (x, y, cs) = (g(a), g(b), cs.clone());
                let mut o = vec![];
                for i in 0..cs.len() { o.push(self.select(st, et, &cs[i], &x[i], &y[i])?); }
                Ok(V::A(Rc::new(o)))
            }
            V::E(ce) => {
                // pointers into different objects: fork now, it is cheaper than a symbolic base
                if let (Ty::Ptr, V::I(_, p), V::I(_, q)) = (self.ty(t), a, b) { if p >> 32 != q >> 32 { let d = self.decide(st, *ce)?; return Ok(if d { a.clone() } else { b.clone() }); } }
                if st.pcset.contains(ce) { return Ok(a.clone()); }
                let nc = self.x.not(*ce);
                if st.pcset.contains(&nc) { return Ok(b.clone()); }
                match (a, b) {
                    (V::A(x), V::A(y)) => {
                        let n = x.len();
                        let (x, y) = (x.clone(), y.clone());
                        let mut o = vec![];
                        for i in 0..n { let et = self.m.types.borrow().elem(t, i); o.push(self.select(st, et, c, &x[i], &y[i])?); }
                        Ok(V::A(Rc::new(o)))
                    }
                    _ => {
                        let ty = self.ty(t);
                        if matches!(ty, Ty::F64 | Ty::F32) && self.x.real {
                            let (x, y) = (self.fe(a, t), self.fe(b, t));
                            // min/max/abs style selects stay symbolic
                            let r = self.x.ite(*ce, x, y);
                            return Ok(self.v(r));
                        }
                        let w = match ty { Ty::Int(w) => w, _ => 64 };
                        let (x, y) = if matches!(ty, Ty::F64 | Ty::F32) { (self.fe(a, t), self.fe(b, t)) } else { (self.e(a, w), self.e(b, w)) };
                        let r = self.x.ite(*ce, x, y);
                        Ok(self.v(r))
                    }
                }
            }
            _ => err("select"),
        }
    }

    // ------------------------------------------------------------ calls
    fn class(&mut self, f: u32) -> FClass {
        if let Some(c) = self.fclass.get(&f) { return *c; }
        let s = &self.m.syms[f as usize];
        let d = format!("{:#}", rustc_demangle::demangle(&s.name));
        let c = if d.starts_with("core::panicking::") || d.contains("::expect_failed") || d.contains("::unwrap_failed") || d.contains("core::cell::panic_already") || d.contains("slice_index_fail") || d.contains("slice_error_fail") || d.contains("capacity_overflow") || d.contains("handle_alloc_error") || d.contains("raw_vec::handle_error") || d.contains("rust_panic") || d.contains("begin_panic") || d == "std::process::abort" || d.contains("copy_from_slice_impl::len_mismatch_fail") || d.contains("::split_at_fail") || d.contains("_index_len_fail") || d.contains("index_order_fail") || d.contains("vec::remove::assert_failed") || d.contains("::assert_failed") || d.contains("::panic_cold_") || s.name == "abort" {
            FClass::Panic
        } else if d.contains("alloc::fmt::format::format_inner") { FClass::FmtInner }
        else if matches!(s.kind, SymKind::Func { .. }) && !s.name.starts_with("sv_") { FClass::Normal } else { FClass::Ext };
        self.fclass.insert(f, c);
        c
    }
    fn call(&mut self, st: &mut State, dst: u32, rt: TyId, callee: &Callee, args: &[(TyId, Opd)], inv: Option<u32>) -> R<()> {
        let f = match callee {
            Callee::Intrin(n) => {
                let mut av = Vec::with_capacity(args.len());
                for (t, o) in args { av.push((*t, self.opd(st, o))); }
                let r = self.intrinsic(st, n, rt, &av)?;
                self.set(st, dst, r);
                return self.next(st, inv);
            }
            Callee::Asm => { return self.next(st, inv); }
            Callee::Sym(f) => self.m.resolve(*f).0,
            Callee::Reg(o) => {
                let v = self.opd(st, o);
                let a = match v { V::I(_, a) => a, v => self.conc(st, &v)? };
                let id = (a >> 32) as u32;
                if id == 0 || a & 0xffff_ffff != 0 || id as usize > self.m.syms.len() { return err("bad function pointer"); }
                id - 1
            }
        };
        match self.class(f) {
            FClass::Panic => {
                let name = self.fname(f);
                // location: first non-core frame
                let site = self.stack(st).into_iter().find(|s| !s.starts_with("core::") && !s.starts_with("<core::") && !s.starts_with("alloc::") && !s.starts_with("std::") && !s.starts_with("<alloc::")).unwrap_or_default();
                let loc = self.panic_loc(st, args);
                return Err(Stop::Panic(format!("{name} in {site}{loc}")));
            }
            FClass::FmtInner if st.stub_fmt => {
                let p = self.opd(st, &args[0].1);
                let V::I(_, a) = p else { return err("fmt sret") };
                let t64 = self.m.types.borrow_mut().mk(Ty::Int(64));
                self.store_at(st, a as u64, t64, &V::I(64, 0))?;
                self.store_at(st, a as u64 + 8, t64, &V::I(64, 1))?;
                self.store_at(st, a as u64 + 16, t64, &V::I(64, 0))?;
                return self.next(st, inv);
            }
            FClass::Normal | FClass::FmtInner => {
                *self.funcs.entry(f).or_insert(0) += 1;
                let body = self.m.body(f).unwrap();
                let mut regs = vec![V::Undef; body.nregs as usize];
                for (i, (_, o)) in args.iter().enumerate() { if i < body.params.len() { regs[i] = self.opd(st, o); } }
                if st.fr.len() > 400 { return err("call depth bound"); }
                st.fr.push(Frame { f, body, blk: 0, ip: 0, regs, allocas: vec![], ret: dst, ret_blk: inv });
                return Ok(());
            }
            FClass::Ext => {
                let mut av = Vec::with_capacity(args.len());
                for (t, o) in args { av.push((*t, self.opd(st, o))); }
                let n = self.m.syms[f as usize].name.clone();
                let r = self.external(st, &n, rt, &av)?;
                self.set(st, dst, r);
                self.next(st, inv)
            }
        }
    }
    fn panic_loc(&mut self, st: &State, args: &[(TyId, Opd)]) -> String {
        // last pointer argument is usually &'static Location {file_ptr, file_len, line, col}
        for (_, o) in args.iter().rev() {
            if let V::I(64, a) = self.opd(st, o) {
                let a = a as u64;
                if a >> 32 == 0 || (a >> 32) as u32 >= HEAP0 { continue; }
                if let Some(b) = self.read_conc(st, a, 24) {
                    let p = u64::from_le_bytes(b[0..8].try_into().unwrap());
                    let l = u64::from_le_bytes(b[8..16].try_into().unwrap());
                    let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
                    if l < 300 && p >> 32 != 0 { if let Some(s) = self.read_conc(st, p, l) { if let Ok(s) = String::from_utf8(s) { if s.ends_with(".rs") || s.ends_with(".rs\0") { return format!(" at {}:{}", s.trim_end_matches('\0'), line); } } } }
                }
            }
        }
        String::new()
    }
    fn next(&mut self, st: &mut State, inv: Option<u32>) -> R<()> {
        match inv { Some(b) => self.goto(st, b), None => { st.fr.last_mut().unwrap().ip += 1; Ok(()) } }
    }
    fn width(&self, t: TyId) -> u16 { match self.ty(t) { Ty::Int(w) => w, _ => 64 } }

    fn intrinsic(&mut self, st: &mut State, n: &str, rt: TyId, a: &[(TyId, V)]) -> R<V> {
        let n = n.strip_prefix("llvm.").unwrap();
        let base: &str = {
            // strip type suffixes
            let mut end = n.len();
            loop {
                let Some(i) = n[..end].rfind('.') else { break };
                let suf = &n[i + 1..end];
                let is_ty = suf.starts_with('i') && suf[1..].parse::<u32>().is_ok() || suf.starts_with('f') && suf[1..].parse::<u32>().is_ok() || suf.starts_with('v') && suf[1..].chars().next().map(|c| c.is_ascii_digit()).unwrap_or(false) || suf.starts_with('p') && suf[1..].parse::<u32>().is_ok();
                if is_ty { end = i } else { break }
            }
            &n[..end]
        };
        // vector lifting
        if let Ty::Vec(..) = self.ty(rt) {
            if a.iter().any(|(_, v)| matches!(v, V::A(_))) && !base.starts_with("vector.reduce") {
                let k = a.iter().find_map(|(_, v)| if let V::A(x) = v { Some(x.len()) } else { None }).unwrap();
                let ert = self.m.types.borrow().elem(rt, 0);
                let mut o = vec![];
                for i in 0..k {
                    let mut av = vec![];
                    for (t, v) in a { av.push(match v { V::A(x) => (self.m.types.borrow().elem(*t, 0), x[i].clone()), v => (*t, v.clone()) }); }
                    o.push(self.intrinsic(st, &format!("llvm.{base}"), ert, &av)?);
                }
                return Ok(V::A(Rc::new(o)));
            }
        }
        let w = if a.is_empty() { 64 } else { self.width(a[0].0) };
        match base {
            "lifetime.start" | "lifetime.end" | "experimental.noalias.scope.decl" | "assume" | "dbg.value" | "prefetch" | "donothing" | "x86.sse2.pause" | "invariant.start" | "invariant.end" | "sideeffect" | "stackrestore" => Ok(V::Undef),
            "expect" | "launder.invariant.group" | "strip.invariant.group" | "ssa.copy" | "expect.with.probability" => Ok(a[0].1.clone()),
            "threadlocal.address" => Ok(a[0].1.clone()),
            "ptrmask" => Ok(self.ibin(Op::And, &a[0].1, &a[1].1, 64)),
            "x86.sse2.cmp.pd" => {
                if let (V::F64(p), V::F64(q), V::I(_, k)) = (&a[0].1, &a[1].1, &a[2].1) {
                    let (p, q) = (f64::from_bits(*p), f64::from_bits(*q));
                    let un = p.is_nan() || q.is_nan();
                    let r = match k & 3 { 0 => p == q, 1 => p < q, 2 => p <= q, _ => un };
                    let r = if k & 4 != 0 { !r } else { r };
                    return Ok(V::F64(if r { u64::MAX } else { 0 }));
                }
                Err(Stop::Err("packed comparison of symbolic values".into()))
            }
            "is.constant" => Ok(V::I(1, 0)),
            "objectsize" => Ok(V::I(64, mask(64))),
            "trap" | "debugtrap" | "ubsantrap" => Err(Stop::Panic(format!("trap in {}", self.loc(st)))),
            "stacksave" => Ok(V::I(64, 0)),
            "memcpy" | "memmove" | "memcpy.inline" => {
                let n = self.conc(st, &a[2].1)? as u64;
                if n == 0 { return Ok(V::Undef); }
                let d = self.conc(st, &a[0].1)? as u64;
                let s = self.conc(st, &a[1].1)? as u64;
                self.memcopy(st, d, s, n)?;
                Ok(V::Undef)
            }
            "memset" | "memset.inline" => {
                let n = self.conc(st, &a[2].1)? as u64;
                if n == 0 { return Ok(V::Undef); }
                let d = self.conc(st, &a[0].1)? as u64;
                let t8 = self.m.types.borrow_mut().mk(Ty::Int(8));
                if let V::I(_, b) = a[1].1 {
                    let o = self.objmut(st, (d >> 32) as u32)?;
                    let f = (d & 0xffff_ffff) as usize;
                    if f + n as usize > o.data.len() { return err("memset oob"); }
                    o.data[f..f + n as usize].fill(b as u8);
                    clear(o, f, n as usize);
                } else { for i in 0..n { self.store_at(st, d + i, t8, &a[1].1)?; } }
                Ok(V::Undef)
            }
            "umax" | "umin" | "smax" | "smin" => {
                let op = if base.starts_with('u') { Op::Ult } else { Op::Slt };
                let lt = self.ibin(op, &a[0].1, &a[1].1, w);
                let (x, y) = if base.ends_with("min") { (&a[0].1, &a[1].1) } else { (&a[1].1, &a[0].1) };
                self.select(st, rt, &lt, x, y)
            }
            "ucmp" | "scmp" => {
                let op = if base == "ucmp" { Op::Ult } else { Op::Slt };
                let rw = self.width(rt);
                let lt = self.ibin(op, &a[0].1, &a[1].1, w);
                let eq = self.ibin(Op::Eq, &a[0].1, &a[1].1, w);
                let r = self.select(st, rt, &eq, &V::I(rw, 0), &V::I(rw, 1))?;
                self.select(st, rt, &lt, &V::I(rw, mask(rw)), &r)
            }
            "abs" => {
                let s = self.ibin(Op::Slt, &a[0].1, &V::I(w, 0), w);
                let ng = self.ibin(Op::Sub, &V::I(w, 0), &a[0].1, w);
                self.select(st, rt, &s, &ng, &a[0].1)
            }
            "uadd.sat" | "usub.sat" | "sadd.sat" | "ssub.sat" => {
                let sub = base.contains("sub");
                let r = self.ibin(if sub { Op::Sub } else { Op::Add }, &a[0].1, &a[1].1, w);
                if base.starts_with('u') {
                    let o = if sub { self.ibin(Op::Ult, &a[0].1, &a[1].1, w) } else { self.ibin(Op::Ult, &r, &a[0].1, w) };
                    self.select(st, rt, &o, &V::I(w, if sub { 0 } else { mask(w) }), &r)
                } else {
                    let o = self.sovf(sub, &a[0].1, &a[1].1, &r, w);
                    let neg = self.ibin(Op::Slt, &a[0].1, &V::I(w, 0), w);
                    let s = self.select(st, rt, &neg, &V::I(w, 1 << (w - 1)), &V::I(w, mask(w - 1)))?;
                    self.select(st, rt, &o, &s, &r)
                }
            }
            "uadd.with.overflow" | "usub.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" => {
                let sub = base.contains("sub");
                let r = self.ibin(if sub { Op::Sub } else { Op::Add }, &a[0].1, &a[1].1, w);
                let (ra, rb) = { let (x, y) = (self.e(&a[0].1, w), self.e(&a[1].1, w)); (self.x.range(x), self.x.range(y)) };
                let half = 1u128 << (w - 1);
                let never = if base.starts_with('u') { if sub { ra.0 >= rb.1 } else { ra.1.checked_add(rb.1).map(|v| v <= mask(w)).unwrap_or(false) } }
                    else { ra.1 < half && rb.1 < half && (sub || ra.1 + rb.1 < half) };
                let o = if never { V::I(1, 0) } else if base.starts_with('u') { if sub { self.ibin(Op::Ult, &a[0].1, &a[1].1, w) } else { self.ibin(Op::Ult, &r, &a[0].1, w) } } else { self.sovf(sub, &a[0].1, &a[1].1, &r, w) };
                Ok(V::A(Rc::new(vec![r, o])))
            }
            "umul.with.overflow" | "smul.with.overflow" => {
                let r = self.ibin(Op::Mul, &a[0].1, &a[1].1, w);
                let dw = w * 2;
                let (ra, rb) = { let (x, y) = (self.e(&a[0].1, w), self.e(&a[1].1, w)); (self.x.range(x), self.x.range(y)) };
                let lim = if base.starts_with('u') { mask(w) } else { mask(w - 1) };
                let o = if ra.1.checked_mul(rb.1).map(|v| v <= lim).unwrap_or(false) && ra.1 <= lim && rb.1 <= lim { V::I(1, 0) } else if dw > 128 || (matches!(a[0].1, V::I(..)) && matches!(a[1].1, V::I(..))) {
                    match (&a[0].1, &a[1].1) {
                        (V::I(_, x), V::I(_, y)) => {
                            let ov = if base.starts_with('u') { x.checked_mul(*y).map(|v| v > mask(w)).unwrap_or(true) } else { sx(*x, w).checked_mul(sx(*y, w)).map(|v| sx((v as u128) & mask(w), w) != v).unwrap_or(true) };
                            V::I(1, ov as u128)
                        }
                        _ => return err("wide mul overflow"),
                    }
                } else {
                    let (x, y) = (self.e(&a[0].1, w), self.e(&a[1].1, w));
                    let (x, y) = if base.starts_with('u') { (self.x.zext(x, dw), self.x.zext(y, dw)) } else { (self.x.sext(x, dw), self.x.sext(y, dw)) };
                    let p = self.x.bin(Op::Mul, x, y);
                    let lo = self.x.extract(p, 0, w);
                    let back = if base.starts_with('u') { self.x.zext(lo, dw) } else { self.x.sext(lo, dw) };
                    let q = self.x.eq(p, back);
                    let nq = self.x.not(q);
                    self.v(nq)
                };
                Ok(V::A(Rc::new(vec![r, o])))
            }
            "fshl" | "fshr" => {
                let sh = self.ibin(Op::URem, &a[2].1, &V::I(w, w as u128), w);
                let inv = self.ibin(Op::Sub, &V::I(w, w as u128), &sh, w);
                let (l, r) = if base == "fshl" { (self.ibin(Op::Shl, &a[0].1, &sh, w), self.ibin(Op::LShr, &a[1].1, &inv, w)) } else { (self.ibin(Op::Shl, &a[0].1, &inv, w), self.ibin(Op::LShr, &a[1].1, &sh, w)) };
                Ok(self.ibin(Op::Or, &l, &r, w))
            }
            "bswap" => {
                let e = self.e(&a[0].1, w);
                let n = w / 8;
                let mut acc = NE;
                for i in 0..n { let b = self.x.extract(e, i * 8, 8); acc = if acc == NE { b } else { self.x.concat(acc, b) }; }
                Ok(self.v(acc))
            }
            "bitreverse" => {
                let e = self.e(&a[0].1, w);
                let mut acc = NE;
                for i in 0..w { let b = self.x.extract(e, i, 1); acc = if acc == NE { b } else { self.x.concat(acc, b) }; }
                Ok(self.v(acc))
            }
            "ctpop" => {
                if let V::I(_, x) = a[0].1 { return Ok(V::I(w, x.count_ones() as u128)); }
                let e = self.e(&a[0].1, w);
                let mut acc = self.x.c(w, 0);
                for i in 0..w { let b = self.x.extract(e, i, 1); let z = self.x.zext(b, w); acc = self.x.bin(Op::Add, acc, z); }
                Ok(self.v(acc))
            }
            "ctlz" | "cttz" => {
                if let V::I(_, x) = a[0].1 { return Ok(V::I(w, if base == "cttz" { if x == 0 { w as u128 } else { x.trailing_zeros() as u128 } } else { (x.leading_zeros() as u128) - (128 - w as u128) })); }
                let e = self.e(&a[0].1, w);
                let mut acc = self.x.c(w, w as u128);
                for k in 0..w {
                    // iterate so that the first set bit found in priority order wins
                    let i = if base == "cttz" { w - 1 - k } else { k };
                    let b = self.x.extract(e, i, 1);
                    let v = self.x.c(w, if base == "cttz" { i } else { w - 1 - i } as u128);
                    acc = self.x.ite(b, v, acc);
                }
                Ok(self.v(acc))
            }
            "vector.reduce.or" | "vector.reduce.and" | "vector.reduce.add" | "vector.reduce.xor" => {
                let V::A(x) = &a[0].1 else { return err("reduce") };
                let ew = self.width(rt);
                let op = match base { "vector.reduce.or" => Op::Or, "vector.reduce.and" => Op::And, "vector.reduce.xor" => Op::Xor, _ => Op::Add };
                let mut acc = x[0].clone();
                for y in &x[1..] { acc = self.ibin(op, &acc, y, ew); }
                Ok(acc)
            }
            "floor" | "ceil" | "trunc" | "rint" | "nearbyint" | "round" | "roundeven" => {
                let e = self.fe(&a[0].1, a[0].0);
                let k = match base { "floor" => 0, "ceil" => 1, "trunc" => 2, "round" => 4, _ => 3 };
                let r = self.x.fop(Op::FRound, k, e, NE);
                Ok(self.v(r))
            }
            "fabs" => { let e = self.fe(&a[0].1, a[0].0); let r = self.x.fop(Op::FAbs, 0, e, NE); Ok(self.v(r)) }
            "sqrt" => self.math(st, "sqrt", a),
            "sin" | "cos" | "tan" | "exp" | "exp2" | "log" | "log10" | "log2" | "pow" | "powi" | "asin" | "acos" | "atan" | "atan2" | "sinh" | "cosh" | "tanh" => self.math(st, base, a),
            "fma" | "fmuladd" => {
                let (x, y, z) = (self.fe(&a[0].1, a[0].0), self.fe(&a[1].1, a[0].0), self.fe(&a[2].1, a[0].0));
                if let (Some(p), Some(q), Some(r)) = (self.x.cv(x), self.x.cv(y), self.x.cv(z)) { return Ok(V::F64(f64::from_bits(p as u64).mul_add(f64::from_bits(q as u64), f64::from_bits(r as u64)).to_bits())); }
                if !self.x.real && base == "fma" { return err("symbolic fma"); }
                let m = self.x.fop(Op::FMul, 0, x, y);
                let r = self.x.fop(Op::FAdd, 0, m, z);
                Ok(self.v(r))
            }
            "copysign" => {
                let (x, y) = (self.fe(&a[0].1, a[0].0), self.fe(&a[1].1, a[0].0));
                if self.x.real {
                    let ax = self.x.fop(Op::FAbs, 0, x, NE);
                    let z = self.x.f64c(0.0);
                    let neg = if let Some(k) = self.x.cv(y) { self.x.c(1, k >> 63 & 1) } else { self.x.fop(Op::FLt, 0, y, z) };
                    let nx = self.x.fop(Op::FNeg, 0, ax, NE);
                    let r = self.x.ite(neg, nx, ax);
                    return Ok(self.v(r));
                }
                let (bx, by) = (self.x.f_bits(x), self.x.f_bits(y));
                let w = self.x.w(bx);
                let lo = self.x.extract(bx, 0, w - 1);
                let s = self.x.extract(by, w - 1, 1);
                let c = self.x.concat(s, lo);
                let so = self.x.sort(x);
                let r = self.x.f_from_bits(c, so);
                Ok(self.v(r))
            }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                let (x, y) = (self.fe(&a[0].1, a[0].0), self.fe(&a[1].1, a[0].0));
                let lt = self.x.fop(Op::FLt, 0, x, y);
                let (p, q) = if base.starts_with("min") { (x, y) } else { (y, x) };
                let r = self.x.ite(lt, p, q);
                let ny = self.x.fop(Op::FNan, 0, y, NE);
                let r = self.x.ite(ny, x, r);
                let nx = self.x.fop(Op::FNan, 0, x, NE);
                let r = self.x.ite(nx, y, r);
                Ok(self.v(r))
            }
            "minimum" | "maximum" => {
                let (x, y) = (self.fe(&a[0].1, a[0].0), self.fe(&a[1].1, a[0].0));
                let lt = self.x.fop(Op::FLt, 0, x, y);
                let (p, q) = if base == "minimum" { (x, y) } else { (y, x) };
                let r = self.x.ite(lt, p, q);
                let nx = self.x.fop(Op::FNan, 0, x, NE);
                let ny = self.x.fop(Op::FNan, 0, y, NE);
                let nn = self.x.or1(nx, ny);
                let nan = self.x.f64c(f64::NAN);
                let r = self.x.ite(nn, nan, r);
                Ok(self.v(r))
            }
            "fptosi.sat" | "fptoui.sat" => {
                let e = self.fe(&a[0].1, a[0].0);
                let r = self.x.conv(if base == "fptosi.sat" { Op::FToSI } else { Op::FToUI }, e, Sort::B(self.width(rt)));
                Ok(self.v(r))
            }
            "is.fpclass" => {
                let e = self.fe(&a[0].1, a[0].0);
                let V::I(_, m) = a[1].1 else { return err("fpclass") };
                self.fpclass(e, m as u32)
            }
            _ => err(format!("intrinsic llvm.{n}")),
        }
    }
    fn fpclass(&mut self, e: E, m: u32) -> R<V> {
        // bits: 0 snan 1 qnan 2 -inf 3 -normal 4 -subnormal 5 -0 6 +0 7 +subnormal 8 +normal 9 +inf
        let mut acc = self.x.c(1, 0);
        let k = |me: &mut Self, v: f64| me.x.f64c(v);
        if m & 3 == 3 { let n = self.x.fop(Op::FNan, 0, e, NE); acc = self.x.or1(acc, n); }
        let (pi, ni) = (k(self, f64::INFINITY), k(self, f64::NEG_INFINITY));
        if m >> 2 & 1 == 1 { let q = self.x.fop(Op::FEq, 0, e, ni); acc = self.x.or1(acc, q); }
        if m >> 9 & 1 == 1 { let q = self.x.fop(Op::FEq, 0, e, pi); acc = self.x.or1(acc, q); }
        let z = k(self, 0.0);
        let mn = k(self, f64::MIN_POSITIVE);
        let nmn = k(self, -f64::MIN_POSITIVE);
        // both normal and subnormal: one comparison
        let (mut m, full) = (m, m);
        if m >> 7 & 3 == 3 { let a = self.x.fop(Op::FLt, 0, z, e); let b = self.x.fop(Op::FLt, 0, e, pi); let c = self.x.and1(a, b); acc = self.x.or1(acc, c); m &= !(3 << 7); }
        if m >> 3 & 3 == 3 { let a = self.x.fop(Op::FLt, 0, e, z); let b = self.x.fop(Op::FLt, 0, ni, e); let c = self.x.and1(a, b); acc = self.x.or1(acc, c); m &= !(3 << 3); }
        let posn = m >> 8 & 1; let negn = m >> 3 & 1;
        if posn == 1 { let a = self.x.fop(Op::FLe, 0, mn, e); let b = self.x.fop(Op::FLt, 0, e, pi); let c = self.x.and1(a, b); acc = self.x.or1(acc, c); }
        if negn == 1 { let a = self.x.fop(Op::FLe, 0, e, nmn); let b = self.x.fop(Op::FLt, 0, ni, e); let c = self.x.and1(a, b); acc = self.x.or1(acc, c); }
        if m >> 7 & 1 == 1 { let a = self.x.fop(Op::FLt, 0, z, e); let b = self.x.fop(Op::FLt, 0, e, mn); let c = self.x.and1(a, b); acc = self.x.or1(acc, c); }
        if m >> 4 & 1 == 1 { let a = self.x.fop(Op::FLt, 0, e, z); let b = self.x.fop(Op::FLt, 0, nmn, e); let c = self.x.and1(a, b); acc = self.x.or1(acc, c); }
        match m >> 5 & 3 {
            0 => {}
            3 => { let q = self.x.fop(Op::FEq, 0, e, z); acc = self.x.or1(acc, q); }
            2 if self.x.real => { let q = self.x.fop(Op::FEq, 0, e, z); acc = self.x.or1(acc, q); }
            1 if self.x.real => {}
            k2 => { let one = k(self, 1.0); let r = self.x.fop(Op::FDiv, 0, one, e); let q = self.x.fop(Op::FEq, 0, r, if k2 == 2 { pi } else { ni }); let q2 = self.x.fop(Op::FEq, 0, e, z); let q = self.x.and1(q, q2); acc = self.x.or1(acc, q); }
        }
        let m = full;
        if m & 3 == 1 || m & 3 == 2 { return err("fpclass snan/qnan"); }
        Ok(self.v(acc))
    }
    fn sovf(&mut self, sub: bool, a: &V, b: &V, r: &V, w: u16) -> V {
        if let (V::I(_, x), V::I(_, y)) = (a, b) {
            let (p, q) = (sx(*x, w), sx(*y, w));
            let s = if sub { p.checked_sub(q) } else { p.checked_add(q) };
            return V::I(1, s.map(|v| sx((v as u128) & mask(w), w) != v).unwrap_or(true) as u128);
        }
        // constant operand: single comparison
        let s1 = self.ibin(Op::Slt, a, &V::I(w, 0), w);
        let s2 = self.ibin(Op::Slt, b, &V::I(w, 0), w);
        let sr = self.ibin(Op::Slt, r, &V::I(w, 0), w);
        let d1 = self.ibin(Op::Xor, &s1, &sr, 1);
        let d2 = if sub { self.ibin(Op::Xor, &s1, &s2, 1) } else { self.ibin(Op::Xor, &s2, &sr, 1) };
        self.ibin(Op::And, &d1, &d2, 1)
    }
    fn math(&mut self, st: &mut State, n: &str, a: &[(TyId, V)]) -> R<V> {
        let x = self.fe(&a[0].1, a[0].0);
        if self.x.sort(x) == Sort::F32 {
            if let Some(c) = self.x.cv(x) {
                let v = f32::from_bits(c as u32);
                let r = match n { "sqrt" => v.sqrt(), "sin" => v.sin(), "cos" => v.cos(), "exp" => v.exp(), _ => return err("f32 math") };
                return Ok(V::F32(r.to_bits()));
            }
            return err("symbolic f32 math");
        }
        if n == "powi" {
            let k = match a[1].1 { V::I(_, k) => k, _ => self.conc(st, &a[1].1)? };
            let k = k as u32 as i32;
            if let Some(c) = self.x.cv(x) { return Ok(V::F64(f64::from_bits(c as u64).powi(k).to_bits())); }
            // compiler-rt algorithm: exact same multiplication order
            let mut b = k.unsigned_abs();
            let one = self.x.f64c(1.0);
            let mut r = one;
            let mut base = x;
            loop {
                if b & 1 == 1 { r = if r == one { base } else { self.x.fop(Op::FMul, 0, r, base) }; }
                b >>= 1;
                if b == 0 { break; }
                base = self.x.fop(Op::FMul, 0, base, base);
            }
            if k < 0 { r = self.x.fop(Op::FDiv, 0, one, r); }
            return Ok(self.v(r));
        }
        let y = if a.len() > 1 { Some(self.fe(&a[1].1, a[1].0)) } else { None };
        let cx = self.x.cv(x).map(|c| f64::from_bits(c as u64));
        let cy = y.map(|y| self.x.cv(y).map(|c| f64::from_bits(c as u64)));
        if let (Some(v), Some(w)) = (cx, cy.unwrap_or(Some(0.0))) {
            let r = match n {
                "sqrt" => v.sqrt(), "sin" => v.sin(), "cos" => v.cos(), "tan" => v.tan(), "exp" => v.exp(), "exp2" => v.exp2(), "log" => v.ln(), "log10" => v.log10(), "log2" => v.log2(),
                "pow" => v.powf(w), "asin" => v.asin(), "acos" => v.acos(), "atan" => v.atan(), "atan2" => v.atan2(w), "sinh" => v.sinh(), "cosh" => v.cosh(), "tanh" => v.tanh(),
                "hypot" => v.hypot(w), "cbrt" => v.cbrt(), "exp_m1" => v.exp_m1(), "ln_1p" => v.ln_1p(), "fmod" => v % w, "asinh" => v.asinh(), "acosh" => v.acosh(), "atanh" => v.atanh(),
                _ => return err(format!("math {n}")),
            };
            return Ok(V::F64(r.to_bits()));
        }
        if n == "sqrt" {
            if self.x.real { let z = self.x.f64c(0.0); let c = self.x.fop(Op::FLe, 0, z, x); self.add_pc(st, c); }
            let r = self.x.fop(Op::FSqrt, 0, x, NE);
            return Ok(self.v(r));
        }
        if n == "fmod" { let r = self.x.fop(Op::FRem, 0, x, y.unwrap()); return Ok(self.v(r)); }
        if n == "hypot" && self.x.real {
            let p = self.x.fop(Op::FMul, 0, x, x);
            let q = self.x.fop(Op::FMul, 0, y.unwrap(), y.unwrap());
            let s = self.x.fop(Op::FAdd, 0, p, q);
            let r = self.x.fop(Op::FSqrt, 0, s, NE);
            return Ok(self.v(r));
        }
        if n == "pow" && self.x.real {
            if let Some(Some(k)) = cy { if k == k.trunc() && k.abs() < 16.0 { return self.math(st, "powi", &[a[0].clone(), (a[0].0, V::I(32, k as i32 as u32 as u128))]); } if k == 0.5 { return self.math(st, "sqrt", &a[..1]); }
                if k - k.floor() == 0.5 && k.abs() < 16.0 {
                    let r = self.math(st, "sqrt", &a[..1])?;
                    let i = k.floor() as i32;
                    let p = self.math(st, "powi", &[a[0].clone(), (a[0].0, V::I(32, i as u32 as u128))])?;
                    return self.binop(st, BinOp::FMul, a[0].0, &r, &p);
                }
            }
        }
        if n == "tan" && self.x.real {
            let s = self.math(st, "sin", a)?;
            let c = self.math(st, "cos", a)?;
            return self.binop(st, BinOp::FDiv, a[0].0, &s, &c);
        }
        if n == "atan" && self.x.real { return self.math(st, "atan2", &[a[0].clone(), (a[0].0, V::F64(1.0f64.to_bits()))]); }
        // normalise sin(-x), cos(-x)
        let nx = *self.x.node(x);
        if nx.op == Op::FNeg && n == "cos" { let v = self.v(nx.a[0]); return self.math(st, n, &[(a[0].0, v)]); }
        if nx.op == Op::FNeg && n == "sin" { let v = self.v(nx.a[0]); let r = self.math(st, n, &[(a[0].0, v)])?; let e = self.e(&r, 64); let r = self.x.fop(Op::FNeg, 0, e, NE); return Ok(self.v(r)); }
        if self.x.real {
            // sin(atan2(..)) etc. are related by side axioms in the translation; here fold the direct inverses
            if nx.op == Op::Uf {
                let inner = self.x.ufs[nx.k as usize].0.clone();
                match (n, inner.as_str()) { ("sin", "asin") | ("cos", "acos") => return Ok(self.v(nx.a[0])), _ => {} }
            }
        }
        let id = self.x.uf_id(n, a.len());
        let args: Vec<E> = match y { Some(y) => vec![x, y], None => vec![x] };
        let r = self.x.uf(id, &args);
        Ok(self.v(r))
    }

    fn external(&mut self, st: &mut State, n: &str, rt: TyId, a: &[(TyId, V)]) -> R<V> {
        let one = |me: &mut Self, i: usize| me.e(&a[i].1, 1);
        match n {
            // ---------------- harness interface
            "sv_u64" | "sv_u32" | "sv_u16" | "sv_u8" => {
                let w = match n { "sv_u64" => 64, "sv_u32" => 32, "sv_u16" => 16, _ => 8 };
                let V::I(_, tag) = a[0].1 else { return err("tag") };
                let s = self.x.sym(format!("t{tag}"), Sort::B(w));
                st.inputs.push((tag as u32, s));
                Ok(V::E(s))
            }
            "sv_f64" => {
                let V::I(_, tag) = a[0].1 else { return err("tag") };
                let s = if self.x.real { self.x.sym(format!("t{tag}"), Sort::F64) } else { let b = self.x.sym(format!("t{tag}"), Sort::B(64)); self.x.f_from_bits(b, Sort::F64) };
                st.inputs.push((tag as u32, s));
                Ok(V::E(s))
            }
            "sv_bytes" => {
                let V::I(_, tag) = a[2].1 else { return err("tag") };
                let p = self.conc(st, &a[0].1)? as u64;
                let len = self.conc(st, &a[1].1)? as u64;
                let t8 = self.m.types.borrow_mut().mk(Ty::Int(8));
                for i in 0..len {
                    let s = self.x.sym(format!("t{tag}"), Sort::B(8));
                    st.inputs.push((tag as u32, s));
                    self.store_at(st, p + i, t8, &V::E(s))?;
                }
                Ok(V::Undef)
            }
            "sv_uf" => {
                // sv_uf(tag, nargs, x, y, z)
                let V::I(_, tag) = a[0].1 else { return err("tag") };
                let V::I(_, na) = a[1].1 else { return err("nargs") };
                let id = self.x.uf_id(&format!("sig{tag}"), na as usize);
                let args: Vec<E> = (0..na as usize).map(|i| self.fe(&a[2 + i].1, a[2 + i].0)).collect();
                let r = self.x.uf(id, &args);
                st.ufcalls.push((tag as u32, args, r));
                Ok(V::E(r))
            }
            "sv_assume" => {
                let c = one(self, 0);
                match self.x.cv(c) { Some(1) => return Ok(V::Undef), Some(_) => return Err(Stop::Kill), None => {} }
                if self.eval(st, c) == Some(1) && !self.x.real { self.add_pc(st, c); return Ok(V::Undef); }
                match self.query(st, c, self.lim.check_ms) {
                    Res::Sat(m) => { st.model = Some(self.merged(st, m)); self.add_pc(st, c); Ok(V::Undef) }
                    Res::Unsat => Err(Stop::Kill),
                    Res::Unknown => { self.unknown_branches += 1; st.model = None; self.add_pc(st, c); Ok(V::Undef) }
                }
            }
            "sv_check" => {
                let c = one(self, 0);
                let V::I(_, id) = a[1].1 else { return err("check id") };
                let id = id as u32;
                let en = self.checks.entry(id).or_insert((0, 0));
                en.0 += 1;
                match self.x.cv(c) { Some(1) => return Ok(V::Undef), None => {}, Some(_) => { self.violation(st, None, "check", id, &format!("assertion {id} is false")); return Err(Stop::Kill); } }
                self.checks.get_mut(&id).unwrap().1 += 1;
                if st.pcset.contains(&c) { return Ok(V::Undef); }
                let nc = self.x.not(c);
                let q = self.slice(st, &[nc]);
                let mut decided = false;
                if self.x.real && crate::poly::refute(&mut self.x, &mut self.z, &q, true) { self.poly += 1; decided = true; }
                if !decided {
                    match self.z.check_t(&self.x, &q, true, self.lim.check_ms) {
                        Res::Unsat => {}
                        Res::Sat(_) => { self.violation(st, Some(nc), "check", id, &format!("assertion {id} can be false")); }
                        Res::Unknown => { let l = self.loc(st); if std::env::var("SV_TRACEQ").is_ok() { eprintln!("inconclusive check {id}: {}", self.x.show(nc, 8)); } self.inconclusive.push(format!("assertion {id} at {l}: no answer within {} ms", self.lim.check_ms)); }
                    }
                }
                // continue with the assertion assumed
                if !self.x.real || !decided { 
                    if self.eval(st, c) != Some(1) { match self.query(st, c, self.lim.branch_ms) { Res::Sat(m) => st.model = Some(self.merged(st, m)), Res::Unsat => return Err(Stop::Kill), Res::Unknown => st.model = None } }
                    self.add_pc(st, c);
                }
                Ok(V::Undef)
            }
            "sv_reach" => { let V::I(_, id) = a[0].1 else { return err("reach id") }; st.reach.push(id as u32); Ok(V::Undef) }
            "sv_out" => { st.outs.push(a[0].1.clone()); Ok(V::Undef) }
            "sv_outf" => { st.outs.push(a[0].1.clone()); Ok(V::Undef) }
            "sv_panic_ok" => { let c = self.conc(st, &a[0].1)?; st.panic_ok = c & 1 == 1; Ok(V::Undef) }
            "sv_stub_fmt" => { let c = self.conc(st, &a[0].1)?; st.stub_fmt = c & 1 == 1; Ok(V::Undef) }
            "sv_conc" => { let c = self.conc(st, &a[0].1)?; Ok(V::I(64, c)) }
            "sv_native" => Ok(V::I(32, 0)),
            "sv_decide" => { let c = one(self, 0); let b = self.decide(st, c)?; Ok(V::I(1, b as u128)) }
            // ---------------- libc / libm
            "malloc" => { let n = self.conc(st, &a[0].1)? as u64; if n > 1 << 28 { return err(format!("huge allocation {n}")); } Ok(V::I(64, self.alloc(st, n) as u128)) }
            "calloc" => { let n = self.conc(st, &a[0].1)? as u64 * self.conc(st, &a[1].1)? as u64; if n > 1 << 28 { return err(format!("huge allocation {n}")); } Ok(V::I(64, self.alloc(st, n) as u128)) }
            "posix_memalign" => {
                let n = self.conc(st, &a[2].1)? as u64;
                if n > 1 << 28 { return err("huge allocation"); }
                let p = self.alloc(st, n);
                let d = self.conc(st, &a[0].1)? as u64;
                let t = self.m.types.borrow_mut().mk(Ty::Int(64));
                self.store_at(st, d, t, &V::I(64, p as u128))?;
                Ok(V::I(32, 0))
            }
            "aligned_alloc" => { let n = self.conc(st, &a[1].1)? as u64; Ok(V::I(64, self.alloc(st, n) as u128)) }
            "realloc" => {
                let p = self.conc(st, &a[0].1)? as u64;
                let n = self.conc(st, &a[1].1)? as u64;
                if n > 1 << 28 { return err(format!("huge allocation {n}")); }
                let q = self.alloc(st, n);
                if p != 0 {
                    let old = self.obj(st, (p >> 32) as u32)?.data.len() as u64;
                    self.memcopy(st, q, p, old.min(n))?;
                    self.dealloc(st, p)?;
                }
                Ok(V::I(64, q as u128))
            }
            "free" => { let p = self.conc(st, &a[0].1)? as u64; if p != 0 { self.dealloc(st, p)?; } Ok(V::Undef) }
            "memcpy" | "memmove" => { let n = self.conc(st, &a[2].1)? as u64; let d = self.conc(st, &a[0].1)? as u64; let s = self.conc(st, &a[1].1)? as u64; self.memcopy(st, d, s, n)?; Ok(a[0].1.clone()) }
            "memcmp" | "bcmp" => {
                let n = self.conc(st, &a[2].1)? as u64;
                let t8 = self.m.types.borrow_mut().mk(Ty::Int(8));
                let rw = self.width(rt);
                let mut pairs = vec![];
                for i in 0..n {
                    let p = self.ibin(Op::Add, &a[0].1, &V::I(64, i as u128), 64);
                    let q = self.ibin(Op::Add, &a[1].1, &V::I(64, i as u128), 64);
                    let x = self.load(st, &p, t8)?;
                    let y = self.load(st, &q, t8)?;
                    pairs.push((x, y));
                }
                let mut acc = V::I(rw, 0);
                for (x, y) in pairs.into_iter().rev() {
                    let (ex, ey) = (self.e(&x, 8), self.e(&y, 8));
                    let eq = self.x.eq(ex, ey);
                    let lt = self.x.bin(Op::Ult, ex, ey);
                    let (m1, p1) = (self.x.c(rw, mask(rw)), self.x.c(rw, 1));
                    let ne = self.x.ite(lt, m1, p1);
                    let ne = self.v(ne);
                    let (ea, en) = (self.e(&acc, rw), self.e(&ne, rw));
                    let r = self.x.ite(eq, ea, en);
                    acc = self.v(r);
                }
                Ok(acc)
            }
            "strlen" => {
                let p = self.conc(st, &a[0].1)? as u64;
                let t8 = self.m.types.borrow_mut().mk(Ty::Int(8));
                let mut i = 0;
                loop { let v = self.load_at(st, p + i, t8)?; let c = self.conc(st, &v)?; if c == 0 { break; } i += 1; }
                Ok(V::I(64, i as u128))
            }
            "sin" | "cos" | "tan" | "exp" | "exp2" | "log" | "log10" | "log2" | "pow" | "asin" | "acos" | "atan" | "atan2" | "sinh" | "cosh" | "tanh" | "hypot" | "cbrt" | "fmod" | "sqrt" | "asinh" | "acosh" | "atanh" => self.math(st, n, a),
            "expm1" => self.math(st, "exp_m1", a),
            "log1p" => self.math(st, "ln_1p", a),
            "sincos" => err("sincos"),
            "getenv" => Ok(V::I(64, 0)),
            "syscall" | "getrandom" => {
                // randomness for HashMap keys: deterministic zeros
                let nr = self.conc(st, &a[0].1)?;
                if n == "syscall" && nr == 318 { let l = self.conc(st, &a[2].1)?; return Ok(V::I(64, l)); }
                if n == "getrandom" { let l = self.conc(st, &a[1].1)?; return Ok(V::I(64, l)); }
                Ok(V::I(64, 0))
            }
            "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_create" | "pthread_key_delete" | "close" | "gettid" => Ok(V::I(32, 0)),
            "write" => { Ok(a[2].1.clone()) }
            _ => err(format!("external function {n}")),
        }
    }
    fn dealloc(&mut self, st: &mut State, p: u64) -> R<()> {
        let i = ((p >> 32) as u32).wrapping_sub(HEAP0) as usize;
        match st.mem.get_mut(i) { Some(o) if o.is_some() => { *o = None; st.free.push(i as u32); Ok(()) } _ => err("invalid free") }
    }
}
fn clear(o: &mut Obj, off: usize, n: usize) { if let Some(s) = &mut o.sym { for b in &mut s[off..off + n] { *b = (NE, 0); } } }
fn insert(v: &V, ix: &[u32], nv: V) -> V {
    if ix.is_empty() { return nv; }
    let V::A(x) = v else { panic!("insert into non-aggregate") };
    let mut y = (**x).clone();
    y[ix[0] as usize] = insert(&y[ix[0] as usize], &ix[1..], nv);
    V::A(Rc::new(y))
}

fn pure_ins(i: &Ins) -> bool {
    match i {
        Ins::Bin(op, ..) => !matches!(op, BinOp::FDiv | BinOp::FRem),
        Ins::ICmp(..) | Ins::FCmp(..) | Ins::FNeg(..) | Ins::Cast(..) | Ins::Select(..) | Ins::ExtractValue(..) | Ins::InsertValue(..) | Ins::Freeze(..) | Ins::Gep(..) | Ins::Load(..) => true,
        Ins::Call(_, Callee::Intrin(n), _) => { let n = &n[5..]; ["umax", "umin", "smax", "smin", "abs", "uadd.", "usub.", "sadd.", "ssub.", "umul.", "fabs", "fshl", "bswap", "ctpop", "ctlz", "cttz", "minnum", "maxnum", "is.fpclass", "lifetime", "experimental.noalias", "floor", "ceil", "trunc", "round"].iter().any(|p| n.starts_with(p)) }
        _ => false,
    }
}
fn find_region(body: &Body, b: u32) -> Option<u32> {
    let succ = |x: u32| -> Option<Vec<u32>> {
        match &body.blocks[x as usize].ins.last()?.1 {
            Ins::Br(l) => Some(vec![*l]),
            Ins::CondBr(_, t, f) => Some(vec![*t, *f]),
            Ins::Switch(_, _, d, cs) => { if cs.len() > 12 { return None; } let mut v: Vec<u32> = cs.iter().map(|c| c.1).collect(); v.push(*d); v.sort_unstable(); v.dedup(); Some(v) }
            _ => None,
        }
    };
    let pure = |x: u32| -> bool { let n = body.blocks[x as usize].ins.len(); n <= 40 && body.blocks[x as usize].ins[..n - 1].iter().all(|(_, i)| pure_ins(i)) };
    fn reach(x: u32, j: u32, b: u32, d: u32, succ: &dyn Fn(u32) -> Option<Vec<u32>>, pure: &dyn Fn(u32) -> bool, dead: &dyn Fn(u32) -> bool) -> bool {
        if x == j { return true; }
        if dead(x) { return true; }
        if x == b || d == 0 || !pure(x) { return false; }
        match succ(x) { Some(v) => v.into_iter().all(|y| reach(y, j, b, d - 1, succ, pure, dead)), None => false }
    }
    let dead = |x: u32| matches!(body.blocks[x as usize].ins.last(), Some((_, Ins::Unreachable)));
    // breadth-first candidates
    let mut cand = vec![];
    let mut level = succ(b)?;
    for _ in 0..5 {
        let mut nx = vec![];
        for x in &level { if !cand.contains(x) && !dead(*x) { cand.push(*x); } if pure(*x) { if let Some(v) = succ(*x) { nx.extend(v); } } }
        nx.sort_unstable(); nx.dedup();
        if nx.len() > 16 { break; }
        level = nx;
    }
    let heads = succ(b)?;
    for j in cand {
        // at least two ways into the join, otherwise there is nothing to merge
        if heads.iter().filter(|h| !dead(**h)).count() < 2 { continue; }
        if heads.iter().all(|h| reach(*h, j, b, 6, &succ, &pure, &dead)) { return Some(j); }
    }
    None
}
