//! Hash-consed expression DAG with a simplifier and a concrete evaluator.
use rustc_hash::FxHashMap as HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    Const, Sym,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, ZExt, SExt, Extract, Concat,
    FFromBits, FBits,
    FAdd, FSub, FMul, FDiv, FRem, FNeg, FAbs, FSqrt,
    FRound, // k: 0 floor 1 ceil 2 trunc 3 nearest-even 4 nearest-away
    FEq, FLt, FLe, FNan,
    FToSI, FToUI, SIToF, UIToF, FExt, FTrunc,
    Uf, // k = function id, up to 3 args
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sort { B(u16), F64, F32 }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub sort: Sort,
    pub k: u128,
    pub a: [E; 3],
}

pub struct SymInfo { pub name: String, pub sort: Sort }

pub struct Ctx {
    pub n: Vec<Node>,
    idx: HashMap<Node, E>,
    pub syms: Vec<SymInfo>,
    pub ufs: Vec<(String, usize)>,
    ufidx: HashMap<String, u32>,
    /// per-node: sorted small list of symbols / ufs it depends on (index into `deps`)
    pub dep: Vec<u32>,
    pub deps: Vec<std::rc::Rc<Vec<u32>>>,
    depidx: HashMap<std::rc::Rc<Vec<u32>>, u32>,
    /// unsigned interval of every bit-vector node
    pub lo: Vec<u128>,
    pub hi: Vec<u128>,
    pub real: bool,
    pub selfcheck: bool,
    /// depth of nested exclusive-ors
    xd: Vec<u16>,
    lin: HashMap<E, std::rc::Rc<Vec<Row>>>,
    bits: Vec<(E, u16)>,
    bitidx: HashMap<(E, u16), u32>,
    symnode: HashMap<u32, E>,
}
/// exclusive-or of atom bits and a constant
#[derive(Clone, PartialEq, Debug)]
pub struct Row { v: Vec<u32>, k: bool }
impl Row {
    fn c(k: bool) -> Row { Row { v: vec![], k } }
    fn xor(&self, o: &Row) -> Row {
        let (a, b) = (&self.v, &o.v);
        let mut v = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j >= b.len() || (i < a.len() && a[i] < b[j]) { v.push(a[i]); i += 1; }
            else if i >= a.len() || b[j] < a[i] { v.push(b[j]); j += 1; }
            else { i += 1; j += 1; }
        }
        Row { v, k: self.k ^ o.k }
    }
}

pub const NE: E = u32::MAX;
pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
fn bitmask(v: u128) -> u128 { if v == 0 { 0 } else { u128::MAX >> v.leading_zeros() } }
pub fn sx(v: u128, w: u16) -> i128 { let s = 128 - w as u32; ((v as i128) << s) >> s }

#[derive(Clone, Default, Debug)]
pub struct Model {
    pub v: HashMap<u32, u128>,
    /// uf values: (fn id, args bits) -> value bits
    pub uf: HashMap<(u32, [u64; 3]), u64>,
    pub has_uf: bool,
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx { n: vec![], idx: HashMap::default(), syms: vec![], ufs: vec![], ufidx: HashMap::default(), dep: vec![], deps: vec![], lo: vec![], hi: vec![], depidx: HashMap::default(), real: false, selfcheck: std::env::var("SV_SELFCHECK").is_ok(), xd: vec![], lin: HashMap::default(), bits: vec![], bitidx: HashMap::default(), symnode: HashMap::default() };
        let e = std::rc::Rc::new(vec![]);
        c.deps.push(e.clone());
        c.depidx.insert(e, 0);
        c
    }
    pub fn uf_id(&mut self, name: &str, ar: usize) -> u32 {
        if let Some(&i) = self.ufidx.get(name) { return i; }
        let i = self.ufs.len() as u32;
        self.ufs.push((name.to_string(), ar));
        self.ufidx.insert(name.to_string(), i);
        i
    }
    pub fn node(&self, e: E) -> &Node { &self.n[e as usize] }
    pub fn sort(&self, e: E) -> Sort { self.n[e as usize].sort }
    pub fn w(&self, e: E) -> u16 { match self.sort(e) { Sort::B(w) => w, Sort::F64 => 64, Sort::F32 => 32 } }
    pub fn cv(&self, e: E) -> Option<u128> { let n = &self.n[e as usize]; if n.op == Op::Const { Some(n.k) } else { None } }
    fn dep_union(&mut self, x: u32, y: u32) -> u32 {
        if x == y || y == 0 { return x; }
        if x == 0 { return y; }
        let (a, b) = (self.deps[x as usize].clone(), self.deps[y as usize].clone());
        let mut v = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j >= b.len() || (i < a.len() && a[i] < b[j]) { v.push(a[i]); i += 1; }
            else if i >= a.len() || b[j] < a[i] { v.push(b[j]); j += 1; }
            else { v.push(a[i]); i += 1; j += 1; }
        }
        self.dep_intern(v)
    }
    fn dep_intern(&mut self, v: Vec<u32>) -> u32 {
        let r = std::rc::Rc::new(v);
        if let Some(&i) = self.depidx.get(&r) { return i; }
        let i = self.deps.len() as u32;
        self.deps.push(r.clone());
        self.depidx.insert(r, i);
        i
    }
    pub fn depset(&self, e: E) -> &std::rc::Rc<Vec<u32>> { &self.deps[self.dep[e as usize] as usize] }
    fn raw(&mut self, op: Op, sort: Sort, k: u128, a: [E; 3]) -> E {
        let nd = Node { op, sort, k, a };
        if let Some(&e) = self.idx.get(&nd) { return e; }
        let mut d = 0;
        if op == Op::Sym { d = self.dep_intern(vec![k as u32]); let id = self.n.len() as E; self.symnode.insert(k as u32, id); }
        if op == Op::Uf { d = self.dep_intern(vec![0x8000_0000 | k as u32]); }
        for x in a { if x != NE { let dx = self.dep[x as usize]; d = self.dep_union(d, dx); } }
        let e = self.n.len() as E;
        let (lo, hi) = self.interval(&nd);
        let xd = if matches!(sort, Sort::B(_)) {
            let mut d = 0;
            for y in a { if y != NE { d = d.max(self.xd[y as usize]); } }
            if op == Op::Xor || (op == Op::Ite && self.cv(a[1]).is_some() && self.cv(a[2]).is_some()) { d + 1 } else { d }
        } else { 0 };
        self.xd.push(xd);
        self.lo.push(lo);
        self.hi.push(hi);
        self.n.push(nd);
        self.dep.push(d);
        self.idx.insert(nd, e);
        e
    }
    fn interval(&self, n: &Node) -> (u128, u128) {
        let Sort::B(w) = n.sort else { return (0, u128::MAX) };
        let m = mask(w);
        let g = |i: usize| -> (u128, u128) { (self.lo[n.a[i] as usize], self.hi[n.a[i] as usize]) };
        match n.op {
            Op::Const => (n.k, n.k),
            Op::ZExt => g(0),
            Op::SExt => { let (l, h) = g(0); let iw = self.w(n.a[0]); if h < 1 << (iw - 1) { (l, h) } else { (0, m) } }
            Op::Add => { let ((a, b), (c, d)) = (g(0), g(1)); match b.checked_add(d) { Some(h) if h <= m => (a + c, h), _ => {
                // adding a constant that always wraps (subtraction of a small constant)
                if let (Some(l), Some(_)) = (a.checked_add(c), b.checked_add(d)) { if l > m { return ((l) & m, (b + d) & m); } }
                (0, m) } } }
            Op::Sub => { let ((a, b), (c, d)) = (g(0), g(1)); if a >= d { (a - d, b - c) } else { (0, m) } }
            Op::Mul => { let ((a, b), (c, d)) = (g(0), g(1)); match b.checked_mul(d) { Some(h) if h <= m => (a * c, h), _ => (0, m) } }
            Op::UDiv => { let ((a, b), (c, d)) = (g(0), g(1)); if c > 0 { (a / d, b / c) } else { (0, m) } }
            Op::URem => { let ((a, b), (c, d)) = (g(0), g(1)); if c > 0 { if b < c { (a, b) } else { (0, b.min(d - 1)) } } else { (0, m) } }
            Op::And => { let ((_, b), (_, d)) = (g(0), g(1)); (0, b.min(d)) }
            Op::Or => { let ((a, b), (c, d)) = (g(0), g(1)); (a.max(c), bitmask(b.max(d))) }
            Op::Xor => { let ((_, b), (_, d)) = (g(0), g(1)); (0, bitmask(b.max(d))) }
            Op::LShr => { let (_, b) = g(0); (0, b) }
            Op::Ite => { let ((a, b), (c, d)) = (g(1), g(2)); (a.min(c), b.max(d)) }
            Op::Concat => { let ((a, b), (c, d)) = (g(0), g(1)); let lw = self.w(n.a[1]); (a << lw | c, b << lw | d) }
            Op::Extract => { let (a, b) = g(0); let k = n.k as u32; if (a >> k) >> w as u32 == (b >> k) >> w as u32 || w >= 128 { let (x, y) = (a >> k & m, b >> k & m); if x <= y { return (x, y); } } (0, m) }
            _ => (0, m),
        }
    }
    pub fn range(&self, e: E) -> (u128, u128) { (self.lo[e as usize], self.hi[e as usize]) }
    pub fn c(&mut self, w: u16, v: u128) -> E { self.raw(Op::Const, Sort::B(w), v & mask(w), [NE; 3]) }
    pub fn f64c(&mut self, v: f64) -> E { self.raw(Op::Const, Sort::F64, v.to_bits() as u128, [NE; 3]) }
    pub fn f32c(&mut self, v: f32) -> E { self.raw(Op::Const, Sort::F32, v.to_bits() as u128, [NE; 3]) }
    pub fn constant(&mut self, s: Sort, bits: u128) -> E { self.raw(Op::Const, s, bits, [NE; 3]) }
    pub fn sym(&mut self, name: String, sort: Sort) -> E {
        let id = self.syms.len() as u128;
        self.syms.push(SymInfo { name, sort });
        self.raw(Op::Sym, sort, id, [NE; 3])
    }
    pub fn uf(&mut self, f: u32, args: &[E]) -> E {
        let mut a = [NE; 3];
        a[..args.len()].copy_from_slice(args);
        self.raw(Op::Uf, Sort::F64, f as u128, a)
    }
    pub fn not(&mut self, e: E) -> E { let one = self.c(1, 1); self.bin(Op::Xor, e, one) }
    pub fn tru(&mut self) -> E { self.c(1, 1) }
    pub fn eq(&mut self, a: E, b: E) -> E { self.bin(Op::Eq, a, b) }
    pub fn and1(&mut self, a: E, b: E) -> E { self.bin(Op::And, a, b) }
    pub fn or1(&mut self, a: E, b: E) -> E { self.bin(Op::Or, a, b) }

    /// Binary bit-vector op (comparison results have width 1).
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let r = self.bin_s(op, a, b);
        if self.selfcheck {
            let s = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { Sort::B(1) } else { self.sort(a) };
            let raw = self.raw(op, s, 0, [a, b, NE]);
            self.check_same(raw, r);
        }
        r
    }
    fn linear(&mut self, e: E) -> std::rc::Rc<Vec<Row>> {
        if let Some(r) = self.lin.get(&e) { return r.clone(); }
        let n = *self.node(e);
        let w = self.w(e);
        let z = || Row::c(false);
        let out: Option<Vec<Row>> = match n.op {
            Op::Const => Some((0..w).map(|i| Row::c(n.k >> i & 1 == 1)).collect()),
            Op::Xor => { let (a, b) = (self.linear(n.a[0]), self.linear(n.a[1])); Some((0..w as usize).map(|i| a[i].xor(&b[i])).collect()) }
            Op::And => match (self.cv(n.a[0]), self.cv(n.a[1])) {
                (_, Some(k)) => { let a = self.linear(n.a[0]); Some((0..w).map(|i| if k >> i & 1 == 1 { a[i as usize].clone() } else { z() }).collect()) }
                _ => None,
            },
            Op::Or => {
                let (a, b) = (self.linear(n.a[0]), self.linear(n.a[1]));
                let zero = |r: &Row| r.v.is_empty() && !r.k;
                if (0..w as usize).all(|i| zero(&a[i]) || zero(&b[i])) { Some((0..w as usize).map(|i| a[i].xor(&b[i])).collect()) } else { None }
            }
            Op::Shl | Op::LShr => match self.cv(n.a[1]) {
                Some(k) if k < w as u128 => { let a = self.linear(n.a[0]); let k = k as i32; Some((0..w as i32).map(|i| { let j = if n.op == Op::Shl { i - k } else { i + k }; if j >= 0 && j < w as i32 { a[j as usize].clone() } else { z() } }).collect()) }
                _ => None,
            },
            Op::ZExt => { let a = self.linear(n.a[0]); Some((0..w as usize).map(|i| a.get(i).cloned().unwrap_or_else(z)).collect()) }
            Op::SExt => { let a = self.linear(n.a[0]); Some((0..w as usize).map(|i| a.get(i).cloned().unwrap_or_else(|| a.last().unwrap().clone())).collect()) }
            Op::Extract => { let a = self.linear(n.a[0]); Some((0..w as usize).map(|i| a[i + n.k as usize].clone()).collect()) }
            Op::Concat => { let (h, l) = (self.linear(n.a[0]), self.linear(n.a[1])); Some(l.iter().chain(h.iter()).cloned().collect()) }
            Op::Ite => match (self.cv(n.a[1]), self.cv(n.a[2])) {
                (Some(t), Some(f)) => { let c = self.linear(n.a[0])[0].clone(); Some((0..w).map(|i| { let (x, y) = (t >> i & 1 == 1, f >> i & 1 == 1); let k = Row::c(y); if x != y { k.xor(&c) } else { k } }).collect()) }
                _ => {
                    let (t, f) = (self.linear(n.a[1]), self.linear(n.a[2]));
                    let d: Vec<Row> = (0..w as usize).map(|i| t[i].xor(&f[i])).collect();
                    if d.iter().all(|r| r.v.is_empty()) { let c = self.linear(n.a[0])[0].clone(); Some((0..w as usize).map(|i| if d[i].k { f[i].xor(&c) } else { f[i].clone() }).collect()) } else { None }
                }
            },
            Op::Eq if self.w(n.a[0]) == 1 => { let (a, b) = (self.linear(n.a[0]), self.linear(n.a[1])); Some(vec![a[0].xor(&b[0]).xor(&Row::c(true))]) }
            // comparison with a constant in which a single bit varies
            Op::Eq if self.cv(n.a[1]).is_some() => {
                let k = self.cv(n.a[1]).unwrap();
                let a = self.linear(n.a[0]);
                let var: Vec<usize> = (0..a.len()).filter(|i| !a[*i].v.is_empty()).collect();
                if (0..a.len()).any(|i| a[i].v.is_empty() && a[i].k != (k >> i & 1 == 1)) { Some(vec![Row::c(false)]) }
                else if var.len() == 1 { let i = var[0]; Some(vec![if k >> i & 1 == 1 { a[i].clone() } else { a[i].xor(&Row::c(true)) }]) } else { None }
            }
            // sign tests
            Op::Slt if self.cv(n.a[1]) == Some(0) => { let a = self.linear(n.a[0]); Some(vec![a.last().unwrap().clone()]) }
            _ => None,
        };
        let out = match out { None => self.table(e), o => o };
        let out = out.filter(|r| r.iter().all(|x| x.v.len() < 400)).unwrap_or_else(|| (0..w).map(|i| {
            let id = match self.bitidx.get(&(e, i)) { Some(x) => *x, None => { let x = self.bits.len() as u32; self.bits.push((e, i)); self.bitidx.insert((e, i), x); x } };
            Row { v: vec![id], k: false }
        }).collect());
        let r = std::rc::Rc::new(out);
        self.lin.insert(e, r.clone());
        r
    }
    /// affine bits of a function of one byte, by its truth table
    fn table(&mut self, e: E) -> Option<Vec<Row>> {
        if self.n[e as usize].op == Op::Sym { return None; }
        let d = self.depset(e).clone();
        if d.len() != 1 || d[0] & 0x8000_0000 != 0 || self.syms[d[0] as usize].sort != Sort::B(8) { return None; }
        let w = self.w(e);
        let mut t = Vec::with_capacity(256);
        for v in 0..256u128 {
            let mut m = Model::default();
            m.v.insert(d[0], v);
            t.push(self.eval(e, &m, &mut HashMap::default())?);
        }
        let sym = *self.symnode.get(&d[0])?;
        let sr = self.linear(sym);
        let mut out = vec![];
        for i in 0..w {
            let f = |x: usize| t[x] >> i & 1 == 1;
            let co: Vec<bool> = (0..8).map(|j| f(1 << j) ^ f(0)).collect();
            for x in 0..256usize { let mut p = f(0); for j in 0..8 { p ^= co[j] && x >> j & 1 == 1; } if p != f(x) { return None; } }
            let mut r = Row::c(f(0));
            for j in 0..8 { if co[j] { r = r.xor(&sr[j]); } }
            out.push(r);
        }
        Some(out)
    }
    /// a == b over GF(2): reduced row echelon form of the differences
    fn lineq(&mut self, a: E, b: E) -> Option<E> {
        if self.lin.len() > 20000 { self.lin.clear(); }
        let (x, y) = (self.linear(a), self.linear(b));
        let mut rows: Vec<Row> = vec![];
        for i in 0..x.len() {
            let mut r = x[i].xor(&y[i]);
            for q in &rows { if r.v.contains(&q.v[0]) { r = r.xor(q); } }
            if r.v.is_empty() { if r.k { return Some(self.c(1, 0)); } continue; }
            for q in rows.iter_mut() { if q.v.contains(&r.v[0]) { *q = q.xor(&r); } }
            rows.push(r);
        }
        rows.sort_by(|a, b| a.v.cmp(&b.v));
        let mut out = self.c(1, 1);
        for r in rows {
            let mut t = self.c(1, !r.k as u128);
            for id in r.v { let (e, i) = self.bits[id as usize]; let bit = if self.w(e) == 1 { e } else { self.extract(e, i, 1) }; t = self.bin(Op::Xor, t, bit); }
            out = self.bin(Op::And, out, t);
        }
        Some(out)
    }
    fn bin_s(&mut self, op: Op, mut a: E, mut b: E) -> E {
        use Op::*;
        let w = self.w(a);
        if op == Eq && w >= 16 && self.xd[a as usize].max(self.xd[b as usize]) >= 8 { if let Some(r) = self.lineq(a, b) { return r; } }
        debug_assert!(self.w(b) == w, "width mismatch {op:?} {} {}", w, self.w(b));
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let (rw, v) = eval_bin(op, w, x, y);
            return self.c(rw, v);
        }
        // canonical: constant on the right for commutative ops
        if matches!(op, Add | Mul | And | Or | Xor | Eq) {
            if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        let m = mask(w);
        let cb = self.cv(b);
        let ca = self.cv(a);
        let na = *self.node(a);
        match op {
            Add => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    if na.op == Add { if let Some(x) = self.cv(na.a[1]) { let k = self.c(w, x.wrapping_add(y)); return self.bin(Add, na.a[0], k); } }
                    if na.op == Ite && (self.cv(na.a[1]).is_some() && self.cv(na.a[2]).is_some()) { return self.ite_map(op, na, b); }
                } else {
                    let nb = *self.node(b);
                    // (x + c) + y -> (x+y)+c
                    if na.op == Add && self.cv(na.a[1]).is_some() { let s = self.bin(Add, na.a[0], b); return self.bin(Add, s, na.a[1]); }
                    if nb.op == Add && self.cv(nb.a[1]).is_some() { let s = self.bin(Add, a, nb.a[0]); return self.bin(Add, s, nb.a[1]); }
                    // x + (y - x)
                    if nb.op == Sub && nb.a[1] == a { return nb.a[0]; }
                    if na.op == Sub && na.a[1] == b { return na.a[0]; }
                }
            }
            Sub => {
                if a == b { return self.c(w, 0); }
                if let Some(y) = cb { let k = self.c(w, y.wrapping_neg()); return self.bin(Add, a, k); }
                let nb = *self.node(b);
                if na.op == Add && na.a[0] == b { return na.a[1]; }
                if na.op == Add && na.a[1] == b { return na.a[0]; }
                if nb.op == Add && (nb.a[0] == a || nb.a[1] == a) { let o = if nb.a[0] == a { nb.a[1] } else { nb.a[0] }; let z = self.c(w, 0); return self.bin(Sub, z, o); }
                if na.op == Add && nb.op == Add && self.cv(na.a[1]).is_some() && self.cv(nb.a[1]).is_some() {
                    let k = self.bin(Sub, na.a[1], nb.a[1]);
                    let d = self.bin(Sub, na.a[0], nb.a[0]);
                    return self.bin(Add, d, k);
                }
            }
            Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(y) = cb {
                    if y.is_power_of_two() { let k = self.c(w, y.trailing_zeros() as u128); return self.bin(Shl, a, k); }
                    if na.op == Ite && (self.cv(na.a[1]).is_some() && self.cv(na.a[2]).is_some()) { return self.ite_map(op, na, b); }
                }
            }
            UDiv => {
                if cb == Some(1) { return a; }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.c(w, y.trailing_zeros() as u128); return self.bin(LShr, a, k); }
                    if let Some((x, nw)) = self.narrow(a) { if nw < w && y <= mask(nw) { let k = self.c(nw, y); let d = self.bin(UDiv, x, k); return self.zext(d, w); } else if y > mask(nw) { return self.c(w, 0); } } }
            }
            URem => {
                if cb == Some(1) { return self.c(w, 0); }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.c(w, y - 1); return self.bin(And, a, k); }
                    if let Some((x, nw)) = self.narrow(a) { if nw < w && y <= mask(nw) { let k = self.c(nw, y); let d = self.bin(URem, x, k); return self.zext(d, w); } else if y > mask(nw) { return a; } } }
            }
            And => {
                if a == b { return a; }
                if cb == Some(0) { return b; }
                if cb == Some(m) { return a; }
                if let Some(y) = cb {
                    // zext(x) & c where c covers
                    if na.op == ZExt { let iw = self.w(na.a[0]); if y & mask(iw) == mask(iw) { return a; } let k = self.c(iw, y & mask(iw)); let r = self.bin(And, na.a[0], k); return self.zext(r, w); }
                    if na.op == And { if let Some(x) = self.cv(na.a[1]) { let k = self.c(w, x & y); return self.bin(And, na.a[0], k); } }
                    // low mask => zext(extract)
                    if w > 1 && (y + 1).is_power_of_two() { let lw = (y + 1).trailing_zeros() as u16; let x = self.extract(a, 0, lw); return self.zext(x, w); }
                    if na.op == Ite && self.cv(na.a[1]).is_some() && self.cv(na.a[2]).is_some() { return self.ite_map(op, na, b); }
                }
                if w == 1 {
                    if self.is_not(a, b) { return self.c(1, 0); }
                    // (x & y) & x
                    if na.op == And && (na.a[0] == b || na.a[1] == b) { return a; }
                    let nb = *self.node(b);
                    if nb.op == And && (nb.a[0] == a || nb.a[1] == a) { return b; }
                }
            }
            Or => {
                if a == b { return a; }
                if cb == Some(0) { return a; }
                if cb == Some(m) { return b; }
                if let Some(r) = self.or_concat(a, b) { return r; }
                if w == 1 { if self.is_not(a, b) { return self.c(1, 1); }
                    if na.op == Or && (na.a[0] == b || na.a[1] == b) { return a; }
                    let nb = *self.node(b);
                    if nb.op == Or && (nb.a[0] == a || nb.a[1] == a) { return b; }
                }
                if cb.is_some() && na.op == Ite && self.cv(na.a[1]).is_some() && self.cv(na.a[2]).is_some() { return self.ite_map(op, na, b); }
            }
            Xor => {
                if a == b { return self.c(w, 0); }
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    if na.op == Xor { if let Some(x) = self.cv(na.a[1]) { let k = self.c(w, x ^ y); return self.bin(Xor, na.a[0], k); } }
                    if na.op == ZExt && y <= mask(self.w(na.a[0])) { let iw = self.w(na.a[0]); let k = self.c(iw, y); let r = self.bin(Xor, na.a[0], k); return self.zext(r, w); }
                    if na.op == Ite && self.cv(na.a[1]).is_some() && self.cv(na.a[2]).is_some() { return self.ite_map(op, na, b); }
                    if w == 1 {
                        // not(a<b) -> b<=a
                        match na.op {
                            Ult => return self.bin(Ule, na.a[1], na.a[0]),
                            Ule => return self.bin(Ult, na.a[1], na.a[0]),
                            Slt => return self.bin(Sle, na.a[1], na.a[0]),
                            Sle => return self.bin(Slt, na.a[1], na.a[0]),
                            _ => {}
                        }
                    }
                }
            }
            Shl => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    if y >= w as u128 { return self.c(w, 0); }
                    let y = y as u16;
                    let x = self.extract(a, 0, w - y);
                    let z = self.c(y, 0);
                    return self.concat(x, z);
                }
                if ca == Some(0) { return a; }
            }
            LShr => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    if y >= w as u128 { return self.c(w, 0); }
                    let y = y as u16;
                    let x = self.extract(a, y, w - y);
                    return self.zext(x, w);
                }
                if ca == Some(0) { return a; }
            }
            AShr => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    let y = (y.min(w as u128 - 1)) as u16;
                    let x = self.extract(a, y, w - y);
                    return self.sext(x, w);
                }
            }
            Eq => {
                if a == b { return self.c(1, 1); }
                { let ((al, ah), (bl, bh)) = (self.range(a), self.range(b)); if ah < bl || bh < al { return self.c(1, 0); } }
                if let Some(y) = cb {
                    if w == 1 { return if y == 1 { a } else { self.not(a) }; }
                    match na.op {
                        ZExt => { let iw = self.w(na.a[0]); if y > mask(iw) { return self.c(1, 0); } let k = self.c(iw, y); return self.bin(Eq, na.a[0], k); }
                        SExt => { let iw = self.w(na.a[0]); let t = y & mask(iw); if (sx(t, iw) as u128) & m != y { return self.c(1, 0); } let k = self.c(iw, t); return self.bin(Eq, na.a[0], k); }
                        Add => if let Some(x) = self.cv(na.a[1]) { let k = self.c(w, y.wrapping_sub(x)); return self.bin(Eq, na.a[0], k); },
                        Xor => if let Some(x) = self.cv(na.a[1]) { let k = self.c(w, y ^ x); return self.bin(Eq, na.a[0], k); },
                        Concat => {
                            let lw = self.w(na.a[1]);
                            let hw = self.w(na.a[0]);
                            let kl = self.c(lw, y & mask(lw));
                            let kh = self.c(hw, y >> lw);
                            let l = self.bin(Eq, na.a[1], kl);
                            let h = self.bin(Eq, na.a[0], kh);
                            return self.bin(And, l, h);
                        }
                        Ite => {
                            let (t, f) = (na.a[1], na.a[2]);
                            if self.cv(t).is_some() || self.cv(f).is_some() {
                                let et = self.bin(Eq, t, b);
                                let ef = self.bin(Eq, f, b);
                                return self.ite(na.a[0], et, ef);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let nb = *self.node(b);
                    if na.op == ZExt && nb.op == ZExt && self.w(na.a[0]) == self.w(nb.a[0]) { return self.bin(Eq, na.a[0], nb.a[0]); }
                    if w == 1 && self.is_not(a, b) { return self.c(1, 0); }
                }
            }
            Ult => {
                if a == b { return self.c(1, 0); }
                let ((al, ah), (bl, bh)) = (self.range(a), self.range(b));
                if ah < bl { return self.c(1, 1); }
                if al >= bh { return self.c(1, 0); }
                if cb == Some(0) { return self.c(1, 0); }
                if ca == Some(m) { return self.c(1, 0); }
                if cb == Some(1) { let z = self.c(w, 0); return self.bin(Eq, a, z); }
                if let Some(r) = self.ucmp_const(op, a, b) { return r; }
                if let Some((p, q)) = self.cancel(a, b) { return self.bin(op, p, q); }
            }
            Ule => {
                if a == b { return self.c(1, 1); }
                let ((al, ah), (bl, bh)) = (self.range(a), self.range(b));
                if ah <= bl { return self.c(1, 1); }
                if al > bh { return self.c(1, 0); }
                if ca == Some(0) || cb == Some(m) { return self.c(1, 1); }
                if cb == Some(0) { return self.bin(Eq, a, b); }
                if let Some(r) = self.ucmp_const(op, a, b) { return r; }
                if let Some((p, q)) = self.cancel(a, b) { return self.bin(op, p, q); }
            }
            Slt | Sle => {
                if a == b { return self.c(1, (op == Sle) as u128); }
                // both known non-negative -> unsigned
                let sm = 1u128 << (w - 1);
                let neg = |me: &Ctx, x: E| me.range(x).0 >= sm;
                if (self.nonneg(a) && neg(self, b)) || (neg(self, a) && self.nonneg(b)) { let r = neg(self, a); return self.c(1, r as u128); }
                if (self.nonneg(a) && self.nonneg(b)) || (neg(self, a) && neg(self, b)) { return self.bin(if op == Slt { Ult } else { Ule }, a, b); }
                if let Some(y) = cb { if na.op == Ite && self.cv(na.a[1]).is_some() && self.cv(na.a[2]).is_some() { let _ = y; return self.ite_map(op, na, b); } 
                    if na.op == SExt { let iw = self.w(na.a[0]); let t = y & mask(iw); if (sx(t, iw) as u128) & m == y { let k = self.c(iw, t); return self.bin(op, na.a[0], k); } } }
            }
            _ => {}
        }
        if op == Add && w > 1 && cb.is_none() {
            // canonical association: left-deep chain of sorted addends
            let mut v = vec![];
            self.flat(a, &mut v);
            self.flat(b, &mut v);
            if v.len() > 2 && v.len() <= 160 {
                v.sort_unstable();
                let mut acc = v[0];
                for t in &v[1..] { let (p, q) = if acc < *t || self.node(acc).op == Add { (acc, *t) } else { (*t, acc) }; acc = self.raw(Add, Sort::B(w), 0, [p, q, NE]); }
                return acc;
            }
        }
        let s = if matches!(op, Eq | Ult | Ule | Slt | Sle) { Sort::B(1) } else { Sort::B(w) };
        self.raw(op, s, 0, [a, b, NE])
    }
    fn flatc(&self, e: E, out: &mut Vec<E>) {
        let n = self.node(e);
        if n.op == Op::Add && self.cv(n.a[1]).is_some() { self.flat(n.a[0], out); out.push(n.a[1]); } else { self.flat(e, out); }
    }
    fn flat(&self, e: E, out: &mut Vec<E>) {
        let n = self.node(e);
        if n.op == Op::Add && out.len() < 200 && self.cv(n.a[1]).is_none() { let (p, q) = (n.a[0], n.a[1]); self.flat(p, out); self.flat(q, out); } else { out.push(e); }
    }
    /// addends of a sum that cannot wrap
    fn addends(&self, e: E, out: &mut Vec<E>, depth: u32) -> bool {
        let n = *self.node(e);
        if n.op == Op::Add && depth > 0 {
            let (h0, h1) = (self.hi[n.a[0] as usize], self.hi[n.a[1] as usize]);
            if h0.checked_add(h1).map(|v| v <= mask(self.w(e))).unwrap_or(false) { return self.addends(n.a[0], out, depth - 1) && self.addends(n.a[1], out, depth - 1); }
        }
        out.push(e);
        out.len() < 200
    }
    fn cancel(&mut self, a: E, b: E) -> Option<(E, E)> {
        if self.node(a).op != Op::Add && self.node(b).op != Op::Add { return None; }
        let (mut x, mut y) = (vec![], vec![]);
        if !self.addends(a, &mut x, 100) || !self.addends(b, &mut y, 100) { return None; }
        if x.len() == 1 && y.len() == 1 { return None; }
        let mut any = false;
        let mut i = 0;
        while i < x.len() {
            if let Some(j) = y.iter().position(|v| *v == x[i]) { y.swap_remove(j); x.swap_remove(i); any = true; } else { i += 1; }
        }
        if !any { return None; }
        let w = self.w(a);
        let sum = |me: &mut Ctx, v: Vec<E>| { let mut acc = me.c(w, 0); for t in v { acc = me.bin(Op::Add, acc, t); } acc };
        let (p, q) = (sum(self, x), sum(self, y));
        Some((p, q))
    }
    fn ite_map(&mut self, op: Op, n: Node, b: E) -> E {
        let t = self.bin(op, n.a[1], b);
        let f = self.bin(op, n.a[2], b);
        self.ite(n.a[0], t, f)
    }
    fn is_not(&self, a: E, b: E) -> bool {
        let t = |x: E, y: E| { let n = self.node(x); n.op == Op::Xor && n.a[0] == y && self.cv(n.a[1]) == Some(1) };
        if self.w(a) != 1 { return false; }
        if t(a, b) || t(b, a) { return true; }
        // a<b vs b<=a
        let (x, y) = (self.node(a), self.node(b));
        let p = |p: &Node, q: &Node| ((p.op == Op::Ult && q.op == Op::Ule) || (p.op == Op::Slt && q.op == Op::Sle)) && p.a[0] == q.a[1] && p.a[1] == q.a[0];
        p(x, y) || p(y, x)
    }
    fn nonneg(&self, e: E) -> bool { self.hi[e as usize] >> (self.w(e) - 1) == 0 }
    /// if e is zero-extended from a narrower value
    fn narrow(&mut self, e: E) -> Option<(E, u16)> {
        let n = *self.node(e);
        if n.op == Op::ZExt { return Some((n.a[0], self.w(n.a[0]))); }
        let bl = (128 - self.hi[e as usize].leading_zeros()).max(1) as u16;
        if bl < self.w(e) { Some((self.extract(e, 0, bl), bl)) } else { None }
    }
    fn ucmp_const(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let (na, nb) = (*self.node(a), *self.node(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a[0]) == self.w(nb.a[0]) { return Some(self.bin(op, na.a[0], nb.a[0])); }
        if let Some(y) = self.cv(b) {
            if na.op == Op::ZExt {
                let iw = self.w(na.a[0]);
                if y > mask(iw) { return Some(self.c(1, 1)); }
                let k = self.c(iw, y);
                return Some(self.bin(op, na.a[0], k));
            }
            if na.op == Op::Ite && self.cv(na.a[1]).is_some() && self.cv(na.a[2]).is_some() { return Some(self.ite_map(op, na, b)); }
            let _ = w;
        }
        if let Some(x) = self.cv(a) {
            if nb.op == Op::ZExt {
                let iw = self.w(nb.a[0]);
                if x > mask(iw) { return Some(self.c(1, 0)); }
                let k = self.c(iw, x);
                return Some(self.bin(op, k, nb.a[0]));
            }
            if nb.op == Op::Ite && self.cv(nb.a[1]).is_some() && self.cv(nb.a[2]).is_some() {
                let t = self.bin(op, a, nb.a[1]);
                let f = self.bin(op, a, nb.a[2]);
                return Some(self.ite(nb.a[0], t, f));
            }
        }
        None
    }
    /// `or` of disjoint concat/zext pieces -> concat
    fn or_concat(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w == 1 { return None; }
        // view as list of (piece or zero) from high to low
        let zl = |c: &Ctx, e: E| -> u16 { // number of known-zero low bits
            let n = c.node(e);
            match n.op { Op::Concat if c.cv(n.a[1]) == Some(0) => c.w(n.a[1]), _ => 0 }
        };
        let hz = |c: &Ctx, e: E| -> u16 { // significant width
            let n = c.node(e);
            match n.op { Op::ZExt => c.w(n.a[0]), Op::Const => (128 - n.k.leading_zeros()) as u16, _ => c.w(e) }
        };
        for (x, y) in [(a, b), (b, a)] {
            let z = zl(self, x);
            if z > 0 && hz(self, y) <= z {
                let nx = *self.node(x);
                let lo = self.extract(y, 0, z);
                return Some(self.concat(nx.a[0], lo));
            }
            // zext(concat(h,0..)) | zext small
            let nx = *self.node(x);
            if nx.op == Op::ZExt {
                let iw = self.w(nx.a[0]);
                let z = zl(self, nx.a[0]);
                if z > 0 && hz(self, y) <= z {
                    let lo = self.extract(y, 0, iw);
                    let r = self.bin(Op::Or, nx.a[0], lo);
                    return Some(self.zext(r, w));
                }
            }
        }
        // Both have low zeros
        let (za, zb) = (zl(self, a), zl(self, b));
        let z = za.min(zb);
        if z > 0 {
            let x = self.extract(a, z, w - z);
            let y = self.extract(b, z, w - z);
            let r = self.bin(Op::Or, x, y);
            let zero = self.c(z, 0);
            return Some(self.concat(r, zero));
        }
        None
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(k) = self.cv(c) { return if k == 1 { t } else { f }; }
        if t == f { return t; }
        let s = self.sort(t);
        if s == Sort::B(1) {
            match (self.cv(t), self.cv(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Op::Or, c, f),
                (Some(0), _) => { let n = self.not(c); return self.bin(Op::And, n, f); }
                (_, Some(0)) => return self.bin(Op::And, c, t),
                (_, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, t); }
                _ => {}
            }
        }
        let nc = *self.node(c);
        if nc.op == Op::Xor && self.cv(nc.a[1]) == Some(1) { return self.ite(nc.a[0], f, t); }
        let nf = *self.node(f);
        if nf.op == Op::Ite && nf.a[1] == t { let o = self.bin(Op::Or, c, nf.a[0]); return self.ite(o, t, nf.a[2]); }
        if nf.op == Op::Ite && nf.a[0] == c { return self.ite(c, t, nf.a[2]); }
        let nt = *self.node(t);
        if nt.op == Op::Ite && nt.a[0] == c { return self.ite(c, nt.a[1], f); }
        if matches!(s, Sort::B(_)) && (nt.op == Op::Add || nf.op == Op::Add) {
            // common addends out of the branches
            let (mut x, mut y) = (vec![], vec![]);
            self.flatc(t, &mut x);
            self.flatc(f, &mut y);
            let mut com = vec![];
            let mut i = 0;
            while i < x.len() { if let Some(j) = y.iter().position(|v| *v == x[i]) { com.push(x.swap_remove(i)); y.swap_remove(j); } else { i += 1; } }
            if !com.is_empty() {
                let w = self.w(t);
                let (mut p, mut q) = (self.c(w, 0), self.c(w, 0));
                for v in x { p = self.bin(Op::Add, p, v); }
                for v in y { q = self.bin(Op::Add, q, v); }
                let mut r = self.ite(c, p, q);
                for v in com { r = self.bin(Op::Add, r, v); }
                return r;
            }
        }
        if matches!(s, Sort::B(x) if x > 1 && x <= 64) && !(self.is_ctree(t, 8) && self.is_ctree(f, 8)) {
            let k = self.off(t, 8).min(self.off(f, 8));
            if k > 0 {
                let w = self.w(t);
                let (p, q) = (self.sub_off(t, k), self.sub_off(f, k));
                let r = self.ite(c, p, q);
                let kc = self.c(w, k);
                return self.bin(Op::Add, r, kc);
            }
        }
        self.raw(Op::Ite, s, 0, [c, t, f])
    }
    fn is_ctree(&self, e: E, d: u32) -> bool { let n = self.node(e); n.op == Op::Const || (n.op == Op::Ite && d > 0 && self.is_ctree(n.a[1], d - 1) && self.is_ctree(n.a[2], d - 1)) }
    /// constant offset of an expression (least leaf of a tree of constants)
    fn off(&self, e: E, d: u32) -> u128 {
        let n = self.node(e);
        match n.op {
            Op::Const => n.k,
            Op::Add => self.cv(n.a[1]).unwrap_or(0),
            Op::Ite if d > 0 && self.is_ctree(e, d) => self.off(n.a[1], d - 1).min(self.off(n.a[2], d - 1)),
            _ => 0,
        }
    }
    fn sub_off(&mut self, e: E, k: u128) -> E {
        let n = *self.node(e);
        let w = self.w(e);
        match n.op {
            Op::Ite => { let p = self.sub_off(n.a[1], k); let q = self.sub_off(n.a[2], k); self.ite(n.a[0], p, q) }
            _ => { let kc = self.c(w, k.wrapping_neg() & mask(w)); self.bin(Op::Add, e, kc) }
        }
    }
    pub fn zext(&mut self, e: E, w: u16) -> E {
        let iw = self.w(e);
        if iw == w { return e; }
        assert!(iw < w);
        if let Some(v) = self.cv(e) { return self.c(w, v); }
        let n = *self.node(e);
        if n.op == Op::ZExt { return self.zext(n.a[0], w); }
        if n.op == Op::Ite && self.cv(n.a[1]).is_some() && self.cv(n.a[2]).is_some() {
            let t = self.zext(n.a[1], w);
            let f = self.zext(n.a[2], w);
            return self.ite(n.a[0], t, f);
        }
        self.raw(Op::ZExt, Sort::B(w), 0, [e, NE, NE])
    }
    pub fn sext(&mut self, e: E, w: u16) -> E {
        let iw = self.w(e);
        if iw == w { return e; }
        if let Some(v) = self.cv(e) { return self.c(w, sx(v, iw) as u128); }
        let n = *self.node(e);
        if n.op == Op::ZExt { return self.zext(n.a[0], w); }
        if n.op == Op::SExt { return self.sext(n.a[0], w); }
        if n.op == Op::Ite && self.cv(n.a[1]).is_some() && self.cv(n.a[2]).is_some() {
            let t = self.sext(n.a[1], w);
            let f = self.sext(n.a[2], w);
            return self.ite(n.a[0], t, f);
        }
        self.raw(Op::SExt, Sort::B(w), 0, [e, NE, NE])
    }
    pub fn extract(&mut self, e: E, lo: u16, w: u16) -> E {
        let r = self.extract_s(e, lo, w);
        if self.selfcheck && w > 0 {
            let raw = self.raw(Op::Extract, Sort::B(w), lo as u128, [e, NE, NE]);
            self.check_same(raw, r);
        }
        r
    }
    fn extract_s(&mut self, e: E, lo: u16, w: u16) -> E {
        let iw = self.w(e);
        assert!(lo + w <= iw && w > 0);
        if lo == 0 && w == iw { return e; }
        if let Some(v) = self.cv(e) { return self.c(w, v >> lo); }
        let n = *self.node(e);
        match n.op {
            Op::Extract => return self.extract(n.a[0], lo + n.k as u16, w),
            Op::ZExt => {
                let jw = self.w(n.a[0]);
                if lo >= jw { return self.c(w, 0); }
                if lo + w <= jw { return self.extract(n.a[0], lo, w); }
                let x = self.extract(n.a[0], lo, jw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let jw = self.w(n.a[0]);
                if lo + w <= jw { return self.extract(n.a[0], lo, w); }
                if lo < jw { let x = self.extract(n.a[0], lo, jw - lo); return self.sext(x, w); }
                let x = self.extract(n.a[0], jw - 1, 1);
                return self.sext(x, w);
            }
            Op::Concat => {
                let lw = self.w(n.a[1]);
                if lo >= lw { return self.extract(n.a[0], lo - lw, w); }
                if lo + w <= lw { return self.extract(n.a[1], lo, w); }
                let l = self.extract(n.a[1], lo, lw - lo);
                let h = self.extract(n.a[0], 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                if self.cv(n.a[1]).is_some() || iw <= 64 && (w == 1) {
                    let x = self.extract(n.a[0], lo, w);
                    let y = self.extract(n.a[1], lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a[0], 0, w);
                let y = self.extract(n.a[1], 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.cv(n.a[1]).is_some() || self.cv(n.a[2]).is_some() {
                    let t = self.extract(n.a[1], lo, w);
                    let f = self.extract(n.a[2], lo, w);
                    return self.ite(n.a[0], t, f);
                }
            }
            _ => {}
        }
        self.raw(Op::Extract, Sort::B(w), lo as u128, [e, NE, NE])
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(a), Some(b)) = (self.cv(h), self.cv(l)) { return self.c(w, a << lw | b); }
        if self.cv(h) == Some(0) { return self.zext(l, w); }
        let (nh, nl) = (*self.node(h), *self.node(l));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a[0] == nl.a[0] && nh.k == nl.k + lw as u128 {
            return self.extract(nh.a[0], nl.k as u16, w);
        }
        // concat(extract(x, lw, hw), x[0..lw]) where l is itself x's low part given as ZExt etc.
        if nh.op == Op::ZExt { let x = self.concat(nh.a[0], l); return self.zext(x, w); }
        // concat(h, concat(m, l)) -> right-assoc merge if h,m are adjacent extracts
        if nl.op == Op::Concat {
            let m = *self.node(nl.a[0]);
            if nh.op == Op::Extract && m.op == Op::Extract && nh.a[0] == m.a[0] && nh.k == m.k + self.w(nl.a[0]) as u128 {
                let hm = self.extract(nh.a[0], m.k as u16, hw + self.w(nl.a[0]));
                return self.concat(hm, nl.a[1]);
            }
        }
        self.raw(Op::Concat, Sort::B(w), 0, [h, l, NE])
    }

    // ------------------------------------------------------------ floats
    pub fn f_from_bits(&mut self, b: E, s: Sort) -> E {
        if let Some(v) = self.cv(b) { return self.constant(s, v); }
        let n = *self.node(b);
        if n.op == Op::FBits && self.sort(n.a[0]) == s { return n.a[0]; }
        if n.op == Op::Ite && !self.real {
            let t = self.f_from_bits(n.a[1], s);
            let f = self.f_from_bits(n.a[2], s);
            return self.ite(n.a[0], t, f);
        }
        self.raw(Op::FFromBits, s, 0, [b, NE, NE])
    }
    pub fn f_bits(&mut self, f: E) -> E {
        let w = self.w(f);
        if let Some(v) = self.cv(f) { return self.c(w, v); }
        let n = *self.node(f);
        if n.op == Op::FFromBits { return n.a[0]; }
        if n.op == Op::Ite {
            let t = self.f_bits(n.a[1]);
            let e = self.f_bits(n.a[2]);
            return self.ite(n.a[0], t, e);
        }
        // sign manipulation stays in bits (exact)
        if !self.real && n.op == Op::FNeg { let b = self.f_bits(n.a[0]); let k = self.c(w, 1u128 << (w - 1)); return self.bin(Op::Xor, b, k); }
        if !self.real && n.op == Op::FAbs { let b = self.f_bits(n.a[0]); let k = self.c(w, mask(w - 1)); return self.bin(Op::And, b, k); }
        self.raw(Op::FBits, Sort::B(w), 0, [f, NE, NE])
    }
    pub fn fop(&mut self, op: Op, k: u128, a: E, b: E) -> E {
        let s = self.sort(a);
        let cmp = matches!(op, Op::FEq | Op::FLt | Op::FLe | Op::FNan);
        let rs = if cmp { Sort::B(1) } else { s };
        let ca = self.cv(a);
        let cb = if b == NE { Some(0) } else { self.cv(b) };
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = eval_f(op, k, s, x, y);
            return self.constant(rs, v);
        }
        let na = *self.node(a);
        if self.real {
            let fc = |c: Option<u128>| c.map(|v| f64::from_bits(v as u64));
            let (fa, fb) = (fc(ca), if b == NE { None } else { fc(cb) });
            match op {
                Op::FNan => return self.c(1, 0),
                Op::FAdd => { if fb == Some(0.0) { return a; } if fa == Some(0.0) { return b; } }
                Op::FSub => { if fb == Some(0.0) { return a; } if a == b { return self.f64c(0.0); } if fa == Some(0.0) { return self.fop(Op::FNeg, 0, b, NE); } }
                Op::FMul => {
                    if fb == Some(0.0) { return b; } if fa == Some(0.0) { return a; }
                    if fb == Some(1.0) { return a; } if fa == Some(1.0) { return b; }
                    if fb == Some(-1.0) { return self.fop(Op::FNeg, 0, a, NE); }
                    if fa == Some(-1.0) { return self.fop(Op::FNeg, 0, b, NE); }
                }
                Op::FDiv => { if fb == Some(1.0) { return a; } if fa == Some(0.0) { return a; } }
                Op::FLt | Op::FLe | Op::FEq => {
                    // infinities/NaN constants: every symbolic real is finite
                    if let Some(y) = fb { if y.is_nan() { return self.c(1, 0); } if y.is_infinite() { return self.c(1, (op != Op::FEq && y > 0.0) as u128); } }
                    if let Some(x) = fa { if x.is_nan() { return self.c(1, 0); } if x.is_infinite() { return self.c(1, (op != Op::FEq && x < 0.0) as u128); } }
                    if a == b { return self.c(1, (op != Op::FLt) as u128); }
                }
                Op::FNeg => if na.op == Op::FNeg { return na.a[0]; },
                Op::FAbs => if na.op == Op::FNeg { return self.fop(op, 0, na.a[0], NE); } else if na.op == Op::FAbs { return a; },
                _ => {}
            }
            if matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv) {
                for v in [fa, fb].into_iter().flatten() { if !v.is_finite() { return self.raw(op, rs, k, [a, b, NE]); } }
            }
        } else {
            let fc = |c: Option<u128>| c.map(|v| if s == Sort::F64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 });
            let (fa, fb) = (fc(ca), if b == NE { None } else { fc(cb) });
            match op {
                Op::FNeg => if na.op == Op::FNeg { return na.a[0]; },
                Op::FAbs => if na.op == Op::FAbs { return a; } else if na.op == Op::FNeg { return self.fop(op, 0, na.a[0], NE); },
                Op::FMul => { if fb == Some(1.0) { return a; } if fa == Some(1.0) { return b; } }
                Op::FDiv => { if fb == Some(1.0) { return a; } }
                Op::FSub => { if fb == Some(0.0) && fb.unwrap().is_sign_positive() { return a; } }
                Op::FAdd => { if fb == Some(0.0) && fb.unwrap().is_sign_negative() { return a; } }
                Op::FLt if a == b => return self.c(1, 0),
                Op::FLt | Op::FLe | Op::FEq => {
                    if fa.map(|x| x.is_nan()).unwrap_or(false) || fb.map(|x| x.is_nan()).unwrap_or(false) { return self.c(1, 0); }
                    if op == Op::FLt && (fb == Some(f64::NEG_INFINITY) || fa == Some(f64::INFINITY)) { return self.c(1, 0); }
                }
                Op::FNan => match na.op {
                    Op::SIToF | Op::UIToF => return self.c(1, 0),
                    Op::FNeg | Op::FAbs | Op::FRound | Op::FExt => return self.fop(Op::FNan, 0, na.a[0], NE),
                    _ => {}
                },
                _ => {}
            }
        }
        // commutative canonicalisation
        let (a, b) = if matches!(op, Op::FAdd | Op::FMul | Op::FEq) && b < a { (b, a) } else { (a, b) };
        // lift comparisons / unary ops through ite of constants
        if op == Op::FNan || cmp {
            let na = *self.node(a);
            if na.op == Op::Ite && (b == NE || self.cv(b).is_some()) && (self.cv(na.a[1]).is_some() || self.cv(na.a[2]).is_some()) {
                let t = self.fop(op, k, na.a[1], b);
                let f = self.fop(op, k, na.a[2], b);
                return self.ite(na.a[0], t, f);
            }
            if b != NE {
                let nb = *self.node(b);
                if nb.op == Op::Ite && self.cv(a).is_some() && (self.cv(nb.a[1]).is_some() || self.cv(nb.a[2]).is_some()) {
                    let t = self.fop(op, k, a, nb.a[1]);
                    let f = self.fop(op, k, a, nb.a[2]);
                    return self.ite(nb.a[0], t, f);
                }
            }
        }
        self.raw(op, rs, k, [a, b, NE])
    }
    pub fn conv(&mut self, op: Op, e: E, to: Sort) -> E {
        if let Some(v) = self.cv(e) {
            let r = eval_conv(op, self.sort(e), v, to);
            return self.constant(to, r);
        }
        // UIToF(zext x) / SIToF(zext x) canonicalise
        let n = *self.node(e);
        if matches!(op, Op::SIToF) && self.nonneg(e) { return self.conv(Op::UIToF, e, to); }
        if op == Op::UIToF && n.op == Op::ZExt { return self.conv(op, n.a[0], to); }
        if matches!(op, Op::FToSI | Op::FToUI) && (n.op == Op::UIToF || n.op == Op::SIToF) {
            // exact round trip for small integers
            let iw = self.w(n.a[0]);
            let (Sort::B(tw), prec) = (to, if self.sort(e) == Sort::F64 { 53 } else { 24 }) else { unreachable!() };
            if iw <= prec && n.op == Op::UIToF && (tw > iw || (op == Op::FToUI && tw >= iw)) { return self.zext(n.a[0], tw); }
            if iw <= prec && n.op == Op::SIToF && op == Op::FToSI && tw >= iw { return self.sext(n.a[0], tw); }
        }
        if op == Op::FExt && n.op == Op::FTrunc { /* not identity */ }
        if op == Op::FTrunc && n.op == Op::FExt { return n.a[0]; }
        self.raw(op, to, 0, [e, NE, NE])
    }

    // ------------------------------------------------------------ evaluation
    /// Evaluate under a model (missing symbols are 0). None if it hits an
    /// uninterpreted function without a table entry.
    pub fn eval(&self, e: E, m: &Model, memo: &mut HashMap<E, Option<u128>>) -> Option<u128> {
        if let Some(v) = self.cv(e) { return Some(v); }
        if let Some(v) = memo.get(&e) { return *v; }
        // iterative post-order to avoid deep recursion
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) { stack.pop(); continue; }
            let n = *self.node(x);
            let mut ready = true;
            for c in n.a { if c != NE && self.cv(c).is_none() && !memo.contains_key(&c) { stack.push(c); ready = false; } }
            if !ready { continue; }
            stack.pop();
            let g = |c: E| -> Option<u128> { if c == NE { Some(0) } else { self.cv(c).or_else(|| memo[&c]) } };
            let r = (|| {
                Some(match n.op {
                    Op::Const => n.k,
                    Op::Sym => m.v.get(&(n.k as u32)).copied().unwrap_or(0),
                    Op::Uf => {
                        let mut key = [0u64; 3];
                        for i in 0..3 { if n.a[i] != NE { key[i] = g(n.a[i])? as u64; } }
                        *m.uf.get(&(n.k as u32, key))? as u128
                    }
                    Op::Ite => if g(n.a[0])? == 1 { g(n.a[1])? } else { g(n.a[2])? },
                    Op::ZExt => g(n.a[0])?,
                    Op::SExt => (sx(g(n.a[0])?, self.w(n.a[0])) as u128) & mask(self.w(x)),
                    Op::Extract => (g(n.a[0])? >> n.k as u32) & mask(self.w(x)),
                    Op::Concat => g(n.a[0])? << self.w(n.a[1]) | g(n.a[1])?,
                    Op::FFromBits | Op::FBits => g(n.a[0])?,
                    Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FNeg | Op::FAbs | Op::FSqrt | Op::FRound | Op::FEq | Op::FLt | Op::FLe | Op::FNan =>
                        eval_f(n.op, n.k, self.sort(n.a[0]), g(n.a[0])?, g(n.a[1])?),
                    Op::FToSI | Op::FToUI | Op::SIToF | Op::UIToF | Op::FExt | Op::FTrunc => eval_conv(n.op, self.sort(n.a[0]), g(n.a[0])?, n.sort),
                    _ => eval_bin(n.op, self.w(n.a[0]), g(n.a[0])?, g(n.a[1])?).1,
                })
            })();
            memo.insert(x, r);
        }
        memo[&e]
    }
    fn check_same(&mut self, raw: E, simp: E) {
        if raw == simp || self.depset(raw).iter().any(|d| d & 0x8000_0000 != 0) { return; }
        let mut seed = 0x9E3779B97F4A7C15u64 ^ (raw as u64) << 7;
        for _ in 0..12 {
            let mut m = Model::default();
            for &s in self.depset(raw).iter() {
                seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17;
                let w = match self.syms[s as usize].sort { Sort::B(w) => w, Sort::F64 => 64, Sort::F32 => 32 };
                let v = if seed & 7 == 0 { 0 } else if seed & 7 == 1 { mask(w) } else { (seed as u128) << 64 | seed.rotate_left(17) as u128 };
                m.v.insert(s, v & mask(w));
            }
            let mut memo = HashMap::default();
            let (x, y) = (self.eval(raw, &m, &mut memo), self.eval(simp, &m, &mut memo));
            if x != y { panic!("simplifier mismatch: {} => {} ({x:?} vs {y:?})", self.show(raw, 6), self.show(simp, 6)); }
        }
    }
    pub fn show(&self, e: E, d: usize) -> String {
        let n = self.node(e);
        match n.op {
            Op::Const => match n.sort { Sort::F64 => format!("{:?}", f64::from_bits(n.k as u64)), Sort::F32 => format!("{:?}f", f32::from_bits(n.k as u32)), Sort::B(w) => format!("{}:{w}", n.k) },
            Op::Sym => self.syms[n.k as usize].name.clone(),
            _ => {
                if d == 0 { return "..".into(); }
                let mut s = format!("({:?}", n.op);
                if n.op == Op::Uf { s = format!("({}", self.ufs[n.k as usize].0); }
                if matches!(n.op, Op::Extract | Op::FRound) { s += &format!("[{}+{}]", n.k, self.w(e)); }
                for a in n.a { if a != NE { s += " "; s += &self.show(a, d - 1); } }
                s + ")"
            }
        }
    }
}

pub fn eval_bin(op: Op, w: u16, x: u128, y: u128) -> (u16, u128) {
    let m = mask(w);
    let (sa, sb) = (sx(x, w), sx(y, w));
    match op {
        Op::Add => (w, x.wrapping_add(y) & m),
        Op::Sub => (w, x.wrapping_sub(y) & m),
        Op::Mul => (w, x.wrapping_mul(y) & m),
        Op::UDiv => (w, if y == 0 { m } else { x / y }),
        Op::URem => (w, if y == 0 { x } else { x % y }),
        Op::SDiv => (w, if y == 0 { if sa < 0 { 1 } else { m } } else { (sa.wrapping_div(sb) as u128) & m }),
        Op::SRem => (w, if y == 0 { x } else { (sa.wrapping_rem(sb) as u128) & m }),
        Op::And => (w, x & y),
        Op::Or => (w, x | y),
        Op::Xor => (w, x ^ y),
        Op::Shl => (w, if y >= w as u128 { 0 } else { (x << y as u32) & m }),
        Op::LShr => (w, if y >= w as u128 { 0 } else { x >> y as u32 }),
        Op::AShr => (w, ((sa >> (y.min(w as u128 - 1)) as u32) as u128) & m),
        Op::Eq => (1, (x == y) as u128),
        Op::Ult => (1, (x < y) as u128),
        Op::Ule => (1, (x <= y) as u128),
        Op::Slt => (1, (sa < sb) as u128),
        Op::Sle => (1, (sa <= sb) as u128),
        _ => panic!("eval_bin {op:?}"),
    }
}
pub fn eval_f(op: Op, k: u128, s: Sort, x: u128, y: u128) -> u128 {
    if s == Sort::F64 {
        let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
        let r = match op {
            Op::FAdd => a + b, Op::FSub => a - b, Op::FMul => a * b, Op::FDiv => a / b, Op::FRem => a % b,
            Op::FNeg => -a, Op::FAbs => a.abs(), Op::FSqrt => a.sqrt(),
            Op::FRound => match k { 0 => a.floor(), 1 => a.ceil(), 2 => a.trunc(), 3 => a.round_ties_even(), _ => a.round() },
            Op::FEq => return (a == b) as u128,
            Op::FLt => return (a < b) as u128,
            Op::FLe => return (a <= b) as u128,
            Op::FNan => return a.is_nan() as u128,
            _ => panic!("eval_f"),
        };
        r.to_bits() as u128
    } else {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        let r = match op {
            Op::FAdd => a + b, Op::FSub => a - b, Op::FMul => a * b, Op::FDiv => a / b, Op::FRem => a % b,
            Op::FNeg => -a, Op::FAbs => a.abs(), Op::FSqrt => a.sqrt(),
            Op::FRound => match k { 0 => a.floor(), 1 => a.ceil(), 2 => a.trunc(), 3 => a.round_ties_even(), _ => a.round() },
            Op::FEq => return (a == b) as u128,
            Op::FLt => return (a < b) as u128,
            Op::FLe => return (a <= b) as u128,
            Op::FNan => return a.is_nan() as u128,
            _ => panic!("eval_f"),
        };
        r.to_bits() as u128
    }
}
pub fn eval_conv(op: Op, from: Sort, v: u128, to: Sort) -> u128 {
    let tof = |x: f64| -> u128 { match to { Sort::F64 => x.to_bits() as u128, Sort::F32 => (x as f32).to_bits() as u128, _ => panic!() } };
    match op {
        Op::FExt => (f32::from_bits(v as u32) as f64).to_bits() as u128,
        Op::FTrunc => (f64::from_bits(v as u64) as f32).to_bits() as u128,
        Op::SIToF => { let Sort::B(w) = from else { panic!() }; let i = sx(v, w); match to { Sort::F32 => (i as f32).to_bits() as u128, _ => tof(i as f64) } }
        Op::UIToF => match to { Sort::F32 => (v as f32).to_bits() as u128, _ => tof(v as f64) },
        Op::FToSI | Op::FToUI => {
            let Sort::B(w) = to else { panic!() };
            let f = match from { Sort::F64 => f64::from_bits(v as u64), _ => f32::from_bits(v as u32) as f64 };
            if op == Op::FToSI {
                let hi = if w >= 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 };
                let lo = if w >= 128 { i128::MIN } else { -(1i128 << (w - 1)) };
                ((f as i128).clamp(lo, hi) as u128) & mask(w)
            } else { (f as u128).min(mask(w)) }
        }
        _ => panic!("conv"),
    }
}
