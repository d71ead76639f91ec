//! Parser for the subset of textual LLVM IR that rustc emits.
use rustc_hash::FxHashMap as HashMap;
use std::cell::OnceCell;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u16),
    F32,
    F64,
    OtherFp(u16),
    Ptr,
    Arr(u64, TyId),
    Vec(u32, TyId),
    Struct(Vec<TyId>, bool),
    Label,
    Meta,
    Opaque,
}

#[derive(Default)]
pub struct Types {
    pub v: Vec<Ty>,
    idx: HashMap<Ty, TyId>,
    pub named: HashMap<String, TyId>,
}
impl Types {
    pub fn mk(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.idx.get(&t) {
            return i;
        }
        let i = self.v.len() as u32;
        self.v.push(t.clone());
        self.idx.insert(t, i);
        i
    }
    pub fn get(&self, t: TyId) -> &Ty {
        &self.v[t as usize]
    }
    pub fn align(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::OtherFp(_) => 16,
            Ty::Arr(_, e) => self.align(*e),
            Ty::Vec(..) => self.size(t).next_power_of_two().min(64),
            Ty::Struct(_, true) => 1,
            Ty::Struct(fs, false) => fs.iter().map(|f| self.align(*f)).max().unwrap_or(1),
            _ => 1,
        }
    }
    /// Allocation size (rounded up to alignment).
    pub fn size(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                b.div_ceil(self.align(t)) * self.align(t)
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::OtherFp(_) => 16,
            Ty::Arr(n, e) => n * self.size(*e),
            Ty::Vec(n, e) => {
                let bits = match self.get(*e) {
                    Ty::Int(w) => *w as u64,
                    Ty::F32 => 32,
                    _ => 64,
                } * *n as u64;
                bits.div_ceil(8)
            }
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for f in fs {
                    if !packed {
                        o = o.next_multiple_of(self.align(*f));
                    }
                    o += self.size(*f);
                }
                if !packed {
                    o = o.next_multiple_of(self.align(t).max(1));
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, t: TyId, i: usize) -> u64 {
        match self.get(t) {
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        o = o.next_multiple_of(self.align(*f));
                    }
                    if k == i {
                        return o;
                    }
                    o += self.size(*f);
                }
                panic!("field")
            }
            Ty::Arr(_, e) => i as u64 * self.size(*e),
            Ty::Vec(_, e) => i as u64 * self.size(*e),
            _ => panic!("field_off on scalar"),
        }
    }
    pub fn elem(&self, t: TyId, i: usize) -> TyId {
        match self.get(t) {
            Ty::Struct(fs, _) => fs[i],
            Ty::Arr(_, e) | Ty::Vec(_, e) => *e,
            _ => panic!("elem of scalar"),
        }
    }
    pub fn nelem(&self, t: TyId) -> usize {
        match self.get(t) {
            Ty::Struct(fs, _) => fs.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

/// Constants.
#[derive(Clone, Debug)]
pub enum C {
    Int(u16, u128),
    F64(u64),
    F32(u32),
    Agg(Vec<C>),
    Zero(TyId),
    Undef(TyId),
    /// global symbol + byte offset
    Sym(u32, i64),
    Bytes(Vec<u8>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(Rc<C>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ICmp { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FCmp { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, FPTrunc, FPExt, FPToUI, FPToSI, UIToFP, SIToFP, PtrToInt, IntToPtr, BitCast }

#[derive(Clone, Debug)]
pub enum Callee {
    Sym(u32),
    Intrin(Rc<str>),
    Reg(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(BinOp, TyId, Opd, Opd),
    ICmp(ICmp, TyId, Opd, Opd),
    FCmp(FCmp, TyId, Opd, Opd),
    FNeg(TyId, Opd),
    Cast(Cast, TyId, Opd, TyId),
    Load(TyId, Opd),
    Store(TyId, Opd, Opd),
    Gep(Opd, i64, Vec<(Opd, u16, u64)>),
    Alloca(TyId, Opd, u64),
    Select(TyId, Opd, Opd, Opd),
    Call(TyId, Callee, Vec<(TyId, Opd)>),
    Invoke(TyId, Callee, Vec<(TyId, Opd)>, u32),
    ExtractValue(Opd, TyId, Vec<u32>),
    InsertValue(Opd, TyId, Opd, Vec<u32>),
    ExtractElem(TyId, Opd, Opd),
    InsertElem(TyId, Opd, Opd, Opd),
    Shuffle(TyId, Opd, Opd, Vec<i32>),
    AtomicRmw(Rc<str>, TyId, Opd, Opd),
    CmpXchg(TyId, Opd, Opd, Opd),
    Freeze(Opd),
    Fence,
    LandingPad,
    // terminators
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(TyId, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Resume,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, TyId, Vec<(u32, Opd)>)>,
    pub ins: Vec<(u32, Ins)>, // dst (u32::MAX if none)
}
#[derive(Debug)]
pub struct Body {
    pub nregs: u32,
    pub params: Vec<TyId>,
    pub blocks: Vec<Block>,
}

pub enum SymKind {
    Func { start: usize, end: usize },
    Decl,
    Global { start: usize, end: usize, tls: bool },
    Alias(usize, usize),
}
pub struct Symbol {
    pub name: String,
    pub kind: SymKind,
    pub body: OnceCell<Rc<Body>>,
    pub init: OnceCell<Rc<(TyId, C)>>,
}

pub struct Module {
    pub text: Vec<u8>,
    pub types: std::cell::RefCell<Types>,
    pub syms: Vec<Symbol>,
    pub by_name: HashMap<String, u32>,
}

pub const NOREG: u32 = u32::MAX;

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    Id(&'a str),      // bare word
    Local(&'a str),   // %x
    Glob(&'a str),    // @x (unquoted/unescaped raw)
    Meta,             // !foo
    Attr(&'a str),    // #0
    Num(&'a str),
    Str(&'a str),     // "..."
    CStr(&'a str),    // c"..."
    P(u8),
    Dots,
    Eof,
}

struct Lx<'a> {
    s: &'a str,
    p: usize,
    end: usize,
    tok: T<'a>,
}
fn isw(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl<'a> Lx<'a> {
    fn new(s: &'a str, p: usize, end: usize) -> Self {
        let mut l = Lx { s, p, end, tok: T::Eof };
        l.adv();
        l
    }
    fn b(&self, i: usize) -> u8 {
        if i < self.end { self.s.as_bytes()[i] } else { 0 }
    }
    fn name(&mut self) -> &'a str {
        if self.b(self.p) == b'"' {
            let st = self.p + 1;
            let mut q = st;
            while self.b(q) != b'"' { q += 1; }
            self.p = q + 1;
            &self.s[st..q]
        } else {
            let st = self.p;
            while isw(self.b(self.p)) { self.p += 1; }
            &self.s[st..self.p]
        }
    }
    fn adv(&mut self) -> T<'a> {
        let old = std::mem::replace(&mut self.tok, T::Eof);
        loop {
            let c = self.b(self.p);
            if self.p >= self.end { self.tok = T::Eof; return old; }
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' { self.p += 1; continue; }
            if c == b'/' && self.p + 1 < self.end && self.b(self.p + 1) == b'*' { self.p += 2; while self.p + 1 < self.end && !(self.b(self.p) == b'*' && self.b(self.p + 1) == b'/') { self.p += 1; } self.p += 2; continue; }
            if c == b';' { while self.p < self.end && self.b(self.p) != b'\n' { self.p += 1; } continue; }
            break;
        }
        let c = self.b(self.p);
        self.tok = match c {
            b'%' => { self.p += 1; T::Local(self.name()) }
            b'@' => { self.p += 1; T::Glob(self.name()) }
            b'#' => { self.p += 1; T::Attr(self.name()) }
            b'!' => {
                self.p += 1;
                if self.b(self.p) == b'"' { self.name(); } else { while isw(self.b(self.p)) || self.b(self.p) == b'\\' { self.p += 1; } }
                T::Meta
            }
            b'"' => {
                let st = self.p + 1;
                let mut q = st;
                while self.b(q) != b'"' { q += 1; }
                self.p = q + 1;
                T::Str(&self.s[st..q])
            }
            b'c' if self.b(self.p + 1) == b'"' => {
                let st = self.p + 2;
                let mut q = st;
                while self.b(q) != b'"' { q += 1; }
                self.p = q + 1;
                T::CStr(&self.s[st..q])
            }
            b'.' if self.b(self.p + 1) == b'.' => { self.p += 3; T::Dots }
            b'0'..=b'9' | b'-' => {
                let st = self.p;
                self.p += 1;
                while isw(self.b(self.p)) || self.b(self.p) == b'+' { self.p += 1; }
                T::Num(&self.s[st..self.p])
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = self.p;
                while isw(self.b(self.p)) { self.p += 1; }
                T::Id(&self.s[st..self.p])
            }
            _ => { self.p += 1; T::P(c) }
        };
        old
    }
    fn isp(&self, c: u8) -> bool { self.tok == T::P(c) }
    fn eatp(&mut self, c: u8) -> bool { if self.isp(c) { self.adv(); true } else { false } }
    fn ex(&mut self, c: u8) {
        if !self.eatp(c) {
            let lo = self.p.saturating_sub(200);
            panic!("expected {:?} got {:?} near: {}", c as char, self.tok, &self.s[lo..(self.p + 50).min(self.end)]);
        }
    }
    fn isid(&self, w: &str) -> bool { matches!(self.tok, T::Id(x) if x == w) }
    fn eatid(&mut self, w: &str) -> bool { if self.isid(w) { self.adv(); true } else { false } }
    /// skip a balanced (...) group; current token must be '('
    fn skip_paren(&mut self) {
        let mut d = 0;
        loop {
            if self.isp(b'(') { d += 1; }
            if self.isp(b')') { d -= 1; }
            if self.tok == T::Eof { panic!("eof in paren"); }
            self.adv();
            if d == 0 { break; }
        }
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; continue; }
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else { o.push(b[i]); i += 1; }
    }
    o
}

fn parse_int(s: &str, w: u16) -> u128 {
    let mask = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
    let v = if let Some(r) = s.strip_prefix('-') {
        (r.parse::<u128>().expect("int")).wrapping_neg()
    } else { s.parse::<u128>().unwrap_or_else(|_| panic!("int {s}")) };
    v & mask
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).expect("read .ll");
        let mut syms: Vec<Symbol> = vec![];
        let mut by_name = HashMap::default();
        let mut types = Types::default();
        let n = text.len();
        let mut p = 0;
        let mut named: Vec<(String, usize, usize)> = vec![];
        let getname = |ls: usize| -> String {
            // ls points just after '@'
            let b = &text;
            if b[ls] == b'"' {
                let mut q = ls + 1;
                while b[q] != b'"' { q += 1; }
                String::from_utf8_lossy(&b[ls + 1..q]).into_owned()
            } else {
                let mut q = ls;
                while isw(b[q]) { q += 1; }
                String::from_utf8_lossy(&b[ls..q]).into_owned()
            }
        };
        while p < n {
            let e = memchr(&text, p, b'\n').unwrap_or(n);
            let line = &text[p..e];
            if line.starts_with(b"define ") {
                // find end "\n}"
                let mut q = e;
                loop {
                    let nl = q;
                    if nl + 1 < n && text[nl + 1] == b'}' { break; }
                    q = memchr(&text, nl + 1, b'\n').expect("end of function");
                }
                let at = find_fn_name(line);
                let name = getname(p + at + 1);
                by_name.insert(name.clone(), syms.len() as u32);
                syms.push(Symbol { name, kind: SymKind::Func { start: p, end: q + 2 }, body: OnceCell::new(), init: OnceCell::new() });
                p = q + 3;
                continue;
            } else if line.starts_with(b"declare ") {
                let at = find_fn_name(line);
                let name = getname(p + at + 1);
                by_name.insert(name.clone(), syms.len() as u32);
                syms.push(Symbol { name, kind: SymKind::Decl, body: OnceCell::new(), init: OnceCell::new() });
            } else if line.starts_with(b"@") {
                let name = getname(p + 1);
                let ls = String::from_utf8_lossy(&line[..line.len().min(400)]).into_owned();
                let kind = if ls.contains(" alias ") && !ls.contains(" constant ") && !ls.contains(" global ") {
                    SymKind::Alias(p, e)
                } else {
                    SymKind::Global { start: p, end: e, tls: ls.contains("thread_local") }
                };
                by_name.insert(name.clone(), syms.len() as u32);
                syms.push(Symbol { name, kind, body: OnceCell::new(), init: OnceCell::new() });
            } else if line.starts_with(b"%") {
                let ls = String::from_utf8_lossy(line).into_owned();
                let nm = ls[1..].split(" = ").next().unwrap().trim_matches('"').to_string();
                named.push((nm, p, e));
            }
            p = e + 1;
        }
        types.mk(Ty::Void);
        let m = Module { text, types: std::cell::RefCell::new(types), syms, by_name };
        for (nm, s, e) in named {
            let txt = unsafe { std::str::from_utf8_unchecked(&m.text) };
            let mut ps = Ps { m: &m, l: Lx::new(txt, s, e), regs: HashMap::default(), labels: HashMap::default(), nregs: 0 };
            ps.l.adv();
            ps.l.ex(b'=');
            if !ps.l.eatid("type") { continue; }
            let t = ps.ty();
            m.types.borrow_mut().named.insert(nm, t);
        }
        m
    }
    pub fn tsize(&self, t: TyId) -> u64 { self.types.borrow().size(t) }

    pub fn body(&self, f: u32) -> Option<Rc<Body>> {
        let s = &self.syms[f as usize];
        match s.kind {
            SymKind::Func { start, end } => Some(s.body.get_or_init(|| {
                let txt = unsafe { std::str::from_utf8_unchecked(&self.text) };
                let mut ps = Ps { m: self, l: Lx::new(txt, start, end), regs: HashMap::default(), labels: HashMap::default(), nregs: 0 };
                Rc::new(ps.func())
            }).clone()),
            _ => None,
        }
    }
    /// resolve alias
    pub fn resolve(&self, f: u32) -> (u32, i64) {
        match self.syms[f as usize].kind {
            SymKind::Alias(s, e) => {
                let txt = unsafe { std::str::from_utf8_unchecked(&self.text) };
                let mut ps = Ps { m: self, l: Lx::new(txt, s, e), regs: HashMap::default(), labels: HashMap::default(), nregs: 0 };
                while !ps.l.isid("alias") { ps.l.adv(); }
                ps.l.adv();
                ps.ty();
                ps.l.ex(b',');
                let t = ps.ty();
                match ps.cst(t) { C::Sym(g, o) => { let r = self.resolve(g); (r.0, r.1 + o) } _ => panic!("alias") }
            }
            _ => (f, 0),
        }
    }
    pub fn global_init(&self, g: u32) -> Option<Rc<(TyId, C)>> {
        let s = &self.syms[g as usize];
        match s.kind {
            SymKind::Global { start, end, .. } => Some(s.init.get_or_init(|| {
                let txt = unsafe { std::str::from_utf8_unchecked(&self.text) };
                let mut ps = Ps { m: self, l: Lx::new(txt, start, end), regs: HashMap::default(), labels: HashMap::default(), nregs: 0 };
                ps.l.adv();
                ps.l.ex(b'=');
                let mut ext = false;
                loop {
                    match ps.l.tok.clone() {
                        T::Id("external") | T::Id("extern_weak") => { ext = true; ps.l.adv(); }
                        T::Id("global") | T::Id("constant") => { ps.l.adv(); break; }
                        T::P(b'(') => ps.l.skip_paren(),
                        T::Eof => panic!("global"),
                        _ => { ps.l.adv(); }
                    }
                }
                let t = ps.ty();
                let c = if ext { C::Zero(t) } else { ps.cst(t) };
                Rc::new((t, c))
            }).clone()),
            _ => None,
        }
    }
}

fn memchr(b: &[u8], from: usize, c: u8) -> Option<usize> {
    b[from.min(b.len())..].iter().position(|x| *x == c).map(|i| i + from)
}
fn find_fn_name(line: &[u8]) -> usize {
    // first '@' outside quotes
    let mut q = false;
    for (i, &c) in line.iter().enumerate() {
        if c == b'"' { q = !q; }
        if c == b'@' && !q { return i; }
    }
    panic!("no fn name")
}

struct Ps<'a> {
    m: &'a Module,
    l: Lx<'a>,
    regs: HashMap<&'a str, u32>,
    labels: HashMap<&'a str, u32>,
    nregs: u32,
}
impl<'a> Ps<'a> {
    fn mk(&self, t: Ty) -> TyId { self.m.types.borrow_mut().mk(t) }
    fn reg(&mut self, n: &'a str) -> u32 {
        if let Some(&r) = self.regs.get(n) { return r; }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }
    fn label(&mut self, n: &'a str) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(k)
    }
    fn ty(&mut self) -> TyId {
        let t = match self.l.adv() {
            T::Id("void") => Ty::Void,
            T::Id("ptr") => {
                if self.l.isid("addrspace") { self.l.adv(); self.l.skip_paren(); }
                Ty::Ptr
            }
            T::Id("double") => Ty::F64,
            T::Id("float") => Ty::F32,
            T::Id("half") => Ty::OtherFp(16),
            T::Id("bfloat") => Ty::OtherFp(16),
            T::Id("fp128") | T::Id("x86_fp80") | T::Id("ppc_fp128") => Ty::OtherFp(128),
            T::Id("label") => Ty::Label,
            T::Id("metadata") => Ty::Meta,
            T::Id("token") | T::Id("opaque") => Ty::Opaque,
            T::Id(x) if x.starts_with('i') && x[1..].parse::<u16>().is_ok() => Ty::Int(x[1..].parse().unwrap()),
            T::P(b'[') => {
                let n = match self.l.adv() { T::Num(x) => x.parse().unwrap(), t => panic!("arr {t:?}") };
                self.l.adv();
                let e = self.ty();
                self.l.ex(b']');
                Ty::Arr(n, e)
            }
            T::P(b'<') => {
                if self.l.isp(b'{') {
                    self.l.adv();
                    let f = self.fields();
                    self.l.ex(b'>');
                    Ty::Struct(f, true)
                } else {
                    let n = match self.l.adv() { T::Num(x) => x.parse().unwrap(), t => panic!("vec {t:?}") };
                    self.l.adv();
                    let e = self.ty();
                    self.l.ex(b'>');
                    Ty::Vec(n, e)
                }
            }
            T::P(b'{') => Ty::Struct(self.fields(), false),
            T::Local(n) => { return *self.m.types.borrow().named.get(n).unwrap_or_else(|| panic!("named type {n}")); }
            t => {
                let lo = self.l.p.saturating_sub(200);
                panic!("type? {t:?} near {}", &self.l.s[lo..self.l.p])
            }
        };
        let mut id = self.mk(t);
        // function type suffix e.g. `void (ptr, ...)`: handled by callers
        while self.l.isp(b'*') { self.l.adv(); id = self.mk(Ty::Ptr); }
        id
    }
    fn fields(&mut self) -> Vec<TyId> {
        let mut v = vec![];
        if self.l.eatp(b'}') { return v; }
        loop {
            v.push(self.ty());
            if self.l.eatp(b'}') { return v; }
            self.l.ex(b',');
        }
    }
    fn sym(&self, n: &str) -> u32 {
        *self.m.by_name.get(n).unwrap_or_else(|| panic!("unknown global @{n}"))
    }
    /// Constant of type t.
    fn cst(&mut self, t: TyId) -> C {
        let ty = self.m.types.borrow().get(t).clone();
        match self.l.adv() {
            T::Id("true") => C::Int(1, 1),
            T::Id("false") => C::Int(1, 0),
            T::Id("null") => C::Int(64, 0),
            T::Id("zeroinitializer") => C::Zero(t),
            T::Id("undef") | T::Id("poison") | T::Id("none") => C::Undef(t),
            T::Id("splat") => {
                self.l.ex(b'(');
                let et = self.ty();
                let c = self.cst(et);
                self.l.ex(b')');
                let n = self.m.types.borrow().nelem(t);
                C::Agg(vec![c; n])
            }
            T::Num(s) if s.starts_with('-') && (s.contains("nan") || s.contains("inf")) => {
                if self.l.isp(b'(') { self.l.skip_paren(); }
                let v = if s.contains("inf") { f64::NEG_INFINITY } else { -f64::NAN };
                match ty { Ty::F32 => C::F32((v as f32).to_bits()), _ => C::F64(v.to_bits()) }
            }
            T::Num(s) => match ty {
                Ty::Int(w) => {
                    if let Some(h) = s.strip_prefix("0x") { C::Int(w, u128::from_str_radix(h, 16).unwrap()) } else { C::Int(w, parse_int(s, w)) }
                }
                Ty::F64 => C::F64(parse_fp(s).to_bits()),
                Ty::F32 => C::F32((parse_fp(s) as f32).to_bits()),
                Ty::OtherFp(_) => C::Int(128, 0),
                _ => panic!("num const of {ty:?}"),
            },
            T::P(b'+') => { // +inf, +nan, +qnan, +snan(...)
                self.special_fp(&ty, false)
            }
            T::Id(s) if s.starts_with("f0x") => match ty { Ty::F32 => C::F32((parse_fp(s) as f32).to_bits()), Ty::F64 => C::F64(u64::from_str_radix(&s[3..], 16).unwrap()), _ => C::Int(128, 0) },
            T::Id(x @ ("inf" | "nan" | "qnan" | "snan" | "pinf" | "ninf")) => { let _ = x; panic!("fp special {x}") }
            T::CStr(s) => C::Bytes(unescape(s)),
            T::P(b'[') => {
                let mut v = vec![];
                if !self.l.eatp(b']') {
                    loop {
                        let et = self.ty();
                        v.push(self.cst(et));
                        if self.l.eatp(b']') { break; }
                        self.l.ex(b',');
                    }
                }
                C::Agg(v)
            }
            T::P(b'{') => C::Agg(self.agg(b'}')),
            T::P(b'<') => {
                if self.l.eatp(b'{') {
                    let v = self.agg(b'}');
                    self.l.ex(b'>');
                    C::Agg(v)
                } else {
                    C::Agg(self.agg(b'>'))
                }
            }
            T::Glob(n) => C::Sym(self.sym(n), 0),
            T::Id("getelementptr") => {
                while matches!(self.l.tok, T::Id("inbounds" | "nuw" | "nusw")) || self.l.isid("inrange") {
                    let inr = self.l.isid("inrange");
                    self.l.adv();
                    if inr { self.l.skip_paren(); }
                }
                self.l.ex(b'(');
                let bt = self.ty();
                self.l.ex(b',');
                let pt = self.ty();
                let base = self.cst(pt);
                let mut off: i64 = 0;
                let mut cur = bt;
                let mut first = true;
                while self.l.eatp(b',') {
                    let it = self.ty();
                    let i = match self.cst(it) { C::Int(w, v) => sext(v, w), c => panic!("gep idx {c:?}") };
                    let ts = self.m.types.borrow();
                    if first { off += i * ts.size(cur) as i64; first = false; } else { off += ts.field_off(cur, i as usize) as i64; cur = ts.elem(cur, i as usize); }
                }
                self.l.ex(b')');
                match base { C::Sym(g, o) => C::Sym(g, o + off), C::Int(w, v) => C::Int(w, v.wrapping_add(off as i128 as u128) & ((1u128 << 64) - 1)), c => panic!("gep base {c:?}") }
            }
            T::Id("inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast") => {
                self.l.ex(b'(');
                let ft = self.ty();
                let c = self.cst(ft);
                self.l.eatid("to");
                self.ty();
                self.l.ex(b')');
                c
            }
            T::Id("trunc") => {
                self.l.ex(b'(');
                let ft = self.ty();
                let c = self.cst(ft);
                self.l.eatid("to");
                let tt = self.ty();
                self.l.ex(b')');
                let w = match self.m.types.borrow().get(tt) { Ty::Int(w) => *w, _ => 64 };
                match c { C::Int(_, v) => C::Int(w, v & ((1u128 << w) - 1)), c => c }
            }
            T::Id(op @ ("add" | "sub" | "xor")) => {
                while !self.l.isp(b'(') { self.l.adv(); }
                self.l.ex(b'(');
                let ta = self.ty();
                let a = self.cst(ta);
                self.l.ex(b',');
                let tb = self.ty();
                let b = self.cst(tb);
                self.l.ex(b')');
                match (a, b) {
                    (C::Sym(g, o), C::Int(w, v)) => C::Sym(g, if op == "add" { o + sext(v, w) } else { o - sext(v, w) }),
                    (C::Int(w, v), C::Int(_, x)) => C::Int(w, parse_int("0", w) | ((if op == "add" { v.wrapping_add(x) } else if op == "sub" { v.wrapping_sub(x) } else { v ^ x }) & if w >= 128 { u128::MAX } else { (1 << w) - 1 })),
                    (C::Sym(g, o), C::Sym(h, o2)) if op == "sub" && g == h => C::Int(64, (o - o2) as u64 as u128),
                    (a, b) => panic!("const {op} {a:?} {b:?}"),
                }
            }
            T::P(b'-') => self.special_fp(&ty, true),
            T::Id("blockaddress") => { self.l.skip_paren(); C::Int(64, 0) }
            T::Id("asm") => { panic!("asm operand") }
            t => {
                let lo = self.l.p.saturating_sub(200);
                panic!("const? {t:?} ty {ty:?} near {}", &self.l.s[lo..self.l.p])
            }
        }
    }
    fn special_fp(&mut self, ty: &Ty, neg: bool) -> C {
        let w = match self.l.adv() { T::Id(w) => w, t => panic!("fp special {t:?}") };
        if self.l.isp(b'(') { self.l.skip_paren(); }
        let v = match w { "inf" => f64::INFINITY, _ => f64::NAN };
        let v = if neg { -v } else { v };
        match ty { Ty::F32 => C::F32((v as f32).to_bits()), _ => C::F64(v.to_bits()) }
    }
    fn agg(&mut self, close: u8) -> Vec<C> {
        let mut v = vec![];
        if self.l.eatp(close) { return v; }
        loop {
            let t = self.ty();
            v.push(self.cst(t));
            if self.l.eatp(close) { return v; }
            self.l.ex(b',');
        }
    }
    fn opd(&mut self, t: TyId) -> Opd {
        if let T::Local(n) = self.l.tok {
            self.l.adv();
            return Opd::Reg(self.reg(n));
        }
        Opd::C(Rc::new(self.cst(t)))
    }
    fn topd(&mut self) -> (TyId, Opd) {
        let t = self.ty();
        self.attrs();
        let o = self.opd(t);
        (t, o)
    }
    /// skip parameter attributes
    fn attrs(&mut self) {
        const VALS: &[&str] = &["true", "false", "null", "zeroinitializer", "undef", "poison", "none", "getelementptr", "inttoptr", "ptrtoint", "bitcast", "splat", "trunc", "add", "sub", "xor", "asm", "blockaddress"];
        loop {
            match self.l.tok {
                T::Id(w) if !VALS.contains(&w) && !w.starts_with("f0x") && !matches!(w, "inf" | "nan" | "qnan" | "snan" | "pinf" | "ninf") => {
                    self.l.adv();
                    if self.l.isp(b'(') {
                        self.l.skip_paren();
                    } else if w == "align" {
                        self.l.adv();
                    }
                }
                T::Attr(_) | T::Str(_) => {
                    self.l.adv();
                    if self.l.eatp(b'=') { self.l.adv(); }
                }
                _ => return,
            }
        }
    }
    fn func(&mut self) -> Body {
        // header: skip to '('
        self.l.adv(); // define
        // find @name then params
        loop {
            match self.l.tok {
                T::Glob(_) => { self.l.adv(); break; }
                T::P(b'(') => self.l.skip_paren(),
                T::Eof => panic!("header"),
                _ => { self.l.adv(); }
            }
        }
        self.l.ex(b'(');
        let mut params = vec![];
        if !self.l.eatp(b')') {
            loop {
                if self.l.tok == T::Dots { self.l.adv(); } else {
                    let t = self.ty();
                    self.attrs_params();
                    let n = match self.l.adv() { T::Local(n) => n, t => panic!("param {t:?}") };
                    self.reg(n);
                    params.push(t);
                }
                if self.l.eatp(b')') { break; }
                self.l.ex(b',');
            }
        }
        let nparams = params.len();
        // skip to '{' at the end of header line
        let he = memchr(self.l.s.as_bytes(), self.l.p, b'\n').unwrap();
        self.l.p = he;
        self.l.adv();
        // entry label: implicit number = nparams if unnamed, or explicit
        let mut blocks: HashMap<u32, Block> = HashMap::default();
        let mut order = vec![];
        let entry_name: &'a str;
        // detect explicit label
        let save = (self.l.p, self.l.tok.clone());
        let explicit = self.try_label();
        if let Some(n) = explicit { entry_name = n; } else {
            self.l.p = save.0;
            self.l.tok = save.1;
            entry_name = Box::leak(nparams.to_string().into_boxed_str());
        }
        let mut cur = self.label(entry_name);
        let mut blk = Block { phis: vec![], ins: vec![] };
        loop {
            if self.l.isp(b'}') { break; }
            // label?
            if let Some(n) = self.try_label() {
                blocks.insert(cur, std::mem::replace(&mut blk, Block { phis: vec![], ins: vec![] }));
                order.push(cur);
                cur = self.label(n);
                continue;
            }
            self.instr(&mut blk);
        }
        blocks.insert(cur, blk);
        let n = self.labels.len();
        let mut out = Vec::with_capacity(n);
        for i in 0..n as u32 {
            out.push(blocks.remove(&i).unwrap_or_else(|| panic!("missing block")));
        }
        Body { nregs: self.nregs, params, blocks: out }
    }
    fn attrs_params(&mut self) { self.attrs() }
    fn try_label(&mut self) -> Option<&'a str> {
        let n = match self.l.tok { T::Id(x) => x, T::Num(x) => x, T::Str(x) => x, _ => return None };
        if self.l.b(self.l.p) == b':' {
            self.l.p += 1;
            self.l.adv();
            return Some(n);
        }
        None
    }
    fn eol(&mut self) {
        // skip trailing metadata etc. up to newline
        while self.l.isp(b',') || matches!(self.l.tok, T::Meta) || matches!(self.l.tok, T::Attr(_)) {
            if self.l.isp(b',') {
                self.l.adv();
                match self.l.tok {
                    T::Meta => { self.l.adv(); if matches!(self.l.tok, T::Meta) { self.l.adv(); } if self.l.isp(b'(') { self.l.skip_paren(); } if self.l.isp(b'{'){ while !self.l.isp(b'}') {self.l.adv();} self.l.adv(); } }
                    T::Id("align") => { self.l.adv(); self.l.adv(); }
                    _ => { self.l.adv(); }
                }
            } else { self.l.adv(); }
        }
    }
    fn lbl(&mut self) -> u32 {
        self.l.eatid("label");
        match self.l.adv() { T::Local(n) => self.label(n), t => panic!("label {t:?}") }
    }
    fn instr(&mut self, blk: &mut Block) {
        let mut dst = NOREG;
        if let T::Local(n) = self.l.tok {
            self.l.adv();
            self.l.ex(b'=');
            dst = self.reg(n);
        }
        let op = match self.l.adv() { T::Id(x) => x, t => { let lo = self.l.p.saturating_sub(300); panic!("instr {t:?} near {}", &self.l.s[lo..self.l.p]) } };
        let ins = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags();
                let t = self.ty();
                let a = self.opd(t);
                self.l.ex(b',');
                let b = self.opd(t);
                let o = match op {
                    "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem,
                    "srem" => BinOp::SRem, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, "shl" => BinOp::Shl, "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr, "fadd" => BinOp::FAdd, "fsub" => BinOp::FSub, "fmul" => BinOp::FMul, "fdiv" => BinOp::FDiv, _ => BinOp::FRem,
                };
                Ins::Bin(o, t, a, b)
            }
            "icmp" => {
                self.l.eatid("samesign");
                let p = match self.l.adv() { T::Id(x) => x, t => panic!("icmp {t:?}") };
                let p = match p { "eq" => ICmp::Eq, "ne" => ICmp::Ne, "ugt" => ICmp::Ugt, "uge" => ICmp::Uge, "ult" => ICmp::Ult, "ule" => ICmp::Ule, "sgt" => ICmp::Sgt, "sge" => ICmp::Sge, "slt" => ICmp::Slt, _ => ICmp::Sle };
                let t = self.ty();
                let a = self.opd(t);
                self.l.ex(b',');
                let b = self.opd(t);
                Ins::ICmp(p, t, a, b)
            }
            "fcmp" => {
                self.flags();
                let p = match self.l.adv() { T::Id(x) => x, t => panic!("fcmp {t:?}") };
                let p = match p { "false" => FCmp::False, "oeq" => FCmp::Oeq, "ogt" => FCmp::Ogt, "oge" => FCmp::Oge, "olt" => FCmp::Olt, "ole" => FCmp::Ole, "one" => FCmp::One, "ord" => FCmp::Ord, "ueq" => FCmp::Ueq, "ugt" => FCmp::Ugt, "uge" => FCmp::Uge, "ult" => FCmp::Ult, "ule" => FCmp::Ule, "une" => FCmp::Une, "uno" => FCmp::Uno, _ => FCmp::True };
                let t = self.ty();
                let a = self.opd(t);
                self.l.ex(b',');
                let b = self.opd(t);
                Ins::FCmp(p, t, a, b)
            }
            "fneg" => { self.flags(); let (t, a) = self.topd(); Ins::FNeg(t, a) }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                self.flags();
                let (t, a) = self.topd();
                self.l.eatid("to");
                let tt = self.ty();
                let o = match op { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "fptrunc" => Cast::FPTrunc, "fpext" => Cast::FPExt, "fptoui" => Cast::FPToUI, "fptosi" => Cast::FPToSI, "uitofp" => Cast::UIToFP, "sitofp" => Cast::SIToFP, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, _ => Cast::BitCast };
                Ins::Cast(o, t, a, tt)
            }
            "load" => {
                self.flags();
                let t = self.ty();
                self.l.ex(b',');
                let (_, p) = self.topd();
                self.ordering();
                Ins::Load(t, p)
            }
            "store" => {
                self.flags();
                let (t, v) = self.topd();
                self.l.ex(b',');
                let (_, p) = self.topd();
                self.ordering();
                Ins::Store(t, v, p)
            }
            "getelementptr" => {
                self.flags();
                let bt = self.ty();
                self.l.ex(b',');
                let (pty, base) = self.topd();
                if matches!(self.m.types.borrow().get(pty), Ty::Vec(..)) { panic!("vector gep"); }
                let mut off: i64 = 0;
                let mut dynv = vec![];
                let mut cur = bt;
                let mut first = true;
                while self.l.isp(b',') {
                    // could be metadata
                    let save = (self.l.p, self.l.tok.clone());
                    self.l.adv();
                    if matches!(self.l.tok, T::Meta) { self.l.p = save.0; self.l.tok = save.1; break; }
                    let (it, io) = self.topd();
                    let w = match self.m.types.borrow().get(it) { Ty::Int(w) => *w, t => panic!("gep idx ty {t:?}") };
                    let ts = self.m.types.borrow();
                    let scale = if first { ts.size(cur) } else {
                        match ts.get(cur) { Ty::Struct(..) => 0, Ty::Arr(_, e) | Ty::Vec(_, e) => ts.size(*e), t => panic!("gep into {t:?}") }
                    };
                    let cidx = match &io { Opd::C(c) => match &**c { C::Int(w, v) => Some(sext(*v, *w)), C::Zero(_) => Some(0), _ => None }, _ => None };
                    if first {
                        first = false;
                        match cidx { Some(i) => off = off.wrapping_add(i.wrapping_mul(scale as i64)), None => dynv.push((io, w, scale)) }
                    } else {
                        match ts.get(cur) {
                            Ty::Struct(..) => { let i = cidx.unwrap() as usize; off += ts.field_off(cur, i) as i64; cur = ts.elem(cur, i); }
                            _ => {
                                let e = ts.elem(cur, 0);
                                match cidx { Some(i) => off = off.wrapping_add(i.wrapping_mul(scale as i64)), None => dynv.push((io, w, scale)) }
                                cur = e;
                            }
                        }
                    }
                }
                Ins::Gep(base, off, dynv)
            }
            "alloca" => {
                self.flags();
                let t = self.ty();
                let mut cnt = Opd::C(Rc::new(C::Int(64, 1)));
                let mut al = 1;
                while self.l.isp(b',') {
                    self.l.adv();
                    if self.l.eatid("align") { if let T::Num(x) = self.l.adv() { al = x.parse().unwrap(); } }
                    else if matches!(self.l.tok, T::Meta) { self.l.adv(); self.l.adv(); }
                    else { cnt = self.topd().1; }
                }
                Ins::Alloca(t, cnt, al)
            }
            "select" => {
                self.flags();
                let (ct, c) = self.topd();
                let _ = ct;
                self.l.ex(b',');
                let (t, a) = self.topd();
                self.l.ex(b',');
                let (_, b) = self.topd();
                Ins::Select(t, c, a, b)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" { self.l.adv(); }
                // flags, cc, ret attrs
                self.call_prefix();
                let rt = self.ty();
                // optional function type for varargs: `i64 (i64, ...) @syscall`
                if self.l.isp(b'(') { self.l.skip_paren(); }
                let callee = match self.l.tok {
                    T::Glob(n) => { self.l.adv(); if n.starts_with("llvm.") { Callee::Intrin(n.into()) } else { Callee::Sym(self.sym(n)) } }
                    T::Local(n) => { self.l.adv(); Callee::Reg(Opd::Reg(self.reg(n))) }
                    T::Id("asm") => { while !matches!(self.l.tok, T::Str(_)) { self.l.adv(); } self.l.adv(); self.l.ex(b','); self.l.adv(); Callee::Asm }
                    _ => { let t = self.mk(Ty::Ptr); match self.cst(t) { C::Sym(g, 0) => Callee::Sym(g), c => Callee::Reg(Opd::C(Rc::new(c))) } }
                };
                self.l.ex(b'(');
                let mut args = vec![];
                if !self.l.eatp(b')') {
                    loop {
                        let t = self.ty();
                        if matches!(self.m.types.borrow().get(t), Ty::Meta) {
                            // skip metadata operand
                            while !self.l.isp(b',') && !self.l.isp(b')') { if self.l.isp(b'(') { self.l.skip_paren(); } else { self.l.adv(); } }
                        } else {
                            self.attrs();
                            let o = self.opd(t);
                            args.push((t, o));
                        }
                        if self.l.eatp(b')') { break; }
                        self.l.ex(b',');
                    }
                }
                // fn attrs / operand bundles
                loop {
                    match self.l.tok {
                        T::Attr(_) => { self.l.adv(); }
                        T::P(b'[') => { while !self.l.isp(b']') { self.l.adv(); } self.l.adv(); }
                        T::Id(w) if op != "invoke" || w != "to" => {
                            // function attribute such as memory(...) or a new instruction; instructions never follow on the same line
                            if self.newline_before() { break; }
                            self.l.adv();
                            if self.l.isp(b'(') { self.l.skip_paren(); }
                        }
                        _ => break,
                    }
                }
                if op == "invoke" {
                    self.l.eatid("to");
                    let n = self.lbl();
                    self.l.eatid("unwind");
                    let _ = self.lbl();
                    Ins::Invoke(rt, callee, args, n)
                } else {
                    Ins::Call(rt, callee, args)
                }
            }
            "extractvalue" => {
                let (t, a) = self.topd();
                let ix = self.idxs();
                Ins::ExtractValue(a, t, ix)
            }
            "insertvalue" => {
                let (t, a) = self.topd();
                self.l.ex(b',');
                let (_, b) = self.topd();
                let ix = self.idxs();
                Ins::InsertValue(a, t, b, ix)
            }
            "extractelement" => { let (t, a) = self.topd(); self.l.ex(b','); let (_, i) = self.topd(); Ins::ExtractElem(t, a, i) }
            "insertelement" => { let (t, a) = self.topd(); self.l.ex(b','); let (_, v) = self.topd(); self.l.ex(b','); let (_, i) = self.topd(); Ins::InsertElem(t, a, v, i) }
            "shufflevector" => {
                let (t, a) = self.topd();
                self.l.ex(b',');
                let (_, b) = self.topd();
                self.l.ex(b',');
                let mt = self.ty();
                let n = self.m.types.borrow().nelem(mt);
                let mc = self.cst(mt);
                let mask = match mc {
                    C::Agg(v) => v.iter().map(|c| match c { C::Int(_, x) => *x as i32, _ => -1 }).collect(),
                    C::Zero(_) => vec![0; n],
                    _ => vec![-1; n],
                };
                Ins::Shuffle(t, a, b, mask)
            }
            "atomicrmw" => {
                self.l.eatid("volatile");
                let o: Rc<str> = match self.l.adv() { T::Id(x) => x.into(), t => panic!("rmw {t:?}") };
                let (_, p) = self.topd();
                self.l.ex(b',');
                let (t, v) = self.topd();
                self.ordering();
                Ins::AtomicRmw(o, t, p, v)
            }
            "cmpxchg" => {
                self.l.eatid("weak");
                self.l.eatid("volatile");
                let (_, p) = self.topd();
                self.l.ex(b',');
                let (t, a) = self.topd();
                self.l.ex(b',');
                let (_, b) = self.topd();
                self.ordering();
                Ins::CmpXchg(t, p, a, b)
            }
            "freeze" => { let (_, a) = self.topd(); Ins::Freeze(a) }
            "fence" => { self.ordering(); Ins::Fence }
            "landingpad" => {
                self.ty();
                loop {
                    match self.l.tok {
                        T::Id("cleanup") if !self.newline_before() || true && self.l.isid("cleanup") => { self.l.adv(); }
                        T::Id("catch") | T::Id("filter") => { self.l.adv(); self.topd(); }
                        _ => break,
                    }
                }
                Ins::LandingPad
            }
            "br" => {
                if self.l.isid("label") { Ins::Br(self.lbl()) } else {
                    let (_, c) = self.topd();
                    self.l.ex(b',');
                    let a = self.lbl();
                    self.l.ex(b',');
                    let b = self.lbl();
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.topd();
                self.l.ex(b',');
                let d = self.lbl();
                self.l.ex(b'[');
                let mut cs = vec![];
                while !self.l.eatp(b']') {
                    let ct = self.ty();
                    let k = match self.cst(ct) { C::Int(_, v) => v, c => panic!("case {c:?}") };
                    self.l.ex(b',');
                    let l = self.lbl();
                    cs.push((k, l));
                }
                Ins::Switch(t, v, d, cs)
            }
            "ret" => {
                if self.l.eatid("void") { Ins::Ret(None) } else { let (_, v) = self.topd(); Ins::Ret(Some(v)) }
            }
            "unreachable" => Ins::Unreachable,
            "resume" => { self.topd(); Ins::Resume }
            "phi" => {
                self.flags();
                let t = self.ty();
                let mut inc = vec![];
                loop {
                    self.l.ex(b'[');
                    let v = self.opd(t);
                    self.l.ex(b',');
                    let l = self.lbl();
                    self.l.ex(b']');
                    inc.push((l, v));
                    if self.l.isp(b',') {
                        let save = (self.l.p, self.l.tok.clone());
                        self.l.adv();
                        if !self.l.isp(b'[') { self.l.p = save.0; self.l.tok = save.1; break; }
                    } else { break; }
                }
                self.eol();
                blk.phis.push((dst, t, inc));
                return;
            }
            _ => { let lo = self.l.p.saturating_sub(300); panic!("unknown instr {op} near {}", &self.l.s[lo..self.l.p]) }
        };
        self.eol();
        blk.ins.push((dst, ins));
    }
    fn newline_before(&self) -> bool {
        // is there a newline between previous token end and current token start?
        // current token text ends at self.l.p; walk back over it
        let b = self.l.s.as_bytes();
        let len = match self.l.tok { T::Id(x) => x.len(), _ => 1 };
        let mut i = self.l.p - len;
        while i > 0 && (b[i - 1] == b' ' || b[i - 1] == b'\n') {
            if b[i - 1] == b'\n' { return true; }
            i -= 1;
        }
        false
    }
    fn idxs(&mut self) -> Vec<u32> {
        let mut v = vec![];
        while self.l.isp(b',') {
            let save = (self.l.p, self.l.tok.clone());
            self.l.adv();
            match self.l.tok { T::Num(x) => { v.push(x.parse().unwrap()); self.l.adv(); } _ => { self.l.p = save.0; self.l.tok = save.1; break; } }
        }
        v
    }
    fn ordering(&mut self) {
        loop {
            match self.l.tok {
                T::Id("syncscope") => { self.l.adv(); self.l.skip_paren(); }
                T::Id("monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst" | "unordered") => { self.l.adv(); }
                _ => return,
            }
        }
    }
    fn flags(&mut self) {
        const F: &[&str] = &["nuw", "nsw", "nusw", "exact", "disjoint", "nneg", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "volatile", "atomic", "inalloca"];
        loop {
            match self.l.tok {
                T::Id(w) if F.contains(&w) => { self.l.adv(); }
                T::Id("inrange") => { self.l.adv(); self.l.skip_paren(); }
                _ => return,
            }
        }
    }
    fn call_prefix(&mut self) {
        loop {
            match self.l.tok {
                T::Id("void" | "ptr" | "double" | "float" | "half" | "fp128" | "x86_fp80" | "token" | "label" | "metadata") => return,
                T::Id(x) if x.starts_with('i') && x[1..].parse::<u16>().is_ok() => return,
                T::Id("align") => { self.l.adv(); self.l.adv(); }
                T::Id(_) => { self.l.adv(); if self.l.isp(b'(') { self.l.skip_paren(); } }
                _ => return,
            }
        }
    }
}

pub fn sext(v: u128, w: u16) -> i64 {
    if w >= 64 { return v as i64; }
    let s = 64 - w as u32;
    ((v as i64) << s) >> s
}

fn parse_fp(s: &str) -> f64 {
    if let Some(h) = s.strip_prefix("0x") {
        if let Some(r) = h.strip_prefix('H').or(h.strip_prefix('K')).or(h.strip_prefix('L')) { let _ = r; return 0.0; }
        return f64::from_bits(u64::from_str_radix(h, 16).unwrap());
    }
    if let Some(h) = s.strip_prefix("f0x") {
        let v = u64::from_str_radix(h, 16).unwrap();
        return if h.len() <= 8 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
    }
    s.parse().unwrap_or_else(|_| panic!("fp {s}"))
}
