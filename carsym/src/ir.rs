//! Reader for the textual LLVM IR of the linked program.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Named(String),
    Label,
    Meta,
    Func(Box<Ty>),
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(_, _) => self.size().next_power_of_two().max(1),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Allocation size.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Func(_) => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                let bits = n * t.bits() as u64;
                (bits + 7) / 8
            }
            Ty::Struct(ts, packed) => {
                let mut off = 0u64;
                for t in ts {
                    if !packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    off += t.size();
                }
                if !packed {
                    let a = self.align();
                    off = (off + a - 1) / a * a;
                }
                off
            }
            Ty::Named(n) => panic!("unresolved type {n}"),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Arr(_, t) => i * t.size(),
            Ty::Vec(_, t) => i * ((t.bits() as u64 + 7) / 8),
            Ty::Struct(ts, packed) => {
                let mut off = 0u64;
                for (k, t) in ts.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return off;
                    }
                    off += t.size();
                }
                panic!("field")
            }
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn elem(&self, i: u64) -> &Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            Ty::Struct(ts, _) => &ts[i as usize],
            _ => panic!("elem of {:?}", self),
        }
    }
}

/// A constant or operand as parsed, before globals have addresses.
#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Undef,
    Zero,
    Global(String),
    Agg(Vec<(Ty, Const)>),
    Str(Vec<u8>),
    Splat(Ty, Box<Const>),
    Gep(Ty, Box<Const>, Vec<(Ty, Const)>),
    Cast(String, Ty, Box<Const>, Ty),
    Bin(String, Ty, Box<Const>, Box<Const>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(u64),
    K(Const, Ty), // resolved by the loader
    V(crate::exec::V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bop {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, Zext, Sext, Bitcast, PtrToInt, IntToPtr, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub struct Edge { pub bb: u32, pub phi: u32 }

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Named(String), Indirect(Opd), Asm(String) }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(Bop, Ty, u32, Opd, Opd),
    ICmp(Pred, Ty, u32, Opd, Opd),
    FCmp(String, Ty, u32, Opd, Opd),
    Cast(Cast, Ty, Ty, u32, Opd),
    Load(Ty, u32, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u32, i64)>),
    Alloca(u32, u64, u64, Option<Opd>),
    Select(u32, Ty, Opd, Opd, Opd, bool),
    Br(Edge),
    CondBr(Opd, Edge, Edge),
    Switch(Opd, u32, Edge, Vec<(u128, Edge)>),
    Ret(Option<Opd>),
    Unreachable,
    Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Ty, Opd)>, normal: Option<Edge> },
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(u32, Ty, Opd, Opd, Vec<u32>),
    ExtractElem(u32, Opd, Opd, Ty),
    InsertElem(u32, Ty, Opd, Opd, Opd),
    Shuffle(u32, Ty, Opd, Opd, Vec<i64>),
    AtomicRmw(String, Ty, u32, Opd, Opd),
    CmpXchg(Ty, u32, Opd, Opd, Opd),
    Nop,
    Freeze(u32, Opd),
    FNeg(Ty, u32, Opd),
    Unsupported(String),
    /// before an access that threads synchronise with
    Sync,
}

#[derive(Debug, Clone)]
pub struct Block { pub phis: Vec<(u32, Ty, Vec<Opd>)>, pub preds: Vec<u32>, pub insts: Vec<Inst> }

#[derive(Debug, Clone)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub param_tys: Vec<Ty>,
    pub ret: Ty,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
}

pub struct Global { pub name: String, pub ty: Ty, pub init: Option<Const>, pub align: u64, pub constant: bool, pub tls: bool }

pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub aliases: Vec<(String, Const)>,
}

pub struct P<'a> { s: &'a [u8], p: usize, types: &'a HashMap<String, Ty> }

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}

impl<'a> P<'a> {
    fn new(s: &'a [u8], types: &'a HashMap<String, Ty>) -> Self { P { s, p: 0, types } }
    fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t' || self.s[self.p] == b'\n') { self.p += 1; }
    }
    fn peek(&mut self) -> u8 { self.ws(); if self.p < self.s.len() { self.s[self.p] } else { 0 } }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.p..].starts_with(t.as_bytes()) {
            let e = self.p + t.len();
            // word boundary for identifiers
            if is_id(t.as_bytes()[t.len() - 1]) && e < self.s.len() && is_id(self.s[e]) && t.as_bytes()[0].is_ascii_alphabetic() { return false; }
            self.p = e;
            true
        } else { false }
    }
    fn exp(&mut self, t: &str) {
        if !self.eat(t) { self.fail(&format!("expected {t}")); }
    }
    fn fail(&self, m: &str) -> ! {
        let a = self.p.saturating_sub(80);
        let b = (self.p + 120).min(self.s.len());
        panic!("IR parse: {m} at ...{}<<HERE>>{}", String::from_utf8_lossy(&self.s[a..self.p.min(b)]), String::from_utf8_lossy(&self.s[self.p.min(b)..b]));
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() && is_id(self.s[self.p]) { self.p += 1; }
        unsafe { std::str::from_utf8_unchecked(&self.s[st..self.p]) }
    }
    fn peek_word(&mut self) -> &'a str { let q = { self.ws(); self.p }; let w = self.word(); self.p = q; w }
    /// name after % or @ (cursor on the sigil)
    fn name(&mut self) -> String {
        self.ws();
        self.p += 1;
        self.rawname()
    }
    fn rawname(&mut self) -> String {
        if self.s[self.p] == b'"' {
            let b = self.qstr();
            String::from_utf8_lossy(&b).into_owned()
        } else {
            let st = self.p;
            while self.p < self.s.len() && is_id(self.s[self.p]) { self.p += 1; }
            String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
        }
    }
    fn qstr(&mut self) -> Vec<u8> {
        // cursor on "
        self.p += 1;
        let mut out = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                let h = |c: u8| (c as char).to_digit(16);
                if self.s[self.p + 1] == b'\\' { out.push(b'\\'); self.p += 2; continue; }
                if let (Some(a), Some(b)) = (h(self.s[self.p + 1]), h(self.s[self.p + 2])) {
                    out.push((a * 16 + b) as u8);
                    self.p += 3;
                    continue;
                }
            }
            out.push(self.s[self.p]);
            self.p += 1;
        }
        self.p += 1;
        out
    }
    fn uint(&mut self) -> u64 {
        self.ws();
        let mut v = 0u64;
        let st = self.p;
        while self.p < self.s.len() && self.s[self.p].is_ascii_digit() { v = v.wrapping_mul(10).wrapping_add((self.s[self.p] - b'0') as u64); self.p += 1; }
        if st == self.p { self.fail("number"); }
        v
    }
    fn int128(&mut self) -> u128 {
        self.ws();
        let neg = if self.s[self.p] == b'-' { self.p += 1; true } else { false };
        let mut v = 0u128;
        let st = self.p;
        while self.p < self.s.len() && self.s[self.p].is_ascii_digit() { v = v.wrapping_mul(10).wrapping_add((self.s[self.p] - b'0') as u128); self.p += 1; }
        if st == self.p { self.fail("int"); }
        if neg { v.wrapping_neg() } else { v }
    }
    pub fn ty(&mut self) -> Ty {
        let mut t = match self.peek() {
            b'[' => { self.p += 1; let n = self.uint(); self.exp("x"); let t = self.ty(); self.exp("]"); Ty::Arr(n, Box::new(t)) }
            b'{' => { self.p += 1; let mut v = vec![]; if !self.eat("}") { loop { v.push(self.ty()); if self.eat("}") { break; } self.exp(","); } } Ty::Struct(v, false) }
            b'<' => {
                self.p += 1;
                if self.eat("{") {
                    let mut v = vec![];
                    if !self.eat("}") { loop { v.push(self.ty()); if self.eat("}") { break; } self.exp(","); } }
                    self.exp(">");
                    Ty::Struct(v, true)
                } else { let n = self.uint(); self.exp("x"); let t = self.ty(); self.exp(">"); Ty::Vec(n, Box::new(t)) }
            }
            b'%' => { let n = self.name(); match self.types.get(&n) { Some(t) => t.clone(), None => Ty::Named(n) } }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "label" => Ty::Label,
                    "metadata" => Ty::Meta,
                    "half" => Ty::Int(16),
                    "fp128" => Ty::Int(128),
                    "x86_fp80" => Ty::Int(80),
                    "token" => Ty::Void,
                    "opaque" => Ty::Struct(vec![], false),
                    _ if w.starts_with('i') && w.len() > 1 => Ty::Int(w[1..].parse().unwrap_or_else(|_| self.fail("int type"))),
                    _ => self.fail(&format!("type {w}")),
                }
            }
        };
        // function type suffix
        loop {
            if self.peek() == b'(' {
                // only a function type if what follows is a type list; used in calls of varargs
                self.skip_parens();
                t = Ty::Func(Box::new(t));
            } else { break; }
        }
        t
    }
    fn skip_parens(&mut self) {
        self.ws();
        let mut d = 0;
        loop {
            let c = self.s[self.p];
            if c == b'"' { self.qstr(); continue; }
            self.p += 1;
            if c == b'(' { d += 1; }
            if c == b')' { d -= 1; if d == 0 { return; } }
        }
    }
    /// skips parameter/return attributes
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' { self.qstr(); if self.eat("=") { self.ws(); self.qstr(); } continue; }
            if c == b'#' { self.p += 1; self.uint(); continue; }
            let q = self.p;
            let w = self.word();
            match w {
                "zeroext" | "signext" | "inreg" | "noalias" | "nonnull" | "noundef" | "readonly" | "writeonly" | "readnone" | "nocapture" | "nofree" | "nest" | "returned" | "immarg" | "swiftself" | "allocptr" | "allocalign" | "noinline" | "writable" | "dead_on_unwind" | "dead_on_return" | "noext" | "nosync" | "nounwind" | "noreturn" => { if w == "dead_on_return" && self.peek() == b'(' { self.skip_parens(); } }
                "align" | "alignstack" => { if self.peek() == b'(' { self.skip_parens(); } else { self.uint(); } }
                "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "byref" | "inalloca" | "preallocated" | "elementtype" | "range" | "captures" | "initializes" | "nofpclass" | "memory" => self.skip_parens(),
                _ => { self.p = q; return; }
            }
        }
    }
    pub fn cst(&mut self, ty: &Ty) -> Const {
        match self.peek() {
            b'@' => Const::Global(self.name()),
            b'[' | b'{' | b'<' => {
                let c = self.s[self.p];
                self.p += 1;
                let mut packed = false;
                if c == b'<' && self.peek() == b'{' { self.p += 1; packed = true; }
                let close = match c { b'[' => "]", b'{' => "}", _ => if packed { "}" } else { ">" } };
                let mut v = vec![];
                if !self.eat(close) { loop { let t = self.ty(); let k = self.cst(&t); v.push((t, k)); if self.eat(close) { break; } self.exp(","); } }
                if packed { self.exp(">"); }
                Const::Agg(v)
            }
            b'c' if self.s[self.p + 1] == b'"' => { self.p += 1; Const::Str(self.qstr()) }
            b'-' | b'0'..=b'9' => {
                if matches!(ty, Ty::Double | Ty::Float) {
                    return self.float(ty);
                }
                Const::Int(self.int128())
            }
            b'f' if self.s[self.p..].starts_with(b"f0x") => self.float(ty),
            b'+' => self.float(ty),
            _ => {
                let w = self.word();
                match w {
                    "true" => Const::Int(1),
                    "false" => Const::Int(0),
                    "null" | "zeroinitializer" => Const::Zero,
                    "undef" | "poison" | "none" => Const::Undef,
                    "splat" => { self.exp("("); let t = self.ty(); let k = self.cst(&t); self.exp(")"); Const::Splat(t, Box::new(k)) }
                    "getelementptr" => {
                        while matches!(self.peek_word(), "inbounds" | "nuw" | "nusw" | "inrange") { let w = self.word(); if w == "inrange" { self.skip_parens(); } }
                        self.exp("(");
                        let t = self.ty();
                        self.exp(",");
                        let pt = self.ty();
                        let base = self.cst(&pt);
                        let mut idx = vec![];
                        while self.eat(",") { let t = self.ty(); let k = self.cst(&t); idx.push((t, k)); }
                        self.exp(")");
                        Const::Gep(t, Box::new(base), idx)
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                        self.exp("(");
                        let t = self.ty();
                        let k = self.cst(&t);
                        self.exp("to");
                        let t2 = self.ty();
                        self.exp(")");
                        Const::Cast(w.to_string(), t, Box::new(k), t2)
                    }
                    "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" => {
                        while matches!(self.peek_word(), "nuw" | "nsw") { self.word(); }
                        self.exp("(");
                        let t = self.ty();
                        let a = self.cst(&t);
                        self.exp(",");
                        let t2 = self.ty();
                        let b = self.cst(&t2);
                        self.exp(")");
                        Const::Bin(w.to_string(), t, Box::new(a), Box::new(b))
                    }
                    "no_cfi" | "dso_local_equivalent" => Const::Global(self.name()),
                    "nan" | "qnan" | "inf" => Const::Int(if matches!(ty, Ty::Float) { f32::NAN.to_bits() as u128 } else { f64::NAN.to_bits() as u128 }),
                    _ => self.fail(&format!("constant {w}")),
                }
            }
        }
    }
    fn float(&mut self, ty: &Ty) -> Const {
        self.ws();
        if self.s[self.p] == b'f' { self.p += 1; }
        if self.s[self.p..].starts_with(b"0x") {
            self.p += 2;
            let st = self.p;
            while self.s[self.p].is_ascii_hexdigit() { self.p += 1; }
            let v = u64::from_str_radix(std::str::from_utf8(&self.s[st..self.p]).unwrap(), 16).unwrap();
            return if matches!(ty, Ty::Float) { if self.p - st <= 8 { Const::Int(v as u128) } else { Const::Int((f64::from_bits(v) as f32).to_bits() as u128) } } else { Const::Int(v as u128) };
        }
        let st = self.p;
        while self.p < self.s.len() && (self.s[self.p].is_ascii_digit() || matches!(self.s[self.p], b'.' | b'e' | b'E' | b'+' | b'-')) { self.p += 1; }
        let f: f64 = std::str::from_utf8(&self.s[st..self.p]).unwrap().parse().unwrap();
        Const::Int(if matches!(ty, Ty::Float) { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 })
    }
}

struct FB { regs: HashMap<String, u32>, blocks: HashMap<String, u32>, n: u32 }
impl FB {
    fn reg(&mut self, n: String) -> u32 {
        let c = &mut self.n;
        *self.regs.entry(n).or_insert_with(|| { *c += 1; *c - 1 })
    }
}

fn opd(p: &mut P, fb: &mut FB, ty: &Ty) -> Opd {
    if p.peek() == b'%' { let n = p.name(); Opd::Reg(fb.reg(n)) } else {
        let k = p.cst(ty);
        mkc(k, ty)
    }
}
fn mkc(k: Const, ty: &Ty) -> Opd {
    match (&k, ty) {
        (Const::Int(v), Ty::Int(w)) if *w <= 64 => Opd::C((*v as u64) & mask(*w)),
        (Const::Zero, Ty::Ptr) | (Const::Zero, Ty::Int(_)) if ty.bits() <= 64 => Opd::C(0),
        (Const::Undef, Ty::Int(w)) if *w <= 64 => Opd::C(0),
        (Const::Undef, Ty::Ptr) => Opd::C(0),
        _ => Opd::K(k, ty.clone()),
    }
}
pub fn mask(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }

fn label(p: &mut P, fb: &mut FB) -> u32 {
    p.exp("label");
    let n = p.name();
    let l = fb.blocks.len() as u32;
    *fb.blocks.entry(n).or_insert(l)
}

pub fn parse(text: &[u8]) -> Module {
    let mut types: HashMap<String, Ty> = HashMap::new();
    let mut m = Module { funcs: vec![], fidx: HashMap::new(), globals: vec![], aliases: vec![] };
    // Pass 1: named types (in order, as text)
    let lines: Vec<&[u8]> = text.split(|c| *c == b'\n').collect();
    let mut pend: Vec<(String, &[u8])> = vec![];
    for l in &lines {
        if l.first() == Some(&b'%') {
            let e = HashMap::new();
            let mut p = P::new(l, &e);
            let n = p.name();
            p.exp("=");
            p.exp("type");
            p.ws();
            pend.push((n, &l[p.p..]));
        }
    }
    for _ in 0..6 {
        for (n, t) in &pend {
            let snap = types.clone();
            let mut p = P::new(t, &snap);
            types.insert(n.clone(), p.ty());
        }
    }
    let types = types;
    let mut i = 0;
    let mut defs: Vec<(usize, usize)> = vec![];
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with(b"@") {
            global(&mut m, l, &types);
        } else if l.starts_with(b"declare") || l.starts_with(b"define") {
            let start = i;
            if l.starts_with(b"define") { while lines[i] != b"}" { i += 1; } }
            defs.push((start, i));
        }
        i += 1;
    }
    // parse functions in parallel
    let nth = 8;
    let chunks: Vec<Vec<(usize, usize)>> = { let mut c = vec![vec![]; nth]; for (k, d) in defs.iter().enumerate() { c[k % nth].push(*d); } c };
    let fs: Vec<Vec<Func>> = std::thread::scope(|s| {
        let hs: Vec<_> = chunks.iter().map(|c| { let lines = &lines; let types = &types; s.spawn(move || c.iter().map(|(a, b)| func(&lines[*a..=*b], types)).collect::<Vec<_>>()) }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for f in fs.into_iter().flatten() {
        let idx = m.funcs.len() as u32;
        m.fidx.insert(f.name.clone(), idx);
        m.funcs.push(f);
    }
    m
}

fn global(m: &mut Module, l: &[u8], types: &HashMap<String, Ty>) {
    let mut p = P::new(l, types);
    let name = p.name();
    p.exp("=");
    let mut ext = false;
    let mut tls = false;
    loop {
        let q = { p.ws(); p.p };
        let w = p.word();
        match w {
            "private" | "internal" | "available_externally" | "linkonce" | "weak" | "common" | "linkonce_odr" | "weak_odr" | "hidden" | "protected" | "default" | "unnamed_addr" | "local_unnamed_addr" | "dso_local" | "dso_preemptable" | "externally_initialized" | "appending" => {}
            "external" | "extern_weak" => ext = true,
            "thread_local" | "addrspace" => { tls |= w == "thread_local"; if p.peek() == b'(' { p.skip_parens(); } }
            "alias" => { let _ = p.ty(); p.exp(","); let t = p.ty(); let k = p.cst(&t); m.aliases.push((name, k)); return; }
            "ifunc" => return,
            "global" | "constant" => {
                let ty = p.ty();
                let init = if ext { None } else { Some(p.cst(&ty)) };
                let mut align = ty.align();
                while p.eat(",") { if p.eat("align") { align = p.uint(); } else { break; } }
                m.globals.push(Global { name, ty, init, align: align.max(1), constant: w == "constant", tls });
                return;
            }
            _ => { p.p = q; p.fail("global"); }
        }
    }
}

fn skip_linkage(p: &mut P) {
    loop {
        let q = { p.ws(); p.p };
        match p.word() {
            "private" | "internal" | "available_externally" | "linkonce" | "weak" | "linkonce_odr" | "weak_odr" | "hidden" | "protected" | "default" | "dso_local" | "dso_preemptable" | "extern_weak" | "external" | "fastcc" | "coldcc" | "ccc" | "tailcc" | "preserve_mostcc" | "preserve_allcc" | "preserve_nonecc" | "x86_64_sysvcc" => {}
            "cc" => { p.uint(); }
            _ => { p.p = q; return; }
        }
    }
}

fn func(lines: &[&[u8]], types: &HashMap<String, Ty>) -> Func {
    let mut p = P::new(lines[0], types);
    let defined = p.eat("define");
    if !defined { p.exp("declare"); }
    skip_linkage(&mut p);
    p.attrs();
    // return type must not swallow "(": name follows
    let ret = p.ty();
    let name = p.name();
    p.exp("(");
    let mut fb = FB { regs: HashMap::new(), blocks: HashMap::new(), n: 0 };
    let mut params = vec![];
    let mut param_tys = vec![];
    let mut anon = 0;
    if !p.eat(")") {
        loop {
            if p.eat("...") { p.exp(")"); break; }
            let t = p.ty();
            p.attrs();
            if p.peek() == b'%' { let n = p.name(); if n.chars().all(|c| c.is_ascii_digit()) { anon = n.parse::<u32>().unwrap() + 1; } params.push(fb.reg(n)); } else { params.push(fb.reg(format!("{anon}"))); anon += 1; }
            param_tys.push(t);
            if p.eat(")") { break; }
            p.exp(",");
        }
    }
    if !defined { return Func { name, params, param_tys, ret, nregs: 0, blocks: vec![], defined }; }
    // blocks
    let mut blocks: Vec<Block> = vec![];
    let mut phis_raw: Vec<Vec<(u32, Ty, Vec<(Opd, String)>)>> = vec![];
    let mut order: Vec<String> = vec![];
    let mut cur: Option<usize> = None;
    let mut k = 1;
    // Implicit entry label
    let first = (1..lines.len()).find(|&j| !lines[j].is_empty()).unwrap();
    if !is_label(lines[first]) {
        order.push(format!("{anon}"));
    }
    for l in &lines[1..lines.len() - 1] { if is_label(l) { order.push(label_name(l)); } }
    for (j, n) in order.iter().enumerate() { fb.blocks.insert(n.clone(), j as u32); }
    for _ in 0..order.len() { blocks.push(Block { phis: vec![], preds: vec![], insts: vec![] }); phis_raw.push(vec![]); }
    if !is_label(lines[first]) { cur = Some(0); }
    while k < lines.len() - 1 {
        let l = lines[k];
        if l.is_empty() || l.starts_with(b";") { k += 1; continue; }
        if is_label(l) { cur = Some(match cur { None => 0, Some(c) => c + 1 }); k += 1; continue; }
        // join continuation lines: switch tables, landingpad/invoke continuation
        let mut buf: Vec<u8>;
        let mut line: &[u8] = l;
        if line.starts_with(b"    #dbg") || line.starts_with(b"  #dbg") { k += 1; continue; }
        let t = String::from_utf8_lossy(l);
        let tt = t.trim_start();
        if tt.starts_with("switch") {
            buf = l.to_vec();
            while !buf.ends_with(b"]") && !has_close(&buf) { k += 1; buf.push(b' '); buf.extend_from_slice(lines[k]); }
            line = &buf;
        } else if (tt.contains("invoke ")) && k + 1 < lines.len() && lines[k + 1].starts_with(b"          to label") {
            buf = l.to_vec();
            k += 1;
            buf.push(b' ');
            buf.extend_from_slice(lines[k]);
            line = &buf;
        } else if tt.contains("landingpad") {
            while lines[k + 1].starts_with(b"          ") { k += 1; }
        }
        let c = cur.unwrap();
        inst(line, types, &mut fb, &mut blocks[c], &mut phis_raw[c]);
        k += 1;
    }
    // edges and phis
    let mut preds: Vec<Vec<u32>> = vec![vec![]; blocks.len()];
    for (b, blk) in blocks.iter_mut().enumerate() {
        let mut fix = |e: &mut Edge| {
            let ps = &mut preds[e.bb as usize];
            let pos = ps.iter().position(|x| *x == b as u32).unwrap_or_else(|| { ps.push(b as u32); ps.len() - 1 });
            e.phi = pos as u32;
        };
        if let Some(i) = blk.insts.last_mut() {
            match i {
                Inst::Br(e) => fix(e),
                Inst::CondBr(_, a, b) => { fix(a); fix(b); }
                Inst::Switch(_, _, d, cs) => { fix(d); for (_, e) in cs { fix(e); } }
                Inst::Call { normal: Some(e), .. } => fix(e),
                _ => {}
            }
        }
    }
    for (b, raws) in phis_raw.into_iter().enumerate() {
        let mut out = vec![];
        for (dst, ty, inc) in raws {
            let mut ops = vec![Opd::C(0); preds[b].len()];
            for (o, l) in inc { let bi = fb.blocks[&l]; if let Some(pos) = preds[b].iter().position(|x| *x == bi) { ops[pos] = o; } }
            out.push((dst, ty, ops));
        }
        blocks[b].phis = out;
        blocks[b].preds = preds[b].clone();
    }
    Func { name, params, param_tys, ret, nregs: fb.n, blocks, defined }
}

fn has_close(b: &[u8]) -> bool { // "switch ... ]" possibly followed by ", !prof"
    let mut i = b.len();
    while i > 0 { i -= 1; if b[i] == b']' { return true; } if b[i] == b'[' { return false; } }
    false
}
fn is_label(l: &[u8]) -> bool { !l.is_empty() && l[0] != b' ' && l[0] != b';' && l[0] != b'}' && l[0] != b'\t' && { let s = l; let mut i = 0; if s[0] == b'"' { i = 1; while i < s.len() && s[i] != b'"' { i += 1; } i += 1; } else { while i < s.len() && is_id(s[i]) { i += 1; } } i < s.len() && s[i] == b':' } }
fn label_name(l: &[u8]) -> String {
    let e = HashMap::new();
    let mut p = P::new(l, &e);
    p.rawname()
}

fn inst(line: &[u8], types: &HashMap<String, Ty>, fb: &mut FB, blk: &mut Block, phis: &mut Vec<(u32, Ty, Vec<(Opd, String)>)>) {
    let mut p = P::new(line, types);
    let mut dst: Option<u32> = None;
    if p.peek() == b'%' { let n = p.name(); p.exp("="); dst = Some(fb.reg(n)); }
    let mut w = p.word();
    while matches!(w, "tail" | "musttail" | "notail") { w = p.word(); }
    let d = dst.unwrap_or(u32::MAX);
    macro_rules! flags { () => { while matches!(p.peek_word(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic") { p.word(); } } }
    let ins = match w {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            flags!();
            let t = p.ty();
            let a = opd(&mut p, fb, &t);
            p.exp(",");
            let b = opd(&mut p, fb, &t);
            let o = match w { "add" => Bop::Add, "sub" => Bop::Sub, "mul" => Bop::Mul, "udiv" => Bop::UDiv, "sdiv" => Bop::SDiv, "urem" => Bop::URem, "srem" => Bop::SRem, "shl" => Bop::Shl, "lshr" => Bop::LShr, "ashr" => Bop::AShr, "and" => Bop::And, "or" => Bop::Or, "xor" => Bop::Xor, "fadd" => Bop::FAdd, "fsub" => Bop::FSub, "fmul" => Bop::FMul, "fdiv" => Bop::FDiv, _ => Bop::FRem };
            Inst::Bin(o, t, d, a, b)
        }
        "fneg" => { flags!(); let t = p.ty(); let a = opd(&mut p, fb, &t); Inst::FNeg(t, d, a) }
        "icmp" => {
            flags!();
            let pr = match p.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => p.fail("pred") };
            let t = p.ty();
            let a = opd(&mut p, fb, &t);
            p.exp(",");
            let b = opd(&mut p, fb, &t);
            Inst::ICmp(pr, t, d, a, b)
        }
        "fcmp" => {
            flags!();
            let pr = p.word().to_string();
            let t = p.ty();
            let a = opd(&mut p, fb, &t);
            p.exp(",");
            let b = opd(&mut p, fb, &t);
            Inst::FCmp(pr, t, d, a, b)
        }
        "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "ptrtoaddr" => {
            flags!();
            let t = p.ty();
            let a = opd(&mut p, fb, &t);
            p.exp("to");
            let t2 = p.ty();
            let c = match w { "trunc" => Cast::Trunc, "zext" => Cast::Zext, "sext" => Cast::Sext, "bitcast" => Cast::Bitcast, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fpext" => Cast::FpExt, _ => Cast::FpTrunc };
            Inst::Cast(c, t, t2, d, a)
        }
        "load" => {
            let atomic = p.peek_word() == "atomic";
            flags!();
            let t = p.ty();
            if atomic { blk.insts.push(Inst::Sync); }
            p.exp(",");
            let pt = p.ty();
            let a = opd(&mut p, fb, &pt);
            Inst::Load(t, d, a)
        }
        "store" => {
            let atomic = p.peek_word() == "atomic";
            flags!();
            let t = p.ty();
            if atomic { blk.insts.push(Inst::Sync); }
            let v = opd(&mut p, fb, &t);
            p.exp(",");
            let pt = p.ty();
            let a = opd(&mut p, fb, &pt);
            Inst::Store(t, v, a)
        }
        "getelementptr" => {
            flags!();
            let t = p.ty();
            p.exp(",");
            let pt = p.ty();
            if !matches!(pt, Ty::Ptr) { blk.insts.push(Inst::Unsupported("vector gep".into())); return; }
            let base = opd(&mut p, fb, &pt);
            let mut off = 0i64;
            let mut vars = vec![];
            let mut cur: Option<Ty> = None;
            while p.eat(",") {
                if p.peek() == b'!' { break; }
                let it = p.ty();
                let ix = opd(&mut p, fb, &it);
                match &cur {
                    None => {
                        match ix { Opd::C(c) => off = off.wrapping_add(sext(c, it.bits()).wrapping_mul(t.size() as i64)), o => vars.push((o, it.bits(), t.size() as i64)) }
                        cur = Some(t.clone());
                    }
                    Some(ct) => {
                        match ix {
                            Opd::C(c) => {
                                if let Ty::Struct(..) = ct { off = off.wrapping_add(ct.field_off(c) as i64); } else { let es = if let Ty::Vec(..) = ct { ct.field_off(1) as i64 } else { ct.elem(0).size() as i64 }; off = off.wrapping_add(sext(c, it.bits()).wrapping_mul(es)); }
                                let e = ct.elem(c).clone();
                                cur = Some(e);
                            }
                            o => {
                                let es = if let Ty::Vec(..) = ct { ct.field_off(1) as i64 } else { ct.elem(0).size() as i64 };
                                vars.push((o, it.bits(), es));
                                let e = ct.elem(0).clone();
                                cur = Some(e);
                            }
                        }
                    }
                }
            }
            Inst::Gep(d, base, off, vars)
        }
        "alloca" => {
            if p.peek_word() == "inalloca" { p.word(); }
            let t = p.ty();
            let mut n = None;
            let mut al = t.align().max(1);
            while p.eat(",") {
                if p.eat("align") { al = p.uint(); } else if p.peek() == b'!' { break; } else { let it = p.ty(); n = Some(opd(&mut p, fb, &it)); }
            }
            Inst::Alloca(d, t.size(), al, n)
        }
        "phi" => {
            flags!();
            let t = p.ty();
            let mut inc = vec![];
            loop {
                p.exp("[");
                let v = opd(&mut p, fb, &t);
                p.exp(",");
                let l = p.name();
                p.exp("]");
                inc.push((v, l));
                if !p.eat(",") { break; }
                if p.peek() != b'[' { break; }
            }
            phis.push((d, t, inc));
            return;
        }
        "select" => {
            flags!();
            let ct = p.ty();
            let c = opd(&mut p, fb, &ct);
            p.exp(",");
            let t = p.ty();
            let a = opd(&mut p, fb, &t);
            p.exp(",");
            let t2 = p.ty();
            let b = opd(&mut p, fb, &t2);
            Inst::Select(d, t, c, a, b, matches!(ct, Ty::Vec(..)))
        }
        "br" => {
            if p.peek_word() == "label" { let l = label(&mut p, fb); Inst::Br(Edge { bb: l, phi: 0 }) } else {
                let t = p.ty();
                let c = opd(&mut p, fb, &t);
                p.exp(",");
                let a = label(&mut p, fb);
                p.exp(",");
                let b = label(&mut p, fb);
                Inst::CondBr(c, Edge { bb: a, phi: 0 }, Edge { bb: b, phi: 0 })
            }
        }
        "switch" => {
            let t = p.ty();
            let v = opd(&mut p, fb, &t);
            p.exp(",");
            let dl = label(&mut p, fb);
            p.exp("[");
            let mut cs = vec![];
            while !p.eat("]") {
                let it = p.ty();
                let k = match p.cst(&it) { Const::Int(x) => x, _ => p.fail("switch const") };
                p.exp(",");
                let l = label(&mut p, fb);
                let m = if t.bits() >= 128 { !0 } else { (1u128 << t.bits()) - 1 };
                cs.push((k & m, Edge { bb: l, phi: 0 }));
            }
            Inst::Switch(v, t.bits(), Edge { bb: dl, phi: 0 }, cs)
        }
        "ret" => { let t = p.ty(); if t == Ty::Void { Inst::Ret(None) } else { let o = opd(&mut p, fb, &t); Inst::Ret(Some(o)) } }
        "unreachable" => Inst::Unreachable,
        "resume" | "cleanupret" | "catchret" => Inst::Unreachable,
        "landingpad" => Inst::Nop,
        "fence" => Inst::Nop,
        "freeze" => { let t = p.ty(); let o = opd(&mut p, fb, &t); Inst::Freeze(d, o) }
        "extractvalue" => {
            let t = p.ty();
            let o = opd(&mut p, fb, &t);
            let mut ix = vec![];
            while p.eat(",") { if p.peek() == b'!' { break; } ix.push(p.uint() as u32); }
            Inst::ExtractValue(d, o, ix)
        }
        "insertvalue" => {
            let t = p.ty();
            let o = opd(&mut p, fb, &t);
            p.exp(",");
            let t2 = p.ty();
            let v = opd(&mut p, fb, &t2);
            let mut ix = vec![];
            while p.eat(",") { if p.peek() == b'!' { break; } ix.push(p.uint() as u32); }
            Inst::InsertValue(d, t, o, v, ix)
        }
        "extractelement" => { let t = p.ty(); let o = opd(&mut p, fb, &t); p.exp(","); let it = p.ty(); let i = opd(&mut p, fb, &it); Inst::ExtractElem(d, o, i, t) }
        "insertelement" => { let t = p.ty(); let o = opd(&mut p, fb, &t); p.exp(","); let t2 = p.ty(); let v = opd(&mut p, fb, &t2); p.exp(","); let it = p.ty(); let i = opd(&mut p, fb, &it); Inst::InsertElem(d, t, o, v, i) }
        "shufflevector" => {
            let t = p.ty();
            let a = opd(&mut p, fb, &t);
            p.exp(",");
            let t2 = p.ty();
            let b = opd(&mut p, fb, &t2);
            p.exp(",");
            let mt = p.ty();
            let k = p.cst(&mt);
            let n = match &mt { Ty::Vec(n, _) => *n, _ => p.fail("mask") };
            let mk: Vec<i64> = match k {
                Const::Zero => vec![0; n as usize],
                Const::Undef => vec![-1; n as usize],
                Const::Splat(_, c) => match *c { Const::Int(v) => vec![v as i64; n as usize], _ => p.fail("mask") },
                Const::Agg(v) => v.iter().map(|(_, c)| match c { Const::Int(x) => *x as i64, Const::Zero => 0, _ => -1 }).collect(),
                _ => p.fail("mask"),
            };
            Inst::Shuffle(d, t, a, b, mk)
        }
        "atomicrmw" => {
            flags!();
            let o = p.word().to_string();
            let pt = p.ty();
            let a = opd(&mut p, fb, &pt);
            p.exp(",");
            let t = p.ty();
            let v = opd(&mut p, fb, &t);
            if t.bits() <= 32 { blk.insts.push(Inst::Sync); }
            Inst::AtomicRmw(o, t, d, a, v)
        }
        "cmpxchg" => {
            while matches!(p.peek_word(), "weak" | "volatile") { p.word(); }
            let pt = p.ty();
            let a = opd(&mut p, fb, &pt);
            p.exp(",");
            let t = p.ty();
            let e = opd(&mut p, fb, &t);
            p.exp(",");
            let t2 = p.ty();
            let v = opd(&mut p, fb, &t2);
            if t.bits() <= 32 { blk.insts.push(Inst::Sync); }
            Inst::CmpXchg(t, d, a, e, v)
        }
        "call" | "invoke" => {
            flags!();
            skip_linkage(&mut p);
            p.attrs();
            let mut ret = p.ty();
            if let Ty::Func(r) = ret { ret = *r; }
            let callee = match p.peek() {
                b'@' => Callee::Named(p.name()),
                b'%' => { let n = p.name(); Callee::Indirect(Opd::Reg(fb.reg(n))) }
                b'a' if p.peek_word() == "asm" => {
                    p.word();
                    while matches!(p.peek_word(), "sideeffect" | "alignstack" | "inteldialect" | "unwind") { p.word(); }
                    p.ws();
                    let s = p.qstr();
                    p.exp(",");
                    p.ws();
                    p.qstr();
                    Callee::Asm(String::from_utf8_lossy(&s).into_owned())
                }
                _ => { let k = p.cst(&Ty::Ptr); Callee::Indirect(Opd::K(k, Ty::Ptr)) }
            };
            p.exp("(");
            let mut args = vec![];
            if !p.eat(")") {
                loop {
                    let t = p.ty();
                    if t == Ty::Meta { // skip metadata operand
                        let mut dd = 0;
                        loop { let c = p.s[p.p]; if c == b'(' { dd += 1; } if c == b')' { if dd == 0 { break; } dd -= 1; } if c == b',' && dd == 0 { break; } p.p += 1; }
                    } else {
                        p.attrs();
                        let o = opd(&mut p, fb, &t);
                        args.push((t, o));
                    }
                    if p.eat(")") { break; }
                    p.exp(",");
                }
            }
            let mut normal = None;
            if w == "invoke" {
                // skip attrs until "to label"
                loop { let q = p.p; if p.eat("to") { break; } p.p = q + 1; if p.p >= p.s.len() { p.fail("invoke to"); } }
                let l = label(&mut p, fb);
                normal = Some(Edge { bb: l, phi: 0 });
            }
            if let Callee::Named(n) = &callee { if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.assume") { return; } }
            Inst::Call { dst, ret, callee, args, normal }
        }
        _ => Inst::Unsupported(String::from_utf8_lossy(line).into_owned()),
    };
    blk.insts.push(ins);
}
pub fn sext(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }
