//! The symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::Mem;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum V { C(u64), S(Eid), A(Arc<Vec<V>>) }

pub const FUNC_BASE: u64 = 0x1000_0000;
pub const GLOB_BASE: u64 = 0x0010_0000;
pub const HEAP_BASE: u64 = 0x2000_0000;
pub const STACK_BASE: u64 = 0x6000_0000;
pub const MAGIC: u64 = 0x7e00_0000_0000;

pub enum Ev { Cond(Eid), Val(Eid), Choice(u64), End(String, String) }
pub type R<T> = Result<T, Ev>;
fn stuck<T>(s: impl Into<String>) -> R<T> { Err(Ev::End("stuck".into(), s.into())) }

pub struct Frame { pub f: u32, pub bb: u32, pub ip: u32, pub regs: Vec<V>, pub dst: Option<u32>, pub sp: u64, pub normal: Option<Edge> }
impl Clone for Frame { fn clone(&self) -> Self { Frame { f: self.f, bb: self.bb, ip: self.ip, regs: self.regs.clone(), dst: self.dst, sp: self.sp, normal: self.normal.clone() } } }

/// a thread that is not running
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wait { No, Done, Join(usize), Futex(u64, u64) }
#[derive(Clone)]
pub struct Thread { pub frames: Vec<Arc<Frame>>, pub sp: u64, pub tls: u64, pub wait: Wait }
pub const THREAD_STACK: u64 = 0x0100_0000;

#[derive(Clone)]
pub struct State {
    /// all threads; the entry of the running one is out of date. Empty until there is a second thread
    pub threads: Vec<Thread>,
    pub cur: usize,
    /// preemptions left
    pub preempt: u64,
    pub frames: Vec<Arc<Frame>>,
    pub mem: Mem,
    pub heap: u64,
    pub sp: u64,
    pub pc: Vec<Eid>,
    pub dom: Vec<[u64; 4]>,
    pub domvar_multi: Vec<bool>,
    pub known: HashMap<Eid, bool>,
    pub consts: HashMap<Eid, u64>,
    pub nbyte: usize,
    pub nvar: usize,
    pub trace: Vec<u64>,
    pub replay: VecDeque<u64>,
    pub choice: Option<u64>,
    pub emit: Vec<u8>,
    /// which thread stopped where, for another
    pub log: Vec<(usize, Vec<u32>, usize)>,
    pub steps: u64,
    pub opts: BTreeMap<String, u64>,
    pub panic_handler: u64,
    pub in_panic: bool,
    pub counts: Vec<u32>,
    pub tags: Vec<u32>,
    /// text of a symbolic number was asked for: only rejections are believed
    pub tainted: bool,
    pub trusted: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum B { None, Alloc, AllocZ, Dealloc, Realloc, Malloc, Free, CRealloc, Nop, Zero, Memcmp, Bcmp, Strlen, Log2F, Panic, Abort, FormatInner, HashZero, RandomState, Clock, Thread(u16), Redirect(u32), Gmp(u16), Cs(u16), Llvm(u16), Stuck }

pub struct Prog {
    pub m: Module,
    pub gaddr: HashMap<String, u64>,
    pub init_mem: Mem,
    pub builtin: Vec<B>,
    pub names: Vec<String>, // for Gmp/Cs/Llvm dispatch
    pub glob_end: u64,
    pub const_ranges: Vec<(u64, u64)>,
    pub tls: Vec<(u64, u64)>,
}

impl Prog {
    pub fn load(text: &[u8]) -> Prog {
        let mut m = parse(text);
        let mut gaddr = HashMap::new();
        let mut a = GLOB_BASE;
        for g in &m.globals { a = (a + g.align - 1) / g.align * g.align; gaddr.insert(g.name.clone(), a); a += g.ty.size().max(1); }
        let glob_end = a;
        for (i, f) in m.funcs.iter().enumerate() { gaddr.insert(f.name.clone(), FUNC_BASE + 16 * i as u64); }
        for (n, k) in m.aliases.clone() { let v = cval(&k, &Ty::Ptr, &gaddr).unwrap_or(0); gaddr.insert(n, v as u64); }
        for g in &m.globals { if g.init.is_none() && !gaddr.contains_key(&g.name) { } }
        let mut mem = Mem::new();
        let mut const_ranges = vec![];
        for g in &m.globals { if let Some(k) = &g.init { let b = cbytes(k, &g.ty, &gaddr); let ad = gaddr[&g.name]; mem.write_bytes(ad, &b); if g.constant { const_ranges.push((ad, ad + b.len() as u64)); } } }
        // resolve operands
        let fidx = m.fidx.clone();
        let mut names = vec![];
        let mut builtin = vec![B::None; m.funcs.len()];
        for (i, f) in m.funcs.iter().enumerate() { builtin[i] = builtin_of(&f.name, f.defined, &mut names); }
        // functions the harness can put another in the place of
        for (i, f) in m.funcs.iter().enumerate() {
            if f.defined && f.name.contains("9scheduler15get_step_weight") { if let Some(k) = fidx.get("guest_step_weight") { if m.funcs[*k as usize].defined { builtin[i] = B::Redirect(*k); } } }
        }
        let tls = m.globals.iter().filter(|g| g.tls && g.init.is_some()).map(|g| (gaddr[&g.name], g.ty.size())).collect();
        for f in m.funcs.iter_mut() {
            for b in f.blocks.iter_mut() {
                for p in b.phis.iter_mut() { for o in p.2.iter_mut() { res(o, &gaddr); } }
                for i in b.insts.iter_mut() { resolve_inst(i, &gaddr, &fidx); }
            }
        }
        Prog { m, gaddr, init_mem: mem, builtin, names, glob_end, const_ranges, tls }
    }
}

fn builtin_of(n: &str, defined: bool, names: &mut Vec<String>) -> B {
    let mut id = |p: &str| { names.push(p.to_string()); (names.len() - 1) as u16 };
    if defined { return if n.contains("alloc3fmt6format12format_inner") { B::FormatInner } else { B::None }; }
    if n.starts_with("llvm.") { return B::Llvm(id(n)); }
    if n.starts_with("cs_") { return B::Cs(id(n)); }
    if n.starts_with("__gmp") { return B::Gmp(id(n)); }
    if n.contains("___rust_alloc_zeroed") { return B::AllocZ; }
    if n.contains("___rust_alloc_error_handler") { return B::Panic; }
    if n.contains("___rust_alloc") { return B::Alloc; }
    if n.contains("___rust_dealloc") { return B::Dealloc; }
    if n.contains("___rust_realloc") { return B::Realloc; }
    if n.contains("___rust_no_alloc_shim") { return B::Nop; }
    match n {
        "malloc" => return B::Malloc,
        "free" => return B::Free,
        "realloc" => return B::CRealloc,
        "memcmp" => return B::Memcmp,
        "bcmp" => return B::Bcmp,
        "strlen" => return B::Strlen,
        "log2f" => return B::Log2F,
        "abort" => return B::Abort,
        "clock_gettime" => return B::Clock,
        "pthread_create" | "sysconf" | "pthread_self" | "pthread_key_create" | "pthread_join" | "syscall" => return B::Thread(id(n)),
        "pthread_attr_init" | "pthread_attr_setstacksize" | "pthread_attr_destroy" | "pthread_setname_np" | "prctl" | "__cxa_thread_atexit_impl" | "pthread_detach" | "sched_yield" | "pthread_key_delete" | "pthread_setspecific" | "pthread_attr_setguardsize" | "sigaltstack" | "__pthread_get_minstack" | "__errno_location" | "dlsym" => return B::Nop,
        _ => {}
    }
    if n.contains("core9panicking") || n.contains("rust_begin_unwind") || n.contains("handle_alloc_error") || n.contains("capacity_overflow") || n.contains("begin_panic") { return B::Panic; }
    if n.contains("format_inner") { return B::FormatInner; }
    if (n.contains("sip") || n.contains("DefaultHasher")) && n.contains("finish") { return B::HashZero; }
    if (n.contains("sip") || n.contains("DefaultHasher")) && n.contains("write") { return B::Nop; }
    if n.contains("hashmap_random_keys") || n.contains("RandomState") && n.contains("3new") { return B::RandomState; }
    if n.contains("4libm4math") && n.contains("5log2f") { return B::Log2F; }
    if n.contains("5stdio") && n.contains("print") { return B::Nop; }
    B::Stuck
}

fn res(o: &mut Opd, g: &HashMap<String, u64>) {
    if let Opd::K(k, t) = o {
        *o = match cv(k, t, g) { V::C(c) => Opd::C(c), v => Opd::V(v) };
    }
}
/// constants wider than 64 bits are kept as an aggregate of two 64-bit halves marked by length 2 and converted on use
fn cv(k: &Const, t: &Ty, g: &HashMap<String, u64>) -> V {
    match t {
        Ty::Int(w) if *w > 64 => { let v = cval(k, t, g).unwrap_or(0); V::A(Arc::new(vec![V::C(v as u64), V::C((v >> 64) as u64)])) }
        Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float => V::C((cval(k, t, g).unwrap_or(0) as u64) & mask(t.bits())),
        Ty::Vec(n, et) => V::A(Arc::new((0..*n).map(|i| match k { Const::Agg(v) => cv(&v[i as usize].1, et, g), Const::Splat(_, c) => cv(c, et, g), Const::Str(s) => V::C(s[i as usize] as u64), _ => cv(&Const::Zero, et, g) }).collect())),
        Ty::Struct(ts, _) => V::A(Arc::new(ts.iter().enumerate().map(|(i, et)| match k { Const::Agg(v) => cv(&v[i].1, et, g), _ => cv(&Const::Zero, et, g) }).collect())),
        Ty::Arr(n, et) => V::A(Arc::new((0..*n).map(|i| match k { Const::Agg(v) => cv(&v[i as usize].1, et, g), Const::Str(s) => V::C(s[i as usize] as u64), _ => cv(&Const::Zero, et, g) }).collect())),
        _ => V::C(0),
    }
}
fn cval(k: &Const, t: &Ty, g: &HashMap<String, u64>) -> Option<u128> {
    Some(match k {
        Const::Int(v) => *v & m128(t.bits()),
        Const::Undef | Const::Zero => 0,
        Const::Global(n) => match g.get(n) { Some(a) => *a as u128, None => 0 },
        Const::Gep(ty, b, idx) => {
            let mut a = cval(b, &Ty::Ptr, g)? as u64;
            let mut cur: Option<Ty> = None;
            for (it, ix) in idx {
                let i = sext(cval(ix, it, g)? as u64, it.bits());
                match &cur {
                    None => { a = a.wrapping_add((i.wrapping_mul(ty.size() as i64)) as u64); cur = Some(ty.clone()); }
                    Some(c) => { let o = if let Ty::Struct(..) = c { c.field_off(i as u64) as i64 } else { i.wrapping_mul(c.elem(0).size() as i64) }; a = a.wrapping_add(o as u64); let e = c.elem(i as u64).clone(); cur = Some(e); }
                }
            }
            a as u128
        }
        Const::Cast(_, ft, c, tt) => cval(c, ft, g)? & m128(tt.bits()),
        Const::Bin(o, t, a, b) => { let (a, b) = (cval(a, t, g)?, cval(b, t, g)?); (match o.as_str() { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), "xor" => a ^ b, "and" => a & b, "or" => a | b, _ => a << b }) & m128(t.bits()) }
        _ => return None,
    })
}
fn cbytes(k: &Const, t: &Ty, g: &HashMap<String, u64>) -> Vec<u8> {
    let n = t.size() as usize;
    match (k, t) {
        (Const::Str(s), _) => s.clone(),
        (Const::Zero | Const::Undef, _) => vec![0; n],
        (Const::Agg(v), _) => {
            let mut out = vec![0u8; n];
            for (i, (et, c)) in v.iter().enumerate() { let o = t.field_off(i as u64) as usize; let b = cbytes(c, et, g); let b = if b.len() > et.size() as usize { b[..et.size() as usize].to_vec() } else { b }; out[o..o + b.len()].copy_from_slice(&b); }
            out
        }
        (Const::Splat(et, c), Ty::Vec(m, _)) => { let mut out = vec![]; for _ in 0..*m { out.extend(cbytes(c, et, g)); } out }
        _ => { let v = cval(k, t, g).unwrap_or(0); v.to_le_bytes()[..n.min(16)].to_vec() }
    }
}
fn resolve_inst(i: &mut Inst, g: &HashMap<String, u64>, f: &HashMap<String, u32>) {
    match i {
        Inst::Bin(_, _, _, a, b) | Inst::ICmp(_, _, _, a, b) | Inst::FCmp(_, _, _, a, b) => { res(a, g); res(b, g); }
        Inst::Cast(_, _, _, _, a) | Inst::Load(_, _, a) | Inst::Freeze(_, a) | Inst::FNeg(_, _, a) | Inst::ExtractValue(_, a, _) => res(a, g),
        Inst::Store(_, a, b) => { res(a, g); res(b, g); }
        Inst::Gep(_, a, _, v) => { res(a, g); for x in v { res(&mut x.0, g); } }
        Inst::Alloca(_, _, _, Some(o)) => res(o, g),
        Inst::Select(_, _, a, b, c, _) => { res(a, g); res(b, g); res(c, g); }
        Inst::CondBr(a, _, _) | Inst::Switch(a, _, _, _) => res(a, g),
        Inst::Ret(Some(a)) => res(a, g),
        Inst::Call { callee, args, .. } => {
            for a in args { res(&mut a.1, g); }
            if let Callee::Named(n) = callee { if let Some(k) = f.get(n) { *callee = Callee::Direct(*k); } else if let Some(a) = g.get(n) { *callee = Callee::Indirect(Opd::C(*a)); } }
            if let Callee::Indirect(o) = callee { res(o, g); }
        }
        Inst::InsertValue(_, _, a, b, _) | Inst::ExtractElem(_, a, b, _) => { res(a, g); res(b, g); }
        Inst::InsertElem(_, _, a, b, c) => { res(a, g); res(b, g); res(c, g); }
        Inst::Shuffle(_, _, a, b, _) => { res(a, g); res(b, g); }
        Inst::AtomicRmw(_, _, _, a, b) => { res(a, g); res(b, g); }
        Inst::CmpXchg(_, _, a, b, c) => { res(a, g); res(b, g); res(c, g); }
        _ => {}
    }
}

#[derive(Default, Clone, Debug)]
pub struct JobResult {
    pub job: String,
    pub paths: u64,
    pub ends: BTreeMap<String, u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: BTreeMap<String, Vec<String>>,
    pub violations: Vec<(String, String)>, // message, emitted text
    pub notes: BTreeMap<String, u64>,
    pub steps: u64,
    pub complete: bool,
    pub wall: f64,
    pub funcs: std::collections::BTreeSet<u32>,
    pub queries: u64,
    pub validity: u64,
    pub validity_unknown: u64,
    pub solver_time: f64,
    pub left: u64,
}

pub struct Exec<'p> {
    pub p: &'p Prog,
    pub ar: Arena,
    pub sv: Solver,
    pub job: String,
    pub res: JobResult,
    pub step_limit: u64,
    pub branch_ms: u64,
    bad: bool,
    pub valid_ms: u64,
    pub funcs: Vec<bool>,
    pub cnames: Vec<String>,
    pub debug: bool,
    pub extra: String,
}

macro_rules! reg { ($f:expr, $o:expr) => { match $o { Opd::Reg(r) => $f.regs[*r as usize].clone(), Opd::C(c) => V::C(*c), Opd::V(v) => v.clone(), Opd::K(..) => unreachable!() } } }

impl<'p> Exec<'p> {
    pub fn new(p: &'p Prog) -> Self {
        Exec { p, ar: Arena::new(), sv: Solver::new(), job: String::new(), res: JobResult::default(), step_limit: 40_000_000, branch_ms: 2000, bad: false, valid_ms: 5000, funcs: vec![false; p.m.funcs.len()], cnames: vec![], debug: std::env::var("CARSYM_DEBUG").is_ok(), extra: String::new() }
    }
    pub fn initial(&self) -> State {
        let main = self.p.m.fidx["cs_main"];
        let f = &self.p.m.funcs[main as usize];
        State { threads: vec![], cur: 0, preempt: 0, frames: vec![Arc::new(Frame { f: main, bb: 0, ip: 0, regs: vec![V::C(0); f.nregs as usize], dst: None, sp: STACK_BASE, normal: None })], mem: self.p.init_mem.clone(), heap: HEAP_BASE, sp: STACK_BASE, pc: vec![], dom: vec![], domvar_multi: vec![], known: HashMap::new(), consts: HashMap::new(), nbyte: 0, nvar: 0, trace: vec![], replay: VecDeque::new(), choice: None, emit: vec![], log: vec![], steps: 0, opts: BTreeMap::new(), panic_handler: 0, in_panic: false, counts: vec![], tags: vec![], tainted: false, trusted: true }
    }
    // ---------------------------------------------------------------- values
    pub fn e(&mut self, v: &V, w: u32) -> Eid {
        match v { V::C(c) => self.ar.cst(w, *c as u128), V::S(e) => *e, V::A(x) => { if w > 64 && x.len() == 2 { if let (V::C(a), V::C(b)) = (&x[0], &x[1]) { return self.ar.cst(w, *a as u128 | (*b as u128) << 64); } } self.bad = true; self.ar.cst(w, 0) } }
    }
    pub fn v(&self, e: Eid) -> V {
        let n = self.ar.get(e);
        if n.k == K::Const && n.sort <= 64 { V::C(n.x as u64) } else { V::S(e) }
    }
    /// a concrete u64 or a request to fork on the value
    pub fn conc(&mut self, st: &State, v: &V) -> R<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::S(e) => {
                if let Some(c) = self.ar.as_const(*e) { return Ok(c as u64); }
                if let Some(x) = self.ar.lutvar(*e) {
                    let i = self.ar.byteidx[&x];
                    let d = st.dom[i];
                    let mut val = None;
                    let mut single = true;
                    for k in 0..256usize { if d[k >> 6] >> (k & 63) & 1 == 1 { let y = self.ar.evalv(*e, k) as u64; match val { None => val = Some(y), Some(z) if z == y => {} _ => { single = false; break; } } } }
                    if single { return val.map_or_else(|| stuck("empty domain"), Ok); }
                    return Err(Ev::Val(*e));
                }
                if let Some(c) = st.consts.get(e) { return Ok(*c); }
                // structural: rebuild when all parts are known constants
                Err(Ev::Val(*e))
            }
            V::A(_) => stuck("aggregate as scalar"),
        }
    }
    pub fn cond(&mut self, st: &State, v: &V) -> R<bool> {
        match v {
            V::C(c) => Ok(*c & 1 == 1),
            V::S(e) => {
                if let Some(c) = self.ar.as_const(*e) { return Ok(c & 1 == 1); }
                if let Some(x) = self.ar.lutvar(*e) {
                    let i = self.ar.byteidx[&x];
                    let d = st.dom[i];
                    let (mut t, mut f) = (false, false);
                    for k in 0..256usize { if d[k >> 6] >> (k & 63) & 1 == 1 { if self.ar.evalv(*e, k) == 1 { t = true; } else { f = true; } if t && f { return Err(Ev::Cond(*e)); } } }
                    return Ok(t);
                }
                if let Some(b) = st.known.get(e) { return Ok(*b); }
                Err(Ev::Cond(*e))
            }
            V::A(_) => stuck("aggregate as condition"),
        }
    }
    // ---------------------------------------------------------------- constraints
    pub fn add(&mut self, st: &mut State, c: Eid) {
        if let Some(v) = self.ar.as_const(c) { if v == 0 { st.known.insert(c, false); } return; }
        if let Some(x) = self.ar.lutvar(c) {
            let i = self.ar.byteidx[&x];
            let mut d = st.dom[i];
            for k in 0..256usize { if d[k >> 6] >> (k & 63) & 1 == 1 && self.ar.evalv(c, k) != 1 { d[k >> 6] &= !(1 << (k & 63)); } }
            st.dom[i] = d;
            return;
        }
        // Conjunctions are split
        let n = self.ar.get(c).clone();
        if n.k == K::And && n.sort == 1 { self.add(st, n.a[0]); self.add(st, n.a[1]); st.known.insert(c, true); return; }
        st.known.insert(c, true);
        let nc = self.ar.not(c);
        st.known.insert(nc, false);
        for v in self.ar.support(c) { if let Some(i) = self.ar.byteidx.get(&v) { if *i < st.domvar_multi.len() { st.domvar_multi[*i] = true; } } }
        st.pc.push(c);
    }
    fn dom_constraint(&mut self, st: &State, x: Eid) -> Option<Eid> {
        let i = self.ar.byteidx[&x];
        if i >= st.dom.len() { return None; }
        let d = st.dom[i];
        if d == [!0; 4] { return None; }
        let mut t = [0u64; 256];
        for k in 0..256 { t[k] = d[k >> 6] >> (k & 63) & 1; }
        Some(self.ar.mklut(x, 1, t))
    }
    /// constraints transitively sharing variables with the seeds
    pub fn slice(&mut self, st: &State, seeds: &[Eid]) -> Vec<Eid> {
        let mut vars: std::collections::HashSet<Eid> = Default::default();
        for s in seeds { vars.extend(self.ar.support(*s)); }
        let mut used = vec![false; st.pc.len()];
        let mut out: Vec<Eid> = seeds.to_vec();
        let sup: Vec<Vec<Eid>> = st.pc.iter().map(|c| self.ar.support(*c)).collect();
        loop {
            let mut ch = false;
            for i in 0..st.pc.len() { if !used[i] && (sup[i].is_empty() || sup[i].iter().any(|v| vars.contains(v))) { used[i] = true; ch = true; vars.extend(sup[i].iter().copied()); out.push(st.pc[i]); } }
            if !ch { break; }
        }
        let vs: Vec<Eid> = vars.into_iter().filter(|v| self.ar.byteidx.contains_key(v)).collect();
        for x in vs { if let Some(c) = self.dom_constraint(st, x) { out.push(c); } }
        out
    }
    pub fn feasible(&mut self, st: &State, c: Eid) -> Res {
        if let Some(v) = self.ar.as_const(c) { return if v == 1 { Res::Sat } else { Res::Unsat }; }
        if let Some(x) = self.ar.lutvar(c) {
            let i = self.ar.byteidx[&x];
            let d = st.dom[i];
            let any = (0..256usize).any(|k| d[k >> 6] >> (k & 63) & 1 == 1 && self.ar.evalv(c, k) == 1);
            if !any { return Res::Unsat; }
            if !st.domvar_multi[i] { return Res::Sat; }
        }
        let cs = self.slice(st, &[c]);
        self.sv.check(&self.ar, &cs, self.branch_ms)
    }
    pub fn model_value(&mut self, st: &State, e: Eid, extra: &[Eid]) -> Option<u64> {
        if extra.is_empty() { if let Some(x) = self.ar.lutvar(e) { let i = self.ar.byteidx[&x]; if !st.domvar_multi[i] { let d = st.dom[i]; for k in 0..256usize { if d[k >> 6] >> (k & 63) & 1 == 1 { return Some(self.ar.evalv(e, k) as u64); } } } } }
        let mut seeds = extra.to_vec();
        seeds.push(e);
        let mut cs = self.slice(st, &seeds);
        cs.retain(|x| *x != e || extra.contains(x));
        let ms = self.branch_ms.max(4000);
        let (r, vals) = self.sv.query(&self.ar, &cs, ms, &[e]);
        if r != Res::Sat { return None; }
        parse_bv(vals.first()?).map(|x| x as u64)
    }
    // ---------------------------------------------------------------- memory
    pub fn load(&mut self, st: &State, a: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Vec(n, et) if et.bits() >= 8 => { let es = et.bits() as u64 / 8; let mut v = vec![]; for i in 0..*n { v.push(self.load(st, a + i * es, et)?); } Ok(V::A(Arc::new(v))) }
            Ty::Vec(..) => { let w = ty.bits(); let x = self.load(st, a, &Ty::Int(w))?; self.cast(st, Cast::Bitcast, &Ty::Int(w), ty, &x) }
            Ty::Struct(..) | Ty::Arr(..) => { let n = match ty { Ty::Struct(t, _) => t.len() as u64, Ty::Arr(n, _) => *n, _ => 0 }; let mut v = vec![]; for i in 0..n { v.push(self.load(st, a + ty.field_off(i), ty.elem(i))?); } Ok(V::A(Arc::new(v))) }
            _ => {
                let w = ty.bits();
                let n = ((w + 7) / 8) as usize;
                if !st.mem.ok(a) { if a >= MAGIC { return self.magic_load(st, a, w); } return stuck(format!("load at {a:#x} in {}", self.where_(st))); }
                if n <= 8 { if let Some(v) = st.mem.read(a, n) { return Ok(V::C(v & mask(w))); } }
                // byte-wise, little endian
                let mut e: Option<Eid> = None;
                for i in 0..n { let b = match st.mem.byte(a + i as u64) { Ok(v) => self.ar.cst(8, v as u128), Err(x) => x }; e = Some(match e { None => b, Some(l) => self.ar.concat(b, l) }); }
                let mut e = e.unwrap();
                if (n as u32) * 8 != w { e = self.ar.extract(e, 0, w); }
                Ok(self.v(e))
            }
        }
    }
    pub fn store(&mut self, st: &mut State, a: u64, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Vec(..) | Ty::Struct(..) | Ty::Arr(..) if !matches!(v, V::A(_)) => { match v { V::C(0) => { for i in 0..ty.size() { st.mem.write(a + i, 1, 0); } Ok(()) } _ => stuck(format!("store of scalar as aggregate in {}", self.where_(st))) } }
            Ty::Vec(n, et) if et.bits() >= 8 => { let es = et.bits() as u64 / 8; if let V::A(x) = v { let x = x.clone(); for i in 0..*n { self.store(st, a + i * es, et, &x[i as usize])?; } } Ok(()) }
            Ty::Vec(_, et) => { let e = self.vec_to_int(v, et); let x = self.v(e); self.store(st, a, &Ty::Int(ty.bits()), &x) }
            Ty::Struct(..) | Ty::Arr(..) => { if let V::A(x) = v { let x = x.clone(); for i in 0..x.len() as u64 { self.store(st, a + ty.field_off(i), ty.elem(i), &x[i as usize])?; } } Ok(()) }
            _ => {
                let w = ty.bits();
                let n = ((w + 7) / 8) as usize;
                if !st.mem.ok(a) || !st.mem.ok(a + n as u64) { return stuck(format!("store at {a:#x} in {}", self.where_(st))); }
                match v {
                    V::C(c) => { if n <= 8 { st.mem.write(a, n, *c); } else { st.mem.write(a, 8, *c); st.mem.write(a + 8, n - 8, 0); } }
                    V::S(_) | V::A(_) => {
                        let mut e = self.e(v, w);
                        if let Some(c) = self.ar.as_const(e) { st.mem.write(a, n.min(8), c as u64); if n > 8 { st.mem.write(a + 8, n - 8, (c >> 64) as u64); } return Ok(()); }
                        if w != n as u32 * 8 { e = self.ar.zext(e, n as u32 * 8); }
                        for i in 0..n { let b = self.ar.extract(e, 8 * i as u32, 8); match self.ar.as_const(b) { Some(c) => st.mem.write(a + i as u64, 1, c as u64), None => st.mem.write_sym(a + i as u64, b) } }
                    }
                }
                Ok(())
            }
        }
    }
    /// address of an access; symbolic addresses that are functions of one byte are turned into tables when possible
    fn load_sym(&mut self, st: &State, av: &V, ty: &Ty) -> R<V> {
        match self.conc(st, av) {
            Ok(a) => self.load(st, a, ty),
            Err(Ev::Val(e)) => {
                let w = ty.bits();
                if let (Some(x), true) = (self.ar.lutvar(e), w <= 64 && !matches!(ty, Ty::Vec(..) | Ty::Struct(..) | Ty::Arr(..))) {
                    let i = self.ar.byteidx[&x];
                    let d = st.dom[i];
                    let mut t = [0u64; 256];
                    let mut ok = true;
                    let mut fill = None;
                    for k in 0..256usize { if d[k >> 6] >> (k & 63) & 1 == 1 { let a = self.ar.evalv(e, k) as u64; if !st.mem.ok(a) { ok = false; break; } match st.mem.read(a, ((w + 7) / 8) as usize) { Some(v) => { t[k] = v & mask(w); fill = Some(t[k]); } None => { ok = false; break; } } } }
                    if ok { let f = fill.unwrap_or(0); for k in 0..256usize { if d[k >> 6] >> (k & 63) & 1 == 0 { t[k] = f; } } let r = self.ar.mklut(x, w, t); return Ok(self.v(r)); }
                }
                Err(Ev::Val(e))
            }
            Err(x) => Err(x),
        }
    }
    pub fn where_(&self, st: &State) -> String {
        st.frames.iter().rev().take(6).map(|f| short(&self.p.m.funcs[f.f as usize].name)).collect::<Vec<_>>().join(" < ")
    }
    pub fn bytes(&mut self, st: &State, p: u64, n: u64) -> R<Vec<u8>> {
        let mut out = vec![];
        for i in 0..n { match st.mem.byte(p + i) { Ok(b) => out.push(b), Err(e) => out.push(self.conc(st, &V::S(e))? as u8) } }
        Ok(out)
    }
    pub fn alloc(&mut self, st: &mut State, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        st.heap = (st.heap + al - 1) / al * al;
        let a = st.heap;
        st.heap += size.max(1);
        a
    }
    // ---------------------------------------------------------------- main loop of one job
    /// explores from `roots` (decision prefixes) until done or the deadline; `share` offers surplus prefixes to others
    pub fn run(&mut self, prefix: Vec<u64>, deadline: Instant, max_paths: u64, share: &mut dyn FnMut(&mut Vec<State>)) {
        let mut s = self.initial();
        s.replay = prefix.into();
        let mut stack = vec![s];
        let mut tick = 0u32;
        while let Some(mut st) = stack.pop() {
            let mut n = 0u32;
            loop {
                n += 1;
                if n & 0x3fff == 0 && Instant::now() > deadline { self.end(&mut st, "timeout", "deadline"); break; }
                let r = self.step(&mut st);
                if self.bad { self.bad = false; let w = self.where_(&st); self.end(&mut st, "stuck", &format!("aggregate used as a number in {w}")); break; }
                match r {
                    Ok(()) => {}
                    Err(Ev::End(k, m)) => {
                        if k == "panic" && st.panic_handler != 0 && !st.in_panic {
                            st.in_panic = true;
                            // call the guest's handler with the message
                            let a = self.alloc(&mut st, m.len() as u64, 1);
                            st.mem.write_bytes(a, m.as_bytes());
                            let fi = ((st.panic_handler - FUNC_BASE) / 16) as u32;
                            st.sp += 4096;
                            if let Err(Ev::End(k, m)) = self.push_frame(&mut st, fi, &[V::C(a), V::C(m.len() as u64)], None, None) { self.end(&mut st, &k, &m); break; }
                            continue;
                        }
                        self.end(&mut st, &k, &m);
                        break;
                    }
                    Err(Ev::Cond(c)) => {
                        if let Some(v) = st.replay.pop_front() {
                            st.trace.push(v);
                            if v == 2 { self.end(&mut st, "infeasible", ""); break; }
                            let k = if v == 1 { c } else { self.ar.not(c) };
                            self.add(&mut st, k);
                            continue;
                        }
                        let nc = self.ar.not(c);
                        let t = self.feasible(&st, c);
                        let f = if t == Res::Unsat { Res::Sat } else { self.feasible(&st, nc) };
                        match (t, f) {
                            (Res::Unsat, _) => { st.trace.push(0); self.add(&mut st, nc); st.known.insert(c, false); }
                            (_, Res::Unsat) => { st.trace.push(1); self.add(&mut st, c); st.known.insert(c, true); }
                            (a, b) => {
                                if a == Res::Unknown || b == Res::Unknown { *self.res.notes.entry("branch feasibility unknown, both sides explored".into()).or_default() += 1; }
                                let mut o = st.clone();
                                o.trace.push(0);
                                self.add(&mut o, nc);
                                stack.push(o);
                                st.trace.push(1);
                                self.add(&mut st, c);
                            }
                        }
                    }
                    Err(Ev::Val(e)) => {
                        if let Some(v) = st.replay.pop_front() { st.trace.push(v); self.fix(&mut st, e, v); continue; }
                        let vals = self.values(&st, e);
                        if vals.len() >= 300 { let w = self.where_(&st); self.end(&mut st, "stuck", &format!("too many values at {w}")); break; }
                        if vals.is_empty() { let w = self.where_(&st); self.end(&mut st, "stuck", &format!("no value for a symbolic quantity at {w}")); break; }
                        for v in vals[1..].iter().rev() { let mut o = st.clone(); o.trace.push(*v); self.fix(&mut o, e, *v); stack.push(o); }
                        st.trace.push(vals[0]);
                        self.fix(&mut st, e, vals[0]);
                    }
                    Err(Ev::Choice(n)) => {
                        if let Some(v) = st.replay.pop_front() { st.trace.push(v); st.choice = Some(v); continue; }
                        for v in (1..n).rev() { let mut o = st.clone(); o.trace.push(v); o.choice = Some(v); stack.push(o); }
                        st.trace.push(0);
                        st.choice = Some(0);
                    }
                }
            }
            tick += 1;
            if tick & 3 == 0 && !stack.is_empty() { share(&mut stack); }
            if self.res.paths >= max_paths || Instant::now() > deadline { self.res.left += stack.len() as u64; if !stack.is_empty() { self.res.complete = false; } break; }
        }
    }
    fn fix(&mut self, st: &mut State, e: Eid, v: u64) {
        let w = self.ar.sort(e);
        let k = self.ar.cst(w, v as u128);
        let c = self.ar.eq(e, k);
        self.add(st, c);
        st.consts.insert(e, v);
    }
    fn values(&mut self, st: &State, e: Eid) -> Vec<u64> {
        let mut out: Vec<u64> = vec![];
        if let Some(x) = self.ar.lutvar(e) {
            let i = self.ar.byteidx[&x];
            let d = st.dom[i];
            for k in 0..256usize { if d[k >> 6] >> (k & 63) & 1 == 1 { let y = self.ar.evalv(e, k) as u64; if !out.contains(&y) { out.push(y); } } }
            if st.domvar_multi[i] { let w = self.ar.sort(e); out.retain(|y| { let k = self.ar.cst(w, *y as u128); let c = self.ar.eq(e, k); self.feasible(st, c) != Res::Unsat }); }
            return out;
        }
        let mut extra = vec![];
        while out.len() < 300 {
            match self.model_value(st, e, &extra) {
                Some(v) => { out.push(v); let w = self.ar.sort(e); let k = self.ar.cst(w, v as u128); let c = self.ar.eq(e, k); let nc = self.ar.not(c); extra.push(nc); }
                None => break,
            }
        }
        out
    }
    pub fn end(&mut self, st: &mut State, kind: &str, msg: &str) {
        let (kind, msg) = if st.tainted && kind != "rejected" && kind != "infeasible" { ("stuck", "accepted after the text of a symbolic number was used") } else { (kind, msg) };
        self.res.paths += 1;
        self.res.steps += st.steps;
        *self.res.ends.entry(kind.to_string()).or_default() += 1;
        for c in &st.counts { *self.res.counters.entry(self.cnames[*c as usize].clone()).or_default() += 1; }
        if matches!(kind, "stuck" | "timeout" | "bound") || (kind == "panic") { let k = format!("{kind}: {}", msg.chars().take(300).collect::<String>()); *self.res.notes.entry(k).or_default() += 1; }
        if kind == "violation" {
            let mut text = String::from_utf8_lossy(&st.emit).into_owned();
            if !st.log.is_empty() {
                text.push_str("%%schedule\n");
                for (a, w, b) in &st.log { text.push_str(&format!("thread {a} stops in {}, thread {b} runs\n", w.iter().map(|f| short(&self.p.m.funcs[*f as usize].name)).collect::<Vec<_>>().join(" < "))); }
                text.push_str(&format!("choices {}\n", st.trace.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
            }
            self.res.violations.push((msg.to_string(), text));
        }
        else if !st.emit.is_empty() { let v = self.res.samples.entry(kind.to_string()).or_default(); if v.len() < 3 { v.push(String::from_utf8_lossy(&st.emit).into_owned()); } }
        if self.debug { for c in st.pc.clone() { eprintln!("  pc: {}", self.sv.full_text(&self.ar, c)); } }
        if self.debug { eprintln!("[{}] end {kind} {msg} steps={} trace={:?}", self.job, st.steps, st.trace); }
    }
    fn push_frame(&mut self, st: &mut State, fi: u32, args: &[V], dst: Option<u32>, normal: Option<Edge>) -> R<()> {
        let f = &self.p.m.funcs[fi as usize];
        if !f.defined { return stuck(format!("undefined function {}", f.name)); }
        if st.frames.len() > 3000 { return Err(Ev::End("panic".into(), format!("stack overflow in {}", short(&f.name)))); }
        self.funcs[fi as usize] = true;
        if self.debug { eprintln!("call {}", short(&f.name)); }
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() { if i < args.len() { regs[*p as usize] = args[i].clone(); } }
        st.frames.push(Arc::new(Frame { f: fi, bb: 0, ip: 0, regs, dst, sp: st.sp, normal }));
        Ok(())
    }
    fn jump(&mut self, st: &mut State, e: &Edge) {
        let p = self.p;
        let fr = Arc::make_mut(st.frames.last_mut().unwrap());
        let blk = &p.m.funcs[fr.f as usize].blocks[e.bb as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 { let (d, _, ops) = &blk.phis[0]; let v = reg!(fr, &ops[e.phi as usize]); fr.regs[*d as usize] = v; }
            else { let vals: Vec<V> = blk.phis.iter().map(|(_, _, ops)| reg!(fr, &ops[e.phi as usize])).collect(); for ((d, _, _), v) in blk.phis.iter().zip(vals) { fr.regs[*d as usize] = v; } }
        }
        fr.bb = e.bb;
        fr.ip = 0;
    }
    fn ret(&mut self, st: &mut State, v: V) -> R<()> {
        if st.frames.len() == 1 && st.cur != 0 {
            // a thread is over
            let me = st.cur;
            return self.block_as(st, me, Wait::Done);
        }
        let fr = st.frames.pop().unwrap();
        st.sp = fr.sp;
        if st.frames.is_empty() { return Err(Ev::End("return".into(), String::new())); }
        let dst = fr.dst;
        let normal = fr.normal.clone();
        let top = Arc::make_mut(st.frames.last_mut().unwrap());
        if let Some(d) = dst { top.regs[d as usize] = v; }
        match normal { Some(e) => self.jump(st, &e), None => top.ip += 1 }
        Ok(())
    }
    fn runnable(&mut self, st: &State) -> Vec<usize> {
        (0..st.threads.len()).filter(|i| *i != st.cur && match st.threads[*i].wait {
            Wait::No => true,
            Wait::Done => false,
            Wait::Join(k) => st.threads[k].wait == Wait::Done,
            Wait::Futex(a, v) => st.mem.read(a, 4) != Some(v),
        }).collect()
    }
    fn switch_to(&mut self, st: &mut State, k: usize) {
        let cur = st.cur;
        st.log.push((cur, st.frames.iter().rev().take(5).map(|f| f.f).collect(), k));
        st.threads[cur].frames = std::mem::take(&mut st.frames);
        st.threads[cur].sp = st.sp;
        st.frames = std::mem::take(&mut st.threads[k].frames);
        st.sp = st.threads[k].sp;
        st.threads[k].wait = Wait::No;
        // the running thread's variables are in their place, those of the others are put aside
        let (a, b) = (st.threads[cur].tls, st.threads[k].tls);
        for (x, n) in &self.p.tls {
            st.mem.copy(a + x - GLOB_BASE, *x, *n);
            st.mem.copy(*x, b + x - GLOB_BASE, *n);
        }
        st.cur = k;
    }
    /// another thread runs; `pick` among those that can
    pub fn switch_away(&mut self, st: &mut State, pick: usize) -> R<()> {
        let r = self.runnable(st);
        if r.is_empty() { return Err(Ev::End("panic".into(), "deadlock".into())); }
        self.switch_to(st, r[pick % r.len()]);
        Ok(())
    }
    /// the running thread waits for something
    pub fn block(&mut self, st: &mut State, w: Wait) -> R<()> {
        if st.threads.is_empty() { return Err(Ev::End("panic".into(), "deadlock".into())); }
        let cur = st.cur;
        self.block_as(st, cur, w)
    }
    fn block_as(&mut self, st: &mut State, cur: usize, w: Wait) -> R<()> {
        let old = std::mem::replace(&mut st.threads[cur].wait, w);
        let n = self.runnable(st).len();
        let pick = if n > 1 && st.opts.get("orders").copied().unwrap_or(0) == 1 { match st.choice.take() { Some(v) => v as usize, None => { st.threads[cur].wait = old; return Err(Ev::Choice(n as u64)) } } } else { 0 };
        self.switch_away(st, pick)
    }
    /// executes a run of instructions until a control event
    fn step(&mut self, st: &mut State) -> R<()> {
        let prog: &'p Prog = self.p;
        let (fi, bb, mut ip) = { let f = st.frames.last().unwrap(); (f.f, f.bb, f.ip) };
        let func = &prog.m.funcs[fi as usize];
        let blk = &func.blocks[bb as usize];
        loop {
            st.steps += 1;
            if st.steps > self.step_limit { let w = self.where_(st); return Err(Ev::End("bound".into(), format!("step limit in {w}"))); }
            let ins = &blk.insts[ip as usize];
            macro_rules! fr { () => { st.frames.last().unwrap() } }
            macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; let f = Arc::make_mut(st.frames.last_mut().unwrap()); f.regs[*$d as usize] = v; ip += 1; f.ip = ip; }} }
            macro_rules! next { () => {{ let f = Arc::make_mut(st.frames.last_mut().unwrap()); ip += 1; f.ip = ip; }} }
            match ins {
                Inst::Bin(o, t, d, a, b) => {
                    let (a, b) = { let f = fr!(); (reg!(f, a), reg!(f, b)) };
                    let v = self.bin(*o, t, &a, &b)?;
                    set!(d, v);
                }
                Inst::ICmp(p, t, d, a, b) => {
                    let (a, b) = { let f = fr!(); (reg!(f, a), reg!(f, b)) };
                    let v = self.icmp(*p, t, &a, &b);
                    set!(d, v);
                }
                Inst::FCmp(p, t, d, a, b) => {
                    let (a, b) = { let f = fr!(); (reg!(f, a), reg!(f, b)) };
                    let (a, b) = (self.conc(st, &a)?, self.conc(st, &b)?);
                    let (x, y) = if *t == Ty::Float { (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64) } else { (f64::from_bits(a), f64::from_bits(b)) };
                    let un = x.is_nan() || y.is_nan();
                    let r = match p.as_str() { "oeq" => x == y, "ogt" => x > y, "oge" => x >= y, "olt" => x < y, "ole" => x <= y, "one" => !un && x != y, "ord" => !un, "uno" => un, "ueq" => un || x == y, "ugt" => un || x > y, "uge" => un || x >= y, "ult" => un || x < y, "ule" => un || x <= y, "une" => un || x != y, "true" => true, _ => false };
                    set!(d, V::C(r as u64));
                }
                Inst::Cast(c, ft, tt, d, a) => { let a = { let f = fr!(); reg!(f, a) }; let v = self.cast(st, *c, ft, tt, &a)?; set!(d, v); }
                Inst::Load(t, d, a) => { let a = { let f = fr!(); reg!(f, a) }; let v = match &a { V::C(x) => self.load(st, *x, t)?, _ => self.load_sym(st, &a, t)? }; set!(d, v); }
                Inst::Store(t, v, a) => { let (v, a) = { let f = fr!(); (reg!(f, v), reg!(f, a)) }; let a = self.conc(st, &a)?; self.store(st, a, t, &v)?; next!(); }
                Inst::Gep(d, b, off, vars) => {
                    let f = fr!();
                    let base = reg!(f, b);
                    let v = if let (V::C(mut x), true) = (&base, true) {
                        x = x.wrapping_add(*off as u64);
                        let mut symb = None;
                        for (k, (o, w, s)) in vars.iter().enumerate() { match reg!(f, o) { V::C(c) => x = x.wrapping_add((sext(c, *w).wrapping_mul(*s)) as u64), _ => { symb = Some(k); break; } } }
                        match symb { None => V::C(x), Some(_) => { let f = f.clone(); self.gep(&base, *off, vars, &f) } }
                    } else { let f = f.clone(); self.gep(&base, *off, vars, &f) };
                    set!(d, v);
                }
                Inst::Alloca(d, sz, al, n) => {
                    let mut size = *sz;
                    if let Some(o) = n { let v = { let f = fr!(); reg!(f, o) }; size *= self.conc(st, &v)?; }
                    let a = (st.sp + al - 1) / al * al;
                    st.sp = a + size;
                    if st.sp > 0x7f00_0000 { return Err(Ev::End("panic".into(), "stack overflow".into())); }
                    set!(d, V::C(a));
                }
                Inst::Select(d, t, c, a, b, vecc) => {
                    let (c, a, b) = { let f = fr!(); (reg!(f, c), reg!(f, a), reg!(f, b)) };
                    let v = if *vecc { if let (V::A(c), V::A(a), V::A(b)) = (&c, &a, &b) { let et = t.elem(0).clone(); let mut o = vec![]; for i in 0..c.len() { o.push(self.select(st, &c[i], &a[i], &b[i], &et)?); } V::A(Arc::new(o)) } else { return stuck("select") } } else { self.select(st, &c, &a, &b, t)? };
                    set!(d, v);
                }
                Inst::Br(e) => { self.jump(st, e); return Ok(()); }
                Inst::CondBr(c, a, b) => { let c = { let f = fr!(); reg!(f, c) }; let r = self.cond(st, &c)?; self.jump(st, if r { a } else { b }); return Ok(()); }
                Inst::Switch(v, w, d, cs) => {
                    let v = { let f = fr!(); reg!(f, v) };
                    match &v {
                        V::C(x) => { let e = cs.iter().find(|c| c.0 == *x as u128).map(|c| &c.1).unwrap_or(d); self.jump(st, e); return Ok(()); }
                        V::S(e) => {
                            let mut groups: Vec<(u32, Eid, &Edge)> = vec![];
                            for (k, ed) in cs { let kk = self.ar.cst(*w, *k); let q = self.ar.eq(*e, kk); match groups.iter_mut().find(|g| g.0 == ed.bb) { Some(g) => g.1 = self.ar.or(g.1, q), None => groups.push((ed.bb, q, ed)) } }
                            for (_, q, ed) in groups { let x = self.v(q); if self.cond(st, &x)? { self.jump(st, ed); return Ok(()); } }
                            self.jump(st, d);
                            return Ok(());
                        }
                        _ => return stuck("switch on aggregate"),
                    }
                }
                Inst::Ret(o) => { let v = match o { Some(o) => { let f = fr!(); reg!(f, o) } None => V::C(0) }; self.ret(st, v)?; return Ok(()); }
                Inst::Unreachable => { let w = self.where_(st); return Err(Ev::End("stuck".into(), format!("unreachable reached in {w}"))); }
                Inst::Call { dst, ret, callee, args, normal } => {
                    let vals: Vec<V> = { let f = fr!(); args.iter().map(|a| reg!(f, &a.1)).collect() };
                    let target = match callee {
                        Callee::Direct(i) => *i,
                        Callee::Indirect(o) => { let v = { let f = fr!(); reg!(f, o) }; let a = self.conc(st, &v)?; if a < FUNC_BASE || a >= FUNC_BASE + 16 * prog.m.funcs.len() as u64 { let w = self.where_(st); return stuck(format!("indirect call to {a:#x} in {w}")); } ((a - FUNC_BASE) / 16) as u32 }
                        Callee::Asm(s) => { if s.is_empty() { next!(); continue; } return stuck("inline assembly"); }
                        Callee::Named(n) => return stuck(format!("call to unknown {n}")),
                    };
                    if prog.m.funcs[target as usize].defined && (prog.builtin[target as usize] == B::None || (prog.builtin[target as usize] == B::FormatInner && st.opts.get("fmt").copied().unwrap_or(0) == 1)) {
                        self.push_frame(st, target, &vals, *dst, normal.clone())?;
                        return Ok(());
                    }
                    if let B::Redirect(k) = prog.builtin[target as usize] {
                        let k = if st.opts.get("redirect").copied().unwrap_or(0) == 1 { k } else { target };
                        self.push_frame(st, k, &vals, *dst, normal.clone())?;
                        return Ok(());
                    }
                    let r = self.builtin(st, target, args, &vals, ret)?;
                    match r {
                        Some(v) => {
                            let f = Arc::make_mut(st.frames.last_mut().unwrap());
                            if let Some(d) = dst { f.regs[*d as usize] = v; }
                            match normal { Some(e) => { let e = e.clone(); self.jump(st, &e); return Ok(()); } None => { ip += 1; f.ip = ip; } }
                        }
                        None => return Ok(()), // pushed a frame
                    }
                }
                Inst::ExtractValue(d, o, ix) => { let mut v = { let f = fr!(); reg!(f, o) }; for i in ix { v = match &v { V::A(x) => x[*i as usize].clone(), _ => V::C(0) }; } set!(d, v); }
                Inst::InsertValue(d, t, o, v, ix) => {
                    let (o, v) = { let f = fr!(); (reg!(f, o), reg!(f, v)) };
                    let r = ins_val(t, &o, &v, ix);
                    set!(d, r);
                }
                Inst::ExtractElem(d, o, i, _) => { let (o, i) = { let f = fr!(); (reg!(f, o), reg!(f, i)) }; let i = self.conc(st, &i)?; let v = match &o { V::A(x) => x.get(i as usize).cloned().unwrap_or(V::C(0)), _ => V::C(0) }; set!(d, v); }
                Inst::InsertElem(d, t, o, v, i) => { let (o, v, i) = { let f = fr!(); (reg!(f, o), reg!(f, v), reg!(f, i)) }; let i = self.conc(st, &i)?; let n = match t { Ty::Vec(n, _) => *n as usize, _ => 0 }; let mut x = match &o { V::A(x) => x.to_vec(), _ => vec![V::C(0); n] }; if (i as usize) < n { x[i as usize] = v; } set!(d, V::A(Arc::new(x))); }
                Inst::Shuffle(d, t, a, b, m) => { let (a, b) = { let f = fr!(); (reg!(f, a), reg!(f, b)) }; let n = match t { Ty::Vec(n, _) => *n as i64, _ => 0 }; let g = |v: &V, i: usize| match v { V::A(x) => x[i].clone(), _ => V::C(0) }; let r: Vec<V> = m.iter().map(|k| if *k < 0 { V::C(0) } else if *k < n { g(&a, *k as usize) } else { g(&b, (*k - n) as usize) }).collect(); set!(d, V::A(Arc::new(r))); }
                Inst::AtomicRmw(o, t, d, a, v) => {
                    let (a, v) = { let f = fr!(); (reg!(f, a), reg!(f, v)) };
                    let a = self.conc(st, &a)?;
                    let old = self.load(st, a, t)?;
                    let new = match o.as_str() { "xchg" => v, "add" => self.bin(Bop::Add, t, &old, &v)?, "sub" => self.bin(Bop::Sub, t, &old, &v)?, "or" => self.bin(Bop::Or, t, &old, &v)?, "and" => self.bin(Bop::And, t, &old, &v)?, "xor" => self.bin(Bop::Xor, t, &old, &v)?, _ => return stuck(format!("atomicrmw {o}")) };
                    self.store(st, a, t, &new)?;
                    set!(d, old);
                }
                Inst::CmpXchg(t, d, a, e, v) => {
                    let (a, e, v) = { let f = fr!(); (reg!(f, a), reg!(f, e), reg!(f, v)) };
                    let a = self.conc(st, &a)?;
                    let old = self.load(st, a, t)?;
                    let q = self.icmp(Pred::Eq, t, &old, &e);
                    let ok = self.cond(st, &q)?;
                    if ok { self.store(st, a, t, &v)?; }
                    set!(d, V::A(Arc::new(vec![old, V::C(ok as u64)])));
                }
                Inst::Nop => next!(),
                Inst::Sync => {
                    if st.preempt > 0 && st.threads.len() > 1 {
                        let n = self.runnable(st).len() as u64 + 1;
                        if n > 1 {
                            let k = match st.choice.take() { Some(v) => v, None => return Err(Ev::Choice(n)) };
                            next!();
                            if k > 0 { st.preempt -= 1; return self.switch_away(st, k as usize - 1); }
                            continue;
                        }
                    }
                    next!();
                }
                Inst::Freeze(d, o) => { let v = { let f = fr!(); reg!(f, o) }; set!(d, v); }
                Inst::FNeg(t, d, o) => { let v = { let f = fr!(); reg!(f, o) }; let v = self.conc(st, &v)?; set!(d, V::C(if *t == Ty::Float { v ^ (1 << 31) } else { v ^ (1 << 63) })); }
                Inst::Unsupported(s) => return stuck(format!("instruction {s}")),
            }
        }
    }
    fn gep(&mut self, base: &V, off: i64, vars: &[(Opd, u32, i64)], f: &Frame) -> V {
        let mut x = self.e(base, 64);
        let k = self.ar.cst(64, off as u64 as u128);
        x = self.ar.mk(K::Add, 64, [x, k, 0], 0);
        for (o, w, s) in vars {
            let v = reg!(f, o);
            let mut e = self.e(&v, *w);
            if *w < 64 { e = self.ar.sext(e, 64); } else if *w > 64 { e = self.ar.extract(e, 0, 64); }
            let sc = self.ar.cst(64, *s as u64 as u128);
            let m = self.ar.mk(K::Mul, 64, [e, sc, 0], 0);
            x = self.ar.mk(K::Add, 64, [x, m, 0], 0);
        }
        self.v(x)
    }
    pub fn select(&mut self, st: &State, c: &V, a: &V, b: &V, t: &Ty) -> R<V> {
        match self.cond(st, c) {
            Ok(r) => Ok(if r { a.clone() } else { b.clone() }),
            Err(Ev::Cond(e)) => {
                match (a, b) { (V::A(_), _) | (_, V::A(_)) if t.bits() <= 64 || matches!(t, Ty::Vec(..) | Ty::Struct(..) | Ty::Arr(..)) => return Err(Ev::Cond(e)), _ => {} }
                let w = t.bits();
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.ar.ite(e, x, y);
                Ok(self.v(r))
            }
            Err(x) => Err(x),
        }
    }
    pub fn bin(&mut self, o: Bop, t: &Ty, a: &V, b: &V) -> R<V> {
        if let Ty::Vec(_, et) = t { if let (V::A(x), V::A(y)) = (a, b) { let mut r = vec![]; for i in 0..x.len() { r.push(self.bin(o, et, &x[i], &y[i])?); } return Ok(V::A(Arc::new(r))); } return stuck("vector op"); }
        let w = t.bits();
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            if w <= 64 {
                let sx = || sext(x, w);
                let sy = || sext(y, w);
                let r = match o {
                    Bop::Add => x.wrapping_add(y), Bop::Sub => x.wrapping_sub(y), Bop::Mul => x.wrapping_mul(y),
                    Bop::UDiv => if y == 0 { return stuck("division by zero") } else { x / y },
                    Bop::URem => if y == 0 { return stuck("division by zero") } else { x % y },
                    Bop::SDiv => if y == 0 { return stuck("division by zero") } else { sx().wrapping_div(sy()) as u64 },
                    Bop::SRem => if y == 0 { return stuck("division by zero") } else { sx().wrapping_rem(sy()) as u64 },
                    Bop::Shl => if y >= w as u64 { 0 } else { x << y }, Bop::LShr => if y >= w as u64 { 0 } else { x >> y }, Bop::AShr => (sx() >> y.min(63)) as u64,
                    Bop::And => x & y, Bop::Or => x | y, Bop::Xor => x ^ y,
                    Bop::FAdd | Bop::FSub | Bop::FMul | Bop::FDiv | Bop::FRem => {
                        let f = |x: f64, y: f64| match o { Bop::FAdd => x + y, Bop::FSub => x - y, Bop::FMul => x * y, Bop::FDiv => x / y, _ => x % y };
                        if *t == Ty::Float { let g = |x: f32, y: f32| match o { Bop::FAdd => x + y, Bop::FSub => x - y, Bop::FMul => x * y, Bop::FDiv => x / y, _ => x % y }; g(f32::from_bits(x as u32), f32::from_bits(y as u32)).to_bits() as u64 } else { f(f64::from_bits(x), f64::from_bits(y)).to_bits() }
                    }
                };
                return Ok(V::C(r & m));
            }
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let k = match o { Bop::Add => K::Add, Bop::Sub => K::Sub, Bop::Mul => K::Mul, Bop::UDiv => K::UDiv, Bop::URem => K::URem, Bop::SDiv => K::SDiv, Bop::SRem => K::SRem, Bop::Shl => K::Shl, Bop::LShr => K::LShr, Bop::AShr => K::AShr, Bop::And => K::And, Bop::Or => K::Or, Bop::Xor => K::Xor, _ => return stuck("symbolic floating point") };
        // a Bool add/sub is xor, mul is and
        let k = if w == 1 { match k { K::Add | K::Sub => K::Xor, K::Mul => K::And, k => k } } else { k };
        let r = self.ar.mk(k, w, [x, y, 0], 0);
        Ok(self.v(r))
    }
    pub fn icmp(&mut self, p: Pred, t: &Ty, a: &V, b: &V) -> V {
        if let Ty::Vec(_, et) = t { if let (V::A(x), V::A(y)) = (a, b) { let (x, y) = (x.clone(), y.clone()); return V::A(Arc::new((0..x.len()).map(|i| self.icmp(p, et, &x[i], &y[i])).collect())); } }
        let w = t.bits();
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext(x, w), sext(y, w));
            return V::C(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy } as u64);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match p {
            Pred::Eq => self.ar.eq(x, y),
            Pred::Ne => { let q = self.ar.eq(x, y); self.ar.not(q) }
            Pred::Ugt => self.ar.mk(K::Ult, 1, [y, x, 0], 0),
            Pred::Ult => self.ar.mk(K::Ult, 1, [x, y, 0], 0),
            Pred::Uge => self.ar.mk(K::Ule, 1, [y, x, 0], 0),
            Pred::Ule => self.ar.mk(K::Ule, 1, [x, y, 0], 0),
            Pred::Sgt => self.ar.mk(K::Slt, 1, [y, x, 0], 0),
            Pred::Slt => self.ar.mk(K::Slt, 1, [x, y, 0], 0),
            Pred::Sge => self.ar.mk(K::Sle, 1, [y, x, 0], 0),
            Pred::Sle => self.ar.mk(K::Sle, 1, [x, y, 0], 0),
        };
        self.v(r)
    }
    fn cast(&mut self, st: &State, c: Cast, ft: &Ty, tt: &Ty, a: &V) -> R<V> {
        let (fw, tw) = (ft.bits(), tt.bits());
        match c {
            Cast::Bitcast => {
                match (ft, tt) {
                    (Ty::Vec(_, e), Ty::Vec(m, e2)) => { if e == e2 { return Ok(a.clone()); } let whole = self.vec_to_int(a, e); let ew = e2.bits(); let mut o = vec![]; for i in 0..*m { let x = self.ar.extract(whole, i as u32 * ew, ew); o.push(self.v(x)); } return Ok(V::A(Arc::new(o))); }
                    (Ty::Vec(_, e), _) => { let x = self.vec_to_int(a, e); return Ok(self.v(x)); }
                    (_, Ty::Vec(n, e)) => { let x = self.e(a, fw); let ew = e.bits(); let mut o = vec![]; for i in 0..*n { let y = self.ar.extract(x, i as u32 * ew, ew); o.push(self.v(y)); } return Ok(V::A(Arc::new(o))); }
                    _ => return Ok(a.clone()),
                }
            }
            _ => {}
        }
        if let (Ty::Vec(_, e), Ty::Vec(_, e2)) = (ft, tt) { if let V::A(x) = a { let x = x.clone(); let mut o = vec![]; for v in x.iter() { o.push(self.cast(st, c, e, e2, v)?); } return Ok(V::A(Arc::new(o))); } }
        match c {
            Cast::Trunc | Cast::Zext | Cast::Sext | Cast::PtrToInt | Cast::IntToPtr => {
                if let V::C(x) = a { if tw <= 64 { return Ok(V::C(match c { Cast::Sext => sext(*x, fw) as u64, _ => *x } & mask(tw))); } }
                let e = self.e(a, fw);
                let r = match c { Cast::Sext => self.ar.sext(e, tw), _ => if tw < fw { self.ar.extract(e, 0, tw) } else { self.ar.zext(e, tw) } };
                Ok(self.v(r))
            }
            _ => {
                let x = self.conc(st, a)?;
                let fl = |x: u64, t: &Ty| if *t == Ty::Float { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let tb = |v: f64, t: &Ty| if *t == Ty::Float { (v as f32).to_bits() as u64 } else { v.to_bits() };
                Ok(V::C(match c { Cast::UiToFp => tb(x as f64, tt), Cast::SiToFp => tb(sext(x, fw) as f64, tt), Cast::FpToUi => (fl(x, ft) as u64) & mask(tw), Cast::FpToSi => (fl(x, ft) as i64 as u64) & mask(tw), _ => tb(fl(x, ft), tt) }))
            }
        }
    }
    fn vec_to_int(&mut self, a: &V, et: &Ty) -> Eid {
        let w = et.bits();
        if let V::A(x) = a {
            let x = x.clone();
            // all concrete small
            let mut e: Option<Eid> = None;
            for v in x.iter() { let b = self.e(v, w); e = Some(match e { None => b, Some(l) => self.ar.concat(b, l) }); }
            e.unwrap()
        } else { self.e(a, w) }
    }
}
fn ins_val(t: &Ty, o: &V, v: &V, ix: &[u32]) -> V {
    if ix.is_empty() { return v.clone(); }
    let n = match t { Ty::Struct(ts, _) => ts.len(), Ty::Arr(n, _) => *n as usize, _ => 0 };
    let mut x = match o { V::A(x) => x.to_vec(), _ => vec![V::C(0); n] };
    x[ix[0] as usize] = ins_val(t.elem(ix[0] as u64), &x[ix[0] as usize], v, &ix[1..]);
    V::A(Arc::new(x))
}
pub fn short(n: &str) -> String {
    // legacy mangling: _ZN 3foo 3bar 17h...E
    let s = n.strip_prefix("_ZN").unwrap_or(n);
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() && b[i].is_ascii_digit() { let mut k = 0usize; while i < b.len() && b[i].is_ascii_digit() { k = k * 10 + (b[i] - b'0') as usize; i += 1; } if i + k > b.len() { break; } let w = &s[i..i + k]; if !(k == 17 && w.starts_with('h')) { out.push(w.to_string()); } i += k; }
    if out.is_empty() { n.to_string() } else { out.join("::") }
}
pub fn dur(ms: u64) -> Duration { Duration::from_millis(ms) }
