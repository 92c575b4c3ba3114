//! Terms that come into being when the code under test first looks at them.
use crate::cs;
use carcara::ast::*;
use std::mem::MaybeUninit;
use std::sync::Arc;

pub const MAXN: usize = 2000;

#[repr(C)]
struct Slot {
    strong: usize,
    weak: usize,
    term: MaybeUninit<Term>,
}
static mut SLOTS: [Slot; MAXN] = unsafe { std::mem::zeroed() };

pub const NEW: u8 = 0;
pub const LEAF: u8 = 1;
pub const OP: u8 = 2;
pub const OTHER: u8 = 3;
pub const BOUND: u8 = 4;

#[derive(Clone, Copy)]
pub struct Node {
    pub state: u8,
    pub depth: u8,
    pub sort: u8,
    /// has the memory of this node been filled (for a node merged into another one)
    pub filled: bool,
    pub parent: u32,
    pub nargs: u8,
    pub first: u32,
    /// address of the term this node was identified with, if that is not a node
    pub target: usize,
    /// bit mask of the vocabulary groups allowed
    pub voc: u8,
}

pub struct SortInfo {
    pub term: Rc<Term>,
    pub smt: String,
    pub lo: u8,
    pub hi: u8,
    pub leaf: bool,
    /// 0 none, 1 symbolic integer constant, 2 symbolic real constant (integral), 3 symbolic bit-vector constant,
    /// 4 symbolic string constant of one character
    pub cst: u8,
    pub width: u8,
}
pub enum Kind {
    Op(Operator),
    App(Rc<Term>),
    Param(ParamOperator, Vec<Rc<Term>>),
    /// a binder over variables of the given sorts; the body has sort args[0]
    Bind(Binder, Vec<u8>),
    /// let over values of sorts args[1..]; body args[0]
    Let,
    Const(Constant),
    Var(&'static str),
}
pub struct Entry {
    pub kind: Kind,
    pub res: u8,
    pub args: Vec<u8>,
    pub voc: u8,
}
pub struct G {
    pub nodes: Vec<Node>,
    pub sorts: Vec<SortInfo>,
    pub entries: Vec<Entry>,
    pub distinct: Vec<(usize, usize)>,
    /// argument sort of entry k at position j: ARG[j][k]
    pub arg: Vec<[u8; 256]>,
    pub opb: [u8; 256],
    pub len: [u8; 256],
    pub budget: usize,
    /// names of bound variables may coincide with names of other variables of the sort
    pub eqdepth: usize,
    /// integer variables are 0 or 1
    pub zo: bool,
    /// arguments of @pbbterm are not assumed to be 0 or 1
    pub pbc: bool,
    /// fixed one-letter names are among the values of symbolic names
    pub near: bool,
    pub crash: usize,
    pub cst_lo: i64,
    pub cst_hi: i64,
}
static mut GL: Option<Box<G>> = None;
#[allow(static_mut_refs)]
pub fn g() -> &'static mut G { unsafe { GL.as_mut().unwrap() } }
#[allow(static_mut_refs)]
pub fn init() {
    unsafe {
        GL = Some(Box::new(G { nodes: Vec::with_capacity(MAXN), sorts: vec![], entries: vec![], distinct: vec![], arg: vec![], opb: [0; 256], len: [0; 256], budget: MAXN, eqdepth: 0, zo: false, pbc: false, near: false, crash: 0, cst_lo: 0, cst_hi: 0 }))
    }
}

pub fn rc(addr: usize) -> Rc<Term> {
    // the count of nodes never drops to zero
    unsafe {
        let a: Arc<Term> = Arc::from_raw(addr as *const Term);
        let b = a.clone();
        std::mem::forget(a);
        std::mem::transmute::<Arc<Term>, Rc<Term>>(b)
    }
}
pub fn addr(t: &Rc<Term>) -> usize { Rc::sym_addr(t) as usize }
#[allow(static_mut_refs)]
fn base() -> usize { unsafe { SLOTS.as_ptr() as usize } }
pub fn node_addr(i: usize) -> usize { base() + i * std::mem::size_of::<Slot>() + std::mem::offset_of!(Slot, term) }
pub fn node_of(a: usize) -> Option<usize> {
    let b = base();
    if a >= b && a < b + MAXN * std::mem::size_of::<Slot>() { Some((a - b) / std::mem::size_of::<Slot>()) } else { None }
}
pub fn find(mut i: usize) -> usize {
    loop {
        let p = g().nodes[i].parent as usize;
        if p == i { return i; }
        i = p;
    }
}
/// the address standing for everything known to be equal to this term
pub fn rep(a: usize) -> usize {
    match node_of(a) {
        None => a,
        Some(i) => {
            let i = find(i);
            let n = &g().nodes[i];
            if n.state == BOUND { rep(n.target) } else { node_addr(i) }
        }
    }
}
pub fn is_new(a: usize) -> bool { node_of(a).is_some_and(|i| g().nodes[i].state == NEW) }

#[allow(static_mut_refs)]
pub fn new_node(sort: u8, depth: u8, voc: u8) -> usize {
    let gl = g();
    let i = gl.nodes.len();
    if i >= gl.budget { cs::end("bound", "number of terms"); }
    gl.nodes.push(Node { state: NEW, depth, sort, filled: false, parent: i as u32, nargs: 0, first: 0, target: 0, voc });
    unsafe {
        SLOTS[i].strong = 1 << 40;
        SLOTS[i].weak = 1 << 40;
    }
    i
}
pub fn new_term(sort: u8, depth: u8) -> Rc<Term> { rc(node_addr(new_node(sort, depth, 255))) }
pub fn new_term_voc(sort: u8, depth: u8, voc: u8) -> Rc<Term> { rc(node_addr(new_node(sort, depth, voc))) }

unsafe fn put(i: usize, t: Term) { std::ptr::write(node_addr(i) as *mut Term, t); }
unsafe fn copy(from: usize, i: usize) { std::ptr::copy_nonoverlapping(from as *const Term, node_addr(i) as *mut Term, 1); }

pub fn name_string(b: u8) -> String { unsafe { String::from_utf8_unchecked(vec![b]) } }
pub fn leaf_name(s: u8) -> String {
    let si = &g().sorts[s as usize];
    name_string(cs::byte(si.lo, si.hi))
}

/// fills in the memory of a node
pub fn touch(a: usize) {
    let Some(i) = node_of(a) else { return };
    if g().nodes[i].filled { return; }
    let r = rep(a);
    if r != a {
        touch(r);
        g().nodes[i].filled = true;
        unsafe { copy(r, i) }
        return;
    }
    let s = cs::concb(g().nodes[i].sort);
    g().nodes[i].sort = s;
    let Node { depth, voc, .. } = g().nodes[i];
    let gl = g();
    let si = &gl.sorts[s as usize];
    // groups
    let mut mask = [0u64; 4];
    let mut nops = 0;
    let mut maxlen = 0;
    let mut others: Vec<usize> = vec![];
    for (k, e) in gl.entries.iter().enumerate() {
        if e.res != s || e.voc & voc == 0 || (depth == 0 && !e.args.is_empty()) { continue; }
        match e.kind {
            Kind::Op(_) => { mask[k >> 6] |= 1 << (k & 63); nops += 1; maxlen = maxlen.max(e.args.len()); }
            _ => others.push(k),
        }
    }
    let nleaf = si.leaf as usize;
    let ncst = (si.cst != 0) as usize;
    let nop = (nops > 0) as usize;
    let n = nleaf + ncst + nop + others.len();
    if n == 0 { cs::end("bound", "no term of this sort at this depth"); }
    let mut c = cs::choice(n);
    gl.nodes[i].filled = true;
    if c < nop {
        let k = cs::byte_mask(&mask);
        let first = gl.nodes.len();
        let mut v: Vec<Rc<Term>> = Vec::with_capacity(maxlen.max(1));
        for j in 0..maxlen {
            let cs = gl.arg[j][k as usize];
            let c = new_node(cs, depth.saturating_sub(1), voc);
            v.push(rc(node_addr(c)));
        }
        let gl = g();
        let p = v.as_mut_ptr();
        std::mem::forget(v);
        let v = unsafe { Vec::from_raw_parts(p, gl.len[k as usize] as usize, maxlen.max(1)) };
        gl.nodes[i].state = OP;
        gl.nodes[i].nargs = maxlen as u8;
        gl.nodes[i].first = first as u32;
        let op: Operator = unsafe { std::mem::transmute(gl.opb[k as usize]) };
        unsafe { put(i, Term::Op(op, v)) };
        return;
    }
    c -= nop;
    if c < nleaf {
        gl.nodes[i].state = LEAF;
        let t = Term::Var(leaf_name(s), si.term.clone());
        unsafe { put(i, t) };
        return;
    }
    c -= nleaf;
    if c < ncst {
        gl.nodes[i].state = OTHER;
        let t = match si.cst {
            1 => Term::Const(Constant::Integer(sym_int())),
            2 => Term::Const(Constant::Real(sym_int().into())),
            4 => Term::Const(Constant::String(name_string(cs::byte(b'a', b'c')))),
            _ => sym_bv(si.width as u64),
        };
        unsafe { put(i, t) };
        return;
    }
    c -= ncst;
    gl.nodes[i].state = OTHER;
    let k = others[c];
    let e = &gl.entries[k];
    let nargs = e.args.len();
    let first = gl.nodes.len();
    let mut v: Vec<Rc<Term>> = Vec::with_capacity(nargs.max(1));
    for j in 0..nargs {
        let c = new_node(e.args[j], depth.saturating_sub(1), voc);
        v.push(rc(node_addr(c)));
    }
    let gl = g();
    gl.nodes[i].nargs = nargs as u8;
    gl.nodes[i].first = first as u32;
    let t = match &e.kind {
        Kind::App(f) => Term::App(f.clone(), v),
        Kind::Param(op, oa) => Term::ParamOp { op: *op, op_args: oa.clone(), args: v },
        Kind::Bind(b, sorts) => {
            let mut l = vec![];
            for s in sorts { l.push((leaf_name(*s), gl.sorts[*s as usize].term.clone())); }
            Term::Binder(*b, BindingList(l), v[0].clone())
        }
        Kind::Let => {
            let mut l = vec![];
            for j in 1..nargs { l.push((leaf_name(e.args[j]), v[j].clone())); }
            Term::Let(BindingList(l), v[0].clone())
        }
        Kind::Const(c) => Term::Const(c.clone()),
        Kind::Var(n) => Term::Var(n.to_string(), gl.sorts[e.res as usize].term.clone()),
        Kind::Op(_) => unreachable!(),
    };
    unsafe { put(i, t) };
}
pub fn bvsort(w: u64) -> String { format_bv(w) }
fn format_bv(w: u64) -> String {
    let mut s = String::from("(_ BitVec ");
    s.push_str(&cs::num(w));
    s.push(')');
    s
}
fn pad(w: u64) -> String {
    let mut s = String::from("(_ zero_extend ");
    s.push_str(&cs::num(64 - w));
    s.push(')');
    s
}
pub fn sym_bv(w: u64) -> Term {
    let mut z = rug::Integer::from(1);
    let x = cs::of(cs::bv(64), w);
    let x = if w == 1 { cs::app("ite", &[x, cs::lit("#b1", "(_ BitVec 1)"), cs::lit("#b0", "(_ BitVec 1)")], "(_ BitVec 1)") } else { x };
    let x = if w == 64 { x } else { cs::app(if w < 64 { pad(w) } else { cs::end("stuck", "bit-vector constant width") }.as_str(), &[x], &bvsort(64)) };
    cs::mpz_set_sym(&mut z, x);
    Term::Const(Constant::BitVec(z, w as usize))
}
pub fn sym_int() -> rug::Integer {
    let mut z = rug::Integer::from(1);
    let h = cs::fresh(cs::I);
    let gl = g();
    if gl.cst_lo < gl.cst_hi {
        let lo = int_lit(gl.cst_lo);
        let hi = int_lit(gl.cst_hi);
        cs::smt_assume(cs::app("<=", &[lo, h], cs::B));
        cs::smt_assume(cs::app("<=", &[h, hi], cs::B));
    } else if gl.cst_hi == gl.cst_lo {
        // SMT-LIB numerals are not negative
        cs::smt_assume(cs::app("<=", &[int_lit(0), h], cs::B));
    }
    cs::mpz_set_sym(&mut z, h);
    z
}
pub fn int_lit(v: i64) -> cs::H {
    if v < 0 {
        let mut s = String::from("(- ");
        s.push_str(&cs::num((-v) as u64));
        s.push(')');
        cs::lit(&s, cs::I)
    } else {
        cs::lit(&cs::num(v as u64), cs::I)
    }
}

pub fn sort_id(t: &Term) -> Option<u8> {
    let s = crate::pool::sort_of_term(t)?;
    sort_index(&s)
}
pub fn sort_index(s: &Rc<Term>) -> Option<u8> {
    let a = addr(s);
    for (i, x) in g().sorts.iter().enumerate() {
        if addr(&x.term) == a { return Some(i as u8); }
    }
    for (i, x) in g().sorts.iter().enumerate() {
        if **s == *x.term { return Some(i as u8); }
    }
    None
}
fn sort_at(a: usize) -> Option<u8> {
    match node_of(a) {
        Some(i) => {
            let s = cs::concb(g().nodes[i].sort);
            g().nodes[i].sort = s;
            Some(s)
        }
        None => sort_id(unsafe { &*(a as *const Term) }),
    }
}
fn occurs(x: usize, a: usize) -> bool {
    // x: representative of a new node; a: representative
    if x == a { return true; }
    if is_new(a) { return false; }
    let t = unsafe { &*(a as *const Term) };
    let sub = |r: &Rc<Term>| occurs(x, rep(addr(r)));
    match t {
        Term::Const(_) | Term::Var(..) | Term::Sort(_) => false,
        Term::App(f, args) => sub(f) || args.iter().any(sub),
        Term::Op(_, _) if node_of(a).is_some() => {
            let n = g().nodes[node_of(a).unwrap()];
            (0..n.nargs as usize).any(|j| occurs(x, rep(node_addr(n.first as usize + j))))
        }
        Term::Op(_, args) => args.iter().any(sub),
        Term::Binder(_, _, b) => sub(b),
        Term::Let(l, b) => sub(b) || l.0.iter().any(|p| sub(&p.1)),
        Term::ParamOp { args, .. } => args.iter().any(sub),
    }
}
pub fn same(a: usize, b: usize) -> bool {
    if a == b { return true; }
    let (a, b) = (rep(a), rep(b));
    if a == b { return true; }
    let (na, nb) = (is_new(a), is_new(b));
    if !na && !nb {
        let (x, y) = unsafe { (&*(a as *const Term), &*(b as *const Term)) };
        return *x == *y;
    }
    let (x, y) = if na { (a, b) } else { (b, a) };
    let (Some(sx), Some(sy)) = (sort_at(x), sort_at(y)) else { return false };
    if sx != sy { return false; }
    for &(p, q) in &g().distinct {
        let (p, q) = (rep(p), rep(q));
        if (p == x && q == y) || (p == y && q == x) { return false; }
    }
    let i = node_of(x).unwrap();
    if occurs(x, y) { return false; }
    if !g().sorts[sx as usize].leaf && node_of(y).is_none() { /* any term of the sort may be identified */ }
    if cs::choice(2) == 1 {
        g().distinct.push((x, y));
        return false;
    }
    match node_of(y) {
        Some(j) => {
            let d = g().nodes[i].depth.max(g().nodes[j].depth);
            if g().nodes[j].state == NEW { g().nodes[j].depth = d; g().nodes[j].voc &= g().nodes[i].voc; }
            g().nodes[i].parent = j as u32;
        }
        None => {
            g().nodes[i].state = BOUND;
            g().nodes[i].target = y;
        }
    }
    true
}
/// terms decided to be different must not have become the same term
pub fn consistent() {
    let d = g().distinct.clone();
    for (a, b) in d {
        let (a, b) = (rep(a), rep(b));
        if a == b { cs::end("infeasible", "distinct terms identified"); }
        if is_new(a) || is_new(b) { continue; }
        let (x, y) = unsafe { (&*(a as *const Term), &*(b as *const Term)) };
        if *x == *y { cs::end("infeasible", "distinct terms identified"); }
    }
}

#[no_mangle]
pub extern "C" fn __carcara_sym_touch(p: *const u8) { touch(p as usize) }
#[no_mangle]
pub extern "C" fn __carcara_sym_eq(a: *const u8, b: *const u8) -> bool { if unsafe { BY_REFERENCE } { a == b } else { same(a as usize, b as usize) } }
/// terms are equal if they are the same object, as they are without the executor
pub static mut BY_REFERENCE: bool = false;
#[no_mangle]
pub extern "C" fn __carcara_sym_rep(p: *const u8) -> *const u8 { rep(p as usize) as *const u8 }
