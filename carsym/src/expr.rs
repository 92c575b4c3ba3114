//! Hash-consed expressions over bit-vectors (machine values) and SMT terms.
use std::collections::HashMap;
use std::sync::Arc;

pub type Eid = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    Const, // k = value
    Var,   // k = name id
    Lut,   // a[0] = 8-bit variable, k = table id
    Not, And, Or, Xor, Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Concat, Extract, // k = low bit
    Zext, Sext, Ite,
    App,  // k = app id (operator name, args in table)
    Lit,  // k = text id
}

/// Sort code: 1 = Bool, 2..=2048 = bit-vector of that width, others = SORT_BASE + index of a name
pub const SORT_BASE: u32 = 1 << 20;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Node { pub k: K, pub sort: u32, pub a: [Eid; 3], pub x: u128 }

#[derive(Clone)]
pub enum Supp { None, One(Eid), Many(Arc<Vec<Eid>>) }

pub struct Arena {
    pub n: Vec<Node>,
    pub supp: Vec<Supp>,
    map: HashMap<Node, Eid, Fx>,
    pub luts: Vec<Arc<[u64; 256]>>,
    lutmap: HashMap<Arc<[u64; 256]>, u32>,
    pub names: Vec<String>,
    namemap: HashMap<String, u32>,
    pub apps: Vec<(u32, Vec<Eid>)>,
    appmap: HashMap<(u32, Vec<Eid>), u32>,
    pub sorts: Vec<String>,
    pub bytevars: Vec<Eid>, // n-th byte variable
    pub byteidx: HashMap<Eid, usize>,
    pub vmem: Vec<()>,
}

#[derive(Clone, Default)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx { type Hasher = FxH; fn build_hasher(&self) -> FxH { FxH(0) } }
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut v = 0u64; for (i, x) in c.iter().enumerate() { v |= (*x as u64) << (8 * i); } self.write_u64(v); } }
    fn write_u64(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95); }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
    fn write_u128(&mut self, v: u128) { self.write_u64(v as u64); self.write_u64((v >> 64) as u64) }
}

pub fn m128(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
fn s128(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

impl Arena {
    pub fn new() -> Self {
        Arena { n: vec![], supp: vec![], map: HashMap::default(), luts: vec![], lutmap: HashMap::new(), names: vec![], namemap: HashMap::new(), apps: vec![], appmap: HashMap::new(), sorts: vec![], bytevars: vec![], byteidx: HashMap::new(), vmem: vec![] }
    }
    pub fn name(&mut self, s: &str) -> u32 {
        if let Some(i) = self.namemap.get(s) { return *i; }
        self.names.push(s.to_string());
        let i = self.names.len() as u32 - 1;
        self.namemap.insert(s.to_string(), i);
        i
    }
    pub fn sort_named(&mut self, s: &str) -> u32 {
        if s == "Bool" { return 1; }
        if let Some(i) = self.sorts.iter().position(|x| x == s) { return SORT_BASE + i as u32; }
        self.sorts.push(s.to_string());
        SORT_BASE + self.sorts.len() as u32 - 1
    }
    pub fn sort_text(&self, s: u32) -> String {
        if s == 1 { "Bool".into() } else if s >= SORT_BASE { self.sorts[(s - SORT_BASE) as usize].clone() } else { format!("(_ BitVec {s})") }
    }
    fn supp_union(&self, a: &Supp, b: &Supp) -> Supp {
        match (a, b) {
            (Supp::None, x) | (x, Supp::None) => x.clone(),
            (Supp::One(x), Supp::One(y)) if x == y => Supp::One(*x),
            _ => {
                let mut v: Vec<Eid> = self.supp_list(a);
                v.extend(self.supp_list(b));
                v.sort_unstable();
                v.dedup();
                Supp::Many(Arc::new(v))
            }
        }
    }
    fn supp_list(&self, a: &Supp) -> Vec<Eid> { match a { Supp::None => vec![], Supp::One(x) => vec![*x], Supp::Many(v) => v.to_vec() } }
    pub fn support(&self, e: Eid) -> Vec<Eid> { self.supp_list(&self.supp[e as usize]) }
    fn intern(&mut self, n: Node) -> Eid {
        if let Some(e) = self.map.get(&n) { return *e; }
        let e = self.n.len() as Eid;
        let s = match n.k {
            K::Const | K::Lit => Supp::None,
            K::Var => Supp::One(e),
            K::App => { let mut s = Supp::None; for x in self.apps[n.x as usize].1.clone() { s = self.supp_union(&s, &self.supp[x as usize].clone()); } s }
            _ => { let ar = arity(n.k); let mut s = Supp::None; for i in 0..ar { let t = self.supp[n.a[i] as usize].clone(); s = self.supp_union(&s, &t); } s }
        };
        self.map.insert(n.clone(), e);
        self.n.push(n);
        self.supp.push(s);
        e
    }
    pub fn cst(&mut self, w: u32, v: u128) -> Eid { self.intern(Node { k: K::Const, sort: w, a: [0; 3], x: v & m128(w) }) }
    pub fn var(&mut self, name: &str, sort: u32) -> Eid { let i = self.name(name); self.intern(Node { k: K::Var, sort, a: [0; 3], x: i as u128 }) }
    pub fn bytevar(&mut self, i: usize) -> Eid {
        while self.bytevars.len() <= i { let k = self.bytevars.len(); let e = self.var(&format!("b{k}"), 8); self.bytevars.push(e); self.byteidx.insert(e, k); }
        self.bytevars[i]
    }
    pub fn lit(&mut self, text: &str, sort: u32) -> Eid { let i = self.name(text); self.intern(Node { k: K::Lit, sort, a: [0; 3], x: i as u128 }) }
    pub fn app(&mut self, op: &str, args: &[Eid], sort: u32) -> Eid {
        // Boolean structure over machine booleans is kept as App; nothing to fold except trivial cases
        let i = self.name(op);
        let key = (i, args.to_vec());
        let id = match self.appmap.get(&key) { Some(x) => *x, None => { self.apps.push(key.clone()); let x = self.apps.len() as u32 - 1; self.appmap.insert(key, x); x } };
        self.intern(Node { k: K::App, sort, a: [0; 3], x: id as u128 })
    }
    pub fn get(&self, e: Eid) -> &Node { &self.n[e as usize] }
    pub fn sort(&self, e: Eid) -> u32 { self.n[e as usize].sort }
    pub fn as_const(&self, e: Eid) -> Option<u128> { let n = &self.n[e as usize]; if n.k == K::Const { Some(n.x) } else { None } }
    /// The single 8-bit variable the expression is a function of, when it is a table or the variable itself.
    pub fn lutvar(&self, e: Eid) -> Option<Eid> {
        let n = &self.n[e as usize];
        match n.k { K::Lut => Some(n.a[0]), K::Var if self.byteidx.contains_key(&e) => Some(e), _ => None }
    }
    pub fn evalv(&self, e: Eid, v: usize) -> u128 {
        let n = &self.n[e as usize];
        match n.k { K::Const => n.x, K::Var => v as u128, K::Lut => self.luts[n.x as usize][v] as u128, _ => unreachable!() }
    }
    pub fn mklut(&mut self, var: Eid, sort: u32, t: [u64; 256]) -> Eid {
        if t.iter().all(|x| *x == t[0]) { return self.cst(sort, t[0] as u128); }
        if sort == 8 && t.iter().enumerate().all(|(i, x)| *x == i as u64) { return var; }
        let t = Arc::new(t);
        let id = match self.lutmap.get(&t) { Some(i) => *i, None => { self.luts.push(t.clone()); let i = self.luts.len() as u32 - 1; self.lutmap.insert(t, i); i } };
        self.intern(Node { k: K::Lut, sort, a: [var, 0, 0], x: id as u128 })
    }
    pub fn not(&mut self, a: Eid) -> Eid { let w = self.sort(a); self.mk(K::Not, w, [a, 0, 0], 0) }
    pub fn and(&mut self, a: Eid, b: Eid) -> Eid { let w = self.sort(a); self.mk(K::And, w, [a, b, 0], 0) }
    pub fn or(&mut self, a: Eid, b: Eid) -> Eid { let w = self.sort(a); self.mk(K::Or, w, [a, b, 0], 0) }
    pub fn eq(&mut self, a: Eid, b: Eid) -> Eid { self.mk(K::Eq, 1, [a, b, 0], 0) }
    pub fn ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid { let w = self.sort(a); self.mk(K::Ite, w, [c, a, b], 0) }
    pub fn extract(&mut self, a: Eid, lo: u32, w: u32) -> Eid { if lo == 0 && self.sort(a) == w { return a; } self.mk(K::Extract, w, [a, 0, 0], lo as u128) }
    pub fn concat(&mut self, hi: Eid, lo: Eid) -> Eid { let w = self.sort(hi) + self.sort(lo); self.mk(K::Concat, w, [hi, lo, 0], 0) }
    pub fn zext(&mut self, a: Eid, w: u32) -> Eid { if self.sort(a) == w { return a; } self.mk(K::Zext, w, [a, 0, 0], 0) }
    pub fn sext(&mut self, a: Eid, w: u32) -> Eid { if self.sort(a) == w { return a; } self.mk(K::Sext, w, [a, 0, 0], 0) }

    pub fn mk(&mut self, k: K, sort: u32, a: [Eid; 3], x: u128) -> Eid {
        let ar = arity(k);
        // constants
        if a[..ar].iter().all(|e| self.n[*e as usize].k == K::Const) {
            if let Some(v) = self.fold(k, sort, &a, x, None) { return self.cst(sort, v); }
        }
        // table of a single 8-bit variable
        if sort <= 64 {
            let mut var: Option<Eid> = None;
            let mut ok = true;
            for e in &a[..ar] {
                if self.n[*e as usize].k == K::Const { continue; }
                match self.lutvar(*e) { Some(v) if var.is_none() || var == Some(v) => var = Some(v), _ => { ok = false; break; } }
            }
            if let (true, Some(v)) = (ok, var) {
                let mut t = [0u64; 256];
                let mut good = true;
                for i in 0..256 { match self.fold(k, sort, &a, x, Some(i)) { Some(y) => t[i] = (y & m128(sort)) as u64, None => { good = false; break; } } }
                if good { return self.mklut(v, sort, t); }
            }
        }
        let c = |s: &Self, e: Eid| s.as_const(e);
        match k {
            K::Not => { let n = self.get(a[0]).clone(); if n.k == K::Not { return n.a[0]; } }
            K::And | K::Or | K::Xor | K::Add | K::Mul | K::Eq => {
                let (mut p, mut q) = (a[0], a[1]);
                if self.n[p as usize].k == K::Const || (p > q && self.n[q as usize].k != K::Const) { std::mem::swap(&mut p, &mut q); }
                let w = self.sort(p);
                let cq = c(self, q);
                match k {
                    K::And => { if p == q { return p; } if cq == Some(0) { return q; } if w <= 128 && cq == Some(m128(w)) { return p; }
                        if let Some(m) = cq { // mask of low bits
                            if w > 1 && (m + 1).is_power_of_two() { let lw = m.count_ones(); let e = self.extract(p, 0, lw); return self.zext(e, w); } }
                        if w == 1 { let n = self.get(q).clone(); if n.k == K::Not && n.a[0] == p { return self.cst(1, 0); } let n = self.get(p).clone(); if n.k == K::Not && n.a[0] == q { return self.cst(1, 0); } } }
                    K::Or => { if p == q { return p; } if cq == Some(0) { return p; } if w <= 128 && cq == Some(m128(w)) { return q; }
                        // disjoint zext/shl -> concat is left to the solver
                    }
                    K::Xor => { if p == q { return self.cst(w, 0); } if cq == Some(0) { return p; } if w == 1 && cq == Some(1) { return self.not(p); } }
                    K::Add => { if cq == Some(0) { return p; }
                        if let Some(v) = cq { let n = self.get(p).clone(); if n.k == K::Add { if let Some(u) = c(self, n.a[1]) { let s = self.cst(w, u.wrapping_add(v)); return self.mk(K::Add, w, [n.a[0], s, 0], 0); } } } }
                    K::Mul => { if cq == Some(0) { return q; } if cq == Some(1) { return p; } }
                    K::Eq => {
                        if p == q { return self.cst(1, 1); }
                        if let Some(v) = cq {
                            if w == 1 { return if v == 1 { p } else { self.not(p) }; }
                            let n = self.get(p).clone();
                            match n.k {
                                K::Zext => { let iw = self.sort(n.a[0]); if v & !m128(iw) != 0 { return self.cst(1, 0); } let k2 = self.cst(iw, v); return self.eq(n.a[0], k2); }
                                K::Sext => { let iw = self.sort(n.a[0]); if (s128(v & m128(iw), iw) as u128) & m128(w) != v { return self.cst(1, 0); } let k2 = self.cst(iw, v); return self.eq(n.a[0], k2); }
                                K::Ite => { if let (Some(t), Some(f)) = (c(self, n.a[1]), c(self, n.a[2])) { return match (t == v, f == v) { (true, true) => self.cst(1, 1), (true, false) => n.a[0], (false, true) => self.not(n.a[0]), _ => self.cst(1, 0) }; }
                                    let (ct, cf) = (c(self, n.a[1]), c(self, n.a[2]));
                                    if ct.is_some() || cf.is_some() { let t = self.eq(n.a[1], q); let f = self.eq(n.a[2], q); return self.ite(n.a[0], t, f); } }
                                K::Xor if c(self, n.a[1]).is_some() => { let u = c(self, n.a[1]).unwrap(); let k2 = self.cst(w, u ^ v); return self.eq(n.a[0], k2); }
                                K::Add if c(self, n.a[1]).is_some() => { let u = c(self, n.a[1]).unwrap(); let k2 = self.cst(w, v.wrapping_sub(u)); return self.eq(n.a[0], k2); }
                                K::Concat => { let lw = self.sort(n.a[1]); let hw = self.sort(n.a[0]); let hk = self.cst(hw, v >> lw); let lk = self.cst(lw, v); let h = self.eq(n.a[0], hk); let l = self.eq(n.a[1], lk); return self.and(h, l); }
                                _ => {}
                            }
                        }
                    }
                    _ => {}
                }
                return self.intern(Node { k, sort, a: [p, q, 0], x });
            }
            K::Sub => { if a[0] == a[1] { return self.cst(sort, 0); } if let Some(v) = c(self, a[1]) { let k2 = self.cst(sort, v.wrapping_neg()); return self.mk(K::Add, sort, [a[0], k2, 0], 0); } }
            K::Ult => { if a[0] == a[1] { return self.cst(1, 0); } if c(self, a[1]) == Some(0) { return self.cst(1, 0); } if c(self, a[1]) == Some(1) { let z = self.cst(self.sort(a[0]), 0); return self.eq(a[0], z); }
                if let Some(v) = c(self, a[1]) { let n = self.get(a[0]).clone(); if n.k == K::Zext { let iw = self.sort(n.a[0]); if v > m128(iw) { return self.cst(1, 1); } let k2 = self.cst(iw, v); return self.mk(K::Ult, 1, [n.a[0], k2, 0], 0); } }
                if let Some(v) = c(self, a[0]) { let n = self.get(a[1]).clone(); if n.k == K::Zext { let iw = self.sort(n.a[0]); if v >= m128(iw) { return self.cst(1, 0); } let k2 = self.cst(iw, v); return self.mk(K::Ult, 1, [k2, n.a[0], 0], 0); } } }
            K::Ule => { if a[0] == a[1] { return self.cst(1, 1); } let l = self.mk(K::Ult, 1, [a[1], a[0], 0], 0); return self.not(l); }
            K::Slt => { if a[0] == a[1] { return self.cst(1, 0); } }
            K::Sle => { if a[0] == a[1] { return self.cst(1, 1); } let l = self.mk(K::Slt, 1, [a[1], a[0], 0], 0); return self.not(l); }
            K::Shl | K::LShr | K::AShr => {
                if let Some(v) = c(self, a[1]) {
                    if v == 0 { return a[0]; }
                    let w = sort as u128;
                    if k == K::LShr { if v >= w { return self.cst(sort, 0); } let e = self.extract(a[0], v as u32, sort - v as u32); return self.zext(e, sort); }
                    if k == K::Shl { if v >= w { return self.cst(sort, 0); } let e = self.extract(a[0], 0, sort - v as u32); let z = self.cst(v as u32, 0); return self.concat(e, z); }
                }
            }
            K::UDiv => if c(self, a[1]) == Some(1) { return a[0]; },
            K::Extract => {
                let lo = x as u32;
                let n = self.get(a[0]).clone();
                match n.k {
                    K::Extract => { return self.extract(n.a[0], n.x as u32 + lo, sort); }
                    K::Concat => { let lw = self.sort(n.a[1]); if lo >= lw { return self.extract(n.a[0], lo - lw, sort); } if lo + sort <= lw { return self.extract(n.a[1], lo, sort); }
                        let l = self.extract(n.a[1], lo, lw - lo); let h = self.extract(n.a[0], 0, sort - (lw - lo)); return self.concat(h, l); }
                    K::Zext => { let iw = self.sort(n.a[0]); if lo >= iw { return self.cst(sort, 0); } if lo + sort <= iw { return self.extract(n.a[0], lo, sort); } let e = self.extract(n.a[0], lo, iw - lo); return self.zext(e, sort); }
                    K::Sext => { let iw = self.sort(n.a[0]); if lo + sort <= iw { return self.extract(n.a[0], lo, sort); } if lo == 0 && sort > iw { return self.sext(n.a[0], sort); } }
                    K::And | K::Or | K::Xor if sort == 1 || self.get(n.a[1]).k == K::Const => { let p = self.extract(n.a[0], lo, sort); let q = self.extract(n.a[1], lo, sort); return self.mk(n.k, sort, [p, q, 0], 0); }
                    K::Ite => { if self.get(n.a[1]).k == K::Const || self.get(n.a[2]).k == K::Const { let p = self.extract(n.a[1], lo, sort); let q = self.extract(n.a[2], lo, sort); return self.ite(n.a[0], p, q); } }
                    _ => {}
                }
            }
            K::Concat => {
                let (h, l) = (self.get(a[0]).clone(), self.get(a[1]).clone());
                if h.k == K::Const && h.x == 0 { return self.zext(a[1], sort); }
                if h.k == K::Extract && l.k == K::Extract && h.a[0] == l.a[0] && h.x == l.x + l.sort as u128 { return self.extract(h.a[0], l.x as u32, sort); }
                if h.k == K::Concat { // reassociate right: (h0 . h1) . l -> h0 . (h1 . l)
                    let r = self.concat(h.a[1], a[1]);
                    return self.concat(h.a[0], r);
                }
                if l.k == K::Concat && h.k == K::Extract { let m = self.get(l.a[0]).clone(); if m.k == K::Extract && m.a[0] == h.a[0] && h.x == m.x + m.sort as u128 { let e = self.extract(h.a[0], m.x as u32, h.sort + m.sort); return self.concat(e, l.a[1]); } }
                // extract of low part of something whose high extract is const zext: (zext x)[..]
                if h.k == K::Zext && l.k == K::Extract { /* (zext e) . l */ let r = self.concat(h.a[0], a[1]); return self.zext(r, sort); }
            }
            K::Zext => { let n = self.get(a[0]).clone(); if n.k == K::Zext { return self.zext(n.a[0], sort); } }
            K::Ite => {
                if let Some(v) = c(self, a[0]) { return if v == 1 { a[1] } else { a[2] }; }
                if a[1] == a[2] { return a[1]; }
                if sort == 1 { match (c(self, a[1]), c(self, a[2])) { (Some(1), Some(0)) => return a[0], (Some(0), Some(1)) => return self.not(a[0]), (Some(1), _) => return self.or(a[0], a[2]), (Some(0), _) => { let n = self.not(a[0]); return self.and(n, a[2]); } (_, Some(0)) => return self.and(a[0], a[1]), (_, Some(1)) => { let n = self.not(a[0]); return self.or(n, a[1]); } _ => {} } }
                let n = self.get(a[0]).clone();
                if n.k == K::Not { return self.ite(n.a[0], a[2], a[1]); }
            }
            _ => {}
        }
        self.intern(Node { k, sort, a, x })
    }

    fn fold(&self, k: K, w: u32, a: &[Eid; 3], x: u128, v: Option<usize>) -> Option<u128> {
        let g = |i: usize| -> u128 { match v { None => self.n[a[i] as usize].x, Some(v) => self.evalv(a[i], v) } };
        let iw = |i: usize| self.sort(a[i]);
        if a[..arity(k)].iter().any(|e| self.sort(*e) > 128) || w > 128 { return None; }
        let m = m128(w);
        Some(match k {
            K::Not => !g(0) & m,
            K::And => g(0) & g(1),
            K::Or => g(0) | g(1),
            K::Xor => g(0) ^ g(1),
            K::Add => g(0).wrapping_add(g(1)) & m,
            K::Sub => g(0).wrapping_sub(g(1)) & m,
            K::Mul => g(0).wrapping_mul(g(1)) & m,
            K::UDiv => if g(1) == 0 { m } else { g(0) / g(1) },
            K::URem => if g(1) == 0 { g(0) } else { g(0) % g(1) },
            K::SDiv => { let (p, q) = (s128(g(0), w), s128(g(1), w)); if q == 0 { if p < 0 { 1 } else { m } } else { (p.wrapping_div(q) as u128) & m } }
            K::SRem => { let (p, q) = (s128(g(0), w), s128(g(1), w)); if q == 0 { g(0) } else { (p.wrapping_rem(q) as u128) & m } }
            K::Shl => if g(1) >= w as u128 { 0 } else { (g(0) << g(1)) & m },
            K::LShr => if g(1) >= w as u128 { 0 } else { g(0) >> g(1) },
            K::AShr => { let s = s128(g(0), w); let sh = g(1).min(w as u128 - 1).min(127); ((s >> sh) as u128) & m }
            K::Eq => (g(0) == g(1)) as u128,
            K::Ult => (g(0) < g(1)) as u128,
            K::Ule => (g(0) <= g(1)) as u128,
            K::Slt => (s128(g(0), iw(0)) < s128(g(1), iw(1))) as u128,
            K::Sle => (s128(g(0), iw(0)) <= s128(g(1), iw(1))) as u128,
            K::Concat => (g(0) << iw(1)) | g(1),
            K::Extract => (g(0) >> x) & m,
            K::Zext => g(0),
            K::Sext => (s128(g(0), iw(0)) as u128) & m,
            K::Ite => if g(0) == 1 { g(1) } else { g(2) },
            _ => return None,
        })
    }

    /// SMT-LIB text of one node, children by reference name.
    pub fn smt_node(&self, e: Eid) -> String {
        let n = self.get(e);
        let r = |i: usize| self.smt_ref(n.a[i]);
        let w = n.sort;
        let b = w == 1;
        match n.k {
            K::Const | K::Var | K::Lit => self.smt_ref(e),
            K::Lut => {
                let t = &self.luts[n.x as usize];
                let v = self.smt_ref(n.a[0]);
                let rng = |val: u64| -> String {
                    let mut parts = vec![];
                    let mut i = 0;
                    while i < 256 { if t[i] == val { let st = i; while i + 1 < 256 && t[i + 1] == val { i += 1; } if st == i { parts.push(format!("(= {v} #x{st:02x})")); } else { parts.push(format!("(and (bvule #x{st:02x} {v}) (bvule {v} #x{i:02x}))")); } } i += 1; }
                    if parts.len() == 1 { parts.pop().unwrap() } else { format!("(or {})", parts.join(" ")) }
                };
                if b { return rng(1); }
                let mut cnt: HashMap<u64, usize> = HashMap::new();
                for x in t.iter() { *cnt.entry(*x).or_default() += 1; }
                let mut vals: Vec<(u64, usize)> = cnt.into_iter().collect();
                vals.sort_by_key(|x| (x.1, x.0));
                let mut s = bvlit(w, vals.pop().unwrap().0 as u128);
                for (val, _) in vals { s = format!("(ite {} {} {})", rng(val), bvlit(w, val as u128), s); }
                s
            }
            K::Not => if b { format!("(not {})", r(0)) } else { format!("(bvnot {})", r(0)) },
            K::And => format!("({} {} {})", if b { "and" } else { "bvand" }, r(0), r(1)),
            K::Or => format!("({} {} {})", if b { "or" } else { "bvor" }, r(0), r(1)),
            K::Xor => format!("({} {} {})", if b { "xor" } else { "bvxor" }, r(0), r(1)),
            K::Add => if b { format!("(xor {} {})", r(0), r(1)) } else { format!("(bvadd {} {})", r(0), r(1)) },
            K::Sub => if b { format!("(xor {} {})", r(0), r(1)) } else { format!("(bvsub {} {})", r(0), r(1)) },
            K::Mul => if b { format!("(and {} {})", r(0), r(1)) } else { format!("(bvmul {} {})", r(0), r(1)) },
            K::UDiv => format!("(bvudiv {} {})", r(0), r(1)),
            K::URem => format!("(bvurem {} {})", r(0), r(1)),
            K::SDiv => format!("(bvsdiv {} {})", r(0), r(1)),
            K::SRem => format!("(bvsrem {} {})", r(0), r(1)),
            K::Shl => format!("(bvshl {} {})", r(0), r(1)),
            K::LShr => format!("(bvlshr {} {})", r(0), r(1)),
            K::AShr => format!("(bvashr {} {})", r(0), r(1)),
            K::Eq => format!("(= {} {})", r(0), r(1)),
            K::Ult | K::Ule | K::Slt | K::Sle => {
                let bb = self.sort(n.a[0]) == 1;
                let (x, y) = if bb { (format!("(ite {} #b1 #b0)", r(0)), format!("(ite {} #b1 #b0)", r(1))) } else { (r(0), r(1)) };
                format!("({} {} {})", match n.k { K::Ult => "bvult", K::Ule => "bvule", K::Slt => "bvslt", _ => "bvsle" }, x, y)
            }
            K::Concat => { let f = |i: usize| if self.sort(n.a[i]) == 1 { format!("(ite {} #b1 #b0)", r(i)) } else { r(i) }; format!("(concat {} {})", f(0), f(1)) }
            K::Extract => { let s = format!("((_ extract {} {}) {})", n.x as u32 + w - 1, n.x, r(0)); if b { format!("(= {s} #b1)") } else { s } }
            K::Zext => { let iw = self.sort(n.a[0]); if iw == 1 { format!("(ite {} {} {})", r(0), bvlit(w, 1), bvlit(w, 0)) } else { format!("((_ zero_extend {}) {})", w - iw, r(0)) } }
            K::Sext => { let iw = self.sort(n.a[0]); if iw == 1 { format!("(ite {} {} {})", r(0), bvlit(w, m128(w)), bvlit(w, 0)) } else { format!("((_ sign_extend {}) {})", w - iw, r(0)) } }
            K::Ite => format!("(ite {} {} {})", r(0), r(1), r(2)),
            K::App => { let (op, args) = &self.apps[n.x as usize]; let op = &self.names[*op as usize];
                let op = &if op.starts_with("uf!") { format!("|{op}|") } else { op.clone() };
                if args.is_empty() { return op.clone(); }
                format!("({} {})", op, args.iter().map(|x| self.smt_ref(*x)).collect::<Vec<_>>().join(" ")) }
        }
    }
    pub fn smt_ref(&self, e: Eid) -> String {
        let n = self.get(e);
        match n.k {
            K::Const => if n.sort == 1 { (if n.x == 1 { "true" } else { "false" }).into() } else { bvlit(n.sort, n.x) },
            K::Var => format!("v{e}"),
            K::Lit => self.names[n.x as usize].clone(),
            _ => format!("e{e}"),
        }
    }
    pub fn kids(&self, e: Eid) -> Vec<Eid> {
        let n = self.get(e);
        match n.k { K::App => self.apps[n.x as usize].1.clone(), K::Const | K::Var | K::Lit => vec![], K::Lut => vec![n.a[0]], k => n.a[..arity(k)].to_vec() }
    }
}
pub fn arity(k: K) -> usize {
    match k { K::Const | K::Var | K::App | K::Lit => 0, K::Lut | K::Not | K::Extract | K::Zext | K::Sext => 1, K::Ite => 3, _ => 2 }
}
pub fn bvlit(w: u32, v: u128) -> String { if w % 4 == 0 { format!("#x{:0width$x}", v, width = (w / 4) as usize) } else { format!("#b{:0width$b}", v, width = w as usize) } }
