//! Terms written as patterns: capital letters stand for any term.
//!
//! `A` any Boolean term (of the job's depth), `A:Int` any term of that sort, `A:Int/1` with depth 1;
//! `x:Int` the variable x, `@X:Int` the variable X, `$x:Int` a variable whose name is any of the sort's names;
//! `?n` any integer constant, `?n:Real` any integral real constant; `#b01`, `12`, `1.0`, `1/2`, `"s"`;
//! `(op a b)`, `(_op 1 2 a)` with indices, `(f a)`, `(forall [x:Int $y:U] a)`, `(let [x a] b)`.
use crate::cs;
use crate::enc::cat;
use crate::lazy::*;
use crate::pool::*;
use crate::parse_num;
use carcara::ast::*;

pub struct Pat<'a> {
    t: Vec<&'a str>,
    i: usize,
    pub letters: Vec<(String, Rc<Term>)>,
    pub names: Vec<(String, String)>,
    pub depth: u8,
    pub scope: Vec<(String, Rc<Term>)>,
}
pub fn tokens(s: &str) -> Vec<&str> {
    let mut v = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == b' ' { i += 1; continue; }
        if c == b'(' || c == b')' || c == b'[' || c == b']' { v.push(&s[i..i + 1]); i += 1; continue; }
        let st = i;
        if c == b'"' { i += 1; while b[i] != b'"' { i += 1; } i += 1; v.push(&s[st..i]); continue; }
        while i < b.len() && !(b[i] == b' ' || b[i] == b'(' || b[i] == b')' || b[i] == b'[' || b[i] == b']') { i += 1; }
        v.push(&s[st..i]);
    }
    v
}
pub fn split(s: &str, c: char) -> Option<(&str, &str)> {
    let i = s.find(c)?;
    Some((&s[..i], &s[i + 1..]))
}
pub fn sort_named(n: &str) -> u8 {
    for (i, s) in g().sorts.iter().enumerate() { if s.smt == n || short(&s.smt) == n { return i as u8; } }
    cs::end("stuck", &cat(&["pattern sort ", n]))
}
/// `(_ BitVec 4)` is written `bv4`
fn short(s: &str) -> String {
    if let Some(r) = s.strip_prefix("(_ BitVec ") { return cat(&["bv", &r[..r.len() - 1]]); }
    s.to_string()
}
pub fn bad(s: &str) -> ! { cs::end("stuck", &cat(&["pattern: ", s])) }
pub fn digits(s: &str) -> rug::Integer {
    let mut z = rug::Integer::from(0);
    let (neg, s) = match s.strip_prefix('-') { Some(r) => (true, r), None => (false, s) };
    for b in s.bytes() { z *= 10u32; z += (b - b'0') as u32; }
    if neg { -z } else { z }
}
impl<'a> Pat<'a> {
    pub fn new(depth: u8) -> Pat<'a> { Pat { t: vec![], i: 0, letters: vec![], names: vec![], depth, scope: vec![] } }
    fn peek(&self) -> &'a str { if self.i < self.t.len() { self.t[self.i] } else { "" } }
    fn next(&mut self) -> &'a str { let x = self.peek(); self.i += 1; x }
    pub fn terms(&mut self, s: &'a str) -> Vec<Rc<Term>> {
        self.t = tokens(s);
        self.i = 0;
        let mut v = vec![];
        while self.i < self.t.len() { v.push(self.term()); }
        v
    }
    pub fn clauses(&mut self, s: &'a str) -> Vec<Vec<Rc<Term>>> {
        self.t = tokens(s);
        self.i = 0;
        let mut v = vec![];
        while self.i < self.t.len() {
            if self.next() != "[" { bad(s) }
            let mut c = vec![];
            while self.peek() != "]" { c.push(self.term()); }
            self.i += 1;
            v.push(c);
        }
        v
    }
    fn name(&mut self, n: &'a str, sort: u8) -> String {
        if n.starts_with('$') {
            for (a, b) in &self.names { if a == n { return b.clone(); } }
            let base = n.trim_end_matches('\'');
            let mut s = if base.len() < n.len() { self.name(base, sort) } else { leaf_name(sort) };
            s.push_str(&n[base.len()..]);
            self.names.push((n.to_string(), s.clone()));
            s
        } else {
            const NEAR: &str = "xyzwuvabcdst";
            match NEAR.find(n) {
                Some(i) if g().near && n.len() == 1 => name_string(g().sorts[sort as usize].lo + i as u8),
                _ => n.to_string(),
            }
        }
    }
    pub fn sorted_var(&mut self) -> SortedVar {
        let t = self.next();
        let (n, s) = split(t, ':').unwrap_or((t, "Bool"));
        let k = sort_named(s);
        (self.name(n, k), g().sorts[k as usize].term.clone())
    }
    /// anchor arguments: `x:S` or `x:S:= term`
    pub fn context(&mut self, s: &'a str) -> Vec<Vec<AnchorArg>> {
        self.t = tokens(s);
        self.i = 0;
        let mut v = vec![];
        while self.i < self.t.len() {
            if self.next() != "[" { bad(s) }
            let mut c = vec![];
            while self.peek() != "]" {
                if let Some(t) = self.peek().strip_suffix(":=") {
                    self.t[self.i] = t;
                    let x = self.sorted_var();
                    let e = self.term();
                    c.push(AnchorArg::Assign(x, e));
                } else {
                    c.push(AnchorArg::Variable(self.sorted_var()));
                }
            }
            self.i += 1;
            v.push(c);
        }
        v
    }
    fn letter(&mut self, t: &str) -> Rc<Term> {
        let (t, d) = match split(t, '/') { Some((a, b)) => (a, parse_num(b) as u8), None => (t, self.depth) };
        let (n, s) = split(t, ':').unwrap_or((t, ""));
        for (a, b) in &self.letters { if a == n { return b.clone(); } }
        let s = if s.is_empty() { 0 } else { sort_named(s) };
        let x = new_term(s, d);
        self.letters.push((n.to_string(), x.clone()));
        x
    }
    pub fn term(&mut self) -> Rc<Term> {
        let t = self.next();
        if t.is_empty() { bad("end") }
        let b = t.as_bytes();
        if t == "(" {
            let h = self.next();
            if let Some(op) = h.strip_prefix('_') {
                let op: ParamOperator = match op.parse() { Ok(o) => o, Err(_) => bad(h) };
                let k = match op { ParamOperator::BvExtract | ParamOperator::ReLoop => 2, _ => 1 };
                let mut oa = vec![];
                for _ in 0..k { oa.push(self.term()); }
                let args = self.rest();
                return mk(Term::ParamOp { op, op_args: oa, args });
            }
            let binder = match h { "forall" => Some(Binder::Forall), "exists" => Some(Binder::Exists), "choice" => Some(Binder::Choice), "lambda" => Some(Binder::Lambda), _ => None };
            if let Some(b) = binder {
                if self.next() != "[" { bad(h) }
                let mut l = vec![];
                let m = self.scope.len();
                while self.peek() != "]" {
                    let plain = split(self.peek(), ':').map_or(self.peek(), |x| x.0);
                    let v = self.sorted_var();
                    self.scope.push((plain.to_string(), v.1.clone()));
                    l.push(v);
                }
                self.i += 1;
                let body = self.term();
                self.scope.truncate(m);
                if self.next() != ")" { bad(h) }
                return mk(Term::Binder(b, BindingList(l), body));
            }
            if h == "let" {
                if self.next() != "[" { bad(h) }
                let mut l = vec![];
                let m = self.scope.len();
                while self.peek() != "]" {
                    let t = self.next();
                    let e = self.term();
                    let s = sort_of(&e).unwrap();
                    let k = sort_index(&s).unwrap();
                    let n = self.name(t, k);
                    l.push((t, n, s, e));
                }
                self.i += 1;
                let mut ll = vec![];
                for (t, n, s, e) in l { self.scope.push((t.to_string(), s)); ll.push((n, e)); }
                let body = self.term();
                self.scope.truncate(m);
                if self.next() != ")" { bad(h) }
                return mk(Term::Let(BindingList(ll), body));
            }
            if let Ok(op) = h.parse::<Operator>() {
                let args = self.rest();
                return mk(Term::Op(op, args));
            }
            let args = self.rest();
            for e in &g().entries {
                if let Kind::App(f) = &e.kind { if let Term::Var(n, _) = &**f { if n == h { return mk(Term::App(f.clone(), args)); } } }
            }
            bad(h)
        }
        if t == "true" { return mk(Term::Op(Operator::True, vec![])); }
        if t == "false" { return mk(Term::Op(Operator::False, vec![])); }
        if let Some(n) = t.strip_prefix('?') {
            let (n, s) = split(n, ':').unwrap_or((n, "Int"));
            for (a, b) in &self.letters { if a == n { return b.clone(); } }
            // a string constant of some characters a, b, c
            if let Some(w) = s.strip_prefix("str") {
                let mut v = vec![];
                for _ in 0..parse_num(w) { v.push(cs::byte(b'a', b'c')); }
                let x = mk(Term::Const(Constant::String(unsafe { String::from_utf8_unchecked(v) })));
                self.letters.push((n.to_string(), x.clone()));
                return x;
            }
            if let Some(w) = s.strip_prefix("bv") {
                let x = mk(sym_bv(parse_num(w) as u64));
                self.letters.push((n.to_string(), x.clone()));
                return x;
            }
            let z = sym_int();
            let x = mk(Term::Const(if s == "Int" { Constant::Integer(z) } else { Constant::Real(z.into()) }));
            self.letters.push((n.to_string(), x.clone()));
            return x;
        }
        if let Some(r) = t.strip_prefix("#b") {
            let mut z = rug::Integer::from(0);
            for c in r.bytes() { z *= 2u32; z += (c - b'0') as u32; }
            return mk(Term::Const(Constant::BitVec(z, r.len())));
        }
        if b[0] == b'"' { return mk(Term::Const(Constant::String(t[1..t.len() - 1].to_string()))); }
        if b[0].is_ascii_digit() || (b[0] == b'-' && b.len() > 1) {
            if let Some((a, d)) = split(t, '/') { return mk(Term::Const(Constant::Real((digits(a), digits(d)).into()))); }
            if let Some((a, _)) = split(t, '.') { return mk(Term::Const(Constant::Real(digits(a).into()))); }
            return mk(Term::Const(Constant::Integer(digits(t))));
        }
        // `@L` is the variable L
        let t = t.strip_prefix('@').unwrap_or(t);
        if b[0].is_ascii_uppercase() { return self.letter(t); }
        if let Ok(op) = t.parse::<Operator>() { return mk(Term::Op(op, vec![])); }
        // a variable
        let (n, s) = split(t, ':').unwrap_or((t, ""));
        let s = if s.is_empty() {
            let mut r = None;
            for (a, b) in &self.scope { if a == n { r = Some(b.clone()); } }
            match r { Some(s) => s, None => { let s = g().sorts[0].term.clone(); s } }
        } else { g().sorts[sort_named(s) as usize].term.clone() };
        let k = sort_index(&s).unwrap();
        let n = self.name(n, k);
        mk(Term::Var(n, s))
    }
    fn rest(&mut self) -> Vec<Rc<Term>> {
        let mut v = vec![];
        while self.peek() != ")" { v.push(self.term()); }
        self.i += 1;
        v
    }
}
