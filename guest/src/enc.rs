//! The meaning of terms, as SMT expressions; and their text.
use crate::cs::{self, H};
use crate::lazy::*;
use crate::pool::*;
use carcara::ast::*;

pub struct Env {
    /// names in scope, innermost last: bytes of the name, sort, value
    pub scope: Vec<(Vec<u8>, String, H)>,
    /// all names bound anywhere in the terms at hand; an opaque term may depend on them
    pub bound: Vec<(Vec<u8>, String)>,
    /// expand operators that the code under test has not determined yet
    pub full: bool,
    pub fresh: usize,
    /// conditions that define the values of `choice` terms and the like
    pub side: Vec<H>,
    pub opaque_seen: bool,
    /// scope, name, sort, body, value
    pub choices: Vec<(Vec<(Vec<u8>, String, H)>, Vec<u8>, String, Rc<Term>, H)>,
    /// quantifiers entered
    pub under: usize,
    pub memo: Vec<(usize, H)>,
    /// binders are uninterpreted and bound variables are de Bruijn indices: equality is alpha-equivalence
    pub alpha: bool,
    pub level: usize,
    /// position in the scope, level
    pub levels: Vec<(usize, usize)>,
}
impl Env {
    pub fn new(full: bool) -> Env {
        Env { scope: vec![], bound: vec![], full, fresh: 0, side: vec![], opaque_seen: false, choices: vec![], under: 0, memo: vec![], alpha: false, level: 0, levels: vec![] }
    }
}
pub fn smt_sort(s: &Rc<Term>) -> String {
    match &**s {
        Term::Sort(s) => match s {
            Sort::Bool => "Bool".to_string(),
            Sort::Int => "Int".to_string(),
            Sort::Real => "Real".to_string(),
            Sort::String => "String".to_string(),
            Sort::RegLan => "RegLan".to_string(),
            Sort::BitVec(1) => "(_ BitVec 1)".to_string(),
            Sort::BitVec(w) => bvsort(*w as u64),
            Sort::Atom(n, _) => n.to_string(),
            Sort::Array(a, b) => {
                let mut r = String::from("(Array ");
                r.push_str(&smt_sort(a));
                r.push(' ');
                r.push_str(&smt_sort(b));
                r.push(')');
                r
            }
            _ => cs::end("stuck", "SMT sort"),
        },
        _ => cs::end("stuck", "SMT sort"),
    }
}
pub fn cat(parts: &[&str]) -> String {
    let mut s = String::new();
    for p in parts { s.push_str(p); }
    s
}
fn bytes_eq(a: &[u8], b: &[u8]) -> H {
    if a.len() != b.len() { return cs::ff(); }
    let mut v = vec![];
    for i in 0..a.len() { v.push(cs::of_bool(a[i] == b[i])); }
    cs::and(&v)
}
fn free_value(name: &[u8], sort: &str) -> H {
    let mut op = String::from("uf!lb");
    op.push_str(&cs::num(name.len() as u64));
    for c in sort.chars() { if c.is_ascii_alphanumeric() { op.push(c); } }
    op.push('!');
    for i in 0..name.len() {
        if i > 0 { op.push(','); }
        op.push_str("(_ BitVec 8)");
    }
    op.push('>');
    op.push_str(sort);
    let mut a = vec![];
    for b in name { a.push(cs::of(*b as u64, 8)); }
    cs::app(&op, &a, sort)
}
fn index_var(k: usize, s: &str) -> H {
    let mut n = cat(&["ix", &cs::num(k as u64)]);
    for c in s.chars() { if c.is_ascii_alphanumeric() { n.push(c); } }
    cs::var(&n, s)
}
pub fn lookup(env: &Env, name: &[u8], sort: &str) -> H {
    let mut r = free_value(name, sort);
    for (i, (n, s, v)) in env.scope.iter().enumerate() {
        if s != sort { continue; }
        let c = bytes_eq(n, name);
        let mut v = *v;
        for (j, l) in &env.levels { if *j == i { v = index_var(env.level - l, s); } }
        r = cs::app("ite", &[c, v, r], sort);
    }
    r
}
/// collects names bound in what has been looked at of a term
pub fn collect_bound(t: &Rc<Term>, out: &mut Vec<(Vec<u8>, String)>) {
    let a = rep(addr(t));
    if is_new(a) { return; }
    match unsafe { &*(a as *const Term) } {
        Term::Const(_) | Term::Var(..) | Term::Sort(_) => {}
        Term::App(_, args) | Term::ParamOp { args, .. } => for x in args { collect_bound(x, out) },
        Term::Op(_, args) => {
            if let Some(i) = node_of(a) {
                let n = g().nodes[i];
                for j in 0..n.nargs as usize { collect_bound(&rc(node_addr(n.first as usize + j)), out); }
            } else {
                for x in args { collect_bound(x, out); }
            }
        }
        Term::Binder(_, l, b) => {
            for (n, s) in &l.0 { out.push((n.as_bytes().to_vec(), smt_sort(s))); }
            collect_bound(b, out);
        }
        Term::Let(l, b) => {
            for (n, v) in &l.0 { let s = sort_of(v); if let Some(s) = s { out.push((n.as_bytes().to_vec(), smt_sort(&s))); } collect_bound(v, out); }
            collect_bound(b, out);
        }
    }
}
fn opaque(env: &mut Env, tag: &str, a: usize, sort: &str) -> H {
    let mut n = String::from(tag);
    n.push_str(&cs::num(node_of(a).unwrap_or(a) as u64));
    if env.bound.is_empty() { return cs::var(&n, sort); }
    let mut op = cat(&["uf!", &n, "!"]);
    let mut args = vec![];
    for (i, (name, s)) in env.bound.iter().enumerate() {
        if i > 0 { op.push(','); }
        op.push_str(s);
        args.push(lookup(env, name, s));
    }
    op.push('>');
    op.push_str(sort);
    cs::app(&op, &args, sort)
}
pub fn enc_all(env: &mut Env, ts: &[Rc<Term>]) -> Vec<H> {
    let mut v = vec![];
    for t in ts { v.push(enc(env, t)); }
    v
}
pub fn fun_sig(f: &Term) -> (String, String) {
    // operator text and result sort of a declared function
    match f {
        Term::Var(n, s) => match &**s {
            Term::Sort(Sort::Function(v)) => {
                let mut op = cat(&["uf!", n, "!"]);
                for (i, x) in v[..v.len() - 1].iter().enumerate() {
                    if i > 0 { op.push(','); }
                    op.push_str(&smt_sort(x));
                }
                op.push('>');
                let r = smt_sort(v.last().unwrap());
                op.push_str(&r);
                (op, r)
            }
            _ => cs::end("stuck", "function symbol"),
        },
        _ => cs::end("stuck", "function symbol"),
    }
}
pub fn rat_text(r: &rug::Rational) -> String {
    let neg = *r < 0;
    let mut s = r.numer().clone().abs().to_string();
    s.push_str(".0");
    if *r.denom() != 1 { s = cat(&["(/ ", &s, " ", &r.denom().to_string(), ".0)"]); }
    if neg { s = cat(&["(- ", &s, ")"]); }
    s
}
pub fn bv_text(v: &rug::Integer, w: usize) -> String {
    let mut s = String::from("#b");
    for i in (0..w).rev() { s.push(if v.get_bit(i as u32) { '1' } else { '0' }); }
    s
}
/// jobs may take the integer variables to be 0 or 1
fn bit(env: &mut Env, h: H, s: &str) {
    if !g().zo || s != cs::I || env.under > 0 { return; }
    let c = cs::or(&[cs::eq(h, int_lit(0)), cs::eq(h, int_lit(1))]);
    if !env.side.contains(&c) { env.side.push(c); }
}
/// symbolic characters are one of a, b, c
/// the characters outside ASCII as SMT-LIB writes them
fn escaped(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if (c as u32) < 128 { o.push(c); continue; }
        o.push_str("\\u{");
        let mut k = 20;
        loop { let d = (c as u32 >> k) & 15; if k == 0 || c as u32 >> k != 0 { o.push((if d < 10 { b'0' + d as u8 } else { b'a' + d as u8 - 10 }) as char); } if k == 0 { break; } k -= 4; }
        o.push('}');
    }
    o
}
fn enc_str(s: &str) -> H {
    if !s.bytes().any(|b| cs::is_sym(b as u64)) { return cs::lit(&cat(&["\"", &escaped(s), "\""]), "String"); }
    let mut v = vec![];
    for b in s.bytes() {
        if !cs::is_sym(b as u64) { v.push(cs::lit(&cat(&["\"", &name_string(b), "\""]), "String")); continue; }
        let is = |c: u8| cs::of_bool(b == c);
        let (x, y, z) = (cs::lit("\"a\"", "String"), cs::lit("\"b\"", "String"), cs::lit("\"c\"", "String"));
        let r = cs::app("ite", &[is(b'b'), y, z], "String");
        v.push(cs::app("ite", &[is(b'a'), x, r], "String"));
    }
    if v.len() == 1 { v[0] } else { cs::app("str.++", &v, "String") }
}
pub fn enc(env: &mut Env, t: &Rc<Term>) -> H {
    let a = rep(addr(t));
    if is_new(a) {
        let s = sort_of(&rc(a)).unwrap();
        let s = smt_sort(&s);
        let h = opaque(env, "t", a, &s);
        bit(env, h, &s);
        return h;
    }
    if env.scope.is_empty() { for (x, h) in &env.memo { if *x == a { return *h; } } }
    let h = enc1(env, a);
    if env.scope.is_empty() { env.memo.push((a, h)); }
    h
}
fn enc1(env: &mut Env, a: usize) -> H {
    let t = unsafe { &*(a as *const Term) };
    if env.alpha { if let Some(h) = enc_alpha(env, t) { return h; } }
    match t {
        Term::Const(c) => match c {
            Constant::Integer(i) => {
                if *i < 0 && !cs::mpz_is_sym(i) { return cs::lit(&cat(&["(- ", &i.clone().abs().to_string(), ")"]), cs::I); }
                cs::mpz_get(i, 0)
            }
            Constant::Real(r) => {
                if cs::mpz_is_sym(r.numer()) { let h = cs::mpz_get(r.numer(), 0); cs::app("to_real", &[h], cs::RE) } else { cs::lit(&rat_text(r), cs::RE) }
            }
            Constant::String(s) => enc_str(s),
            Constant::BitVec(v, w) => {
                if cs::mpz_is_sym(v) {
                    let h = cs::mpz_get(v, 64);
                    cs::app(&cat(&["(_ extract ", &cs::num(*w as u64 - 1), " 0)"]), &[h], &bvsort(*w as u64))
                } else { cs::lit(&bv_text(v, *w), &bvsort(*w as u64)) }
            }
        },
        Term::Var(n, s) => { let s = smt_sort(s); let h = lookup(env, n.as_bytes(), &s); bit(env, h, &s); h }
        Term::App(f, args) => {
            let v = enc_all(env, args);
            let (op, r) = fun_sig(f);
            cs::app(&op, &v, &r)
        }
        Term::Op(op, args) => {
            let b: u8 = unsafe { std::mem::transmute(*op) };
            let sb = cs::is_sym(b as u64);
            let sl = cs::is_sym(args.len() as u64);
            let so = smt_sort(&sort_of(&rc(a)).unwrap());
            if (sb || sl) && !env.full {
                env.opaque_seen = true;
                return opaque(env, "o", a, &so);
            }
            let b = cs::concb(b);
            let op: Operator = unsafe { std::mem::transmute(b) };
            let n = cs::conc(args.len() as u64) as usize;
            if op == Operator::StrInRe {
                let x = enc(env, &args[0]);
                let l = cs::app("str.len", &[x], cs::I);
                let c = cs::app("<=", &[l, int_lit(WORD as i64)], cs::B);
                if env.under == 0 && !env.side.contains(&c) { env.side.push(c); }
                return in_re(env, x, &args[1], WORD);
            }
            if op == Operator::Equals && n == 2 {
                if let Some(h) = enc_lambdas(env, &args[0], &args[1]) { return h; }
            }
            let v = enc_all(env, &args[..n]);
            enc_op(env, op, &args[..n], &v, &so)
        }
        Term::Binder(b, l, body) => {
            let mark = env.scope.len();
            let mut vars = String::from("(");
            for (n, s) in &l.0 {
                let k = env.fresh;
                env.fresh += 1;
                let s = smt_sort(s);
                let v = cat(&["?b", &cs::num(k as u64)]);
                vars.push_str(&cat(&["(", &v, " ", &s, ")"]));
                let h = cs::lit(&v, &s);
                env.scope.push((n.as_bytes().to_vec(), s, h));
            }
            vars.push(')');
            let r = match b {
                Binder::Forall => { env.under += 1; let x = enc(env, body); env.under -= 1; cs::app(&cat(&["forall ", &vars]), &[x], cs::B) }
                Binder::Exists => { env.under += 1; let x = enc(env, body); env.under -= 1; cs::app(&cat(&["exists ", &vars]), &[x], cs::B) }
                Binder::Choice => {
                    env.scope.truncate(mark);
                    return enc_choice(env, l, body);
                }
                Binder::Lambda => cs::end("stuck", "lambda"),
            };
            env.scope.truncate(mark);
            r
        }
        Term::Let(l, body) => {
            let mark = env.scope.len();
            let mut new = vec![];
            for (n, v) in &l.0 {
                let s = smt_sort(&sort_of(v).unwrap());
                let h = enc(env, v);
                new.push((n.as_bytes().to_vec(), s, h));
            }
            env.scope.extend(new);
            let r = enc(env, body);
            env.scope.truncate(mark);
            r
        }
        Term::ParamOp { op, op_args, args } => enc_param(env, *op, op_args, args),
        Term::Sort(_) => cs::end("stuck", "sort as a term"),
    }
}
/// functions are equal if they have equal values everywhere
fn enc_lambdas(env: &mut Env, x: &Rc<Term>, y: &Rc<Term>) -> Option<H> {
    let (a, b) = (rep(addr(x)), rep(addr(y)));
    if is_new(a) || is_new(b) { return None; }
    let (a, b) = unsafe { (&*(a as *const Term), &*(b as *const Term)) };
    let (Term::Binder(Binder::Lambda, k, f), Term::Binder(Binder::Lambda, l, g)) = (a, b) else { return None; };
    if k.0.len() != l.0.len() { cs::end("stuck", "lambdas of different arity"); }
    let mut vars = String::from("(");
    let mut hs = vec![];
    for ((_, s), (_, t)) in k.0.iter().zip(&l.0) {
        let (s, t) = (smt_sort(s), smt_sort(t));
        if s != t { cs::end("stuck", "lambdas of different sorts"); }
        let v = cat(&["?b", &cs::num(env.fresh as u64)]);
        env.fresh += 1;
        vars.push_str(&cat(&["(", &v, " ", &s, ")"]));
        hs.push((cs::lit(&v, &s), s));
    }
    vars.push(')');
    let mark = env.scope.len();
    env.under += 1;
    for ((n, _), (h, s)) in k.0.iter().zip(&hs) { env.scope.push((n.as_bytes().to_vec(), s.clone(), *h)); }
    let p = enc(env, f);
    env.scope.truncate(mark);
    for ((n, _), (h, s)) in l.0.iter().zip(&hs) { env.scope.push((n.as_bytes().to_vec(), s.clone(), *h)); }
    let q = enc(env, g);
    env.scope.truncate(mark);
    env.under -= 1;
    Some(cs::app(&cat(&["forall ", &vars]), &[cs::eq(p, q)], cs::B))
}
fn alpha_sort(s: &Rc<Term>) -> String {
    match &**s { Term::Sort(Sort::Function(_)) => "U".to_string(), _ => smt_sort(s) }
}
fn enc_alpha(env: &mut Env, t: &Term) -> Option<H> {
    let mark = env.scope.len();
    let (low, lm) = (env.level, env.levels.len());
    let mut op = String::from("uf!");
    let mut args = vec![];
    let mut new = vec![];
    let (body, l) = match t {
        Term::Binder(b, l, body) => {
            op.push_str(match b { Binder::Forall => "forall", Binder::Exists => "exists", Binder::Choice => "choice", Binder::Lambda => "lambda" });
            for (n, s) in &l.0 { new.push((n, alpha_sort(s))); }
            (body, l)
        }
        Term::Let(l, body) => {
            op.push_str("let");
            for (n, v) in &l.0 {
                let s = alpha_sort(&sort_of(v)?);
                let h = enc(env, v);
                args.push((h, s.clone()));
                new.push((n, s));
            }
            (body, l)
        }
        Term::ParamOp { .. } | Term::Op(Operator::BvBbTerm | Operator::BvPBbTerm, _) => return None,
        Term::Op(o, a) => {
            let so = alpha_sort(&sort_of_term(t)?);
            let mut n = cat(&["uf!o", &cs::num(*o as u64), "n", &cs::num(a.len() as u64), "!"]);
            if a.is_empty() { return Some(cs::var(&n, &so)); }
            let mut v = vec![];
            for (i, x) in a.iter().enumerate() {
                if i > 0 { n.push(','); }
                n.push_str(&alpha_sort(&sort_of(x)?));
                v.push(enc(env, x));
            }
            n.push('>');
            n.push_str(&so);
            return Some(cs::app(&n, &v, &so));
        }
        _ => return None,
    };
    let so = alpha_sort(&sort_of_term(t)?);
    for (n, s) in new {
        for c in s.chars() { if c.is_ascii_alphanumeric() { op.push(c); } }
        env.levels.push((env.scope.len(), env.level));
        env.level += 1;
        env.scope.push((n.as_bytes().to_vec(), s, cs::ff()));
    }
    let h = enc(env, body);
    let bs = alpha_sort(&sort_of(body)?);
    args.push((h, bs));
    env.scope.truncate(mark);
    env.levels.truncate(lm);
    env.level = low;
    op.push_str(&cs::num(l.0.len() as u64));
    op.push('!');
    let mut v = vec![];
    for (i, (h, s)) in args.iter().enumerate() {
        if i > 0 { op.push(','); }
        op.push_str(s);
        v.push(*h);
    }
    op.push('>');
    op.push_str(&so);
    Some(cs::app(&op, &v, &so))
}
/// `(choice ((x S)) P)` denotes one value for every predicate `P` over `S`: equal predicates give equal values
fn enc_choice(env: &mut Env, l: &BindingList, body: &Rc<Term>) -> H {
    let s = smt_sort(&l.0[0].1);
    if env.under > 0 { cs::end("bound", "choice under a binder"); }
    let k = env.fresh;
    env.fresh += 1;
    let v = cat(&["?b", &cs::num(k as u64)]);
    let h = cs::lit(&v, &s);
    let name = l.0[0].0.as_bytes().to_vec();
    let outer = env.scope.clone();
    env.under += 1;
    env.scope.push((name.clone(), s.clone(), h));
    let p = enc(env, body);
    env.scope.pop();
    env.under -= 1;
    let c = cs::var(&cat(&["ch", &cs::num(k as u64)]), &s);
    let ex = cs::app(&cat(&["exists ((", &v, " ", &s, "))"]), &[p], cs::B);
    env.scope.push((name.clone(), s.clone(), c));
    let pc = enc(env, body);
    env.scope.pop();
    env.side.push(cs::or(&[cs::not(ex), pc]));
    // extensionality against the choices seen before
    for (sc2, n2, s2, b2, c2) in env.choices.clone() {
        if s2 != s { continue; }
        env.under += 1;
        let save = std::mem::replace(&mut env.scope, sc2);
        env.scope.push((n2, s.clone(), h));
        let p2 = enc(env, &b2);
        env.scope = save;
        env.under -= 1;
        let same = cs::app(&cat(&["forall ((", &v, " ", &s, "))"]), &[cs::eq(p, p2)], cs::B);
        env.side.push(cs::or(&[cs::not(same), cs::eq(c, c2)]));
    }
    env.choices.push((outer, name, s, body.clone(), c));
    c
}
/// longest word looked at for membership in a regular expression
const WORD: usize = 3;
fn part(x: H, from: H, n: H) -> H { cs::app("str.substr", &[x, from, n], "String") }
/// is the word in the language? Exact for words of at most `n` characters, except that a
/// regular expression that nothing is known about stands for a language of at most two words
fn in_re(env: &mut Env, x: H, r: &Rc<Term>, n: usize) -> H {
    let a = rep(addr(r));
    let two = |w: H, v: H| cs::or(&[cs::eq(x, w), cs::eq(x, v)]);
    if is_new(a) {
        let (w, v) = (opaque(env, "w", a, "String"), opaque(env, "v", a, "String"));
        return two(w, v);
    }
    let t = unsafe { &*(a as *const Term) };
    let len = cs::app("str.len", &[x], cs::I);
    let (op, args): (Operator, &[Rc<Term>]) = match t {
        Term::Var(name, _) => {
            let (w, v) = (free_value(name.as_bytes(), "String"), cat(&[name, "'"]));
            let v = free_value(v.as_bytes(), "String");
            return two(w, v);
        }
        Term::Op(op, args) => {
            let b: u8 = unsafe { std::mem::transmute(*op) };
            if (cs::is_sym(b as u64) || cs::is_sym(args.len() as u64)) && !env.full { cs::end("stuck", "symbolic regular expression"); }
            let k = cs::conc(args.len() as u64) as usize;
            (unsafe { std::mem::transmute(cs::concb(b)) }, &args[..k])
        }
        _ => cs::end("stuck", "regular expression"),
    };
    use Operator::*;
    match op {
        StrToRe => { let s = enc(env, &args[0]); cs::eq(x, s) }
        ReNone => cs::ff(),
        ReAll => cs::tt(),
        ReAllChar => cs::eq(len, int_lit(1)),
        ReRange => {
            let (p, q) = (enc(env, &args[0]), enc(env, &args[1]));
            let one = |s| cs::eq(cs::app("str.len", &[s], cs::I), int_lit(1));
            let (l, h) = (cs::app("str.<=", &[p, x], cs::B), cs::app("str.<=", &[x, q], cs::B));
            cs::and(&[one(x), one(p), one(q), l, h])
        }
        ReConcat => in_seq(env, x, args, n),
        ReUnion | ReIntersection | ReDiff => {
            let mut v = vec![];
            for (i, y) in args.iter().enumerate() { let h = in_re(env, x, y, n); v.push(if op == ReDiff && i > 0 { cs::not(h) } else { h }); }
            if op == ReUnion { cs::or(&v) } else { cs::and(&v) }
        }
        ReComplement => { let h = in_re(env, x, &args[0], n); cs::not(h) }
        ReOption => { let h = in_re(env, x, &args[0], n); cs::or(&[cs::eq(len, int_lit(0)), h]) }
        ReKleeneClosure => { let h = in_plus(env, x, &args[0], n); cs::or(&[cs::eq(len, int_lit(0)), h]) }
        ReKleeneCross => {
            let e = in_re(env, x, &args[0], n);
            let h = in_plus(env, x, &args[0], n);
            cs::or(&[e, h])
        }
        _ => cs::end("stuck", "regular expression operator"),
    }
}
fn in_seq(env: &mut Env, x: H, args: &[Rc<Term>], n: usize) -> H {
    let len = cs::app("str.len", &[x], cs::I);
    match args.len() {
        0 => return cs::eq(len, int_lit(0)),
        1 => return in_re(env, x, &args[0], n),
        _ => {}
    }
    let mut v = vec![];
    for k in 0..=n {
        let h = in_re(env, part(x, int_lit(0), int_lit(k as i64)), &args[0], k);
        let rest = in_seq(env, part(x, int_lit(k as i64), len), &args[1..], n - k);
        v.push(cs::and(&[cs::app("<=", &[int_lit(k as i64), len], cs::B), h, rest]));
    }
    cs::or(&v)
}
/// one or more non-empty words of the language in a row
fn in_plus(env: &mut Env, x: H, r: &Rc<Term>, n: usize) -> H {
    let len = cs::app("str.len", &[x], cs::I);
    let mut v = vec![];
    for k in 1..=n {
        let h = in_re(env, part(x, int_lit(0), int_lit(k as i64)), r, k);
        let y = part(x, int_lit(k as i64), len);
        let l = cs::app("str.len", &[y], cs::I);
        let rest = in_plus(env, y, r, n - k);
        let rest = cs::or(&[cs::eq(l, int_lit(0)), rest]);
        v.push(cs::and(&[cs::app("<=", &[int_lit(k as i64), len], cs::B), h, rest]));
    }
    cs::or(&v)
}
fn enc_op(env: &mut Env, op: Operator, args: &[Rc<Term>], v: &[H], so: &str) -> H {
    use Operator::*;
    match op {
        StrConcat if v.is_empty() => cs::lit("\"\"", "String"),
        StrConcat if v.len() == 1 => v[0],
        True => cs::tt(),
        False => cs::ff(),
        And | Or | Xor if v.len() == 1 => v[0],
        BvPBbTerm | BvBbTerm => {
            let one = cs::lit("#b1", "(_ BitVec 1)");
            let zero = cs::lit("#b0", "(_ BitVec 1)");
            let mut r: Option<(H, u64)> = None;
            for x in v {
                // the arguments of @pbbterm are 0 or 1
                let x = if op == BvPBbTerm {
                    let (is0, is1) = (cs::eq(*x, int_lit(0)), cs::eq(*x, int_lit(1)));
                    if env.under == 0 && !g().pbc { env.side.push(cs::or(&[is0, is1])); }
                    is1
                } else { *x };
                let b = cs::app("ite", &[x, one, zero], "(_ BitVec 1)");
                r = Some(match r { None => (b, 1), Some((y, w)) => (cs::app("concat", &[b, y], &bvsort(w + 1)), w + 1) });
            }
            r.unwrap().0
        }
        UBvToInt => cs::app("bv2nat", v, cs::I),
        SBvToInt => {
            let w = bv_width(&args[0]);
            let u = cs::app("bv2nat", v, cs::I);
            let m = cs::app(&cat(&["(_ extract ", &cs::num(w - 1), " ", &cs::num(w - 1), ")"]), v, "(_ BitVec 1)");
            let k = cs::lit(&(rug::Integer::from(1) << w as u32).to_string(), cs::I);
            let n = cs::app("-", &[u, k], cs::I);
            cs::app("ite", &[cs::eq(m, cs::lit("#b1", "(_ BitVec 1)")), n, u], cs::I)
        }
        // exact for numbers up to 2^24 in size, which the bounds on constants ensure
        Pow2 | IsPow2 | Log2 => {
            let mut r = if op == IsPow2 { cs::ff() } else { int_lit(0) };
            for k in 0..24i64 {
                let p = int_lit(1 << k);
                r = match op {
                    Pow2 => cs::app("ite", &[cs::eq(v[0], int_lit(k)), p, r], cs::I),
                    IsPow2 => cs::or(&[cs::eq(v[0], p), r]),
                    _ => cs::app("ite", &[cs::app("<=", &[p, v[0]], cs::B), int_lit(k), r], cs::I),
                };
            }
            r
        }
        BvSize => int_lit(bv_width(&args[0]) as i64),
        BvConst | BvSize | RareList | Cl | Delete => cs::end("stuck", "operator without SMT meaning here"),
        // mixed integer and real arguments
        Add | Sub | Mult | RealDiv | LessThan | LessEq | GreaterThan | GreaterEq | Equals | Distinct => {
            let mut isint = vec![];
            let mut any_real = op == RealDiv;
            for x in args {
                let i = matches!(&*sort_of(x).unwrap(), Term::Sort(Sort::Int));
                if matches!(&*sort_of(x).unwrap(), Term::Sort(Sort::Real)) { any_real = true; }
                isint.push(i);
            }
            let mut w = vec![];
            for (i, x) in v.iter().enumerate() { w.push(if isint[i] && any_real { cs::app("to_real", &[*x], cs::RE) } else { *x }); }
            cs::app(&op.to_string(), &w, so)
        }
        BvComp => {
            let one = cs::lit("#b1", "(_ BitVec 1)");
            let zero = cs::lit("#b0", "(_ BitVec 1)");
            cs::app("ite", &[cs::eq(v[0], v[1]), one, zero], "(_ BitVec 1)")
        }
        // n-ary bit-vector operators are left-associative
        BvAnd | BvOr | BvAdd | BvMul | BvXor | BvXNor | BvConcat => {
            let mut r = v[0];
            let mut w = bv_width(&args[0]);
            for (i, x) in v[1..].iter().enumerate() {
                if op == BvConcat { w += bv_width(&args[i + 1]); }
                r = cs::app(&op.to_string(), &[r, *x], &bvsort(w));
            }
            r
        }
        _ => cs::app(&op.to_string(), v, so),
    }
}
pub fn bv_width(t: &Rc<Term>) -> u64 { match &*sort_of(t).unwrap() { Term::Sort(Sort::BitVec(w)) => *w as u64, _ => cs::end("stuck", "width") } }
fn int_arg(t: &Rc<Term>) -> u64 {
    match t.as_integer() { Some(i) => i.to_u64().unwrap_or(0), None => cs::end("stuck", "operator index") }
}
fn enc_param(env: &mut Env, op: ParamOperator, oa: &[Rc<Term>], args: &[Rc<Term>]) -> H {
    let v = enc_all(env, args);
    match op {
        ParamOperator::BvBitOf => {
            let i = cs::num(int_arg(&oa[0]));
            let b = cs::app(&cat(&["(_ extract ", &i, " ", &i, ")"]), &v, "(_ BitVec 1)");
            cs::eq(b, cs::lit("#b1", "(_ BitVec 1)"))
        }
        ParamOperator::BvIntOf => {
            let i = cs::num(int_arg(&oa[0]));
            let b = cs::app(&cat(&["(_ extract ", &i, " ", &i, ")"]), &v, "(_ BitVec 1)");
            let c = cs::eq(b, cs::lit("#b1", "(_ BitVec 1)"));
            cs::app("ite", &[c, int_lit(1), int_lit(0)], cs::I)
        }
        ParamOperator::BvExtract => {
            let (i, j) = (int_arg(&oa[0]), int_arg(&oa[1]));
            cs::app(&cat(&["(_ extract ", &cs::num(i), " ", &cs::num(j), ")"]), &v, &bvsort(i - j + 1))
        }
        ParamOperator::ZeroExtend | ParamOperator::SignExtend => {
            let i = int_arg(&oa[0]);
            let w = bv_width(&args[0]);
            cs::app(&cat(&["(_ ", if op == ParamOperator::ZeroExtend { "zero_extend " } else { "sign_extend " }, &cs::num(i), ")"]), &v, &bvsort(w + i))
        }
        ParamOperator::RotateLeft | ParamOperator::RotateRight => {
            let i = int_arg(&oa[0]);
            let w = bv_width(&args[0]);
            cs::app(&cat(&["(_ ", if op == ParamOperator::RotateLeft { "rotate_left " } else { "rotate_right " }, &cs::num(i), ")"]), &v, &bvsort(w))
        }
        ParamOperator::Repeat => {
            let i = int_arg(&oa[0]);
            let w = bv_width(&args[0]);
            cs::app(&cat(&["(_ repeat ", &cs::num(i), ")"]), &v, &bvsort(w * i))
        }
        ParamOperator::IntToBv => { let w = int_arg(&oa[0]); cs::app(&cat(&["(_ int2bv ", &cs::num(w), ")"]), &v, &bvsort(w)) }
        ParamOperator::RePower => cs::app(&cat(&["(_ re.^ ", &cs::num(int_arg(&oa[0])), ")"]), &v, "RegLan"),
        ParamOperator::ReLoop => cs::app(&cat(&["(_ re.loop ", &cs::num(int_arg(&oa[0])), " ", &cs::num(int_arg(&oa[1])), ")"]), &v, "RegLan"),
        _ => cs::end("stuck", "indexed operator without SMT meaning here"),
    }
}
/// truth of a clause
pub fn clause(env: &mut Env, c: &[Rc<Term>]) -> H {
    let v = enc_all(env, c);
    cs::or(&v)
}

// ---------------------------------------------------------------- text of a term, every symbolic part fixed to one value
pub struct Printer {
    pub decls: Vec<(String, String)>,
    pub funs: Vec<String>,
    pub sorts: Vec<String>,
    /// for z3 rather than for the proof checker
    pub smt: bool,
    pub out: String,
    pub scope: Vec<String>,
    /// names bound somewhere, that an undetermined term may mention
    pub bound: Vec<(Vec<u8>, String)>,
    /// what the query may assume
    pub asserts: String,
}
impl Printer {
    pub fn new() -> Printer { Printer { decls: vec![], funs: vec![], sorts: vec![], smt: false, out: String::new(), scope: vec![], bound: vec![], asserts: String::new() } }
    fn declare(&mut self, n: &str, s: &str) {
        self.sort_decl(s);
        if !self.decls.iter().any(|d| d.0 == n) {
            if g().zo && s == cs::I { self.asserts.push_str(&cat(&["(assert (<= 0 ", n, " 1))\n"])); }
            self.decls.push((n.to_string(), s.to_string()));
        }
    }
    pub fn sort_decl(&mut self, s: &str) {
        if s == "U" || s == "W" { if !self.sorts.iter().any(|x| x == s) { self.sorts.push(s.to_string()); } }
    }
    pub fn name(n: &[u8]) -> String {
        if n.len() > 1 {
            let rest = unsafe { String::from_utf8_unchecked(n[1..].to_vec()) };
            if rest.bytes().all(|b| b == b'\'') && (cs::is_sym(n[0] as u64) || n[0] < b'a' || n[0] > b'z') { return cat(&["|v", &cs::num(cs::pick(n[0] as u64)), &rest, "|"]); }
            return unsafe { String::from_utf8_unchecked(n.to_vec()) };
        }
        let mut s = String::from("v");
        for (i, b) in n.iter().enumerate() {
            if n.len() == 1 && !cs::is_sym(*b as u64) && *b >= b'a' && *b <= b'z' { return name_string(*b); }
            let b = cs::pick(*b as u64);
            if i > 0 { s.push('_'); }
            s.push_str(&cs::num(b));
        }
        s
    }
    pub fn int(h: &rug::Integer) -> String {
        if !cs::mpz_is_sym(h) { return h.to_string(); }
        // a value that fits 64 bits
        let z = cs::mpz_get(h, 0);
        let x = cs::app("(_ int2bv 64)", &[z], &bvsort(64));
        let v = cs::pick(cs::val(x));
        let lit = int_lit(v as i64);
        if cs::check(cs::eq(z, lit), 3000) != 1 { cs::note("a large number was needed in a counterexample"); }
        cs::smt_assume(cs::eq(z, lit));
        (v as i64).to_string()
    }
    pub fn terms(&mut self, ts: &[Rc<Term>]) { for t in ts { self.out.push(' '); self.term(t); } }
    pub fn binding(&mut self, l: &BindingList) {
        self.out.push('(');
        for (n, s) in &l.0 {
            let n = Self::name(n.as_bytes());
            let s = smt_sort(s);
            self.sort_decl(&s);
            self.out.push_str(&cat(&["(", &n, " ", &s, ")"]));
            self.scope.push(n);
        }
        self.out.push(')');
    }
    pub fn term(&mut self, t: &Rc<Term>) {
        let a = rep(addr(t));
        if is_new(a) {
            let s = smt_sort(&sort_of(&rc(a)).unwrap());
            let n = cat(&["t", &cs::num(node_of(a).unwrap() as u64)]);
            let mut names: Vec<(String, String)> = vec![];
            for (b, s) in &self.bound {
                let x = Self::name(b);
                if !names.iter().any(|y| y.0 == x && y.1 == *s) { names.push((x, s.clone())); }
            }
            if names.is_empty() {
                self.declare(&n, &s);
                self.out.push_str(&n);
                return;
            }
            self.sort_decl(&s);
            let mut d = cat(&["(declare-fun ", &n, " ("]);
            self.out.push_str(&cat(&["(", &n]));
            for (x, xs) in &names {
                self.sort_decl(xs);
                d.push_str(&cat(&[xs, " "]));
                self.out.push_str(&cat(&[" ", x]));
                if !self.scope.contains(x) { self.declare(x, xs); }
            }
            d.push_str(&cat(&[") ", &s, ")"]));
            if !self.funs.contains(&d) { self.funs.push(d); }
            self.out.push(')');
            return;
        }
        match unsafe { &*(a as *const Term) } {
            Term::Const(c) => match c {
                Constant::Integer(i) => {
                    let s = Self::int(i);
                    if self.smt && s.starts_with('-') { self.out.push_str(&cat(&["(- ", &s[1..], ")"])); } else { self.out.push_str(&s); }
                }
                Constant::Real(r) => {
                    if cs::mpz_is_sym(r.numer()) { let s = Self::int(r.numer()); self.out.push_str(&s); self.out.push_str(".0"); } else if self.smt || *r.denom() == 1 { self.out.push_str(&rat_text(r)); } else { self.out.push_str(&cat(&[&r.numer().to_string(), "/", &r.denom().to_string()])); }
                }
                Constant::String(s) => {
                    self.out.push('"');
                    if s.bytes().any(|b| cs::is_sym(b as u64)) { for b in s.bytes() { let b = cs::pick(b as u64) as u8; self.out.push_str(&name_string(b)); } } else { self.out.push_str(&escaped(s)); }
                    self.out.push('"');
                }
                Constant::BitVec(v, w) => {
                    if cs::mpz_is_sym(v) {
                        let z = cs::mpz_get(v, 64);
                        let x = cs::pick(cs::val(z));
                        self.out.push_str(&bv_text(&rug::Integer::from(x), *w));
                    } else { self.out.push_str(&bv_text(v, *w)); }
                }
            },
            Term::Var(n, s) => {
                let n = Self::name(n.as_bytes());
                if !self.scope.contains(&n) { let s = smt_sort(s); self.declare(&n, &s); }
                self.out.push_str(&n);
            }
            Term::App(f, args) => {
                if let Term::Var(n, s) = unsafe { &*(rep(addr(f)) as *const Term) } {
                    if let Term::Sort(Sort::Function(v)) = &**s {
                        let mut d = cat(&["(declare-fun ", n, " ("]);
                        for (i, x) in v.iter().enumerate() {
                            let s = smt_sort(x);
                            self.sort_decl(&s);
                            if i + 1 == v.len() { d.push_str(") "); } else if i > 0 { d.push(' '); }
                            d.push_str(&s);
                        }
                        d.push(')');
                        if !self.funs.contains(&d) { self.funs.push(d); }
                    }
                    self.out.push_str(&cat(&["(", n]));
                }
                self.terms(args);
                self.out.push(')');
            }
            Term::Op(op, args) => {
                let b: u8 = unsafe { std::mem::transmute(*op) };
                let b = cs::pick(b as u64) as u8;
                let op: Operator = unsafe { std::mem::transmute(b) };
                let n = cs::pick(args.len() as u64) as usize;
                if n == 0 { self.out.push_str(&op.to_string()); return; }
                if n == 1 && self.smt && matches!(op, Operator::And | Operator::Or | Operator::Xor) { self.term(&args[0]); return; }
                if self.smt && (op == Operator::BvBbTerm || op == Operator::BvPBbTerm) {
                    self.out.push_str(if n > 1 { "(concat" } else { "(bvor #b0" });
                    let (l, r) = if op == Operator::BvBbTerm { (" (ite ", " #b1 #b0)") } else { (" (ite (= 1 ", ") #b1 #b0)") };
                    for x in args[..n].iter().rev() {
                        self.out.push_str(l);
                        let m = self.out.len();
                        self.term(x);
                        let t = self.out[m..].to_string();
                        if !g().pbc && op == Operator::BvPBbTerm && self.scope.is_empty() { self.asserts.push_str(&cat(&["(assert (or (= ", &t, " 0) (= ", &t, " 1)))\n"])); }
                        self.out.push_str(r);
                    }
                    self.out.push(')');
                    return;
                }
                self.out.push('(');
                self.out.push_str(&op.to_string());
                self.terms(&args[..n]);
                self.out.push(')');
            }
            Term::Binder(b, l, body) => {
                let m = self.scope.len();
                self.out.push('(');
                self.out.push_str(&b.to_string());
                self.out.push(' ');
                self.binding(l);
                self.out.push(' ');
                self.term(body);
                self.out.push(')');
                self.scope.truncate(m);
            }
            Term::Let(l, body) => {
                let m = self.scope.len();
                self.out.push_str("(let (");
                let mut ns = vec![];
                for (n, v) in &l.0 {
                    let n = Self::name(n.as_bytes());
                    self.out.push_str(&cat(&["(", &n, " "]));
                    self.term(v);
                    self.out.push(')');
                    ns.push(n);
                }
                self.scope.extend(ns);
                self.out.push_str(") ");
                self.term(body);
                self.out.push(')');
                self.scope.truncate(m);
            }
            Term::ParamOp { op, op_args, args } => {
                if self.smt && matches!(op, ParamOperator::BvBitOf | ParamOperator::BvIntOf) {
                    let i = cs::num(int_arg(&op_args[0]));
                    self.out.push_str(&cat(&["(ite (= ((_ extract ", &i, " ", &i, ")"]));
                    self.terms(args);
                    self.out.push_str(if *op == ParamOperator::BvBitOf { ") #b1) true false)" } else { ") #b1) 1 0)" });
                    return;
                }
                self.out.push_str(&cat(&["((_ ", &op.to_string()]));
                self.terms(op_args);
                self.out.push(')');
                self.terms(args);
                self.out.push(')');
            }
            Term::Sort(_) => { let s = smt_sort(&rc(a)); self.sort_decl(&s); self.out.push_str(&s); }
        }
    }
    pub fn text(&mut self, t: &Rc<Term>) -> String {
        self.out.clear();
        self.term(t);
        std::mem::take(&mut self.out)
    }
    pub fn declarations(&self) -> String {
        let mut s = String::new();
        for x in &self.sorts { s.push_str(&cat(&["(declare-sort ", x, " 0)\n"])); }
        for (n, t) in &self.decls { s.push_str(&cat(&["(declare-fun ", n, " () ", t, ")\n"])); }
        for f in &self.funs { s.push_str(f); s.push('\n'); }
        s
    }
}
