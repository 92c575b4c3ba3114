//! The operators and sorts that lazily created terms are built from.
use crate::lazy::*;
use crate::parse_num;
use crate::pool::mk;
use carcara::ast::*;

pub fn sort(t: Sort, smt: &str, leaf: bool, cst: u8) -> u8 {
    let gl = g();
    let i = gl.sorts.len() as u8;
    let lo = 1 + i * 12;
    let w = match &t { Sort::BitVec(w) => *w as u8, _ => 0 };
    gl.sorts.push(SortInfo { term: mk(Term::Sort(t)), smt: smt.to_string(), lo, hi: lo + 11, leaf, cst, width: w });
    i
}
pub fn op(name: &str) -> Operator { match name.parse() { Ok(o) => o, Err(_) => crate::cs::end("stuck", "operator name") } }
pub fn entry(kind: Kind, res: u8, args: &[u8], voc: u8) {
    g().entries.push(Entry { kind, res, args: args.to_vec(), voc });
}
pub fn o(name: &str, res: u8, args: &[u8]) { entry(Kind::Op(op(name)), res, args, 255) }
pub fn ov(name: &str, res: u8, args: &[u8], voc: u8) { entry(Kind::Op(op(name)), res, args, voc) }
pub fn fun(name: &str, res: u8, args: &[u8]) -> Rc<Term> {
    let mut v: Vec<Rc<Term>> = vec![];
    for a in args { v.push(g().sorts[*a as usize].term.clone()); }
    v.push(g().sorts[res as usize].term.clone());
    mk(Term::Var(name.to_string(), mk(Term::Sort(Sort::Function(v)))))
}
pub fn f(name: &str, res: u8, args: &[u8]) {
    let x = fun(name, res, args);
    entry(Kind::App(x), res, args, 255)
}
/// tables over entries, indexed by a symbolic byte
pub fn finish() {
    let gl = g();
    let mut m = 0;
    for e in &gl.entries { m = m.max(e.args.len()); }
    for _ in 0..m { gl.arg.push([0; 256]); }
    for (k, e) in gl.entries.iter().enumerate() {
        gl.len[k] = e.args.len() as u8;
        if let Kind::Op(op) = &e.kind { gl.opb[k] = unsafe { std::mem::transmute::<Operator, u8>(*op) }; }
        for j in 0..m { gl.arg[j][k] = *e.args.get(j).unwrap_or(&e.args.last().copied().unwrap_or(0)); }
    }
}
pub const BOOL: u8 = 0;

pub fn boolean(b: u8, wide: bool) {
    o("true", b, &[]);
    o("false", b, &[]);
    o("not", b, &[b]);
    for c in ["and", "or"] {
        o(c, b, &[b]);
        o(c, b, &[b, b]);
        o(c, b, &[b, b, b]);
    }
    o("xor", b, &[b, b]);
    o("=>", b, &[b, b]);
    o("=", b, &[b, b]);
    o("ite", b, &[b, b, b]);
    if wide {
        o("xor", b, &[b]);
        o("xor", b, &[b, b, b]);
        o("=>", b, &[b, b, b]);
        o("=", b, &[b, b, b]);
        o("distinct", b, &[b, b]);
        o("distinct", b, &[b, b, b]);
    }
}
fn sig(b: u8, text: &str) {
    let mut names: Vec<(String, u8)> = vec![("B".to_string(), b)];
    for item in text.split(' ') {
        if item.is_empty() { continue; }
        // cannot fail on well-written jobs
        let slash = item.rfind('/').unwrap();
        let gt = item.rfind('>').unwrap();
        let (gt, slash) = if gt < slash { (item.len(), slash) } else { (gt, slash) };
        let mut args = vec![];
        let (a, r) = (&item[slash + 1..gt], &item[gt + 1..]);
        let mut k = 0;
        let bytes = a.as_bytes();
        while k < bytes.len() {
            if bytes[k].is_ascii_digit() { k += 1; continue; }
            let s = k;
            k += 1;
            while k < bytes.len() && bytes[k].is_ascii_digit() { k += 1; }
            args.push(sig_sort(&mut names, &a[s..k]));
        }
        let res = sig_sort(&mut names, r);
        let name = &item[..slash];
        if let Some(f0) = name.strip_prefix('!') { f(f0, res, &args); }
        else if name == "forall" || name == "exists" || name == "choice" || name == "lambda" {
            let bi = match name { "forall" => Binder::Forall, "exists" => Binder::Exists, "choice" => Binder::Choice, _ => Binder::Lambda };
            let m = args.len() - 1;
            entry(Kind::Bind(bi, args[..m].to_vec()), res, &args[m..], 255);
        }
        else if let Some(po) = name.strip_prefix('_') {
            // indexed operators: leading digits are the indices
            if let Ok(op) = po.parse::<ParamOperator>() {
                let k = match op { ParamOperator::BvExtract | ParamOperator::ReLoop => 2, _ => 1 };
                let oa: Vec<_> = bytes[..k].iter().map(|d| mk(Term::Const(Constant::Integer(((*d - b'0') as i64).into())))).collect();
                entry(Kind::Param(op, oa), res, &args, 255);
            } else { crate::cs::end("stuck", name) }
        }
        else if name == "let" { entry(Kind::Let, res, &args, 255); }
        else if name == "sort" {}
        else { o(name, res, &args) }
    }
}
fn sig_sort(names: &mut Vec<(String, u8)>, n: &str) -> u8 {
    for (m, i) in names.iter() { if m == n { return *i; } }
    let i = match n.as_bytes()[0] {
        b'I' => sort(Sort::Int, "Int", true, 1),
        b'R' => sort(Sort::Real, "Real", true, 2),
        b'S' => sort(Sort::String, "String", true, 0),
        b'T' => sort(Sort::String, "String", true, 4),
        b'L' => sort(Sort::RegLan, "RegLan", true, 0),
        b'b' => { let w = parse_num(&n[1..]); sort(Sort::BitVec(w), &crate::enc::cat(&["(_ BitVec ", &n[1..], ")"]), true, 0) }
        _ => sort(Sort::Atom(n.into(), Box::new([])), n, true, 0),
    };
    names.push((n.to_string(), i));
    i
}
pub fn setup(j: &crate::Job) {
    let name = j.get("v").unwrap_or("prop");
    g().cst_lo = j.int("clo", 0);
    g().cst_hi = j.int("chi", 0);
    let b = sort(Sort::Bool, "Bool", true, 0);
    match name {
        // Boolean operators over Boolean variables and equalities between things
        "prop" | "propu" => {
            boolean(b, true);
            if name == "propu" {
                let u = sort(Sort::Atom("U".into(), Box::new([])), "U", true, 0);
                o("=", b, &[u, u]);
                o("=", b, &[u, u, u]);
                o("distinct", b, &[u, u]);
                o("distinct", b, &[u, u, u]);
                o("ite", u, &[b, u, u]);
            }
        }
        // quantified formulas over an uninterpreted sort
        "qu" | "qu0" | "qul" => {
            let u = sort(Sort::Atom("U".into(), Box::new([])), "U", true, 0);
            o("true", b, &[]);
            o("false", b, &[]);
            o("not", b, &[b]);
            o("and", b, &[b, b]);
            o("or", b, &[b, b]);
            o("=>", b, &[b, b]);
            o("=", b, &[b, b]);
            o("=", b, &[u, u]);
            f("p", b, &[u]);
            f("f", u, &[u]);
            if name != "qu0" {
                entry(Kind::Bind(Binder::Forall, vec![u]), b, &[b], 255);
                entry(Kind::Bind(Binder::Exists, vec![u]), b, &[b], 255);
            }
            if name == "qul" {
                entry(Kind::Let, b, &[b, u], 255);
            }
        }
        // integer and real arithmetic; constants are any numbers
        "int" | "real" | "ari" => {
            let mut l = vec![];
            if name != "real" { l.push(sort(Sort::Int, "Int", true, 1)); }
            if name != "int" { l.push(sort(Sort::Real, "Real", true, 2)); }
            o("not", b, &[b]);
            o("and", b, &[b, b]);
            o("true", b, &[]);
            o("false", b, &[]);
            o("=", b, &[b, b]);
            for i in l {
                for c in ["=", "<", "<=", ">", ">="] { o(c, b, &[i, i]); }
                o("distinct", b, &[i, i]);
                o("+", i, &[i, i]);
                o("+", i, &[i, i, i]);
                o("*", i, &[i, i]);
                o("*", i, &[i, i, i]);
                o("-", i, &[i]);
                o("-", i, &[i, i]);
                if j.num("nodiv", 0) == 0 {
                    if g().sorts[i as usize].cst == 1 {
                        o("div", i, &[i, i]);
                        o("mod", i, &[i, i]);
                        o("abs", i, &[i]);
                    } else { o("/", i, &[i, i]); }
                }
            }
        }
        // quantified formulas over Booleans
        "qb" => {
            o("true", b, &[]);
            o("false", b, &[]);
            o("not", b, &[b]);
            o("and", b, &[b, b]);
            o("or", b, &[b, b]);
            o("=>", b, &[b, b]);
            o("=", b, &[b, b]);
            entry(Kind::Bind(Binder::Forall, vec![b]), b, &[b], 255);
            entry(Kind::Bind(Binder::Exists, vec![b]), b, &[b], 255);
        }
        // if-then-else terms and equalities over an uninterpreted sort
        "iteu" => {
            let u = sort(Sort::Atom("U".into(), Box::new([])), "U", true, 0);
            o("and", b, &[b, b]);
            o("and", b, &[b, b, b]);
            o("=", b, &[b, b]);
            o("ite", b, &[b, b, b]);
            o("=", b, &[u, u]);
            o("ite", u, &[b, u, u]);
        }
        // given in the job: `sig={and/BB>B !f/U>U ...}`; sorts B, U, I, R, S (String), bN (BitVec N)
        "sig" => sig(b, j.text("sig")),
        "not" => { o("not", b, &[b]); o("true", b, &[]); o("false", b, &[]); }
        _ => crate::cs::end("stuck", "vocabulary"),
    }
    finish();
}
