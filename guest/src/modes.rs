//! Functions of the library that no single rule exposes.
use crate::cs::{self, H};
use crate::enc::*;
use crate::lazy::*;
use crate::pat::*;
use crate::pool::*;
use crate::rules::*;
use crate::{vocab, Job};
use carcara::ast::*;

pub fn run(m: &str, j: &Job) -> ! {
    vocab::setup(j);
    match m {
        "polyeq" => polyeq_mode(j),
        "subst" => subst_mode(j),
        "freevars" => freevars_mode(j),
        "lex" => lex_mode(j),
        "print" => print_mode(j),
        "schedule" => crate::proofs::schedule_mode(j),
        "elab" => crate::proofs::elab_mode(j),
        "slice" => crate::proofs::slice_mode(j),
        "parallel" => crate::proofs::parallel_mode(j),
        "check" => crate::proofs::check_mode(j),
        _ => cs::end("stuck", "unknown mode"),
    }
}

/// the terms of the job, for the tool that asks the library natively
static mut TERMS: Vec<Rc<Term>> = vec![];
static mut TOOL: String = String::new();
#[allow(static_mut_refs)]
fn terms() -> &'static mut Vec<Rc<Term>> { unsafe { &mut TERMS } }
#[allow(static_mut_refs)]
fn tool() -> &'static mut String { unsafe { &mut TOOL } }

fn bound_of(ts: &[Rc<Term>]) -> Vec<(Vec<u8>, String)> {
    let s = Shape { conclusion: ts.to_vec(), premises: vec![], args: vec![], ctx: vec![], prev: None, discharge: vec![] };
    bound_names(&s)
}
/// the terms as arguments of a step, the tool's command and the answer it should give if the violation is real
pub fn emit_tool(answer: &str) {
    let mut p = Printer::new();
    p.bound = bound_of(terms());
    let mut a = String::new();
    for x in terms() { a.push(' '); a.push_str(&p.text(x)); }
    let d = p.declarations();
    cs::emit(&cat(&["%%problem\n", &d, "%%proof\n(step t (cl) :rule hole :args (", &a[1..], "))\n%%tool\n", tool(), "\n%%answer\n", answer, "\n"]));
}
fn crash() { emit_tool("crash") }
fn is_sort(t: &Rc<Term>, s: Sort) -> bool { matches!(sort_of(t), Some(x) if matches!(&*x, Term::Sort(y) if *y == s)) }
fn values_equal(env: &mut Env, a: &Rc<Term>, b: &Rc<Term>) -> H {
    let (x, y) = (enc(env, a), enc(env, b));
    let (ra, rb) = (is_sort(a, Sort::Real), is_sort(b, Sort::Real));
    let (ia, ib) = (is_sort(a, Sort::Int), is_sort(b, Sort::Int));
    if ra && ib { return cs::eq(x, cs::app("to_real", &[y], cs::RE)); }
    if rb && ia { return cs::eq(cs::app("to_real", &[x], cs::RE), y); }
    // terms of different sorts are not equal
    match (sort_of(a), sort_of(b)) {
        (Some(s), Some(t)) if smt_sort(&s) == smt_sort(&t) => cs::eq(x, y),
        _ => cs::ff(),
    }
}
fn print_equal(q: &mut Printer, a: &Rc<Term>, b: &Rc<Term>) -> String {
    let (mut x, mut y) = (q.text(a), q.text(b));
    let (ra, rb) = (is_sort(a, Sort::Real), is_sort(b, Sort::Real));
    if ra && !rb { y = cat(&["(to_real ", &y, ")"]); }
    if rb && !ra { x = cat(&["(to_real ", &x, ")"]); }
    cat(&["(= ", &x, " ", &y, ")"])
}
fn emit_query(text: &str, q: &Printer) {
    cs::emit("%%query\n");
    cs::emit(&q.declarations());
    cs::emit(&q.asserts);
    cs::emit(text);
}

/// two terms identified by a comparison have the same value
fn polyeq_mode(j: &Job) -> ! {
    let kind = j.text("kind").to_string();
    if j.num("fmt", 0) == 1 { cs::opt("fmt", 1); }
    let mut pat = Pat::new(j.num("d", 2) as u8);
    let t = pat.terms(j.text("t"));
    let (a, b) = (t[0].clone(), t[if t.len() > 1 { 1 } else { 0 }].clone());
    *terms() = vec![a.clone(), b.clone()];
    *tool() = cat(&["polyeq ", &kind]);
    crashes_are_violations(crash);
    let mut c = match kind.as_str() {
        "poly" => Polyeq::new().mod_reordering(true),
        "alpha" => Polyeq::new().mod_reordering(true).alpha_equiv(true),
        "exact" => Polyeq::new(),
        "nary" => Polyeq::new().mod_reordering(true).mod_nary(true),
        "nary0" => Polyeq::new().mod_nary(true),
        "concat" => Polyeq::new().mod_reordering(true).mod_string_concat(true),
        _ => cs::end("stuck", "comparison"),
    };
    let r = c.eq(&a, &b);
    crashes_over();
    if !r {
        if t.len() == 1 {
            consistent();
            emit_tool("false");
            cs::end("violation", "a term is not identified with itself");
        }
        cs::end("rejected", "");
    }
    cs::count("accepted");
    if t.len() == 1 { cs::end("ok", "") }
    let ms = j.num("ms", 5000) as u64;
    for full in [false, true] {
        let mut env = Env::new(full);
        env.bound = bound_of(terms());
        let e = values_equal(&mut env, &a, &b);
        let mut v = vec![cs::not(e)];
        v.extend(env.side.iter().copied());
        let q = cs::and(&v);
        match cs::check(q, ms) {
            0 => cs::end("ok", ""),
            1 => {
                if !full && env.opaque_seen { continue; }
                consistent();
                if cs::check(q, ms) == 0 { cs::end("ok", ""); }
                cs::smt_assume(q);
                emit_tool("true");
                let mut p = Printer::new();
                p.smt = true;
                p.bound = bound_of(terms());
                let e = print_equal(&mut p, &a, &b);
                emit_query(&cat(&["(assert (not ", &e, "))\n"]), &p);
                cs::end("violation", "different values");
            }
            _ => if full || !env.opaque_seen { cs::end("undecided", "") },
        }
    }
    cs::end("undecided", "")
}

/// the same term in a real pool
pub fn import(pool: &mut PrimitivePool, t: &Rc<Term>) -> Rc<Term> {
    let r = match &**t {
        Term::Const(c) => Term::Const(c.clone()),
        Term::Var(n, s) => { let s = import(pool, s); Term::Var(n.clone(), s) }
        Term::App(f, a) => { let f = import(pool, f); Term::App(f, import_all(pool, a)) }
        Term::Op(o, a) => Term::Op(*o, import_all(pool, a)),
        Term::ParamOp { op, op_args, args } => { let o = import_all(pool, op_args); Term::ParamOp { op: *op, op_args: o, args: import_all(pool, args) } }
        Term::Binder(b, l, t) => { let l = import_list(pool, l); let t = import(pool, t); Term::Binder(*b, l, t) }
        Term::Let(l, t) => { let l = import_list(pool, l); let t = import(pool, t); Term::Let(l, t) }
        Term::Sort(Sort::Function(v)) => Term::Sort(Sort::Function(import_all(pool, v))),
        Term::Sort(Sort::Array(x, y)) => { let x = import(pool, x); Term::Sort(Sort::Array(x, import(pool, y))) }
        Term::Sort(s) => Term::Sort(s.clone()),
    };
    let r = pool.add(r);
    std::mem::forget(r.clone());
    r
}
pub fn import_all(pool: &mut PrimitivePool, v: &[Rc<Term>]) -> Vec<Rc<Term>> {
    let mut r = vec![];
    for x in v { r.push(import(pool, x)); }
    r
}
fn import_list(pool: &mut PrimitivePool, l: &BindingList) -> BindingList {
    let mut r = vec![];
    for (n, t) in &l.0 { r.push((n.clone(), import(pool, t))); }
    BindingList(r)
}
fn eq_term(a: &Rc<Term>, b: &Rc<Term>) -> Rc<Term> { mk(Term::Op(Operator::Equals, vec![a.clone(), b.clone()])) }

/// the result of a substitution is, up to the names of bound variables, the term with the free
/// occurrences of the variables read as the terms they map to
fn subst_mode(j: &Job) -> ! {
    let mut pat = Pat::new(1);
    let t = pat.terms(j.text("t"));
    let m = pat.terms(j.text("m"));
    let mut pool = PrimitivePool::new();
    let t = import_all(&mut pool, &t);
    let m = import_all(&mut pool, &m);
    let mut all = t.clone();
    for k in 0..m.len() / 2 { all.push(eq_term(&m[2 * k], &m[2 * k + 1])); }
    *terms() = all;
    *tool() = "subst".to_string();
    crashes_are_violations(crash);
    let mut map = indexmap::IndexMap::new();
    for k in 0..m.len() / 2 { map.insert(m[2 * k].clone(), m[2 * k + 1].clone()); }
    let mut s = match Substitution::new(&mut pool, map) { Ok(s) => s, Err(_) => cs::end("rejected", "not a substitution") };
    let mut r = vec![];
    for x in &t { r.push(s.apply(&mut pool, x)); }
    crashes_over();
    cs::count("accepted");
    let mut same = vec![];
    for (x, y) in t.iter().zip(&r) {
        let mut env = Env::new(true);
        env.alpha = true;
        let mut sc = vec![];
        for k in 0..m.len() / 2 {
            if let Term::Var(n, so) = &*m[2 * k] { let h = enc(&mut env, &m[2 * k + 1]); sc.push((n.as_bytes().to_vec(), smt_sort(so), h)); }
        }
        env.scope = sc;
        let a = enc(&mut env, x);
        let mut env = Env::new(true);
        env.alpha = true;
        let b = enc(&mut env, y);
        same.push(cs::eq(a, b));
    }
    verdict(cs::not(cs::and(&same)), j, "different", "the result of the substitution is another term");
}
/// a claim whose negation is `q`
fn verdict(q: H, j: &Job, answer: &str, what: &str) -> ! {
    let ms = j.num("ms", 5000) as u64;
    match cs::check(q, ms) {
        0 => cs::end("ok", ""),
        1 => {
            consistent();
            if cs::check(q, ms) == 0 { cs::end("ok", ""); }
            cs::smt_assume(q);
            emit_tool(answer);
            cs::end("violation", what);
        }
        _ => cs::end("undecided", ""),
    }
}
type Occurrence = (Vec<u8>, String, H);
fn name_eq(a: &[u8], b: &[u8]) -> H {
    if a.len() != b.len() { return cs::ff(); }
    let mut v = vec![];
    for i in 0..a.len() { v.push(cs::of_bool(a[i] == b[i])); }
    cs::and(&v)
}
fn key(t: &Rc<Term>) -> (Vec<u8>, String) {
    match &**t { Term::Var(n, s) => (n.as_bytes().to_vec(), sort_key(s)), _ => cs::end("stuck", "not a variable") }
}
fn sort_key(s: &Rc<Term>) -> String {
    match &**s {
        Term::Sort(Sort::Function(v)) => { let mut r = String::from("->"); for x in v { r.push_str(&sort_key(x)); } r }
        _ => smt_sort(s),
    }
}
/// the occurrences of variables and when they are free
fn occurrences(t: &Rc<Term>, scope: &mut Vec<(Vec<u8>, String)>, out: &mut Vec<Occurrence>) {
    let m = scope.len();
    match &**t {
        Term::Const(_) | Term::Sort(_) => {}
        Term::Var(..) => {
            let (n, s) = key(t);
            let mut v = vec![];
            for (x, xs) in scope.iter() { if *xs == s { v.push(cs::not(name_eq(x, &n))); } }
            out.push((n, s, cs::and(&v)));
        }
        Term::App(f, a) => { occurrences(f, scope, out); for x in a { occurrences(x, scope, out); } }
        Term::Op(_, a) | Term::ParamOp { args: a, .. } => for x in a { occurrences(x, scope, out); },
        Term::Binder(_, l, b) => {
            for (n, s) in &l.0 { scope.push((n.as_bytes().to_vec(), sort_key(s))); }
            occurrences(b, scope, out);
        }
        Term::Let(l, b) => {
            for (_, v) in &l.0 { occurrences(v, scope, out); }
            for (n, v) in &l.0 { if let Some(s) = sort_of(v) { scope.push((n.as_bytes().to_vec(), sort_key(&s))); } }
            occurrences(b, scope, out);
        }
    }
    scope.truncate(m);
}
/// the free variables of a term are the variables that occur free in it
fn freevars_mode(j: &Job) -> ! {
    let mut pat = Pat::new(1);
    let t = pat.terms(j.text("t"));
    let mut pool = PrimitivePool::new();
    let t = import_all(&mut pool, &t);
    *terms() = t.clone();
    *tool() = "freevars".to_string();
    crashes_are_violations(crash);
    let mut sets = vec![];
    for x in &t { sets.push(pool.free_vars(x)); }
    crashes_over();
    cs::count("accepted");
    let mut bad = vec![];
    for (x, f) in t.iter().zip(&sets) {
        let mut o = vec![];
        occurrences(x, &mut vec![], &mut o);
        for e in f {
            let (n, s) = key(e);
            let mut v = vec![];
            for (a, b, c) in &o { if *b == s { v.push(cs::and(&[*c, name_eq(a, &n)])); } }
            bad.push(cs::not(cs::or(&v)));
        }
        for (a, b, c) in &o {
            let mut v = vec![];
            for e in f { let (n, s) = key(e); if s == *b { v.push(name_eq(a, &n)); } }
            bad.push(cs::and(&[*c, cs::not(cs::or(&v))]));
        }
    }
    verdict(cs::or(&bad), j, "different", "other free variables");
}

static mut TEXT: Vec<u8> = vec![];
fn hex(v: u8) -> char { (if v < 10 { b'0' + v } else { b'a' + v - 10 }) as char }
#[allow(static_mut_refs)]
fn emit_text(answer: &str) {
    let mut h = String::new();
    for b in unsafe { TEXT.iter() } { let b = cs::pick(*b as u64) as u8; h.push(hex(b >> 4)); h.push(hex(b & 15)); }
    cs::emit(&cat(&["%%problem\n%%proof\n(step t (cl) :rule hole)\n%%tool\nlex ", &h, "\n%%answer\n", answer, "\n"]));
}
fn text_crash() { emit_text("crash") }
/// the tokens of a text; `~a` any ASCII character, `~d` a digit, `~h` a hexadecimal digit, `~b` a bit, `~s` a character
/// of a symbol, `~n` a line break, `~l` a lower-case letter or `-`; `~o` and `~c` are braces, `~3~u` a letter of two bytes
#[allow(static_mut_refs)]
fn lex_mode(j: &Job) -> ! {
    let t = j.get("in").unwrap_or("").as_bytes().to_vec();
    let mut v = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i] != b'~' { v.push(t[i]); i += 1; continue; }
        if t[i + 1] == b'3' { v.push(0xc3); i += 2; continue; }
        if t[i + 1] == b'o' || t[i + 1] == b'c' { v.push(if t[i + 1] == b'o' { b'{' } else { b'}' }); i += 2; continue; }
        let f: fn(u8) -> bool = match t[i + 1] {
            b'a' => |c| c < 128,
            b'd' => |c| c >= b'0' && c <= b'9',
            b'b' => |c| c == b'0' || c == b'1',
            b'h' => |c| (c >= b'0' && c <= b'9') || (c >= b'a' && c <= b'f') || (c >= b'A' && c <= b'F'),
            b'l' => |c| (c >= b'a' && c <= b'z') || c == b'-',
            b's' => |c| (c >= b'0' && c <= b'9') || (c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') || b"+-/*=%?!.$_~&^<>@'".contains(&c),
            b'n' => |c| c == b'\n',
            b'u' => |c| c >= 0x80 && c < 0xc0,
            _ => |c| c == b'~',
        };
        let mut m = [0u64; 4];
        for c in 0..=255u8 { if f(c) { m[c as usize / 64] |= 1 << (c % 64); } }
        v.push(cs::byte_mask(&m));
        i += 2;
    }
    unsafe { TEXT = v.clone(); }
    crashes_are_violations(text_crash);
    let r = crate::lexer::lexer_wrong(&v);
    crashes_over();
    cs::count("decided");
    if let Some(e) = r {
        emit_text(&cat(&["wrong: ", e]));
        cs::end("violation", &cat(&["lexer: ", e]));
    }
    cs::count("accepted");
    cs::end("ok", "")
}

static mut TEXTS: [Vec<u8>; 2] = [vec![], vec![]];
static mut PRINT: &str = "";
#[allow(static_mut_refs)]
fn emit_print(answer: &str) {
    let mut s = [vec![], vec![]];
    for k in 0..2 { for b in unsafe { TEXTS[k].iter() } { s[k].push(cs::pick(*b as u64) as u8); } }
    let t = |k: usize| unsafe { String::from_utf8_unchecked(s[k].clone()) };
    cs::emit(&cat(&["%%problem\n", &t(0), "\n%%proof\n", &t(1), "\n%%tool\nprint ", unsafe { PRINT }, "\n%%answer\n", answer, "\n"]));
}
fn print_crash() { emit_print("crash") }
/// a problem and a proof with unknown characters, printed and read again: `~s1` is a character of a symbol (the same one
/// wherever it has this number), `~q` one of a quoted symbol, `~t` one of a string, `~d` a digit, `~l` a letter
#[allow(static_mut_refs)]
fn print_mode(j: &Job) -> ! {
    cs::opt("fmt", 1);
    let mut known: Vec<(u8, u8, u8)> = vec![];
    for (k, name) in ["problem", "proof"].iter().enumerate() {
        let t = j.text(name).as_bytes().to_vec();
        let mut v = vec![];
        let mut i = 0;
        while i < t.len() {
            if t[i] == b'%' { v.push(if t[i + 1] == b'o' { b'{' } else if t[i + 1] == b'c' { b'}' } else { b'\n' }); i += 2; continue; }
            if t[i] != b'~' { v.push(t[i]); i += 1; continue; }
            let (c, d) = (t[i + 1], t[i + 2]);
            i += 3;
            if let Some(x) = known.iter().find(|x| x.0 == c && x.1 == d) { v.push(x.2); continue; }
            let f: fn(u8) -> bool = match c {
                b'q' => |c| c >= b' ' && c < 127 && c != b'|' && c != b'\\',
                b't' => |c| c >= b' ' && c < 127 && c != b'"',
                b'd' => |c| c >= b'0' && c <= b'9',
                b'l' => |c| c >= b'a' && c <= b'z',
                _ => |c| (c >= b'0' && c <= b'9') || (c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') || b"+-/*=%?!.$_~&^<>@'".contains(&c),
            };
            let mut m = [0u64; 4];
            for c in 0..=255u8 { if f(c) { m[c as usize / 64] |= 1 << (c % 64); } }
            let b = cs::byte_mask(&m);
            known.push((c, d, b));
            v.push(b);
        }
        unsafe { TEXTS[k] = v; }
    }
    let (sharing, about) = (j.num("share", 0) == 1, j.num("about", 0) as u8);
    unsafe { PRINT = ["0 0", "0 1", "0 2", "0 3", "1 0", "1 1", "1 2", "1 3"][sharing as usize * 4 + about as usize]; }
    crashes_are_violations(print_crash);
    let r = crate::print::roundtrip(unsafe { &TEXTS[0] }, unsafe { &TEXTS[1] }, sharing, about);
    crashes_over();
    cs::count("decided");
    match r {
        crate::print::Outcome::Unreadable => cs::end("rejected", ""),
        crate::print::Outcome::Same => { cs::count("accepted"); cs::end("ok", "") }
        crate::print::Outcome::Wrong(e) => {
            emit_print(&cat(&["wrong: ", e]));
            cs::end("violation", &cat(&["print: ", e]))
        }
    }
}
