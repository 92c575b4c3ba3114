//! One checker rule on one step of a given shape.
use crate::cs::{self, H};
use crate::enc::*;
use crate::lazy::*;
use crate::pat::*;
use crate::pool::*;
use crate::{parse_num, vocab, Job};
use carcara::ast::rare_rules::Rules;
use carcara::ast::*;
use carcara::checker::sym_door::{run_rule, Step};

extern "C" fn on_panic(p: *const u8, n: usize) {
    let m = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
    cs::note(&cat(&["panic: ", m]));
    let c = g().crash;
    if c != 0 {
        // where a verdict is wanted, dying is a violation
        let (s, rule, flags) = unsafe { &*(c as *const (&Shape, &str, &str)) };
        g().crash = 0;
        consistent();
        emit(rule, s, flags, "crash");
        cs::end("violation", &cat(&["crash: ", m]));
    }
    cs::end("crash", m)
}

/// what a crash stands for in modes other than rules: prints the input and the expectation
pub static mut ON_CRASH: Option<fn()> = None;
#[allow(static_mut_refs)]
extern "C" fn on_panic_mode(p: *const u8, n: usize) {
    let m = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
    cs::note(&cat(&["panic: ", m]));
    if let Some(f) = unsafe { ON_CRASH.take() } {
        consistent();
        f();
        cs::end("violation", &cat(&["crash: ", m]));
    }
    cs::end("crash", m)
}
pub fn crashes_are_violations(f: fn()) {
    unsafe { ON_CRASH = Some(f) }
    cs::panic_handler(on_panic_mode);
}
pub fn crashes_over() { unsafe { ON_CRASH = None } }

pub struct Shape {
    pub conclusion: Vec<Rc<Term>>,
    pub premises: Vec<Vec<Rc<Term>>>,
    pub args: Vec<Rc<Term>>,
    pub ctx: Vec<Vec<AnchorArg>>,
    /// the last step of the subproof this step closes
    pub prev: Option<Vec<Rc<Term>>>,
    pub discharge: Vec<ProofCommand>,
}
pub fn int_const(n: i64) -> Rc<Term> { mk(Term::Const(Constant::Integer(n.into()))) }

pub fn lens(s: &str) -> Vec<usize> {
    let mut v = vec![];
    for x in s.split(',') { if !x.is_empty() { v.push(parse_num(x)); } }
    v
}
pub fn literals(n: usize, d: u8) -> Vec<Rc<Term>> {
    let mut v = vec![];
    for _ in 0..n { v.push(new_term(0, d)); }
    v
}
pub fn shape(j: &Job) -> Shape {
    let d = j.num("d", 3) as u8;
    let pd = j.num("pd", d as usize) as u8;
    let mut pat = Pat::new(d);
    let ctx = pat.context(j.text("ctx"));
    pat.depth = pd;
    let mut premises = pat.clauses(j.text("prem"));
    for l in lens(j.text("p")) { premises.push(literals(l, pd)); }
    let prev = j.get("prev").map(|p| pat.terms(p));
    let dis = pat.terms(j.text("dis"));
    let mut discharge = vec![];
    for t in dis { discharge.push(ProofCommand::Assume { id: "t.h".to_string(), term: t }); }
    pat.depth = d;
    let conclusion = match j.get("concl") { Some(c) => pat.terms(c), None => literals(j.num("n", 1), d) };
    let mut args = pat.terms(j.text("argp"));
    for a in j.text("args").split(',') {
        match a {
            "" => {}
            // a small index
            "i" => args.push(int_const(cs::choice(j.num("imax", 4)) as i64)),
            // any Boolean term
            "b" => args.push(new_term(0, d)),
            _ => cs::end("stuck", "argument kind"),
        }
    }
    Shape { conclusion, premises, args, ctx, prev, discharge }
}
/// enters contexts: assigned variables stand for their values
fn enter(env: &mut Env, ctx: &[Vec<AnchorArg>], vars: &[Vec<(Vec<u8>, String, H)>]) {
    for (k, c) in ctx.iter().enumerate() {
        let mut i = 0;
        for a in c {
            match a {
                AnchorArg::Variable(_) => { env.scope.push(vars[k][i].clone()); i += 1; }
                AnchorArg::Assign((n, s), t) => {
                    let v = enc(env, t);
                    env.scope.push((n.as_bytes().to_vec(), smt_sort(s), v));
                }
            }
        }
    }
}
fn side_eq(env: &mut Env, c: &[Rc<Term>], ctx: &[Vec<AnchorArg>], vars: &[Vec<(Vec<u8>, String, H)>]) -> H {
    let m = env.scope.len();
    enter(env, ctx, vars);
    let r = clause(env, c);
    env.scope.truncate(m);
    r
}
/// the last step of a subproof as a clause: it may rely on the assumptions that are discharged
fn under_assumptions(s: &Shape, prev: &[Rc<Term>]) -> Vec<Rc<Term>> {
    let mut v = vec![];
    for d in &s.discharge { if let ProofCommand::Assume { term, .. } = d { v.push(mk(Term::Op(Operator::Not, vec![term.clone()]))); } }
    for t in prev { v.push(t.clone()); }
    v
}
pub fn query(env: &mut Env, s: &Shape) -> H {
    let mut v = vec![];
    let closing = s.prev.is_some() && !s.ctx.is_empty();
    let outer = if closing { &s.ctx[..s.ctx.len() - 1] } else { &s.ctx[..] };
    // variables of the outer contexts are arbitrary values
    let mut vars = vec![];
    let mut nv = 0;
    for c in outer {
        let mut r = vec![];
        for a in c {
            if let AnchorArg::Variable((n, t)) = a {
                let so = smt_sort(t);
                let h = cs::var(&cat(&["cv", &cs::num(nv)]), &so);
                nv += 1;
                r.push((n.as_bytes().to_vec(), so, h));
            }
        }
        vars.push(r);
    }
    for p in &s.premises { let h = side_eq(env, p, outer, &vars); v.push(h); }
    let c = side_eq(env, &s.conclusion, outer, &vars);
    v.push(cs::not(c));
    if let Some(prev) = &s.prev {
        // what the subproof has shown: for every value of the variables it introduces
        let mut decl = String::from("(");
        let mut r = vec![];
        if closing {
            for a in s.ctx.last().unwrap() {
                if let AnchorArg::Variable((n, t)) = a {
                    let so = smt_sort(t);
                    let k = env.fresh;
                    env.fresh += 1;
                    let x = cat(&["?b", &cs::num(k as u64)]);
                    decl.push_str(&cat(&["(", &x, " ", &so, ")"]));
                    r.push((n.as_bytes().to_vec(), so.clone(), cs::lit(&x, &so)));
                }
            }
        }
        decl.push(')');
        let any = !r.is_empty();
        vars.push(r);
        if any { env.under += 1; }
        let prev = under_assumptions(s, prev);
        let mut h = side_eq(env, &prev, &s.ctx, &vars);
        if any { env.under -= 1; }
        if any { h = cs::app(&cat(&["forall ", &decl]), &[h], cs::B); }
        v.push(h);
    }
    v.extend(env.side.iter().copied());
    cs::and(&v)
}
pub fn print_clause(p: &mut Printer, c: &[Rc<Term>]) -> String {
    let mut s = String::from("(cl");
    for t in c { s.push(' '); s.push_str(&p.text(t)); }
    s.push(')');
    s
}
fn print_or(p: &mut Printer, c: &[Rc<Term>]) -> String {
    let mut s = String::from("(or false");
    for t in c { s.push(' '); s.push_str(&p.text(t)); }
    s.push(')');
    s
}
pub fn print_args(p: &mut Printer, c: &[AnchorArg]) -> String {
    let mut s = String::new();
    let m = p.scope.len();
    for a in c {
        match a {
            AnchorArg::Variable((n, t)) => {
                let n = Printer::name(n.as_bytes());
                let t = smt_sort(t);
                p.sort_decl(&t);
                s.push_str(&cat(&[" (", &n, " ", &t, ")"]));
                p.scope.push(n);
            }
            AnchorArg::Assign((n, t), v) => {
                let n = Printer::name(n.as_bytes());
                let t = smt_sort(t);
                p.sort_decl(&t);
                let v = p.text(v);
                s.push_str(&cat(&[" (:= (", &n, " ", &t, ") ", &v, ")"]));
                p.scope.push(n);
            }
        }
    }
    let _ = m;
    s
}
/// substitution by nested lets, for the solver
fn print_side(p: &mut Printer, c: &[Rc<Term>], ctx: &[Vec<AnchorArg>]) -> String {
    let mut s = String::new();
    let mut close = String::new();
    let m = p.scope.len();
    for c in ctx {
        for a in c {
            match a {
                AnchorArg::Variable((n, _)) => p.scope.push(Printer::name(n.as_bytes())),
                AnchorArg::Assign((n, _), v) => {
                    let v = p.text(v);
                    let n = Printer::name(n.as_bytes());
                    s.push_str(&cat(&["(let ((", &n, " ", &v, ")) "]));
                    close.push(')');
                    p.scope.push(n);
                }
            }
        }
    }
    let t = print_or(p, c);
    p.scope.truncate(m);
    cat(&[&s, &t, &close])
}
/// the step as a problem, a proof and a query that is satisfiable if the step is wrong
pub fn emit(rule: &str, s: &Shape, flags: &str, expect: &str) {
    let bound = bound_names(s);
    let mut p = Printer::new();
    p.bound = bound.clone();
    let closing = s.prev.is_some();
    let nctx = s.ctx.len();
    let mut proof = String::new();
    let mut ids = String::new();
    let (outer, last): (&[Vec<AnchorArg>], &[AnchorArg]) = if closing && nctx > 0 { (&s.ctx[..nctx - 1], &s.ctx[nctx - 1]) } else { (&s.ctx[..], &[]) };
    // steps inside contexts need enclosing subproofs
    for (k, c) in outer.iter().enumerate() {
        let a = print_args(&mut p, c);
        proof.push_str(&cat(&["(anchor :step o", &cs::num(k as u64), " :args (", &a, "))\n"]));
    }
    for (i, c) in s.premises.iter().enumerate() {
        let t = print_clause(&mut p, c);
        proof.push_str(&cat(&["(step p", &cs::num(i as u64), " ", &t, " :rule hole)\n"]));
        ids.push_str(&cat(&[" p", &cs::num(i as u64)]));
    }
    let mut dis = String::new();
    if let Some(prev) = &s.prev {
        let m = p.scope.len();
        let a = print_args(&mut p, last);
        if last.is_empty() { proof.push_str("(anchor :step t)\n"); } else { proof.push_str(&cat(&["(anchor :step t :args (", &a, "))\n"])); }
        for (i, d) in s.discharge.iter().enumerate() {
            if let ProofCommand::Assume { term, .. } = d {
                let t = p.text(term);
                proof.push_str(&cat(&["(assume t.h", &cs::num(i as u64), " ", &t, ")\n"]));
                dis.push_str(&cat(&[" t.h", &cs::num(i as u64)]));
            }
        }
        let t = print_clause(&mut p, prev);
        proof.push_str(&cat(&["(step t.p ", &t, " :rule hole)\n"]));
        p.scope.truncate(m);
    }
    let t = print_clause(&mut p, &s.conclusion);
    proof.push_str(&cat(&["(step t ", &t, " :rule ", rule]));
    if !s.premises.is_empty() { proof.push_str(&cat(&[" :premises (", &ids[1..], ")"])); }
    if !dis.is_empty() { proof.push_str(&cat(&[" :discharge (", &dis[1..], ")"])); }
    if !s.args.is_empty() {
        let mut a = String::new();
        for x in &s.args { a.push(' '); a.push_str(&p.text(x)); }
        proof.push_str(&cat(&[" :args (", &a[1..], ")"]));
    }
    proof.push_str(")\n");
    for k in (0..outer.len()).rev() { proof.push_str(&cat(&["(step o", &cs::num(k as u64), " (cl (= true true)) :rule hole)\n"])); }
    proof.push_str("(step end (cl) :rule hole)\n");
    let decls = p.declarations();
    cs::emit(&cat(&["%%problem\n", &decls, "%%proof\n", &proof]));
    if !flags.is_empty() { cs::emit(&cat(&["%%flags\n", flags, "\n"])); }
    if !expect.is_empty() { cs::emit(&cat(&["%%expect\n", expect, "\n"])); return; }
    cs::emit("%%query\n");
    let mut q = Printer::new();
    q.smt = true;
    q.bound = bound;
    let mut text = String::new();
    for c in &s.premises { let t = print_side(&mut q, c, outer); text.push_str(&cat(&["(assert ", &t, ")\n"])); }
    if let Some(prev) = &s.prev {
        let m = q.scope.len();
        let mut decl = String::new();
        for a in last { if let AnchorArg::Variable((n, t)) = a {
            let n = Printer::name(n.as_bytes());
            let t = smt_sort(t);
            q.sort_decl(&t);
            decl.push_str(&cat(&["(", &n, " ", &t, ")"]));
            q.scope.push(n);
        } }
        let prev = under_assumptions(s, prev);
        let h = print_side(&mut q, &prev, &s.ctx);
        q.scope.truncate(m);
        let mut t = String::from("(assert ");
        if decl.is_empty() { t.push_str(&cat(&[&h, ")\n"])); } else { t.push_str(&cat(&["(forall (", &decl, ") ", &h, "))\n"])); }
        text.push_str(&t);
    }
    let t = print_side(&mut q, &s.conclusion, outer);
    text.push_str(&cat(&["(assert (not ", &t, "))\n"]));
    cs::emit(&q.declarations());
    cs::emit(&q.asserts);
    cs::emit(&text);
}
pub fn bound_names(s: &Shape) -> Vec<(Vec<u8>, String)> {
    let mut out = vec![];
    for c in &s.ctx { for a in c {
        match a {
            AnchorArg::Variable((n, t)) => out.push((n.as_bytes().to_vec(), smt_sort(t))),
            AnchorArg::Assign((n, t), v) => { out.push((n.as_bytes().to_vec(), smt_sort(t))); collect_bound(v, &mut out); }
        }
    } }
    for c in s.premises.iter() { for t in c { collect_bound(t, &mut out); } }
    if let Some(p) = &s.prev { for t in p { collect_bound(t, &mut out); } }
    for t in &s.conclusion { collect_bound(t, &mut out); }
    for t in &s.args { collect_bound(t, &mut out); }
    let mut r: Vec<(Vec<u8>, String)> = vec![];
    for (n, t) in out {
        // the same symbolic name twice adds nothing
        if !r.iter().any(|x| x.1 == t && same_name(&x.0, &n)) { r.push((n, t)); }
    }
    r
}
pub fn same_name(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    for i in 0..a.len() { if cs::of(a[i] as u64, 8) != cs::of(b[i] as u64, 8) { return false; } }
    true
}
/// an accepted step must be a consequence of its premises
pub fn judge(rule: &str, s: &Shape, ms: u64, flags: &str) -> ! {
    cs::count("accepted");
    for full in [false, true] {
        let mut env = Env::new(full);
        env.bound = bound_names(s);
        let q = query(&mut env, s);
        match cs::check(q, ms) {
            0 => cs::end("ok", ""),
            1 => {
                if !full && env.opaque_seen { continue; }
                consistent();
                if cs::check(q, ms) == 0 { cs::end("ok", ""); }
                cs::smt_assume(q);
                emit(rule, s, flags, "");
                cs::end("violation", rule);
            }
            _ => if full || !env.opaque_seen { cs::end("undecided", "") },
        }
    }
    cs::end("undecided", "")
}
pub fn run(j: &Job) -> ! {
    cs::panic_handler(on_panic);
    vocab::setup(j);
    let rule = j.text("rule").to_string();
    if j.num("fmt", 0) == 1 { cs::opt("fmt", 1); }
    g().zo = j.num("zo", 0) == 1;
    g().pbc = j.num("pbc", 0) == 1;
    g().near = j.num("near", 0) == 1;
    let s = shape(j);
    let mut pool = SymPool;
    let mut context = ContextStack::new();
    for c in &s.ctx { context.push(c); }
    let rules = Rules { rules: indexmap::IndexMap::new() };
    let mut prem: Vec<(&str, &[Rc<Term>])> = vec![];
    for p in &s.premises { prem.push(("p", p.as_slice())); }
    let mut dis: Vec<&ProofCommand> = vec![];
    for d in &s.discharge { dis.push(d); }
    let step = Step { rule: &rule, elaborated: j.num("elab", 0) == 1, conclusion: &s.conclusion, premises: &prem, args: &s.args, previous_command: s.prev.as_ref().map(|p| ("t.p", p.as_slice())), discharge: &dis };
    let flags = if j.num("elab", 0) == 1 { "--check-granularity elaborated" } else { "" };
    let want = j.num("accept", 0) == 1;
    let nocrash = j.num("crash", 0) == 1;
    let at = (&s, rule.as_str(), flags);
    if want || nocrash { g().crash = &at as *const (&Shape, &str, &str) as usize; }
    let r = run_rule(&step, &mut pool, &mut context, &rules);
    g().crash = 0;
    match r {
        None => cs::end("norule", &rule),
        Some(Err(_)) if want => {
            consistent();
            emit(&rule, &s, flags, "accept");
            cs::end("violation", &cat(&["correct step rejected: ", &rule]));
        }
        Some(Err(_)) => cs::end("rejected", ""),
        Some(_) if nocrash => { cs::count("decided"); cs::end("ok", "") }
        Some(Ok(())) if want => { cs::count("accepted"); cs::end("ok", "") }
        Some(Ok(())) => judge(&rule, &s, j.num("ms", 5000) as u64, flags),
    }
}
