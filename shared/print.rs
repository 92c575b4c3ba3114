// Printing a proof and reading it again must give the same proof; used symbolically by the harness and natively by the replay tool.
use carcara::ast::*;
use carcara::parser;

fn same_args(a: &[AnchorArg], b: &[AnchorArg]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| match (x, y) {
        (AnchorArg::Variable(x), AnchorArg::Variable(y)) => x == y,
        (AnchorArg::Assign(x, v), AnchorArg::Assign(y, w)) => x == y && v == w,
        _ => false,
    })
}
fn same(a: &[ProofCommand], b: &[ProofCommand]) -> Option<&'static str> {
    if a.len() != b.len() { return Some("another number of commands"); }
    for (x, y) in a.iter().zip(b) {
        match (x, y) {
            (ProofCommand::Assume { id: i, term: s }, ProofCommand::Assume { id: j, term: t }) => {
                if i != j { return Some("the name of an assumption changed"); }
                if s != t { return Some("an assumption changed"); }
            }
            (ProofCommand::Step(s), ProofCommand::Step(t)) => {
                if s.id != t.id { return Some("the name of a step changed"); }
                if s.rule != t.rule { return Some("the rule of a step changed"); }
                if s.clause != t.clause { return Some("the clause of a step changed"); }
                if s.premises != t.premises { return Some("the premises of a step changed"); }
                if s.discharge != t.discharge { return Some("what a step discharges changed"); }
                if s.args != t.args { return Some("the arguments of a step changed"); }
            }
            (ProofCommand::Subproof(s), ProofCommand::Subproof(t)) => {
                if !same_args(&s.args, &t.args) { return Some("an anchor changed"); }
                let r = same(&s.commands, &t.commands);
                if r.is_some() { return r; }
            }
            _ => return Some("another kind of command"),
        }
    }
    None
}
pub enum Outcome { Unreadable, Same, Wrong(&'static str) }
/// the number a term is written for: a constant, or one built from constants by a minus sign or a division
fn number(t: &Rc<Term>) -> Option<rug::Rational> {
    match t.as_ref() {
        Term::Const(Constant::Integer(i)) => Some(rug::Rational::from(i)),
        Term::Const(Constant::Real(r)) => Some(r.clone()),
        Term::Op(Operator::Sub, a) if a.len() == 1 => Some(-number(&a[0])?),
        Term::Op(Operator::RealDiv, a) if a.len() == 2 => {
            let (x, y) = (number(&a[0])?, number(&a[1])?);
            if y == 0 { None } else { Some(x / y) }
        }
        _ => None,
    }
}
/// SMT-LIB has no negative numerals and no fractions: they are written as applications
fn same_strict(pool: &mut PrimitivePool, a: &Rc<Term>, b: &Rc<Term>) -> bool {
    if a == b { return true; }
    if let (Some(x), Some(y)) = (number(a), number(b)) { return x == y && pool.sort(a) == pool.sort(b); }
    let all = |pool: &mut PrimitivePool, x: &[Rc<Term>], y: &[Rc<Term>]| x.len() == y.len() && x.iter().zip(y).all(|(s, t)| same_strict(pool, s, t));
    match (a.as_ref(), b.as_ref()) {
        (Term::App(f, x), Term::App(g, y)) => f == g && all(pool, x, y),
        (Term::Op(f, x), Term::Op(g, y)) => f == g && all(pool, x, y),
        (Term::ParamOp { op: f, op_args: i, args: x }, Term::ParamOp { op: g, op_args: j, args: y }) => f == g && i == j && all(pool, x, y),
        (Term::Binder(f, x, s), Term::Binder(g, y, t)) => f == g && x == y && same_strict(pool, s, t),
        (Term::Let(x, s), Term::Let(y, t)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| v.0 == w.0 && same_strict(pool, &v.1, &w.1)) && same_strict(pool, s, t),
        _ => false,
    }
}
fn read(problem: &[u8], proof: &[u8]) -> Option<(Problem, Proof, PrimitivePool)> {
    let config = parser::Config { parse_hole_args: true, ..parser::Config::new() };
    parser::parse_instance(problem, proof, None, config).ok().map(|(p, a, _, pool)| (p, a, pool))
}
fn reread(problem: &[u8], proof: &[u8], pool: &mut PrimitivePool) -> Option<(Problem, Proof)> {
    let config = parser::Config { parse_hole_args: true, ..parser::Config::new() };
    parser::parse_instance_with_pool(problem, proof, None, config, pool).ok().map(|(p, a, _)| (p, a))
}
/// the asserts of the problem that was printed, compared with the terms it was printed for
fn same_asserts(text: &[u8], expected: &[Rc<Term>], pool: &mut PrimitivePool) -> Outcome {
    #[cfg(not(carcara_sym))]
    eprintln!("{}", String::from_utf8_lossy(text));
    let Some((p, _)) = reread(text, b"(step z (cl) :rule hole)", pool) else { return Outcome::Wrong("what was printed cannot be read") };
    if p.premises.len() != expected.len() { return Outcome::Wrong("another number of assertions"); }
    if p.premises.iter().zip(expected).all(|(a, b)| same_strict(pool, a, b)) { Outcome::Same } else { Outcome::Wrong("an assertion changed") }
}
/// what is printed: 0 a proof, 1 also the problem's declarations, 2 the problem's assertions, 3 the problems for `lia_generic` steps
pub fn roundtrip(problem: &[u8], proof: &[u8], sharing: bool, about: u8) -> Outcome {
    let Some((p, a, mut pool)) = read(problem, proof) else { return Outcome::Unreadable };
    if about == 2 {
        let asserts: Vec<_> = p.premises.iter().cloned().collect();
        let mut out = p.prelude.to_string().into_bytes();
        if carcara::ast::write_asserts(&mut pool, &p.prelude, &mut out, &asserts, sharing).is_err() { return Outcome::Wrong("the problem was not printed"); }
        return same_asserts(&out, &asserts, &mut pool);
    }
    if about == 3 {
        let config = parser::Config { parse_hole_args: true, ..parser::Config::new() };
        let Ok(texts) = carcara::generate_lia_smt_instances(problem, proof, None, config, sharing) else { return Outcome::Wrong("no problems for the steps") };
        let steps: Vec<_> = a.commands.iter().filter_map(|c| match c { ProofCommand::Step(s) if s.rule == "lia_generic" => Some(s), _ => None }).collect();
        if texts.len() != steps.len() { return Outcome::Wrong("another number of problems"); }
        for (s, (id, text)) in steps.iter().zip(&texts) {
            if *id != s.id { return Outcome::Wrong("the problem of another step"); }
            let mut expected: Vec<Rc<Term>> = vec![];
            for l in &s.clause {
                let n = pool.add(Term::Op(Operator::Not, vec![l.clone()]));
                if !expected.contains(&n) { expected.push(n); }
            }
            match same_asserts(text.as_bytes(), &expected, &mut pool) { Outcome::Same => {} o => return o }
        }
        return Outcome::Same;
    }
    let mut out: Vec<u8> = vec![];
    if carcara::ast::write_proof_to_dest(&mut pool, &p.prelude, &a, &mut out, sharing).is_err() { return Outcome::Wrong("the proof was not printed"); }
    let prelude = if about == 1 { p.prelude.to_string() } else { String::new() };
    let header: &[u8] = if about == 1 { prelude.as_bytes() } else { problem };
    #[cfg(not(carcara_sym))]
    eprintln!("{prelude}{}", String::from_utf8_lossy(&out));
    let Some((_, b)) = reread(header, &out, &mut pool) else { return Outcome::Wrong("what was printed cannot be read") };
    if a.constant_definitions != b.constant_definitions { return Outcome::Wrong("a definition changed"); }
    match same(&a.commands, &b.commands) { None => Outcome::Same, Some(e) => Outcome::Wrong(e) }
}
