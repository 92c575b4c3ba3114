// What the elaboration of an accepted proof must satisfy; used symbolically by the harness and natively by the replay tool.
use carcara::ast::rare_rules::Rules;
use carcara::ast::*;
use carcara::checker::{Config, ProofChecker};
use carcara::elaborator::{self, Elaborator};

fn flat<'a>(cmds: &'a [ProofCommand], out: &mut Vec<&'a ProofCommand>) {
    for c in cmds {
        match c { ProofCommand::Subproof(s) => flat(&s.commands, out), _ => out.push(c) }
    }
}
fn unproved<'a>(cmds: &[&'a ProofCommand]) -> Vec<&'a ProofStep> {
    let mut v = vec![];
    for c in cmds { if let ProofCommand::Step(s) = c { if s.rule == "hole" || s.rule == "lia_generic" { v.push(s); } } }
    v
}
fn same_set(a: &[Rc<Term>], b: &[Rc<Term>]) -> bool { a.iter().all(|x| b.contains(x)) && b.iter().all(|x| a.contains(x)) }
/// names of commands that can be referred to at the same time must differ
fn clash(cmds: &[ProofCommand], visible: &mut Vec<String>) -> bool {
    let m = visible.len();
    for c in cmds {
        if let ProofCommand::Subproof(s) = c {
            // the step that ends it is named after it, and visible afterwards
            if clash(&s.commands, visible) { return true; }
        }
        let id = c.id().to_string();
        if visible.contains(&id) { return true; }
        visible.push(id);
    }
    visible.truncate(m);
    false
}
type Literal = (u32, Rc<Term>);
fn literals(clause: &[Rc<Term>]) -> Vec<Literal> {
    let mut v = vec![];
    for t in clause {
        let (n, t) = t.remove_all_negations();
        v.push((n, t.clone()));
    }
    v
}
fn dedup(v: &[Literal]) -> Vec<Literal> {
    let mut r: Vec<Literal> = vec![];
    for l in v { if !r.contains(l) { r.push(l.clone()); } }
    r
}
fn without(v: &[Literal], x: &Literal) -> Vec<Literal> { v.iter().filter(|y| *y != x).cloned().collect() }
fn chain(current: &[Literal], premises: &[Vec<Literal>], goal: &[Literal]) -> bool {
    if premises.is_empty() {
        if goal.is_empty() && current.len() == 1 && current[0].0 == 0 && current[0].1.is_bool_false() { return true; }
        if goal.len() == 1 && current.len() == 1 && goal[0].1 == current[0].1 && goal[0].0 % 2 == current[0].0 % 2 { return true; }
        return goal.iter().all(|x| current.contains(x)) && current.iter().all(|x| goal.contains(x));
    }
    for l in current {
        for m in &premises[0] {
            if (l.0 != m.0 + 1 && m.0 != l.0 + 1) || l.1 != m.1 { continue; }
            // what a premise contributes to the conclusion is not resolved away
            if goal.contains(l) || goal.contains(m) { continue; }
            if premises[0].iter().filter(|x| *x == m).count() != 1 { continue; }
            let mut next = without(current, l);
            for x in without(&premises[0], m) { if !next.contains(&x) { next.push(x); } }
            if chain(&next, &premises[1..], goal) { return true; }
        }
    }
    false
}
/// a resolution step without arguments resolves all of its premises, one after another, from the first or the last one
fn resolves(goal: &[Rc<Term>], premises: &[&ProofCommand]) -> bool {
    if goal.is_empty() && premises.len() == 1 { return true; }
    if premises.len() < 2 { return false; }
    let mut p: Vec<Vec<Literal>> = premises.iter().map(|c| literals(c.clause())).collect();
    for c in &p { for l in c { for m in c { if l.0 == m.0 + 1 && l.1 == m.1 { return false; } } } }
    let goal = dedup(&literals(goal));
    if chain(&dedup(&p[0]), &p[1..], &goal) { return true; }
    p.reverse();
    chain(&dedup(&p[0]), &p[1..], &goal)
}
/// the proofs that can be elaborated: resolution is resolution
pub fn can_be_elaborated<'a>(cmds: &'a [ProofCommand], levels: &mut Vec<&'a [ProofCommand]>) -> bool {
    levels.push(cmds);
    for c in cmds {
        let good = match c {
            ProofCommand::Subproof(s) => can_be_elaborated(&s.commands, levels),
            ProofCommand::Step(s) if (s.rule == "resolution" || s.rule == "th_resolution") && s.args.is_empty() => {
                let mut p: Vec<(usize, usize)> = vec![];
                for x in &s.premises { if !p.contains(x) { p.push(*x); } }
                let p: Vec<&ProofCommand> = p.iter().map(|(d, n)| &levels[*d][*n]).collect();
                (s.premises.len() == 1 || p.len() > 1) && resolves(&s.clause, &p)
            }
            _ => true,
        };
        if !good { return false; }
    }
    levels.pop();
    true
}
/// None if the elaboration of the (accepted) proof is good
pub fn elaboration_wrong(pool: &mut PrimitivePool, problem: &Problem, proof: &Proof, rotate: bool) -> Option<&'static str> {
    let config = elaborator::Config { lia_options: None, uncrowd_rotation: rotate, hole_options: None };
    let forest = ProofNodeForest::from_commands(proof.commands.clone());
    let forest = Elaborator::new(pool, problem, config).elaborate_with_default_pipeline(forest);
    let result = Proof { constant_definitions: vec![], commands: forest.into_commands() };
    let rules = Rules { rules: indexmap::IndexMap::new() };
    if ProofChecker::new(pool, &rules, Config::new().elaborated(true)).check(problem, &result).is_err() { return Some("elaborated proof is rejected"); }
    let (mut old, mut new) = (vec![], vec![]);
    flat(&proof.commands, &mut old);
    flat(&result.commands, &mut new);
    let holes = unproved(&old);
    for s in unproved(&new) {
        if !holes.iter().any(|h| h.rule == s.rule && same_set(&h.clause, &s.clause)) { return Some("elaboration leaves something out"); }
    }
    for c in &proof.commands {
        let clause = c.clause();
        if c.is_assume() { continue; }
        if !result.commands.iter().any(|d| same_set(clause, d.clause())) { return Some("a conclusion was lost"); }
    }
    if clash(&result.commands, &mut vec![]) { return Some("two commands have the same name"); }
    None
}
