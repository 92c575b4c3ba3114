// What a slice of a proof must satisfy; used symbolically by the harness and natively by the replay tool.
use carcara::ast::rare_rules::Rules;
use carcara::ast::*;
use carcara::checker::{Config, ProofChecker};
use carcara::slice::slice;

struct Entry<'a> {
    cmd: &'a ProofCommand,
    premises: Vec<&'a ProofCommand>,
    discharge: Vec<&'a ProofCommand>,
    anchors: Vec<&'a [AnchorArg]>,
    end_of: Option<&'a ProofCommand>,
}
fn walk<'a>(cmds: &'a [ProofCommand], levels: &mut Vec<(&'a [ProofCommand], usize)>, anchors: &mut Vec<&'a [AnchorArg]>, out: &mut Vec<Entry<'a>>) -> bool {
    for (i, c) in cmds.iter().enumerate() {
        levels.push((cmds, i));
        if let ProofCommand::Subproof(s) = c {
            anchors.push(&s.args);
            if s.commands.is_empty() || !walk(&s.commands, levels, anchors, out) { return false; }
            anchors.pop();
        } else {
            let mut e = Entry { cmd: c, premises: vec![], discharge: vec![], anchors: anchors.clone(), end_of: None };
            if let ProofCommand::Step(s) = c {
                for (k, (d, n)) in s.premises.iter().chain(&s.discharge).enumerate() {
                    if *d >= levels.len() || *n >= levels[*d].1 { return false; }
                    let x = &levels[*d].0[*n];
                    if k < s.premises.len() { e.premises.push(x) } else { e.discharge.push(x) }
                }
                if levels.len() > 1 && i + 1 == cmds.len() && i > 0 { e.end_of = Some(&cmds[i - 1]); }
            }
            out.push(e);
        }
        levels.pop();
    }
    true
}
fn entries(p: &Proof) -> Option<Vec<Entry<'_>>> {
    let mut out = vec![];
    if walk(&p.commands, &mut vec![], &mut vec![], &mut out) { Some(out) } else { None }
}
fn find<'b, 'a>(v: &'b [Entry<'a>], id: &str) -> Option<&'b Entry<'a>> { v.iter().find(|e| e.cmd.id() == id) }
fn same_commands(a: &[&ProofCommand], b: &[&ProofCommand]) -> bool {
    if a.len() != b.len() { return false; }
    for (x, y) in a.iter().zip(b) { if x.id() != y.id() || x.clause() != y.clause() { return false; } }
    true
}
fn same_step(a: &Entry, b: &Entry) -> bool {
    match (a.cmd, b.cmd) {
        (ProofCommand::Assume { term: x, .. }, ProofCommand::Assume { term: y, .. }) => x == y,
        (ProofCommand::Step(x), ProofCommand::Step(y)) => x.clause == y.clause && x.rule == y.rule && x.args == y.args && same_commands(&a.premises, &b.premises) && same_commands(&a.discharge, &b.discharge),
        _ => false,
    }
}
/// None if the slice of the command is good
pub fn slice_wrong(pool: &mut PrimitivePool, proof: &Proof, id: &str, distance: usize) -> Option<&'static str> {
    let whole = entries(proof).unwrap();
    let target = whole.iter().position(|e| e.cmd.id() == id).unwrap();
    let sliced = slice(proof, id, pool, distance);
    if whole[target].cmd.is_assume() { return if sliced.is_some() { Some("a slice of an assumption") } else { None }; }
    let (part, asserts) = match sliced { Some(x) => x, None => return Some("no slice") };
    let new = match entries(&part) { Some(x) => x, None => return Some("a premise that is not there before the step") };
    // how far away the commands are
    let mut dist = vec![usize::MAX; whole.len()];
    dist[target] = 0;
    let mut todo = vec![target];
    while !todo.is_empty() {
        let mut next = vec![];
        for k in todo {
            let e = &whole[k];
            for x in e.premises.iter().chain(&e.discharge).chain(&e.end_of) {
                let m = whole.iter().position(|y| y.cmd.id() == x.id()).unwrap();
                if dist[m] == usize::MAX { dist[m] = dist[k] + 1; next.push(m); }
            }
        }
        todo = next;
    }
    for (k, e) in whole.iter().enumerate() {
        if dist[k] == usize::MAX { continue; }
        let here = find(&new, e.cmd.id());
        if k == target {
            let t = match here { Some(t) => t, None => return Some("the step is not there") };
            if !same_step(e, t) { return Some("the step is another one"); }
            if t.anchors.len() != e.anchors.len() { return Some("the step is not in its subproof"); }
            for (a, b) in t.anchors.iter().zip(&e.anchors) { if a != b { return Some("the step is in another context"); } }
        }
        // what is near keeps its justification, and its premises are there
        if dist[k] <= distance {
            match here {
                None => return Some("a premise is not there"),
                Some(t) => if !same_step(e, t) { return Some("a premise has lost its justification"); },
            }
        }
    }
    for (k, e) in new.iter().enumerate() {
        if k + 1 == new.len() {
            if e.cmd.id() != "slice_end" || !e.cmd.clause().is_empty() || !e.anchors.is_empty() { return Some("the slice does not end as it should"); }
            continue;
        }
        let old = match find(&whole, e.cmd.id()) { Some(x) => x, None => return Some("a command that was not in the proof") };
        if old.cmd.clause() != e.cmd.clause() { return Some("a command with another clause"); }
        for x in &new[..k] { if x.cmd.id() == e.cmd.id() { return Some("a command that is there twice"); } }
        match e.cmd {
            ProofCommand::Assume { .. } => {
                if !same_step(old, e) || old.anchors.len() != e.anchors.len() { return Some("another assumption"); }
                if e.anchors.is_empty() && !asserts.contains(&e.cmd.clause()[0]) { return Some("an assumption that is not asserted"); }
            }
            ProofCommand::Step(s) => if s.rule != "hole" && !same_step(old, e) { return Some("a step with other premises"); },
            ProofCommand::Subproof(_) => {}
        }
    }
    for t in &asserts { if !whole.iter().any(|e| e.anchors.is_empty() && e.cmd.is_assume() && e.cmd.clause()[0] == *t) { return Some("an assertion that was not assumed"); } }
    let mut problem = Problem::new();
    for t in asserts { problem.premises.insert(t); }
    let rules = Rules { rules: Default::default() };
    match ProofChecker::new(pool, &rules, Config::new()).check(&problem, &part) {
        Ok(true) => None,
        Ok(false) => Some("the slice is not holey"),
        Err(_) => Some("the slice is not accepted"),
    }
}
