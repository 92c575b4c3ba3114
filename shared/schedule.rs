// What the schedules of a proof must satisfy; used symbolically by the harness and natively by the replay tool.
use carcara::ast::{Proof, ProofCommand};
use carcara::checker::Scheduler;

/// every command with the indices that lead to it
fn paths<'a>(cmds: &'a [ProofCommand], at: &mut Vec<usize>, out: &mut Vec<(&'a ProofCommand, Vec<usize>)>) {
    for (i, c) in cmds.iter().enumerate() {
        at.push(i);
        out.push((c, at.clone()));
        if let ProofCommand::Subproof(s) = c { paths(&s.commands, at, out); }
        at.pop();
    }
}
fn same(a: &ProofCommand, b: &ProofCommand) -> bool { std::ptr::eq(a, b) }
fn level<'a>(proof: &'a Proof, path: &[usize], d: usize) -> &'a [ProofCommand] {
    let mut l: &[ProofCommand] = &proof.commands;
    for i in &path[..d] { if let ProofCommand::Subproof(s) = &l[*i] { l = &s.commands; } }
    l
}
/// None if the schedules are good
pub fn schedules_wrong(n: usize, proof: &Proof) -> Option<&'static str> {
    let (scheduler, usage) = Scheduler::new(n, proof);
    let mut all = vec![];
    paths(&proof.commands, &mut vec![], &mut all);
    let mut visits = vec![0usize; all.len()];
    if scheduler.loads.len() != n { return Some("number of schedules"); }
    for load in &scheduler.loads {
        let mut iter = load.iter(&proof.commands);
        let mut before: Vec<usize> = vec![];
        while let Some(c) = iter.next() {
            let k = match all.iter().position(|x| same(x.0, c)) { Some(k) => k, None => return Some("a command that is not in the proof") };
            let path = &all[k].1;
            visits[k] += 1;
            // commands come in the order of the proof
            if !before.is_empty() && *path <= before { return Some("commands out of order"); }
            before = path.clone();
            let d = path.len() - 1;
            let open = match c { ProofCommand::Subproof(_) => 1, _ => 0 };
            if iter.depth() != d + open { return Some("a command in the wrong depth"); }
            if iter.is_in_subproof() != (d + open > 0) { return Some("a command inside or outside of a subproof"); }
            if open == 1 { continue; }
            // what it can refer to
            for e in 0..d + 1 {
                let l = level(proof, path, e);
                for i in 0..path[e] + 1 { if !same(iter.get_premise((e, i)), &l[i]) { return Some("a premise of another scope"); } }
            }
            match iter.current_subproof() {
                None => if d > 0 { return Some("no current subproof"); },
                Some(s) => if d == 0 || !std::ptr::eq(s.as_ptr(), level(proof, path, d).as_ptr()) { return Some("another subproof"); },
            }
            if iter.is_end_step() != (d > 0 && path[d] + 1 == level(proof, path, d).len()) { return Some("the end of a subproof"); }
        }
    }
    let mut subproofs = 0;
    for (k, (c, _)) in all.iter().enumerate() {
        match c {
            ProofCommand::Subproof(s) => {
                subproofs += 1;
                if s.context_id >= usage.len() || usage[s.context_id] != visits[k] { return Some("how many schedules use a context"); }
            }
            _ => if visits[k] == 0 { return Some("a command that no schedule contains"); },
        }
    }
    if usage.len() != subproofs { return Some("number of contexts"); }
    None
}
