//! Whole proofs: the check loop and the parallel scheduler.
use crate::cs;
use crate::enc::*;
use crate::lazy::*;
use crate::modes::{import, import_all};
use crate::pat::*;
use crate::rules::*;
use crate::Job;
use carcara::ast::rare_rules::Rules;
use carcara::ast::*;
use carcara::checker::sym_door::*;
use carcara::benchmarking::{CollectResults, OnlineBenchmarkResults};
use carcara::checker::{CheckerStatistics, Config, ProofChecker};

/// A proof under test, with what is needed to print it
pub struct Case {
    pub problem: Problem,
    pub proof: Proof,
    pub elaborated: bool,
    pub ignore: bool,
    pub allowed: Vec<String>,
    pub stats: bool,
    pub flags: String,
}
static mut CASE: Option<Case> = None;
#[allow(static_mut_refs)]
pub fn case() -> &'static mut Case { unsafe { CASE.as_mut().unwrap() } }

struct Level { cmds: Vec<ProofCommand>, args: Vec<AnchorArg>, id: String, context: usize }
fn words(s: &str) -> Vec<&str> {
    let mut v = vec![];
    for w in s.split(' ') { if !w.is_empty() { v.push(w); } }
    v
}
/// `a T` assumes; `s rules premises[d|D] literals…` is a step, the last one of a subproof ends it;
/// `[ context` opens a subproof and `]` closes it. A step's rule is any of those given, its premises are any of the
/// commands in scope; with `d` it discharges any of the local assumptions, with `D` any command in scope also.
pub fn program(pool: &mut PrimitivePool, pat: &mut Pat<'static>, text: &'static str) -> Vec<ProofCommand> {
    let mut v: Vec<&'static str> = vec![];
    for c in text.split(';') { v.push(c.trim()); }
    let mut st = vec![Level { cmds: vec![], args: vec![], id: String::new(), context: 0 }];
    let (mut n, mut contexts) = (0u64, 0);
    for (k, c) in v.iter().enumerate() {
        let c: &'static str = c;
        let last = k + 1 < v.len() && v[k + 1] == "]";
        if c == "]" {
            let l = st.pop().unwrap();
            st.last_mut().unwrap().cmds.push(ProofCommand::Subproof(Subproof { commands: l.cmds, args: l.args, context_id: l.context }));
            continue;
        }
        n += 1;
        if let Some(t) = c.strip_prefix("a ") {
            let t = pat.terms(t);
            let term = import(pool, &t[0]);
            st.last_mut().unwrap().cmds.push(ProofCommand::Assume { id: cat(&["h", &cs::num(n)]), term });
        } else if let Some(t) = c.strip_prefix("[") {
            let t = t.trim();
            let mut args = vec![];
            if !t.is_empty() {
                let full: &'static str = Box::leak(cat(&["[", t, "]"]).into_boxed_str());
                for a in pat.context(full).remove(0) {
                    args.push(match a {
                        AnchorArg::Variable((x, s)) => AnchorArg::Variable((x, import(pool, &s))),
                        AnchorArg::Assign((x, s), v) => AnchorArg::Assign((x, import(pool, &s)), import(pool, &v)),
                    });
                }
            }
            st.push(Level { cmds: vec![], args, id: cat(&["t", &cs::num(n)]), context: contexts });
            contexts += 1;
        } else if let Some(t) = c.strip_prefix("s ") {
            let w = words(t);
            let mut rules = vec![];
            for r in w[0].split(',') { rules.push(r); }
            let rule = rules[if rules.len() > 1 { cs::choice(rules.len()) } else { 0 }].to_string();
            let np = w[1].trim_end_matches(|c| c == 'd' || c == 'D');
            let mut visible = vec![];
            for (d, l) in st.iter().enumerate() { for i in 0..l.cmds.len() { visible.push((d, i)); } }
            let mut premises = vec![];
            // how many, or which: `depth.index` or `?`
            let listed = np.contains('.') || np.contains('?');
            let mut wanted = vec![];
            if listed { for x in np.split(',') { wanted.push(x); } } else { for _ in 0..crate::parse_num(np) { wanted.push("?"); } }
            for x in wanted {
                if let Some((a, b)) = x.split_once('.') { premises.push((crate::parse_num(a), crate::parse_num(b))); }
                else if !visible.is_empty() { premises.push(visible[cs::choice(visible.len())]); }
            }
            let mut discharge = vec![];
            if w[1].ends_with('d') || w[1].ends_with('D') {
                let d = st.len() - 1;
                for (i, x) in st[d].cmds.iter().enumerate() { if x.is_assume() && cs::choice(2) == 1 { discharge.push((d, i)); } }
            }
            if w[1].ends_with('D') && !visible.is_empty() {
                let k = cs::choice(visible.len() + 1);
                if k < visible.len() { discharge.push(visible[k]); }
            }
            // the literals
            let mut skip = 0;
            let mut seen = 0;
            let b = t.as_bytes();
            while skip < b.len() && seen < 2 {
                while skip < b.len() && b[skip] == b' ' { skip += 1; }
                while skip < b.len() && b[skip] != b' ' { skip += 1; }
                seen += 1;
            }
            let (lits, args) = match t[skip..].split_once('@') { Some((l, a)) => (l, a), None => (&t[skip..], "") };
            let lits = if lits.trim().is_empty() { vec![] } else { pat.terms(lits) };
            let args = if args.trim().is_empty() { vec![] } else { pat.terms(args) };
            let clause = import_all(pool, &lits);
            let args = import_all(pool, &args);
            let l = st.last_mut().unwrap();
            let id = if last { l.id.clone() } else { cat(&["c", &cs::num(n)]) };
            l.cmds.push(ProofCommand::Step(ProofStep { id, clause, rule, premises, args, discharge }));
        } else { cs::end("stuck", "program") }
    }
    st.pop().unwrap().cmds
}
fn print_step(p: &mut Printer, levels: &[&[ProofCommand]], s: &ProofStep, out: &mut String) {
    let t = print_clause(p, &s.clause);
    out.push_str(&cat(&["(step ", &s.id, " ", &t, " :rule ", &s.rule]));
    for (what, list) in [(" :premises (", &s.premises), (" :discharge (", &s.discharge)] {
        if list.is_empty() { continue; }
        out.push_str(what);
        for (k, (d, i)) in list.iter().enumerate() {
            if k > 0 { out.push(' '); }
            out.push_str(levels[*d][*i].id());
        }
        out.push(')');
    }
    if !s.args.is_empty() {
        out.push_str(" :args (");
        for (k, x) in s.args.iter().enumerate() { if k > 0 { out.push(' '); } let t = p.text(x); out.push_str(&t); }
        out.push(')');
    }
    out.push_str(")\n");
}
fn print_cmds<'a>(p: &mut Printer, levels: &mut Vec<&'a [ProofCommand]>, cmds: &'a [ProofCommand], out: &mut String) {
    levels.push(cmds);
    for c in cmds {
        match c {
            ProofCommand::Assume { id, term } => { let t = p.text(term); out.push_str(&cat(&["(assume ", id, " ", &t, ")\n"])); }
            ProofCommand::Step(s) => print_step(p, levels, s, out),
            ProofCommand::Subproof(s) => {
                let m = p.scope.len();
                let a = print_args(p, &s.args);
                let id = c.id();
                if s.args.is_empty() { out.push_str(&cat(&["(anchor :step ", id, ")\n"])); } else { out.push_str(&cat(&["(anchor :step ", id, " :args (", &a, "))\n"])); }
                print_cmds_in(p, levels, &s.commands, m, out);
            }
        }
    }
    levels.pop();
}
fn print_cmds_in<'a>(p: &mut Printer, levels: &mut Vec<&'a [ProofCommand]>, cmds: &'a [ProofCommand], m: usize, out: &mut String) {
    // the last step is printed outside of the scope of the anchor's variables
    levels.push(cmds);
    for (k, c) in cmds.iter().enumerate() {
        if k + 1 == cmds.len() { p.scope.truncate(m); }
        match c {
            ProofCommand::Assume { id, term } => { let t = p.text(term); out.push_str(&cat(&["(assume ", id, " ", &t, ")\n"])); }
            ProofCommand::Step(s) => print_step(p, levels, s, out),
            ProofCommand::Subproof(s) => {
                let m = p.scope.len();
                let a = print_args(p, &s.args);
                let id = c.id();
                if s.args.is_empty() { out.push_str(&cat(&["(anchor :step ", id, ")\n"])); } else { out.push_str(&cat(&["(anchor :step ", id, " :args (", &a, "))\n"])); }
                print_cmds_in(p, levels, &s.commands, m, out);
            }
        }
    }
    levels.pop();
}
fn all_terms(cmds: &[ProofCommand], out: &mut Vec<Rc<Term>>) {
    for c in cmds {
        match c {
            ProofCommand::Assume { term, .. } => out.push(term.clone()),
            ProofCommand::Step(s) => { for t in &s.clause { out.push(t.clone()); } for t in &s.args { out.push(t.clone()); } }
            ProofCommand::Subproof(s) => {
                for a in &s.args { if let AnchorArg::Assign(_, v) = a { out.push(v.clone()); } }
                all_terms(&s.commands, out);
            }
        }
    }
}
fn case_bound() -> Vec<(Vec<u8>, String)> {
    let c = case();
    let mut v = vec![];
    for t in &c.problem.premises { v.push(t.clone()); }
    all_terms(&c.proof.commands, &mut v);
    bound_names(&Shape { conclusion: v, premises: vec![], args: vec![], ctx: vec![], prev: None, discharge: vec![] })
}
pub fn emit_case(expect: &str) {
    let c = case();
    let mut p = Printer::new();
    p.bound = case_bound();
    let mut out = String::new();
    print_cmds(&mut p, &mut vec![], &c.proof.commands, &mut out);
    let mut asserts = String::new();
    for t in &c.problem.premises { let t = p.text(t); asserts.push_str(&cat(&["(assert ", &t, ")\n"])); }
    let d = p.declarations();
    cs::emit(&cat(&["%%problem\n", &d, &asserts, "%%proof\n", &out]));
    if !c.flags.is_empty() { cs::emit(&cat(&["%%flags\n", &c.flags, "\n"])); }
    if !expect.is_empty() { cs::emit(&cat(&["%%expect\n", expect, "\n"])); }
}
fn crash() { emit_case("crash") }

/// what the definition of a correct proof says, each rule being taken for what it accepts
struct Oracle { holey: bool, reached: bool, why: &'static str }
fn walk<'a>(o: &mut Oracle, pool: &mut PrimitivePool, ctx: &mut ContextStack, rules: &Rules, levels: &mut Vec<&'a [ProofCommand]>, cmds: &'a [ProofCommand], anchor: &[AnchorArg]) -> bool {
    let c = case();
    levels.push(cmds);
    let depth = levels.len() - 1;
    for (i, cmd) in cmds.iter().enumerate() {
        match cmd {
            ProofCommand::Assume { term, .. } => {
                if depth > 0 { continue; }
                let mut found = false;
                for p in &c.problem.premises {
                    if p == term || (!c.elaborated && Polyeq::new().mod_reordering(true).mod_nary(true).eq(term, p)) { found = true; break; }
                }
                if !found { o.why = "assumption that is not asserted"; return false; }
            }
            ProofCommand::Subproof(s) => {
                ctx.push(&s.args);
                if !walk(o, pool, ctx, rules, levels, &s.commands, &s.args) { return false; }
                ctx.pop();
                if depth == 0 && cmd.clause().is_empty() { o.reached = true; }
            }
            ProofCommand::Step(s) => {
                let end = depth > 0 && i + 1 == cmds.len();
                let rule = s.rule.as_str();
                if depth == 0 && s.clause.is_empty() { o.reached = true; }
                if c.allowed.iter().any(|r| r == rule) { o.holey = true; continue; }
                if !s.discharge.is_empty() && rule != "subproof" { o.why = "discharge in another rule"; return false; }
                let mut prem: Vec<(&str, &[Rc<Term>])> = vec![];
                for (d, k) in &s.premises { let x = &levels[*d][*k]; prem.push((x.id(), x.clause())); }
                let mut dis = vec![];
                for (d, k) in &s.discharge { dis.push(&levels[*d][*k]); }
                let prev = if end && i > 0 { Some((cmds[i - 1].id(), cmds[i - 1].clause())) } else { None };
                let step = Step { rule, elaborated: c.elaborated, conclusion: &s.clause, premises: &prem, args: &s.args, previous_command: prev, discharge: &dis };
                match run_rule(&step, pool, ctx, rules) {
                    None if c.ignore => { o.holey = true; continue; }
                    None => { o.why = "unknown rule"; return false; }
                    Some(Err(_)) => { o.why = "a rule does not accept its step"; return false; }
                    Some(Ok(())) => {}
                }
                if rule == "hole" || rule == "lia_generic" { o.holey = true; }
                if end {
                    let assigns = anchor.iter().any(|a| a.is_assign());
                    if assigns && !matches!(rule, "subproof" | "bind" | "let" | "onepoint" | "sko_ex" | "sko_forall" | "hole" | "lia_generic") {
                        o.why = "rule that cannot end this subproof"; return false;
                    }
                    for (k, x) in cmds.iter().enumerate() {
                        if x.is_assume() && !s.discharge.iter().any(|y| *y == (depth, k)) { o.why = "assumption that is not discharged"; return false; }
                    }
                }
            }
        }
    }
    levels.pop();
    true
}
pub fn load(j: &Job, pool: &mut PrimitivePool) {
    g().near = j.num("near", 0) == 1;
    let text: &'static str = Box::leak(j.text("prog").to_string().into_boxed_str());
    let asserts: &'static str = Box::leak(j.text("asserts").to_string().into_boxed_str());
    let mut pat: Pat<'static> = Pat::new(j.num("d", 1) as u8);
    let mut problem = Problem::new();
    if !asserts.is_empty() { for t in pat.terms(asserts) { let t = import(pool, &t); problem.premises.insert(t); } }
    let cmds = program(pool, &mut pat, text);
    let cfg = j.text("cfg");
    let flag = |c: char, f: char| if cfg.contains(c) { true } else if cfg.contains(f) { cs::choice(2) == 1 } else { false };
    let (elaborated, ignore) = (flag('E', 'e'), flag('I', 'i'));
    let mut flags = String::new();
    if elaborated { flags.push_str(" --check-granularity elaborated"); }
    if ignore { flags.push_str(" --ignore-unknown-rules"); }
    let stats = flag('S', 's');
    if stats { flags.push_str(" --stats"); }
    let mut allowed = vec![];
    if let Some(r) = j.get("allow") { if cs::choice(2) == 1 {
        allowed.push(r.to_string());
        flags.push_str(&cat(&[" --allowed-rules ", r]));
    } }
    unsafe { CASE = Some(Case { problem, proof: Proof { constant_definitions: vec![], commands: cmds }, elaborated, ignore, allowed, stats, flags: flags.trim().to_string() }); }
}
pub fn config() -> Config {
    let c = case();
    let mut config = Config::new().elaborated(c.elaborated).ignore_unknown_rules(c.ignore);
    for r in &c.allowed { config.allowed_rules.insert(r.clone()); }
    config
}
fn statistics() -> CheckerStatistics<'static, OnlineBenchmarkResults> {
    use std::time::Duration;
    CheckerStatistics { file_name: "f", polyeq_time: Duration::ZERO, assume_time: Duration::ZERO, assume_core_time: Duration::ZERO, results: OnlineBenchmarkResults::new() }
}
/// the verdict on a proof is the one its commands justify, and what is valid is unsatisfiable
pub fn check_mode(j: &Job) -> ! {
    let mut pool = PrimitivePool::new();
    load(j, &mut pool);
    crashes_are_violations(crash);
    let rules = Rules { rules: indexmap::IndexMap::new() };
    let c = case();
    let mut checker = ProofChecker::new(&mut pool, &rules, config());
    let r = if c.stats { checker.check_with_stats(&c.problem, &c.proof, &mut statistics()) } else { checker.check(&c.problem, &c.proof) };
    let got = match r { Ok(false) => "valid", Ok(true) => "holey", Err(_) => "invalid" };
    judge_verdict(j, got, &mut pool, &rules)
}
pub fn judge_verdict(j: &Job, got: &'static str, pool: &mut PrimitivePool, rules: &Rules) -> ! {
    let c = case();
    let mut o = Oracle { holey: false, reached: false, why: "" };
    let mut ctx = ContextStack::new();
    let ok = walk(&mut o, pool, &mut ctx, rules, &mut vec![], &c.proof.commands, &[]);
    crashes_over();
    let want = if !ok || !o.reached { "invalid" } else if o.holey { "holey" } else { "valid" };
    if ok && !o.reached { o.why = "no empty clause"; }
    if got != want {
        consistent();
        emit_case(want);
        cs::end("violation", &cat(&["the verdict is ", got, " instead of ", want, if o.why.is_empty() { "" } else { ": " }, o.why]));
    }
    if got == "invalid" { cs::count("decided"); cs::end("rejected", o.why); }
    cs::count(got);
    cs::count("accepted");
    if got == "holey" { cs::end("ok", "") }
    let ms = j.num("ms", 5000) as u64;
    for full in [false, true] {
        let mut env = Env::new(full);
        env.bound = case_bound();
        let mut v = vec![];
        for t in &c.problem.premises { v.push(enc(&mut env, t)); }
        v.extend(env.side.iter().copied());
        let q = cs::and(&v);
        match cs::check(q, ms) {
            0 => cs::end("ok", ""),
            1 => {
                if !full && env.opaque_seen { continue; }
                consistent();
                if cs::check(q, ms) == 0 { cs::end("ok", ""); }
                cs::smt_assume(q);
                emit_case("");
                let mut p = Printer::new();
                p.smt = true;
                p.bound = case_bound();
                let mut t = String::new();
                for x in &c.problem.premises { let x = p.text(x); t.push_str(&cat(&["(assert ", &x, ")\n"])); }
                cs::emit("%%query\n");
                cs::emit(&p.declarations());
                cs::emit(&p.asserts);
                cs::emit(&t);
                cs::end("violation", "a proof of a satisfiable problem is valid");
            }
            _ => if full || !env.opaque_seen { cs::end("undecided", "") },
        }
    }
    cs::end("undecided", "")
}

/// rules and their weights, as the scheduler has them; a weight stands for its rule
const WEIGHTS: [(&str, u64); 6] = [("hole", 185), ("true", 0), ("la_rw_eq", 1091), ("resolution", 7491), ("implies_neg1", 214), ("la_generic", 87564)];
/// what was decided for the steps: the address of the command and the byte that selects its weight
static mut WEIGHED: Vec<(usize, u8)> = vec![];
#[allow(static_mut_refs)]
fn weighed() -> &'static mut Vec<(usize, u8)> { unsafe { &mut WEIGHED } }
/// stands for the scheduler's own function
#[no_mangle]
pub extern "C" fn guest_step_weight(c: &ProofCommand) -> u64 {
    match c {
        ProofCommand::Assume { .. } => 230,
        ProofCommand::Subproof(_) => 0,
        ProofCommand::Step(_) => {
            let a = c as *const ProofCommand as usize;
            for (b, k) in weighed().iter() { if *b == a { return weight(*k); } }
            let k = cs::byte(0, WEIGHTS.len() as u8 - 1);
            weighed().push((a, k));
            weight(k)
        }
    }
}
fn weight(k: u8) -> u64 { WEIGHTS[k as usize].1 }
/// a symbolic list of `n` commands in all
fn shape_of(pool: &mut PrimitivePool, n: usize, depth: usize, sub: bool, contexts: &mut usize, ids: &mut u64, id: &str) -> Vec<ProofCommand> {
    let mut v = vec![];
    let mut left = n;
    while left > 0 {
        let first = v.is_empty();
        // a subproof has at least its end step
        let most = if depth > 0 { left - 1 - (sub && left > 1) as usize } else { 0 };
        let most = if sub && left == 1 { 0 } else { most };
        let inner = cs::choice(most + 1);
        *ids += 1;
        if inner > 0 {
            let id = cat(&["t", &cs::num(*ids)]);
            let context_id = *contexts;
            *contexts += 1;
            let commands = shape_of(pool, inner, depth - 1, true, contexts, ids, &id);
            v.push(ProofCommand::Subproof(Subproof { commands, args: vec![], context_id }));
            left -= inner + 1;
            continue;
        }
        left -= 1;
        if first && left > 0 && depth % 2 == 1 {
            v.push(ProofCommand::Assume { id: cat(&["h", &cs::num(*ids)]), term: pool.bool_true() });
        } else {
            let id = if sub && left == 0 { id.to_string() } else { cat(&["s", &cs::num(*ids)]) };
            let rule = if cs::redirected() { "hole" } else { WEIGHTS[cs::choice(3)].0 };
            v.push(ProofCommand::Step(ProofStep { id, clause: vec![], rule: rule.to_string(), premises: vec![], args: vec![], discharge: vec![] }));
        }
    }
    v
}
fn choose_rules(cmds: &mut Vec<ProofCommand>) {
    for c in cmds {
        let a = c as *const ProofCommand as usize;
        match c {
            ProofCommand::Step(s) => for (b, k) in weighed().iter() { if *b == a { s.rule = WEIGHTS[cs::pick(*k as u64) as usize].0.to_string(); } },
            ProofCommand::Subproof(s) => choose_rules(&mut s.commands),
            _ => {}
        }
    }
}
static mut WORKERS: usize = 0;
fn emit_schedule(answer: &str) {
    cs::opt("redirect", 0);
    choose_rules(&mut case().proof.commands);
    emit_case("");
    cs::emit(&cat(&["%%tool\nschedule ", &cs::num(unsafe { WORKERS } as u64), "\n%%answer\n", answer, "\n"]));
}
fn schedule_crash() { emit_schedule("crash") }
/// the schedules cover the proof, with weights taken arbitrarily
pub fn schedule_mode(j: &Job) -> ! {
    let mut pool = PrimitivePool::new();
    let n = j.num("n", 2);
    unsafe { WORKERS = n; }
    let commands = if j.get("prog").is_some() { load(j, &mut pool); std::mem::take(&mut case().proof.commands) } else { shape_of(&mut pool, j.num("size", 3), j.num("depth", 2), false, &mut 0, &mut 0, "") };
    unsafe { CASE = Some(Case { problem: Problem::new(), proof: Proof { constant_definitions: vec![], commands }, elaborated: false, ignore: false, allowed: vec![], stats: false, flags: String::new() }); }
    crashes_are_violations(schedule_crash);
    cs::opt("redirect", 1);
    let r = crate::schedule::schedules_wrong(n, &case().proof);
    crashes_over();
    cs::count("decided");
    if let Some(e) = r {
        emit_schedule(&cat(&["wrong: ", e]));
        cs::end("violation", &cat(&["schedules of ", &cs::num(n as u64), " workers: ", e]));
    }
    cs::count("accepted");
    cs::end("ok", "")
}
/// the real parallel checker, its threads included
pub fn parallel_mode(j: &Job) -> ! {
    use carcara::checker::{ParallelProofChecker, Scheduler};
    let mut pool = PrimitivePool::new();
    load(j, &mut pool);
    let n = j.num("n", 2);
    let c = case();
    c.flags = cat(&["--num-threads ", &cs::num(n as u64), " --stack-size 8388608 ", &c.flags]);
    cs::opt("preempt", j.num("preempt", 0) as u64);
    cs::opt("orders", j.num("orders", 0) as u64);
    crashes_are_violations(crash);
    let (scheduler, usage) = Scheduler::new(n, &c.proof);
    unsafe { BY_REFERENCE = true; }
    let shared = std::sync::Arc::new(std::mem::replace(&mut pool, PrimitivePool::new()));
    let prelude = ProblemPrelude::default();
    let mut checker = ParallelProofChecker::new(shared.clone(), config(), &prelude, &usage, 1 << 20, Rules { rules: indexmap::IndexMap::new() });
    let r = if c.stats { checker.check_with_stats(&c.problem, &c.proof, &scheduler, &mut statistics()) } else { checker.check(&c.problem, &c.proof, &scheduler) };
    let got = match r { Ok(false) => "valid", Ok(true) => "holey", Err(_) => "invalid" };
    let rules = Rules { rules: indexmap::IndexMap::new() };
    drop(checker);
    match std::sync::Arc::try_unwrap(shared) { Ok(p) => pool = p, Err(_) => cs::end("stuck", "the pool is still shared") }
    judge_verdict(j, got, &mut pool, &rules)
}

fn letter(pool: &mut PrimitivePool, name: &str) -> Rc<Term> {
    let b = pool.add(Term::Sort(Sort::Bool));
    pool.add(Term::new_var(name, b))
}
struct Slices { ids: u64, contexts: usize, most: usize }
/// a symbolic list of `n` commands, any of which can refer to what is in scope
fn sliceable(pool: &mut PrimitivePool, x: &mut Slices, n: usize, depth: usize, st: &mut Vec<Vec<ProofCommand>>, id: &str) -> Vec<ProofCommand> {
    let sub = !id.is_empty();
    st.push(vec![]);
    let mut left = n;
    while left > 0 {
        let at = st.len() - 1;
        let before = st[at].len();
        let last = sub && left == 1;
        let most = if depth > 0 && !last { left - 1 - (sub && left > 1) as usize } else { 0 };
        let inner = cs::choice(most + 1);
        x.ids += 1;
        let name = cs::num(x.ids);
        if inner > 0 {
            let id = cat(&["t", &name]);
            let context_id = x.contexts;
            x.contexts += 1;
            let commands = sliceable(pool, x, inner, depth - 1, st, &id);
            st[at].push(ProofCommand::Subproof(Subproof { commands, args: vec![], context_id }));
            left -= inner + 1;
            continue;
        }
        left -= 1;
        let p = letter(pool, &cat(&["p", &name]));
        let assumes_only = st[at].iter().all(|c| c.is_assume());
        // assumptions can come anywhere outside subproofs
        if !last && (!sub || assumes_only) && cs::choice(2) == 1 {
            st[at].push(ProofCommand::Assume { id: cat(&["h", &name]), term: p });
            continue;
        }
        let mut visible = vec![];
        for (d, l) in st.iter().enumerate() { for i in 0..l.len() { visible.push((d, i)); } }
        let mut premises = vec![];
        let np = cs::choice(x.most + 1);
        for _ in 0..np { if !visible.is_empty() { premises.push(visible[cs::choice(visible.len())]); } }
        let args = vec![p.clone()];
        let id = if last { id.to_string() } else { cat(&["c", &name]) };
        let mut discharge = vec![];
        let mut clause = vec![];
        if last {
            for (i, c) in st[at].iter().enumerate() { if let ProofCommand::Assume { term, .. } = c {
                discharge.push((at, i));
                clause.push(pool.add(Term::Op(Operator::Not, vec![term.clone()])));
            } }
        }
        let (rule, args) = if discharge.is_empty() { clause.push(p); ("hole", args) } else {
            let c = st[at][before - 1].clause();
            clause.push(if c.is_empty() { pool.bool_false() } else { c[0].clone() });
            ("subproof", vec![])
        };
        st[at].push(ProofCommand::Step(ProofStep { id, clause, rule: rule.to_string(), premises, args, discharge }));
    }
    st.pop().unwrap()
}
static mut SLICED: (String, usize) = (String::new(), 0);
#[allow(static_mut_refs)]
fn emit_slice(answer: &str) {
    let (id, d) = unsafe { &SLICED };
    emit_case("");
    cs::emit(&cat(&["%%tool\nslice ", id, " ", &cs::num(cs::pick(*d as u64)), "\n%%answer\n", answer, "\n"]));
}
fn slice_crash() { emit_slice("crash") }
fn ids(cmds: &[ProofCommand], out: &mut Vec<String>) {
    for c in cmds {
        match c { ProofCommand::Subproof(s) => ids(&s.commands, out), _ => out.push(c.id().to_string()) }
    }
}
/// the slice of any step of an accepted proof, at any distance
pub fn slice_mode(j: &Job) -> ! {
    let mut pool = PrimitivePool::new();
    if j.get("prog").is_some() { load(j, &mut pool); } else {
        let mut x = Slices { ids: 0, contexts: 0, most: j.num("prem", 1) };
        let mut commands = sliceable(&mut pool, &mut x, j.num("size", 3), j.num("depth", 1), &mut vec![], "");
        let mut problem = Problem::new();
        for c in &commands { if let ProofCommand::Assume { term, .. } = c { problem.premises.insert(term.clone()); } }
        commands.push(ProofCommand::Step(ProofStep { id: "end".to_string(), clause: vec![], rule: "hole".to_string(), premises: vec![], args: vec![], discharge: vec![] }));
        unsafe { CASE = Some(Case { problem, proof: Proof { constant_definitions: vec![], commands }, elaborated: false, ignore: false, allowed: vec![], stats: false, flags: String::new() }); }
    }
    let c = case();
    let rules = Rules { rules: indexmap::IndexMap::new() };
    if ProofChecker::new(&mut pool, &rules, config()).check(&c.problem, &c.proof).is_err() { cs::end("rejected", "") }
    let mut all = vec![];
    ids(&c.proof.commands, &mut all);
    let id = all[cs::choice(all.len())].clone();
    let d = cs::bv(64) as usize;
    unsafe { SLICED = (id.clone(), d); }
    crashes_are_violations(slice_crash);
    let r = crate::slice::slice_wrong(&mut pool, &c.proof, &id, d);
    crashes_over();
    cs::count("decided");
    if let Some(e) = r {
        emit_slice(&cat(&["wrong: ", e]));
        cs::end("violation", &cat(&["slice: ", e]));
    }
    cs::count("accepted");
    cs::end("ok", "")
}
static mut ROTATE: bool = false;
static mut CLASS: &str = "";
fn emit_elab(answer: &str) {
    emit_case("");
    cs::emit(&cat(&[unsafe { CLASS }, "%%tool\nelab ", if unsafe { ROTATE } { "1" } else { "0" }, "\n%%answer\n", answer, "\n"]));
}
fn elab_crash() { emit_elab("crash") }
/// the elaboration of an accepted proof
pub fn elab_mode(j: &Job) -> ! {
    let mut pool = PrimitivePool::new();
    load(j, &mut pool);
    let c = case();
    let rules = Rules { rules: indexmap::IndexMap::new() };
    if ProofChecker::new(&mut pool, &rules, config()).check(&c.problem, &c.proof).is_err() { cs::end("rejected", "") }
    // the steps in which resolution is not resolution have their own jobs
    let any = j.num("any", 0) == 1;
    if any == crate::elab::can_be_elaborated(&c.proof.commands, &mut vec![]) { cs::end("skip", "") }
    if any { unsafe { CLASS = "%%class\nresolution that is no chain of resolutions\n"; } }
    let rotate = j.num("rotate", 0) == 1;
    unsafe { ROTATE = rotate; }
    crashes_are_violations(elab_crash);
    let r = crate::elab::elaboration_wrong(&mut pool, &c.problem, &c.proof, rotate);
    crashes_over();
    cs::count("decided");
    if let Some(e) = r {
        emit_elab(&cat(&["wrong: ", e]));
        cs::end("violation", &cat(&["elaboration: ", e]));
    }
    cs::count("accepted");
    cs::end("ok", "")
}
