//! Asks the unmodified library directly: replays what concerns functions that no proof rule exposes.
//! usage: vtool <command...> problem.smt2 proof.alethe; terms are the arguments of the step `t`.
use carcara::ast::*;
use carcara::parser;
use std::fs::File;
use std::io::BufReader;
use std::time::Duration;

#[path = "../../shared/elab.rs"]
mod elab;
#[path = "../../shared/lexer.rs"]
mod lexer;
#[path = "../../shared/print.rs"]
mod print;
#[path = "../../shared/schedule.rs"]
mod schedule;
#[path = "../../shared/slice.rs"]
mod slice;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let n = a.len();
    let cmd: Vec<&str> = a[..n - 2].iter().map(String::as_str).collect();
    if cmd[0] == "print" {
        let read = |p: &str| std::fs::read(p).unwrap();
        match print::roundtrip(&read(&a[n - 2]), &read(&a[n - 1]), cmd[1] == "1", cmd[2].parse().unwrap()) {
            print::Outcome::Unreadable => println!("unreadable"),
            print::Outcome::Same => println!("good"),
            print::Outcome::Wrong(e) => println!("wrong: {e}"),
        }
        return;
    }
    let open = |p: &str| BufReader::new(File::open(p).unwrap());
    let (problem, proof, _, mut pool) = match parser::parse_instance(open(&a[n - 2]), open(&a[n - 1]), None, parser::Config { parse_hole_args: true, ..parser::Config::new() }) {
        Ok(x) => x,
        Err(e) => {
            println!("parse error: {e}");
            return;
        }
    };
    if cmd[0] == "lex" {
        let h: Vec<u8> = (0..cmd[1].len() / 2).map(|k| u8::from_str_radix(&cmd[1][2 * k..2 * k + 2], 16).unwrap()).collect();
        eprintln!("text: {:?}", String::from_utf8_lossy(&h));
        match lexer::lexer_wrong(&h) { None => println!("good"), Some(e) => println!("wrong: {e}") }
        return;
    }
    if cmd[0] == "schedule" {
        match schedule::schedules_wrong(cmd[1].parse().unwrap(), &proof) { None => println!("good"), Some(e) => println!("wrong: {e}") }
        return;
    }
    if cmd[0] == "elab" {
        match elab::elaboration_wrong(&mut pool, &problem, &proof, cmd[1] == "1") { None => println!("good"), Some(e) => println!("wrong: {e}") }
        return;
    }
    if cmd[0] == "slice" {
        match slice::slice_wrong(&mut pool, &proof, cmd[1], cmd[2].parse().unwrap()) { None => println!("good"), Some(e) => println!("wrong: {e}") }
        return;
    }
    let mut args: Vec<Rc<Term>> = vec![];
    find(&proof.commands, &mut args);
    if args.is_empty() {
        println!("no arguments");
        return;
    }
    match cmd[0] {
        "polyeq" => {
            let mut t = Duration::ZERO;
            let (x, y) = (&args[0], &args[1]);
            let r = match cmd[1] {
                "poly" => polyeq(x, y, &mut t),
                "alpha" => alpha_equiv(x, y, &mut t),
                "exact" => Polyeq::new().eq(x, y),
                "nary" => Polyeq::new().mod_reordering(true).mod_nary(true).eq(x, y),
                "nary0" => Polyeq::new().mod_nary(true).eq(x, y),
                "concat" => Polyeq::new().mod_reordering(true).mod_string_concat(true).eq(x, y),
                _ => panic!("mode"),
            };
            println!("{r}");
        }
        "subst" => {
            let is_map = |t: &Rc<Term>| matches!(&**t, Term::Op(Operator::Equals, v) if v.len() == 2 && matches!(&*v[0], Term::Var(..)));
            let k = args.iter().position(is_map).unwrap_or(args.len());
            let mut map = indexmap::IndexMap::new();
            for e in &args[k..] {
                if let Term::Op(_, v) = &**e { map.insert(v[0].clone(), v[1].clone()); }
            }
            let mut reference = vec![];
            for (x, v) in &map { reference.push((x.clone(), key(v, &mut vec![], &[]))); }
            let mut s = Substitution::new(&mut pool, map).unwrap();
            let mut same = true;
            for t in &args[..k] {
                let r = s.apply(&mut pool, t);
                let (a, b) = (key(t, &mut vec![], &reference), key(&r, &mut vec![], &[]));
                eprintln!("{t} becomes {r}");
                if a != b { same = false; eprintln!("should be {a}\nis        {b}"); }
            }
            println!("{}", if same { "same" } else { "different" });
        }
        "freevars" => {
            let mut same = true;
            for t in &args {
                let mut out = vec![];
                free(t, &mut vec![], &mut out);
                let mut f: Vec<String> = pool.free_vars(t).iter().map(|x| key(x, &mut vec![], &[])).collect();
                out.sort();
                out.dedup();
                f.sort();
                eprintln!("free variables of {t}: {f:?}, should be {out:?}");
                if f != out { same = false; }
            }
            println!("{}", if same { "same" } else { "different" });
        }
        c => panic!("unknown command {c}"),
    }
    let _ = &mut pool;
}

/// text of a term that does not depend on the names of bound variables; free variables are replaced
fn key(t: &Rc<Term>, scope: &mut Vec<(String, String)>, map: &[(Rc<Term>, String)]) -> String {
    let all = |v: &[Rc<Term>], scope: &mut Vec<(String, String)>| v.iter().map(|x| key(x, scope, map)).collect::<Vec<_>>().join(" ");
    match &**t {
        Term::Var(n, s) => {
            let s = s.to_string();
            if let Some(i) = scope.iter().rposition(|x| x.0 == *n && x.1 == s) { return format!("#{}", scope.len() - i); }
            if let Some(x) = map.iter().find(|x| x.0 == *t) { return x.1.clone(); }
            format!("{n}:{s}")
        }
        Term::App(f, a) => format!("(app {} {})", key(f, scope, map), all(a, scope)),
        Term::Op(o, a) => format!("({o} {})", all(a, scope)),
        Term::ParamOp { op, op_args, args } => format!("(_{op} {} {})", all(op_args, scope), all(args, scope)),
        Term::Binder(b, l, body) => {
            let m = scope.len();
            let mut sorts = String::new();
            for (n, s) in l { sorts += &format!(" {s}"); scope.push((n.clone(), s.to_string())); }
            let r = key(body, scope, map);
            scope.truncate(m);
            format!("({b} [{sorts}] {r})")
        }
        Term::Let(l, body) => {
            let m = scope.len();
            let v: Vec<String> = l.iter().map(|(_, v)| key(v, scope, map)).collect();
            for (n, v) in l { scope.push((n.clone(), sort_of(v))); }
            let r = key(body, scope, map);
            scope.truncate(m);
            format!("(let [{}] {r})", v.join(" "))
        }
        _ => t.to_string(),
    }
}
/// the sort of a variable, a constant or an application of a declared function
fn sort_of(t: &Rc<Term>) -> String {
    match &**t {
        Term::Var(_, s) => s.to_string(),
        Term::App(f, _) => match &**f { Term::Var(_, s) => match &**s { Term::Sort(Sort::Function(v)) => v.last().unwrap().to_string(), _ => panic!("sort") }, _ => panic!("sort") },
        Term::Const(Constant::Integer(_)) => "Int".to_string(),
        Term::Binder(Binder::Choice, l, _) => l[0].1.to_string(),
        Term::Let(_, b) => sort_of(b),
        _ => "Bool".to_string(),
    }
}
fn free(t: &Rc<Term>, scope: &mut Vec<(String, String)>, out: &mut Vec<String>) {
    let m = scope.len();
    match &**t {
        Term::Var(n, s) => {
            let s = s.to_string();
            if !scope.iter().any(|x| x.0 == *n && x.1 == s) { out.push(format!("{n}:{s}")); }
        }
        Term::App(f, a) => { free(f, scope, out); for x in a { free(x, scope, out); } }
        Term::Op(_, a) | Term::ParamOp { args: a, .. } => for x in a { free(x, scope, out); },
        Term::Binder(_, l, b) => {
            for (n, s) in l { scope.push((n.clone(), s.to_string())); }
            free(b, scope, out);
        }
        Term::Let(l, b) => {
            for (_, v) in l { free(v, scope, out); }
            for (n, v) in l { scope.push((n.clone(), sort_of(v))); }
            free(b, scope, out);
        }
        _ => {}
    }
    scope.truncate(m);
}

fn find(commands: &[ProofCommand], out: &mut Vec<Rc<Term>>) {
    for c in commands {
        match c {
            ProofCommand::Step(s) if s.id == "t" => *out = s.args.clone(),
            ProofCommand::Subproof(s) => find(&s.commands, out),
            _ => {}
        }
    }
}
