//! Pipes to SMT solvers.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Res { Sat, Unsat, Unknown }

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub cached: u64, pub time: f64, pub unknown: u64, pub validity: u64, pub validity_time: f64, pub validity_unknown: u64, pub distinct_validity: u64 }

pub struct Solver {
    child: Option<(Child, ChildStdin, Receiver<String>)>,
    defined: HashSet<Eid>,
    sorts: HashSet<String>,
    cache: HashMap<Vec<Eid>, Res>,
    pub stats: Stats,
    bound: HashMap<Eid, std::rc::Rc<Vec<String>>>,
    pub errors: Vec<String>,
    pub vcache: HashMap<u64, Res>,
    pub dump: Option<String>,
    blast: bool,
    nq: u64,
    cur_timeout: u64,
}

impl Solver {
    pub fn new() -> Self {
        Solver { child: None, defined: HashSet::new(), sorts: HashSet::new(), cache: HashMap::new(), stats: Stats::default(), bound: HashMap::new(), errors: vec![], vcache: HashMap::new(), dump: std::env::var("CARSYM_DUMP").ok(), nq: 0, cur_timeout: 0, blast: false }
    }
    pub fn reset_job(&mut self) {
        self.kill();
        self.blast = false;
        self.cache.clear();
        self.bound.clear();
        self.vcache.clear();
    }
    fn spawn(cmd: &[&str]) -> (Child, ChildStdin, Receiver<String>) {
        let mut c = Command::new(cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("solver");
        let i = c.stdin.take().unwrap();
        let o = c.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || { for l in BufReader::new(o).lines() { match l { Ok(l) => if tx.send(l).is_err() { break; }, Err(_) => break } } });
        (c, i, rx)
    }
    fn kill(&mut self) {
        if let Some((mut c, _, _)) = self.child.take() { let _ = c.kill(); let _ = c.wait(); }
        self.defined.clear();
        self.sorts.clear();
        self.cur_timeout = 0;
    }
    fn ensure(&mut self) {
        if self.child.is_none() {
            let mut c = Self::spawn(&["z3-new", "-in", "-memory:3000"]);
            let _ = c.1.write_all(b"(set-option :global-declarations true)\n(set-option :produce-models true)\n");
            self.child = Some(c);
            self.defined.clear();
            self.sorts.clear();
            self.cur_timeout = 0;
        }
    }
    fn has_bound(&mut self, ar: &Arena, e: Eid) -> bool { !self.free_bound(ar, e).is_empty() }
    /// names of bound variables free in an expression
    fn free_bound(&mut self, ar: &Arena, e: Eid) -> std::rc::Rc<Vec<String>> {
        if let Some(b) = self.bound.get(&e) { return b.clone(); }
        let n = ar.get(e);
        let mut v: Vec<String> = vec![];
        if n.k == K::Lit { let t = &ar.names[n.x as usize]; if t.starts_with('?') { v.push(t.clone()); } }
        else {
            for k in ar.kids(e) { for x in self.free_bound(ar, k).iter() { if !v.contains(x) { v.push(x.clone()); } } }
            if n.k == K::App && !v.is_empty() {
                let op = &ar.names[ar.apps[n.x as usize].0 as usize];
                if op.starts_with("forall ") || op.starts_with("exists ") { v.retain(|x| !op.contains(&format!("({x} "))); }
            }
        }
        let r = std::rc::Rc::new(v);
        self.bound.insert(e, r.clone());
        r
    }
    /// text of a node; nodes with bound variables inside are expanded in place
    fn text(&mut self, ar: &Arena, e: Eid) -> String {
        if !self.has_bound(ar, e) { return ar.smt_ref(e); }
        let n = ar.get(e);
        if n.k == K::Lit { return ar.smt_ref(e); }
        if n.k == K::App {
            let (op, args) = ar.apps[n.x as usize].clone();
            let op = ar.names[op as usize].clone();
            let a: Vec<String> = args.iter().map(|x| self.text(ar, *x)).collect();
            return format!("({} {})", strip_sig(&op), a.join(" "));
        }
        // machine operators over bound variables do not occur except Boolean ones
        let ks = ar.kids(e);
        let a: Vec<String> = ks.iter().map(|x| self.text(ar, *x)).collect();
        match n.k { K::Not => format!("(not {})", a[0]), K::And => format!("(and {} {})", a[0], a[1]), K::Or => format!("(or {} {})", a[0], a[1]), K::Eq => format!("(= {} {})", a[0], a[1]), K::Ite => format!("(ite {} {} {})", a[0], a[1], a[2]), K::Xor => format!("(xor {} {})", a[0], a[1]), _ => ar.smt_node(e) }
    }
    fn define(&mut self, ar: &Arena, e: Eid, out: &mut String, defined: &mut HashSet<Eid>, sorts: &mut HashSet<String>) {
        if defined.contains(&e) { return; }
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if defined.contains(&x) { continue; }
            let n = ar.get(x);
            match n.k {
                K::Const | K::Lit => { defined.insert(x); }
                K::Var => {
                    let s = ar.sort_text(n.sort);
                    declare_sort(&s, out, sorts);
                    out.push_str(&format!("(declare-const v{x} {s})\n"));
                    defined.insert(x);
                }
                _ => {
                    if !done { st.push((x, true)); for k in ar.kids(x) { if !defined.contains(&k) { st.push((k, false)); } } }
                    else {
                        if n.k == K::App && ar.names[ar.apps[n.x as usize].0 as usize].contains(" ((?b") {
                            let op = ar.names[ar.apps[n.x as usize].0 as usize].clone();
                            for part in op.split("(?b").skip(1) { if let Some((_, r)) = part.split_once(' ') { declare_sort(r.trim_end_matches(')'), out, sorts); } }
                        }
                        if n.k == K::App { let op = &ar.names[ar.apps[n.x as usize].0 as usize]; if let Some(sig) = op_signature(op) { if sorts.insert(format!("fun {op}")) { for s in sig.0.iter().chain(std::iter::once(&sig.1)) { declare_sort(s, out, sorts); } out.push_str(&format!("(declare-fun {} ({}) {})\n", strip_sig(op), sig.0.join(" "), sig.1)); } } }
                        if !self.has_bound(ar, x) {
                            let t = if n.k == K::App { let (op, args) = ar.apps[n.x as usize].clone(); let opn = ar.names[op as usize].clone(); let opn = strip_sig(&opn); if args.is_empty() { opn } else { let a: Vec<String> = args.iter().map(|k| self.text(ar, *k)).collect(); format!("({} {})", opn, a.join(" ")) } } else { ar.smt_node(x) };
                            let s = ar.sort_text(n.sort);
                            declare_sort(&s, out, sorts);
                            out.push_str(&format!("(define-fun e{x} () {s} {t})\n"));
                        }
                        defined.insert(x);
                    }
                }
            }
        }
    }
    pub fn full_text(&mut self, ar: &Arena, e: Eid) -> String {
        let mut out = String::new();
        let (mut d, mut s) = (HashSet::new(), HashSet::new());
        self.define(ar, e, &mut out, &mut d, &mut s);
        format!("{out}{}", ar.smt_ref(e))
    }
    fn read_line(rx: &Receiver<String>, until: Instant) -> Option<String> {
        let now = Instant::now();
        let d = if until > now { until - now } else { Duration::from_millis(1) };
        rx.recv_timeout(d).ok()
    }
    /// no applications, named sorts or bound variables
    fn machine(&self, ar: &Arena, cs: &[Eid]) -> bool {
        let mut seen = HashSet::new();
        let mut st = cs.to_vec();
        while let Some(e) = st.pop() {
            if !seen.insert(e) { continue; }
            let n = ar.get(e);
            if matches!(n.k, K::App | K::Lit) || n.sort >= SORT_BASE { return false; }
            st.extend(ar.kids(e));
        }
        true
    }
    /// incremental query with caching; the constraints are conjoined
    pub fn check(&mut self, ar: &Arena, cs: &[Eid], timeout_ms: u64) -> Res {
        let mut key = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) { self.stats.cached += 1; return *r; }
        let r = self.query(ar, &key, timeout_ms, &[]).0;
        self.cache.insert(key, r);
        r
    }
    pub fn query(&mut self, ar: &Arena, cs: &[Eid], timeout_ms: u64, vals: &[Eid]) -> (Res, Vec<String>) {
        let t0 = Instant::now();
        self.stats.queries += 1;
        self.nq += 1;
        if self.nq % 5000 == 0 { self.kill(); }
        self.ensure();
        let mut out = String::new();
        let (mut d, mut s) = (std::mem::take(&mut self.defined), std::mem::take(&mut self.sorts));
        for c in cs.iter().chain(vals) { self.define(ar, *c, &mut out, &mut d, &mut s); }
        self.defined = d;
        self.sorts = s;
        if self.cur_timeout != timeout_ms { out.push_str(&format!("(set-option :timeout {timeout_ms})\n")); self.cur_timeout = timeout_ms; }
        out.push_str("(push)\n");
        for c in cs { out.push_str(&format!("(assert {})\n", ar.smt_ref(*c))); }
        // once bit-blasting was needed for a job, it goes first
        let first = self.blast && self.machine(ar, cs);
        if !first { out.push_str("(check-sat)\n(echo \"@end\")\n"); } else { out.push_str("(echo \"@end\")\n"); }
        let until = t0 + Duration::from_millis(timeout_ms + 4000);
        let mut res = Res::Unknown;
        let mut dead = false;
        let mut model = vec![];
        {
            let (_, i, rx) = self.child.as_mut().unwrap();
            if i.write_all(out.as_bytes()).is_err() || i.flush().is_err() { dead = true; }
            if !dead {
                loop {
                    match Self::read_line(rx, until) {
                        Some(l) if l.contains("@end") => break,
                        Some(l) => match l.as_str() { "sat" => res = Res::Sat, "unsat" => res = Res::Unsat, "unknown" | "timeout" => res = Res::Unknown, _ => { if l.contains("error") { self.errors.push(format!("{l} :: {}", out.chars().take(1500).collect::<String>())); res = Res::Unknown; loop { match Self::read_line(rx, until) { Some(l) if l.contains("@end") => break, Some(_) => {} None => { dead = true; break; } } } break; } } },
                        None => { dead = true; break; }
                    }
                }
            }
            if !dead && res == Res::Unknown && self.machine(ar, cs) {
                // machine words only: once more with bit-blasting
                self.blast = true;
                if i_write(&mut self.child, b"(check-sat-using qfbv)\n(echo \"@end\")\n") {
                    let rx = &self.child.as_ref().unwrap().2;
                    let until = Instant::now() + Duration::from_millis(timeout_ms + 4000);
                    loop {
                        match Self::read_line(rx, until) {
                            Some(l) if l.contains("@end") => break,
                            Some(l) => match l.as_str() { "sat" => res = Res::Sat, "unsat" => res = Res::Unsat, _ => {} },
                            None => { dead = true; break; }
                        }
                    }
                } else { dead = true; }
            }
            if !dead && res == Res::Sat && !vals.is_empty() {
                let (_, i, rx) = self.child.as_mut().unwrap();
                let q = format!("(get-value ({}))\n(echo \"@end\")\n", vals.iter().map(|v| ar.smt_ref(*v)).collect::<Vec<_>>().join(" "));
                if i.write_all(q.as_bytes()).is_err() { dead = true; }
                let mut text = String::new();
                while !dead { match Self::read_line(rx, until) { Some(l) if l.contains("@end") => break, Some(l) => { text.push_str(&l); text.push(' '); } None => { dead = true; } } }
                model = parse_values(&text);
            }
            if !dead { i_write(&mut self.child, b"(pop)\n"); }
        }
        if dead { self.kill(); res = Res::Unknown; }
        if res == Res::Unknown { self.stats.unknown += 1; }
        if !self.blast && t0.elapsed().as_millis() > 250 && self.machine(ar, cs) { self.blast = true; }
        self.stats.time += t0.elapsed().as_secs_f64();
        if let (Some(dir), true) = (self.dump.clone(), t0.elapsed().as_millis() > 700) {
            let mut body = String::new();
            let (mut d, mut s) = (HashSet::new(), HashSet::new());
            for c in cs.iter().chain(vals) { self.define(ar, *c, &mut body, &mut d, &mut s); }
            for c in cs { body.push_str(&format!("(assert {})\n", ar.smt_ref(*c))); }
            body.push_str("(check-sat)\n");
            let _ = std::fs::write(format!("{dir}/slow{}.smt2", self.nq), &body);
        }
        (res, model)
    }
    /// one-shot query for validity checks, in fresh processes (full tactics); falls back to cvc5
    pub fn oneshot(&mut self, ar: &Arena, cs: &[Eid], timeout_ms: u64, extra: &str) -> Res {
        let t0 = Instant::now();
        self.stats.validity += 1;
        let mut out = String::new();
        let (mut d, mut s) = (HashSet::new(), HashSet::new());
        for c in cs { self.define(ar, *c, &mut out, &mut d, &mut s); }
        let mut body = String::new();
        body.push_str(extra);
        body.push_str(&out);
        for c in cs { body.push_str(&format!("(assert {})\n", ar.smt_ref(*c))); }
        body.push_str("(check-sat)\n");
        let key = { use std::hash::*; let mut h = std::collections::hash_map::DefaultHasher::new(); canon(&body).hash(&mut h); h.finish() };
        if let Some(r) = self.vcache.get(&key) { self.stats.cached += 1; return *r; }
        self.stats.distinct_validity += 1;
        if let Some(dir) = &self.dump { let _ = std::fs::write(format!("{dir}/q{key:x}.smt2"), &body); }
        // the running solver answers easy queries much faster than a new process does
        if extra.is_empty() && body.len() < 20000 && !body.contains("(forall") && !body.contains("(exists") && !body.contains("str.") {
            let u0 = self.stats.unknown;
            let (r, _) = self.query(ar, cs, timeout_ms.min(150), &[]);
            self.stats.unknown = u0;
            if r != Res::Unknown {
                self.stats.validity_time += t0.elapsed().as_secs_f64();
                self.vcache.insert(key, r);
                return r;
            }
        }
        let mut r = run_solver(&["z3-new", "-in", "-memory:3000", &format!("-t:{timeout_ms}")], &body, timeout_ms, &mut self.errors);
        if r == Res::Unknown { let b = format!("(set-logic ALL)\n{body}"); let tl = format!("--tlimit={timeout_ms}"); let args: Vec<&str> = if body.contains("str.") || body.contains("String") { vec!["cvc5", "--lang=smt2", "--strings-exp", &tl] } else { vec!["cvc5", "--lang=smt2", &tl] }; r = run_solver(&args, &b, timeout_ms, &mut self.errors); }
        if r == Res::Unknown { self.stats.validity_unknown += 1; if let Some(dir) = &self.dump { let _ = std::fs::write(format!("{dir}/UNK{key:x}.smt2"), &body); } }
        self.stats.validity_time += t0.elapsed().as_secs_f64();
        self.vcache.insert(key, r);
        r
    }
}
/// renames v123/e123 in order of appearance so that the cache sees through numbering
fn canon(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = String::with_capacity(b.len());
    let mut map: HashMap<&str, usize> = HashMap::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if (c == b'v' || c == b'e') && i + 1 < b.len() && b[i + 1].is_ascii_digit() && (i == 0 || matches!(b[i - 1], b' ' | b'(')) {
            let st = i;
            i += 1;
            while i < b.len() && b[i].is_ascii_digit() { i += 1; }
            let n = map.len();
            let k = *map.entry(&s[st..i]).or_insert(n);
            out.push_str(&format!("@{k}"));
        } else { out.push(c as char); i += 1; }
    }
    out
}
/// operator names of the form `f$A$B>R` are declared as uninterpreted functions
fn op_signature(op: &str) -> Option<(Vec<String>, String)> {
    let rest = op.strip_prefix("uf!")?;
    let (_, sig) = rest.split_once('!')?;
    let (a, r) = sig.split_once('>')?;
    Some((a.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(), r.to_string()))
}
fn strip_sig(op: &str) -> String { if op.starts_with("uf!") { format!("|{op}|") } else { op.to_string() } }
fn declare_sort(s: &str, out: &mut String, sorts: &mut HashSet<String>) {
    if s.starts_with('(') || s.is_empty() || s.contains(' ') || matches!(s, "Bool" | "Int" | "Real" | "String" | "RegLan") { return; }
    if sorts.insert(s.to_string()) { out.push_str(&format!("(declare-sort {s} 0)\n")); }
}
pub fn run_solver(cmd: &[&str], body: &str, timeout_ms: u64, errors: &mut Vec<String>) -> Res {
    let (mut c, mut i, rx) = Solver::spawn(cmd);
    let b = body.to_string();
    let h = std::thread::spawn(move || { let _ = i.write_all(b.as_bytes()); drop(i); });
    let until = Instant::now() + Duration::from_millis(timeout_ms + 3000);
    let mut res = Res::Unknown;
    loop {
        match Solver::read_line(&rx, until) {
            Some(l) => match l.as_str() { "sat" => { res = Res::Sat; break; } "unsat" => { res = Res::Unsat; break; } "unknown" | "timeout" => { break; } _ => { if l.contains("error") && !l.contains("timeout") && !l.contains("interrupted") && !l.contains("canceled") { errors.push(format!("{} :: {l} :: {}", cmd[0], body.chars().take(2500).collect::<String>())); break; } } },
            None => break,
        }
    }
    let _ = c.kill();
    let _ = c.wait();
    let _ = h.join();
    res
}
pub fn parse_values(t: &str) -> Vec<String> {
    // ((e v) (e v)); returns the v texts
    let mut out = vec![];
    let b: Vec<char> = t.chars().collect();
    let mut depth = 0;
    let mut i = 0;
    let mut start = 0;
    while i < b.len() {
        match b[i] {
            '(' => { depth += 1; if depth == 2 { start = i + 1; } }
            ')' => { if depth == 2 { let s: String = b[start..i].iter().collect(); let s = s.trim(); // skip first token/sexpr
                    let cs: Vec<char> = s.chars().collect();
                    let mut j = 0;
                    if cs[0] == '(' { let mut d = 0; loop { if cs[j] == '(' { d += 1; } if cs[j] == ')' { d -= 1; if d == 0 { j += 1; break; } } j += 1; } } else { while j < cs.len() && !cs[j].is_whitespace() { j += 1; } }
                    out.push(cs[j..].iter().collect::<String>().trim().to_string()); }
                depth -= 1; }
            _ => {}
        }
        i += 1;
    }
    out
}
pub fn parse_bv(s: &str) -> Option<u128> {
    if let Some(x) = s.strip_prefix("#x") { return u128::from_str_radix(x, 16).ok(); }
    if let Some(x) = s.strip_prefix("#b") { return u128::from_str_radix(x, 2).ok(); }
    match s { "true" => Some(1), "false" => Some(0), _ => None }
}

fn i_write(c: &mut Option<(std::process::Child, std::process::ChildStdin, Receiver<String>)>, b: &[u8]) -> bool {
    use std::io::Write;
    let (_, i, _) = c.as_mut().unwrap();
    i.write_all(b).is_ok() && i.flush().is_ok()
}
