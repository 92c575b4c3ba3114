//! carsym: symbolic execution of a linked LLVM program over a list of jobs.
mod builtins;
mod exec;
mod expr;
mod gmp;
mod ir;
mod mem;
mod solver;
use exec::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
struct Work { q: VecDeque<(usize, Vec<u64>)>, active: usize, waiting: usize, njob: Vec<usize>, paths: Vec<u64>, start: Vec<Option<Instant>> }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // carsym prog.ll jobs.txt out.json threads deadline_s job_s max_paths branch_ms valid_ms
    let get = |i: usize, d: u64| a.get(i).and_then(|x| x.parse().ok()).unwrap_or(d);
    let t0 = Instant::now();
    let text = std::fs::read(&a[1]).expect("program");
    let prog = Prog::load(&text);
    drop(text);
    eprintln!("loaded {} functions in {:.1}s", prog.m.funcs.len(), t0.elapsed().as_secs_f64());
    let jobs: Vec<String> = std::fs::read_to_string(&a[2]).expect("jobs").lines().filter(|l| !l.trim().is_empty()).map(|x| x.to_string()).collect();
    let threads = get(4, 8) as usize;
    let deadline = Instant::now() + Duration::from_secs(get(5, 600));
    let job_s = get(6, 60);
    let max_paths = get(7, 100_000);
    let (bms, vms) = (get(8, 2000), get(9, 5000));
    let only_trace: Option<Vec<u64>> = std::env::var("CARSYM_TRACE").ok().map(|t| t.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect());
    let work = Mutex::new(Work { q: jobs.iter().enumerate().map(|(i, _)| (i, only_trace.clone().unwrap_or_default())).collect(), active: 0, waiting: 0, njob: vec![0; jobs.len()], paths: vec![0; jobs.len()], start: vec![None; jobs.len()] });
    let cv = Condvar::new();
    let results: Mutex<BTreeMap<usize, JobResult>> = Mutex::new(BTreeMap::new());
    let totals: Mutex<(solver::Stats, Vec<String>, BTreeSet<u32>)> = Mutex::new(Default::default());
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(sc, || {
                let mut ex = Exec::new(&prog);
                ex.branch_ms = bms;
                ex.valid_ms = vms;
                let mut cur = usize::MAX;
                loop {
                    let (ji, prefix) = {
                        let mut w = work.lock().unwrap();
                        loop {
                            // prefer the current job, whose expressions are already known here
                            let pos = w.q.iter().position(|x| x.0 == cur).or(if w.q.is_empty() { None } else { Some(0) });
                            if let Some(i) = pos { let x = w.q.remove(i).unwrap(); w.active += 1; break x; }
                            if w.active == 0 { cv.notify_all(); let mut t = totals.lock().unwrap(); let s = &ex.sv.stats; t.0.queries += s.queries; t.0.cached += s.cached; t.0.time += s.time; t.0.unknown += s.unknown; t.0.validity += s.validity; t.0.validity_time += s.validity_time; t.0.validity_unknown += s.validity_unknown; t.0.distinct_validity += s.distinct_validity; t.1.extend(ex.sv.errors.iter().cloned()); for (i, f) in ex.funcs.iter().enumerate() { if *f { t.2.insert(i as u32); } } return; }
                            w.waiting += 1;
                            w = cv.wait(w).unwrap();
                            w.waiting -= 1;
                        }
                    };
                    if cur != ji { ex.ar = expr::Arena::new(); ex.sv.reset_job(); cur = ji; }
                    ex.job = jobs[ji].clone();
                    ex.res = JobResult { job: jobs[ji].clone(), complete: true, ..Default::default() };
                    ex.cnames.clear();
                    let (started, done_paths) = { let mut w = work.lock().unwrap(); w.njob[ji] += 1; let s = *w.start[ji].get_or_insert_with(Instant::now); (s, w.paths[ji]) };
                    let ts = Instant::now();
                    let jd = deadline.min(started + Duration::from_secs(job_s));
                    if Instant::now() > jd || done_paths >= max_paths { ex.res.complete = false; ex.res.left += 1; }
                    else {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            let mut share = |stack: &mut Vec<State>| {
                                let mut w = work.lock().unwrap();
                                if w.waiting > 0 && w.q.len() < threads {
                                    let k = (stack.len() / 2).max(1).min(8);
                                    for s in stack.drain(..k) { let mut t = s.trace.clone(); t.extend(s.replay.iter()); w.q.push_back((ji, t)); }
                                    drop(w);
                                    cv.notify_all();
                                }
                            };
                            ex.run(prefix.clone(), jd, max_paths.saturating_sub(done_paths), &mut share);
                        }));
                        if let Err(p) = r { let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default(); ex.res.complete = false; *ex.res.notes.entry(format!("interpreter fault: {m}")).or_default() += 1; ex.sv.reset_job(); cur = usize::MAX; }
                    }
                    let dt = ts.elapsed().as_secs_f64();
                    let r = std::mem::take(&mut ex.res);
                    let mut w = work.lock().unwrap();
                    w.paths[ji] += r.paths;
                    w.active -= 1;
                    let idle = w.active == 0;
                    drop(w);
                    let mut rs = results.lock().unwrap();
                    let e = rs.entry(ji).or_insert_with(|| JobResult { job: jobs[ji].clone(), complete: true, ..Default::default() });
                    e.paths += r.paths; e.steps += r.steps; e.complete &= r.complete; e.wall += dt; e.left += r.left;
                    for (k, v) in r.ends { *e.ends.entry(k).or_default() += v; }
                    for (k, v) in r.counters { *e.counters.entry(k).or_default() += v; }
                    for (k, v) in r.notes { *e.notes.entry(k).or_default() += v; }
                    for (k, v) in r.samples { let d = e.samples.entry(k).or_default(); for x in v { if d.len() < 3 { d.push(x); } } }
                    e.violations.extend(r.violations);
                    drop(rs);
                    if idle { cv.notify_all(); }
                }
            }).unwrap();
        }
    });
    let rs = results.into_inner().unwrap();
    let t = totals.into_inner().unwrap();
    let m = |x: &BTreeMap<String, u64>| format!("{{{}}}", x.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "));
    let mut out = String::from("{\n\"jobs\": [\n");
    for (i, (_, r)) in rs.iter().enumerate() {
        if i > 0 { out.push_str(",\n"); }
        out.push_str(&format!("{{\"job\": {}, \"complete\": {}, \"paths\": {}, \"steps\": {}, \"wall\": {:.2}, \"left\": {}, \"ends\": {}, \"counters\": {}, \"notes\": {}, \"samples\": {{{}}}, \"violations\": [{}]}}", js(&r.job), r.complete, r.paths, r.steps, r.wall, r.left, m(&r.ends), m(&r.counters), m(&r.notes),
            r.samples.iter().map(|(k, v)| format!("{}: [{}]", js(k), v.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", "),
            r.violations.iter().map(|(a, b)| format!("[{}, {}]", js(a), js(b))).collect::<Vec<_>>().join(", ")));
    }
    out.push_str(&format!("\n],\n\"wall\": {:.2},\n\"solver\": {{\"queries\": {}, \"cached\": {}, \"time\": {:.2}, \"unknown\": {}, \"validity\": {}, \"validity_distinct\": {}, \"validity_time\": {:.2}, \"validity_unknown\": {}}},\n\"errors\": [{}],\n\"functions\": [{}]\n}}\n", t0.elapsed().as_secs_f64(), t.0.queries, t.0.cached, t.0.time, t.0.unknown, t.0.validity, t.0.distinct_validity, t.0.validity_time, t.0.validity_unknown,
        t.1.iter().take(20).map(|x| js(x)).collect::<Vec<_>>().join(", "),
        t.2.iter().map(|i| js(&short(&prog.m.funcs[*i as usize].name))).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>().join(", ")));
    std::fs::write(&a[3], out).expect("output");
}
