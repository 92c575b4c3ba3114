#![allow(dead_code)]
mod cs;
mod enc;
mod lazy;
mod modes;
mod pat;
mod pool;
mod proofs;
mod rules;
#[path = "../../shared/elab.rs"]
mod elab;
#[path = "../../shared/print.rs"]
mod print;
#[path = "../../shared/lexer.rs"]
mod lexer;
#[path = "../../shared/schedule.rs"]
mod schedule;
#[path = "../../shared/slice.rs"]
mod slice;
mod vocab;

pub struct Job(Vec<(String, String)>);
impl Job {
    pub fn parse(s: &str) -> Job {
        // key=value or key={value with spaces}
        let mut v = vec![];
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b' ' { i += 1; continue; }
            let st = i;
            while i < b.len() && b[i] != b'=' && b[i] != b' ' { i += 1; }
            let k = &s[st..i];
            if i >= b.len() || b[i] == b' ' { v.push((k.to_string(), String::new())); continue; }
            i += 1;
            let (st, end) = if i < b.len() && b[i] == b'{' {
                let st = i + 1;
                while b[i] != b'}' { i += 1; }
                i += 1;
                (st, i - 1)
            } else {
                let st = i;
                while i < b.len() && b[i] != b' ' { i += 1; }
                (st, i)
            };
            v.push((k.to_string(), s[st..end].to_string()));
        }
        Job(v)
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        for (a, b) in &self.0 { if a == k { return Some(b); } }
        None
    }
    pub fn num(&self, k: &str, d: usize) -> usize { match self.get(k) { Some(x) => parse_num(x), None => d } }
    pub fn int(&self, k: &str, d: i64) -> i64 {
        match self.get(k) {
            Some(x) => match x.strip_prefix('-') { Some(y) => -(parse_num(y) as i64), None => parse_num(x) as i64 },
            None => d,
        }
    }
    pub fn text(&self, k: &str) -> &str { self.get(k).unwrap_or("") }
}
pub fn parse_num(s: &str) -> usize {
    let mut n = 0usize;
    for b in s.bytes() { n = n * 10 + (b - b'0') as usize; }
    n
}

#[no_mangle]
pub extern "C" fn cs_main() {
    let text = cs::job();
    let j = Job::parse(&text);
    lazy::init();
    if j.get("rule").is_some() { rules::run(&j); }
    if let Some(m) = j.get("mode") { modes::run(m, &j); }
    cs::end("stuck", "unknown job");
}
