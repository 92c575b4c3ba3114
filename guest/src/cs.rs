//! Calls into the symbolic executor.
pub type H = u64;
mod raw {
    extern "C" {
        pub fn cs_job(p: *mut u8, cap: u64) -> u64;
        pub fn cs_choice(n: u64) -> u64;
        pub fn cs_byte(lo: u64, hi: u64) -> u8;
        pub fn cs_byte_mask(p: *const u64) -> u8;
        pub fn cs_bv(w: u64) -> u64;
        pub fn cs_assume(b: bool);
        pub fn cs_conc(v: u64) -> u64;
        pub fn cs_pick(v: u64) -> u64;
        pub fn cs_is_sym(v: u64) -> u64;
        pub fn cs_smt_var(p: *const u8, n: u64, s: *const u8, m: u64) -> u64;
        pub fn cs_smt_fresh(s: *const u8, m: u64) -> u64;
        pub fn cs_smt_lit(p: *const u8, n: u64, s: *const u8, m: u64) -> u64;
        pub fn cs_smt_app(p: *const u8, n: u64, a: *const u64, k: u64, s: *const u8, m: u64) -> u64;
        pub fn cs_smt_bool(b: bool) -> u64;
        pub fn cs_smt_of(v: u64, w: u64) -> u64;
        pub fn cs_smt_val(h: u64) -> u64;
        pub fn cs_smt_cond(h: u64) -> bool;
        pub fn cs_smt_assume(h: u64);
        pub fn cs_smt_check(h: u64, ms: u64) -> u64;
        pub fn cs_end(k: *const u8, n: u64, m: *const u8, l: u64) -> !;
        pub fn cs_emit(p: *const u8, n: u64);
        pub fn cs_count(p: *const u8, n: u64);
        pub fn cs_note(p: *const u8, n: u64);
        pub fn cs_log(p: *const u8, n: u64);
        pub fn cs_opt(p: *const u8, n: u64, v: u64);
        pub fn cs_redirected() -> u64;
        pub fn cs_panic_handler(f: usize);
        pub fn cs_mpz_set_sym(p: *mut u8, h: u64);
        pub fn cs_mpz_get(p: *const u8, bv: u64) -> u64;
        pub fn cs_mpz_is_sym(p: *const u8) -> u64;
        pub fn cs_text(h: u64);
    }
}
pub fn job() -> String {
    let mut v = vec![0u8; 4096];
    let n = unsafe { raw::cs_job(v.as_mut_ptr(), 4096) };
    v.truncate(n as usize);
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn choice(n: usize) -> usize { unsafe { raw::cs_choice(n as u64) as usize } }
pub fn byte(lo: u8, hi: u8) -> u8 { unsafe { raw::cs_byte(lo as u64, hi as u64) } }
pub fn byte_mask(m: &[u64; 4]) -> u8 { unsafe { raw::cs_byte_mask(m.as_ptr()) } }
pub fn bv(w: u64) -> u64 { unsafe { raw::cs_bv(w) } }
pub fn assume(b: bool) { unsafe { raw::cs_assume(b) } }
pub fn conc(v: u64) -> u64 { unsafe { raw::cs_conc(v) } }
pub fn concb(v: u8) -> u8 { unsafe { raw::cs_conc(v as u64) as u8 } }
pub fn pick(v: u64) -> u64 { unsafe { raw::cs_pick(v) } }
pub fn is_sym(v: u64) -> bool { unsafe { raw::cs_is_sym(v) != 0 } }
pub fn var(n: &str, s: &str) -> H { unsafe { raw::cs_smt_var(n.as_ptr(), n.len() as u64, s.as_ptr(), s.len() as u64) } }
pub fn fresh(s: &str) -> H { unsafe { raw::cs_smt_fresh(s.as_ptr(), s.len() as u64) } }
pub fn lit(n: &str, s: &str) -> H { unsafe { raw::cs_smt_lit(n.as_ptr(), n.len() as u64, s.as_ptr(), s.len() as u64) } }
pub fn app(op: &str, a: &[H], s: &str) -> H { unsafe { raw::cs_smt_app(op.as_ptr(), op.len() as u64, a.as_ptr(), a.len() as u64, s.as_ptr(), s.len() as u64) } }
pub fn of_bool(b: bool) -> H { unsafe { raw::cs_smt_bool(b) } }
pub fn of(v: u64, w: u64) -> H { unsafe { raw::cs_smt_of(v, w) } }
pub fn val(h: H) -> u64 { unsafe { raw::cs_smt_val(h) } }
pub fn cond(h: H) -> bool { unsafe { raw::cs_smt_cond(h) } }
pub fn smt_assume(h: H) { unsafe { raw::cs_smt_assume(h) } }
/// 0 unsat, 1 sat, 2 unknown
pub fn check(h: H, ms: u64) -> u64 { unsafe { raw::cs_smt_check(h, ms) } }
pub fn end(k: &str, m: &str) -> ! { unsafe { raw::cs_end(k.as_ptr(), k.len() as u64, m.as_ptr(), m.len() as u64) } }
pub fn emit(s: &str) { unsafe { raw::cs_emit(s.as_ptr(), s.len() as u64) } }
pub fn count(s: &str) { unsafe { raw::cs_count(s.as_ptr(), s.len() as u64) } }
pub fn note(s: &str) { unsafe { raw::cs_note(s.as_ptr(), s.len() as u64) } }
pub fn log(s: &str) { unsafe { raw::cs_log(s.as_ptr(), s.len() as u64) } }
pub fn opt(s: &str, v: u64) { unsafe { raw::cs_opt(s.as_ptr(), s.len() as u64, v) } }
pub fn redirected() -> bool { unsafe { raw::cs_redirected() != 0 } }
pub fn panic_handler(f: extern "C" fn(*const u8, usize)) { unsafe { raw::cs_panic_handler(f as usize) } }
pub fn mpz_set_sym(p: &mut rug::Integer, h: H) { unsafe { raw::cs_mpz_set_sym(p.as_raw_mut().cast(), h) } }
pub fn mpz_get(p: &rug::Integer, bv: u64) -> H { unsafe { raw::cs_mpz_get(p.as_raw().cast(), bv) } }
pub fn mpz_is_sym(p: &rug::Integer) -> bool { unsafe { raw::cs_mpz_is_sym(p.as_raw().cast()) != 0 } }
pub fn text(h: H) { unsafe { raw::cs_text(h) } }

pub const B: &str = "Bool";
pub const I: &str = "Int";
pub const RE: &str = "Real";
pub fn tt() -> H { lit("true", B) }
pub fn ff() -> H { lit("false", B) }
pub fn not(a: H) -> H { app("not", &[a], B) }
pub fn and(a: &[H]) -> H { if a.is_empty() { tt() } else { app("and", a, B) } }
pub fn or(a: &[H]) -> H { if a.is_empty() { ff() } else { app("or", a, B) } }
pub fn eq(a: H, b: H) -> H { app("=", &[a, b], B) }
/// decimal text
pub fn num(mut n: u64) -> String {
    if n == 0 { return "0".to_string(); }
    let mut d = [0u8; 20];
    let mut i = 20;
    while n > 0 { i -= 1; d[i] = b'0' + (n % 10) as u8; n /= 10; }
    let mut s = String::new();
    for c in &d[i..] { s.push(*c as char); }
    s
}
