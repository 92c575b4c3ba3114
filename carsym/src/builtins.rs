//! Functions the interpreter supplies: allocation, memory, intrinsics, and the guest's `cs_` calls.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::sync::Arc;

fn stuck<T>(s: impl Into<String>) -> R<T> { Err(Ev::End("stuck".into(), s.into())) }

impl<'p> Exec<'p> {
    pub fn magic_load(&mut self, _st: &State, a: u64, w: u32) -> R<V> {
        let off = a & 15;
        let e = ((a & 0xff_ffff_ffff) >> 4) as Eid;
        if off != 0 || w != 64 || (e as usize) >= self.ar.n.len() { return stuck(format!("limb access {a:#x} of a symbolic integer")); }
        let s = self.ar.sort(e);
        if s < SORT_BASE {
            // absolute value of a signed bit-vector
            let z = self.ar.cst(s, 0);
            let neg = self.ar.mk(K::Slt, 1, [e, z, 0], 0);
            let m = self.ar.mk(K::Sub, s, [z, e, 0], 0);
            let abs = self.ar.ite(neg, m, e);
            let x = if s >= 64 { self.ar.extract(abs, 0, 64) } else { self.ar.zext(abs, 64) };
            return Ok(self.v(x));
        }
        let int = self.ar.sort_named("Int");
        let ab = self.ar.app("abs", &[e], int);
        let x = self.ar.app("(_ int2bv 64)", &[ab], 64);
        Ok(V::S(x))
    }
    fn s_arg(&mut self, st: &State, p: &V, n: &V) -> R<String> {
        let p = self.conc(st, p)?;
        let n = self.conc(st, n)?;
        let b = self.bytes(st, p, n)?;
        Ok(String::from_utf8_lossy(&b).into_owned())
    }
    fn mcmp(&mut self, st: &State, a: u64, b: u64, n: u64, eq_only: bool) -> R<V> {
        // concrete prefix
        let mut conc = true;
        for i in 0..n { match (st.mem.byte(a + i), st.mem.byte(b + i)) { (Ok(x), Ok(y)) => { if conc && x != y { return Ok(V::C(if x < y { 0xffff_ffff } else { 1 })); } if x != y && eq_only { return Ok(V::C(1)); } } _ => { conc = false; } } }
        if conc { return Ok(V::C(0)); }
        let mut r = self.ar.cst(32, 0);
        let one = self.ar.cst(32, 1);
        let m1 = self.ar.cst(32, 0xffff_ffff);
        for i in (0..n).rev() {
            let g = |s: &mut Self, a: u64| match st.mem.byte(a) { Ok(v) => s.ar.cst(8, v as u128), Err(e) => e };
            let (x, y) = (g(self, a + i), g(self, b + i));
            let q = self.ar.eq(x, y);
            if eq_only { r = self.ar.ite(q, r, one); } else { let lt = self.ar.mk(K::Ult, 1, [x, y, 0], 0); let d = self.ar.ite(lt, m1, one); r = self.ar.ite(q, r, d); }
        }
        Ok(self.v(r))
    }
    pub fn builtin(&mut self, st: &mut State, target: u32, args: &[(Ty, Opd)], a: &[V], ret: &Ty) -> R<Option<V>> {
        let b = self.p.builtin[target as usize];
        let zero = Ok(Some(V::C(0)));
        macro_rules! c { ($i:expr) => { self.conc(st, &a[$i])? } }
        match b {
            B::None => unreachable!(),
            B::Alloc => { let (n, al) = (c!(0), c!(1)); Ok(Some(V::C(self.alloc_checked(st, n, al)?))) }
            B::AllocZ => { let (n, al) = (c!(0), c!(1)); Ok(Some(V::C(self.alloc_checked(st, n, al)?))) }
            B::Dealloc | B::Nop | B::Free => zero,
            B::Realloc => { let (p, o, al, n) = (c!(0), c!(1), c!(2), c!(3)); let q = self.alloc_checked(st, n, al)?; st.mem.copy(q, p, o.min(n)); Ok(Some(V::C(q))) }
            B::Malloc => { let n = c!(0); Ok(Some(V::C(self.alloc_checked(st, n, 16)?))) }
            B::CRealloc => stuck("realloc"),
            B::Zero | B::HashZero => zero,
            B::RandomState => Ok(Some(match ret { Ty::Struct(ts, _) => V::A(Arc::new(vec![V::C(0); ts.len()])), _ => V::C(0) })),
            B::Memcmp | B::Bcmp => { let (x, y, n) = (c!(0), c!(1), c!(2)); Ok(Some(self.mcmp(st, x, y, n, b == B::Bcmp)?)) }
            B::Log2F => { let x = c!(0); Ok(Some(V::C(f32::from_bits(x as u32).log2().to_bits() as u64))) }
            B::Strlen => { let p = c!(0); let mut n = 0; loop { match st.mem.byte(p + n) { Ok(0) => break, Ok(_) => n += 1, Err(_) => return stuck("strlen of symbolic text") } } Ok(Some(V::C(n))) }
            B::Panic => Err(Ev::End("panic".into(), format!("{} in {}", short(&self.p.m.funcs[target as usize].name), self.where_(st)))),
            B::Abort => Err(Ev::End("panic".into(), format!("abort in {}", self.where_(st)))),
            B::FormatInner => {
                // returns an empty String through the sret pointer
                let p = c!(0);
                st.mem.write(p, 8, 0);
                st.mem.write(p + 8, 8, 1);
                st.mem.write(p + 16, 8, 0);
                zero
            }
            B::Clock => { let p = c!(1); st.mem.write(p, 8, 1000); st.mem.write(p + 8, 8, 0); zero }
            B::Redirect(_) => unreachable!(),
            B::Thread(i) => { let n = self.p.names[i as usize].clone(); self.thread(st, &n, a) }
            B::Stuck => stuck(format!("call of {} from {}", self.p.m.funcs[target as usize].name, self.where_(st))),
            B::Gmp(i) => { let n = self.p.names[i as usize].clone(); self.gmp(st, &n, a) }
            B::Llvm(i) => { let n = self.p.names[i as usize].clone(); self.llvm(st, &n, args, a, ret) }
            B::Cs(i) => { let n = self.p.names[i as usize].clone(); self.cs(st, &n, a) }
        }
    }
    fn thread(&mut self, st: &mut State, n: &str, a: &[V]) -> R<Option<V>> {
        macro_rules! c { ($i:expr) => { self.conc(st, &a[$i])? } }
        match n {
            "pthread_create" => {
                let (out, start, arg) = (c!(0), c!(2), c!(3));
                if start < FUNC_BASE { return stuck("thread start"); }
                let fi = ((start - FUNC_BASE) / 16) as u32;
                let f = &self.p.m.funcs[fi as usize];
                if !f.defined || f.params.len() != 1 { return stuck("thread start"); }
                if st.threads.is_empty() {
                    let size = self.p.glob_end - GLOB_BASE;
                    let tls = self.alloc(st, size, 64);
                    st.threads.push(Thread { frames: vec![], sp: 0, tls, wait: Wait::No });
                    st.preempt = st.opts.get("preempt").copied().unwrap_or(0);
                }
                let id = st.threads.len();
                if id >= 24 { return Err(Ev::End("bound".into(), "threads".into())); }
                let size = self.p.glob_end - GLOB_BASE;
                let tls = self.alloc(st, size, 64);
                for (x, n) in &self.p.tls {
                    for i in 0..*n { if let Ok(b) = self.p.init_mem.byte(x + i) { st.mem.write(tls + x - GLOB_BASE + i, 1, b as u64); } }
                }
                let mut regs = vec![V::C(0); f.nregs as usize];
                regs[f.params[0] as usize] = V::C(arg);
                let sp = STACK_BASE + THREAD_STACK * (7 + id as u64);
                self.funcs[fi as usize] = true;
                st.threads.push(Thread { frames: vec![Arc::new(Frame { f: fi, bb: 0, ip: 0, regs, dst: None, sp, normal: None })], sp, tls, wait: Wait::No });
                st.mem.write(out, 8, id as u64);
                Ok(Some(V::C(0)))
            }
            "pthread_key_create" => { let p = c!(0); st.mem.write(p, 4, 7); Ok(Some(V::C(0))) }
            "sysconf" => Ok(Some(V::C(4096))),
            "pthread_self" => Ok(Some(V::C(st.cur as u64))),
            "pthread_join" => {
                let k = c!(0) as usize;
                if st.threads[k].wait == Wait::Done { return Ok(Some(V::C(0))); }
                self.block(st, Wait::Join(k))?;
                Ok(None)
            }
            "syscall" => {
                let nr = c!(0);
                if nr != 202 { return stuck(format!("system call {nr}")); }
                let (p, op) = (c!(1), c!(2) & 127);
                if op == 1 || op == 10 { return Ok(Some(V::C(0))); }
                let v = c!(3) & 0xffff_ffff;
                match st.mem.read(p, 4) {
                    None => stuck("futex"),
                    Some(x) if x != v => Ok(Some(V::C(0))),
                    _ => { self.block(st, Wait::Futex(p, v))?; Ok(None) }
                }
            }
            _ => stuck(n),
        }
    }
    fn alloc_checked(&mut self, st: &mut State, n: u64, al: u64) -> R<u64> {
        if n > 1 << 28 || st.heap + n > 0x5000_0000 { return Err(Ev::End("bound".into(), format!("allocation of {n} bytes in {}", self.where_(st)))); }
        Ok(self.alloc(st, n, al))
    }
    fn llvm(&mut self, st: &mut State, n: &str, args: &[(Ty, Opd)], a: &[V], ret: &Ty) -> R<Option<V>> {
        macro_rules! c { ($i:expr) => { self.conc(st, &a[$i])? } }
        let base = n.strip_prefix("llvm.").unwrap();
        let op: &str = { let mut parts = base.split('.'); let p0 = parts.next().unwrap(); if p0 == "uadd" || p0 == "usub" || p0 == "sadd" || p0 == "ssub" || p0 == "umul" || p0 == "smul" { let p1 = parts.next().unwrap(); &base[..p0.len() + 1 + p1.len()] } else { p0 } };
        let ty = args.first().map(|x| x.0.clone()).unwrap_or(Ty::Void);
        match op {
            "memcpy" | "memmove" => { let (d, s, l) = (c!(0), c!(1), c!(2)); if l > 0 { if !st.mem.ok(d) || !st.mem.ok(s) { return stuck(format!("memcpy {d:#x} {s:#x} {l} in {}", self.where_(st))); } st.mem.copy(d, s, l); } return Ok(Some(V::C(0))); }
            "memset" => { let (d, l) = (c!(0), c!(2)); let v = a[1].clone(); if l > 0 { if !st.mem.ok(d) { return stuck("memset"); } match v { V::C(x) => st.mem.write_bytes(d, &vec![x as u8; l as usize]), V::S(e) => for i in 0..l { st.mem.write_sym(d + i, e) }, _ => return stuck("memset") } } return Ok(Some(V::C(0))); }
            "trap" | "ubsantrap" => return Err(Ev::End("panic".into(), format!("trap in {}", self.where_(st)))),
            "threadlocal" | "ptrmask" | "launder" | "strip" | "expect" => return Ok(Some(a[0].clone())),
            "x86" | "prefetch" | "va_start" | "va_end" | "assume" | "experimental" | "donothing" | "invariant" => return Ok(Some(V::C(0))),
            "is" => return Ok(Some(V::C(0))),
            "objectsize" => return Ok(Some(V::C(!0))),
            _ => {}
        }
        if let Ty::Vec(_, et) = &ty {
            if base.starts_with("vector.reduce") { return self.reduce(base, et, &a[0]); }
            if let V::A(x) = &a[0] {
                let x = x.clone();
                let mut out = vec![];
                let et = (**et).clone();
                for i in 0..x.len() {
                    let mut aa = vec![];
                    let mut tt = vec![];
                    for (k, y) in a.iter().enumerate() { match (y, &args[k].0) { (V::A(z), Ty::Vec(_, t)) => { aa.push(z[i].clone()); tt.push(((**t).clone(), Opd::C(0))); } _ => { aa.push(y.clone()); tt.push((args[k].0.clone(), Opd::C(0))); } } }
                    let _ = &et;
                    out.push(self.llvm(st, n, &tt, &aa, ret.elem(0))?.unwrap());
                }
                return Ok(Some(V::A(Arc::new(out))));
            }
        }
        if base.starts_with("vector.reduce") { return stuck(n); }
        let w = ty.bits();
        let m = mask(w);
        let allc = a.iter().all(|v| matches!(v, V::C(_))) && w <= 64;
        let g = |i: usize| -> u64 { if let V::C(c) = a[i] { c } else { 0 } };
        let pair = |x: u64, o: bool| Ok(Some(V::A(Arc::new(vec![V::C(x & m), V::C(o as u64)]))));
        if allc {
            let (x, y) = (g(0), if a.len() > 1 { g(1) } else { 0 });
            let (sx, sy) = (sext(x, w) as i128, sext(y, w) as i128);
            let sfit = |v: i128| v >= -(1i128 << (w - 1)) && v < (1i128 << (w - 1));
            let fl = |x: u64| if ty == Ty::Float { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
            return match op {
                "uadd.with" => { let r = x as u128 + y as u128; pair(r as u64, r > m as u128) }
                "usub.with" => pair(x.wrapping_sub(y), x < y),
                "umul.with" => { let r = x as u128 * y as u128; pair(r as u64, r > m as u128) }
                "sadd.with" => { let r = sx + sy; pair(r as u64, !sfit(r)) }
                "ssub.with" => { let r = sx - sy; pair(r as u64, !sfit(r)) }
                "smul.with" => { let r = sx * sy; pair(r as u64, !sfit(r)) }
                "uadd.sat" => Ok(Some(V::C((x as u128 + y as u128).min(m as u128) as u64))),
                "usub.sat" => Ok(Some(V::C(x.saturating_sub(y)))),
                "umax" => Ok(Some(V::C(x.max(y)))),
                "umin" => Ok(Some(V::C(x.min(y)))),
                "smax" => Ok(Some(V::C(if sx > sy { x } else { y }))),
                "smin" => Ok(Some(V::C(if sx < sy { x } else { y }))),
                "ucmp" => Ok(Some(V::C((match x.cmp(&y) { std::cmp::Ordering::Less => -1i64, std::cmp::Ordering::Equal => 0, _ => 1 }) as u64 & mask(ret.bits())))),
                "scmp" => Ok(Some(V::C((match sx.cmp(&sy) { std::cmp::Ordering::Less => -1i64, std::cmp::Ordering::Equal => 0, _ => 1 }) as u64 & mask(ret.bits())))),
                "abs" => Ok(Some(V::C(sx.unsigned_abs() as u64 & m))),
                "ctpop" => Ok(Some(V::C(x.count_ones() as u64))),
                "cttz" => Ok(Some(V::C(if x == 0 { w as u64 } else { x.trailing_zeros() as u64 }))),
                "ctlz" => Ok(Some(V::C(if x == 0 { w as u64 } else { x.leading_zeros() as u64 - (64 - w as u64) }))),
                "bswap" => Ok(Some(V::C(x.swap_bytes() >> (64 - w)))),
                "bitreverse" => Ok(Some(V::C(x.reverse_bits() >> (64 - w)))),
                "fshl" => { let s = g(2) % w as u64; let cat = ((x as u128) << w) | y as u128; Ok(Some(V::C(((cat << s) >> w) as u64 & m))) }
                "fshr" => { let s = g(2) % w as u64; let cat = ((x as u128) << w) | y as u128; Ok(Some(V::C((cat >> s) as u64 & m))) }
                "fabs" => Ok(Some(V::C(x & (m >> 1)))),
                "sqrt" => Ok(Some(V::C(if ty == Ty::Float { f32::from_bits(x as u32).sqrt().to_bits() as u64 } else { f64::from_bits(x).sqrt().to_bits() }))),
                "floor" => Ok(Some(V::C(if ty == Ty::Float { f32::from_bits(x as u32).floor().to_bits() as u64 } else { f64::from_bits(x).floor().to_bits() }))),
                "ceil" => Ok(Some(V::C(if ty == Ty::Float { f32::from_bits(x as u32).ceil().to_bits() as u64 } else { f64::from_bits(x).ceil().to_bits() }))),
                "fptoui" => Ok(Some(V::C((fl(x) as u64) & mask(ret.bits())))),
                "fptosi" => Ok(Some(V::C((fl(x) as i64 as u64) & mask(ret.bits())))),
                "stacksave" => Ok(Some(V::C(st.sp))),
                "stackrestore" => Ok(Some(V::C(0))),
                _ => stuck(format!("intrinsic {n}")),
            };
        }
        if matches!(ty, Ty::Double | Ty::Float) { return stuck(format!("symbolic {n}")); }
        let x = self.e(&a[0], w);
        let y = if a.len() > 1 { let wy = args[1].0.bits(); self.e(&a[1], wy) } else { x };
        let pairv = |s: &Self, r: Eid, o: Eid| Ok(Some(V::A(Arc::new(vec![s.v(r), s.v(o)]))));
        match op {
            "uadd.with" => { let r = self.ar.mk(K::Add, w, [x, y, 0], 0); let o = self.ar.mk(K::Ult, 1, [r, x, 0], 0); pairv(self, r, o) }
            "usub.with" => { let r = self.ar.mk(K::Sub, w, [x, y, 0], 0); let o = self.ar.mk(K::Ult, 1, [x, y, 0], 0); pairv(self, r, o) }
            "umul.with" => { let (xx, yy) = (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w)); let p = self.ar.mk(K::Mul, 2 * w, [xx, yy, 0], 0); let r = self.ar.extract(p, 0, w); let h = self.ar.extract(p, w, w); let z = self.ar.cst(w, 0); let q = self.ar.eq(h, z); let o = self.ar.not(q); pairv(self, r, o) }
            "sadd.with" | "ssub.with" | "smul.with" => { let w2 = if op == "smul.with" { 2 * w } else { w + 1 }; let (xx, yy) = (self.ar.sext(x, w2), self.ar.sext(y, w2)); let k = match op { "sadd.with" => K::Add, "ssub.with" => K::Sub, _ => K::Mul }; let p = self.ar.mk(k, w2, [xx, yy, 0], 0); let r = self.ar.extract(p, 0, w); let s = self.ar.sext(r, w2); let q = self.ar.eq(s, p); let o = self.ar.not(q); pairv(self, r, o) }
            "uadd.sat" => { let r = self.ar.mk(K::Add, w, [x, y, 0], 0); let o = self.ar.mk(K::Ult, 1, [r, x, 0], 0); let mx = self.ar.cst(w, !0); let q = self.ar.ite(o, mx, r); Ok(Some(self.v(q))) }
            "usub.sat" => { let r = self.ar.mk(K::Sub, w, [x, y, 0], 0); let o = self.ar.mk(K::Ult, 1, [x, y, 0], 0); let z = self.ar.cst(w, 0); let q = self.ar.ite(o, z, r); Ok(Some(self.v(q))) }
            "umax" | "umin" | "smax" | "smin" => { let k = if op.starts_with('u') { K::Ult } else { K::Slt }; let l = self.ar.mk(k, 1, [x, y, 0], 0); let q = if op.ends_with("max") { self.ar.ite(l, y, x) } else { self.ar.ite(l, x, y) }; Ok(Some(self.v(q))) }
            "ucmp" | "scmp" => { let rw = ret.bits(); let k = if op == "ucmp" { K::Ult } else { K::Slt }; let l = self.ar.mk(k, 1, [x, y, 0], 0); let e = self.ar.eq(x, y); let (z, o, mm) = (self.ar.cst(rw, 0), self.ar.cst(rw, 1), self.ar.cst(rw, !0)); let i = self.ar.ite(e, z, o); let q = self.ar.ite(l, mm, i); Ok(Some(self.v(q))) }
            "abs" => { let z = self.ar.cst(w, 0); let l = self.ar.mk(K::Slt, 1, [x, z, 0], 0); let m = self.ar.mk(K::Sub, w, [z, x, 0], 0); let q = self.ar.ite(l, m, x); Ok(Some(self.v(q))) }
            "bswap" => { let mut r: Option<Eid> = None; for i in 0..w / 8 { let b = self.ar.extract(x, 8 * i, 8); r = Some(match r { None => b, Some(h) => self.ar.concat(h, b) }); } let r = r.unwrap(); Ok(Some(self.v(r))) }
            "ctpop" => { let mut r = self.ar.cst(w, 0); for i in 0..w { let b = self.ar.extract(x, i, 1); let b = self.ar.zext(b, w); r = self.ar.mk(K::Add, w, [r, b, 0], 0); } Ok(Some(self.v(r))) }
            "cttz" => { let mut r = self.ar.cst(w, w as u128); for i in (0..w).rev() { let b = self.ar.extract(x, i, 1); let k = self.ar.cst(w, i as u128); r = self.ar.ite(b, k, r); } Ok(Some(self.v(r))) }
            "ctlz" => { let mut r = self.ar.cst(w, w as u128); for i in 0..w { let b = self.ar.extract(x, i, 1); let k = self.ar.cst(w, (w - 1 - i) as u128); r = self.ar.ite(b, k, r); } Ok(Some(self.v(r))) }
            "fshl" | "fshr" => { let s = self.conc(st, &a[2])? as u32 % w; let cat = self.ar.concat(x, y); let lo = if op == "fshl" { w - s } else { s }; let r = self.ar.extract(cat, lo, w); Ok(Some(self.v(r))) }
            _ => stuck(format!("symbolic intrinsic {n}")),
        }
    }
    fn reduce(&mut self, base: &str, et: &Ty, v: &V) -> R<Option<V>> {
        let op = base.split('.').nth(2).unwrap_or("");
        let o = match op { "or" => Bop::Or, "and" => Bop::And, "add" => Bop::Add, "xor" => Bop::Xor, "mul" => Bop::Mul, _ => return stuck(base) };
        if let V::A(x) = v { let x = x.clone(); let mut r = x[0].clone(); for y in &x[1..] { r = self.bin(o, et, &r, y)?; } return Ok(Some(r)); }
        stuck(base)
    }
    pub fn new_byte(&mut self, st: &mut State, lo: u64, hi: u64) -> V {
        let i = st.nbyte;
        st.nbyte += 1;
        let e = self.ar.bytevar(i);
        let mut d = [0u64; 4];
        for k in lo..=hi { d[(k >> 6) as usize] |= 1 << (k & 63); }
        while st.dom.len() <= i { st.dom.push([!0; 4]); st.domvar_multi.push(false); }
        st.dom[i] = d;
        V::S(e)
    }
    fn sort_of(&mut self, s: &str) -> u32 {
        if let Some(w) = s.strip_prefix("(_ BitVec ").and_then(|x| x.strip_suffix(')')).and_then(|x| x.trim().parse::<u32>().ok()) { if w > 1 { return w; } }
        self.ar.sort_named(s)
    }
    fn cs(&mut self, st: &mut State, n: &str, a: &[V]) -> R<Option<V>> {
        macro_rules! c { ($i:expr) => { self.conc(st, &a[$i])? } }
        macro_rules! s { ($i:expr) => { self.s_arg(st, &a[$i], &a[$i + 1])? } }
        let ok = |v: u64| Ok(Some(V::C(v)));
        match n {
            "cs_job" => { let (p, cap) = (c!(0), c!(1)); let j = self.job.clone(); let b = j.as_bytes(); if b.len() as u64 > cap { return stuck("job text too long"); } st.mem.write_bytes(p, b); ok(b.len() as u64) }
            "cs_choice" => { let k = c!(0); if k <= 1 { return ok(0); } match st.choice.take() { Some(v) => ok(v), None => Err(Ev::Choice(k)) } }
            "cs_byte" => { let (lo, hi) = (c!(0), c!(1)); if lo == hi { return ok(lo); } let v = self.new_byte(st, lo, hi); Ok(Some(v)) }
            "cs_byte_mask" => {
                let p = c!(0); // 32 bytes of mask
                let v = self.new_byte(st, 0, 255);
                let i = st.nbyte - 1;
                for w in 0..4 { st.dom[i][w] = st.mem.read(p + 8 * w as u64, 8).unwrap_or(0); }
                Ok(Some(v))
            }
            "cs_bv" => { let w = c!(0) as u32; let k = st.nvar; st.nvar += 1; let e = self.ar.var(&format!("x{k}"), w); let z = if w < 64 { self.ar.zext(e, 64) } else { e }; Ok(Some(self.v(z))) }
            "cs_assume" => {
                match &a[0] { V::C(x) => if x & 1 == 0 { return Err(Ev::End("infeasible".into(), String::new())); }, V::S(e) => { let e = *e; match self.feasible(st, e) { Res::Unsat => return Err(Ev::End("infeasible".into(), String::new())), _ => self.add(st, e) } } _ => return stuck("assume") }
                ok(0)
            }
            "cs_conc" => { let v = c!(0); ok(v) }
            "cs_pick" => {
                // one model value, fixed from here on
                match &a[0] { V::C(x) => ok(*x), V::S(e) => { let e = *e;
                    if let Some(c) = st.consts.get(&e) { return ok(*c); }
                    match self.model_value(st, e, &[]) { Some(v) => { let w = self.ar.sort(e); let k = self.ar.cst(w, v as u128); let q = self.ar.eq(e, k); self.add(st, q); st.consts.insert(e, v); ok(v) } None => Err(Ev::End("stuck".into(), "no model value".into())) } }
                    _ => stuck("pick") }
            }
            "cs_is_sym" => { let r = match &a[0] { V::C(_) => 0, V::S(_) => match self.conc(st, &a[0]) { Ok(_) => 0, Err(Ev::Val(_)) => 1, Err(e) => return Err(e) }, _ => 0 }; ok(r) }
            "cs_check" => {
                match self.cond(st, &a[0]) { Ok(b) => ok(b as u64), Err(Ev::Cond(e)) => { let ne = self.ar.not(e); let t = self.feasible(st, e); let f = self.feasible(st, ne); ok(match (t, f) { (Res::Unsat, _) => 0, (_, Res::Unsat) => 1, _ => 2 }) } Err(x) => Err(x) }
            }
            "cs_smt_var" => { let (nm, so) = (s!(0), s!(2)); let so = self.sort_of(&so); let e = self.ar.var(&nm, so); ok(e as u64) }
            "cs_smt_fresh" => { let so = s!(0); let so = self.sort_of(&so); let k = st.nvar; st.nvar += 1; let e = self.ar.var(&format!("x{k}"), so); ok(e as u64) }
            "cs_smt_lit" => { let (nm, so) = (s!(0), s!(2)); let so = self.sort_of(&so); let e = if so == 1 && nm == "true" { self.ar.cst(1, 1) } else if so == 1 && nm == "false" { self.ar.cst(1, 0) } else { self.ar.lit(&nm, so) }; ok(e as u64) }
            "cs_smt_app" => {
                let op = s!(0);
                let (p, k) = (c!(2), c!(3));
                let so = s!(4);
                let so = self.sort_of(&so);
                let mut v = vec![];
                for i in 0..k { let x = match st.mem.read(p + 8 * i, 8) { Some(x) => x, None => return stuck("symbolic term handle") }; v.push(x as Eid); }
                if v.is_empty() { let e = self.ar.lit(&op, so); return ok(e as u64); }
                let e = self.smt_app(&op, &v, so);
                ok(e as u64)
            }
            "cs_smt_bool" => { let e = self.e(&a[0], 1); ok(e as u64) }
            "cs_smt_of" => { let w = c!(1) as u32; let e = self.e(&a[0], 64); let e = if w == 1 { self.ar.extract(e, 0, 1) } else { self.ar.extract(e, 0, w) }; ok(e as u64) }
            "cs_smt_val" => { let h = c!(0) as Eid; let w = self.ar.sort(h); if w > 64 { return stuck("wide value"); } let e = if w < 64 { self.ar.zext(h, 64) } else { h }; Ok(Some(self.v(e))) }
            "cs_smt_cond" => { let h = c!(0) as Eid; Ok(Some(self.v(h))) }
            "cs_smt_assume" => { let h = c!(0) as Eid; if self.ar.as_const(h) == Some(0) { return Err(Ev::End("infeasible".into(), String::new())); } self.add(st, h); ok(0) }
            "cs_smt_check" => {
                let h = c!(0) as Eid;
                let ms = c!(1);
                if let Some(v) = self.ar.as_const(h) { if v == 0 { self.res.validity += 1; return ok(0); } }
                let cs = self.slice(st, &[h]);
                let ms = if ms == 0 { self.valid_ms } else { ms };
                let extra = self.extra.clone();
                let r = self.sv.oneshot(&self.ar, &cs, ms, &extra);
                if r == Res::Unknown { *self.res.notes.entry("validity query undecided".into()).or_default() += 1; }
                ok(match r { Res::Unsat => 0, Res::Sat => 1, Res::Unknown => 2 })
            }
            "cs_smt_sort_is" => { let h = c!(0) as Eid; let so = s!(1); let so = self.sort_of(&so); ok((self.ar.sort(h) == so) as u64) }
            "cs_end" => { let (k, m) = (s!(0), s!(2)); Err(Ev::End(k, m)) }
            "cs_emit" => { let (p, l) = (c!(0), c!(1)); let b = self.bytes(st, p, l)?; st.emit.extend(b); ok(0) }
            "cs_emit_clear" => { st.emit.clear(); ok(0) }
            "cs_count" => { let k = s!(0); let i = match self.cnames.iter().position(|x| *x == k) { Some(i) => i, None => { self.cnames.push(k); self.cnames.len() - 1 } }; st.counts.push(i as u32); ok(0) }
            "cs_note" => { let k = s!(0); *self.res.notes.entry(k).or_default() += 1; ok(0) }
            "cs_log" => { let k = s!(0); if self.debug || std::env::var("CARSYM_LOG").is_ok() { eprintln!("[{}] {k}", self.job); } ok(0) }
            "cs_opt" => { let k = s!(0); let v = c!(2); st.opts.insert(k, v); ok(0) }
            "cs_redirected" => { let k = self.p.builtin.iter().any(|b| matches!(b, B::Redirect(_))) as u64; ok(k) }
            "cs_panic_handler" => { st.panic_handler = c!(0); ok(0) }
            "cs_mpz_set_sym" => { let (p, h) = (c!(0), c!(1) as Eid); self.zset_sym(st, p, h)?; ok(0) }
            "cs_mpz_get" => { let p = c!(0); let bv = c!(1) as u32; let z = self.zget(st, p)?; let e = self.zexpr(&z, bv); ok(e as u64) }
            "cs_mpz_is_sym" => { let p = c!(0); let z = self.zget(st, p)?; ok(matches!(z, crate::gmp::Z::S(_)) as u64) }
            "cs_text" => { // SMT text of a handle, for diagnostics
                let h = c!(0) as Eid; let t = self.sv.full_text(&self.ar, h); if std::env::var("CARSYM_LOG").is_ok() { eprintln!("{t}"); } ok(0) }
            _ => stuck(format!("unknown guest call {n}")),
        }
    }
    /// SMT applications over machine Booleans and bit-vectors are folded like machine operators
    pub fn smt_app(&mut self, op: &str, v: &[Eid], so: u32) -> Eid {
        let bo = so == 1;
        if bo {
            match op {
                "not" => return self.ar.not(v[0]),
                "and" => { let mut r = v[0]; for x in &v[1..] { r = self.ar.and(r, *x); } return r; }
                "or" => { let mut r = v[0]; for x in &v[1..] { r = self.ar.or(r, *x); } return r; }
                "=>" => { let mut r = *v.last().unwrap(); for x in v[..v.len() - 1].iter().rev() { let n = self.ar.not(*x); r = self.ar.or(n, r); } return r; }
                "xor" => { let mut r = v[0]; for x in &v[1..] { r = self.ar.mk(K::Xor, 1, [r, *x, 0], 0); } return r; }
                "=" => { let mut r = self.ar.cst(1, 1); for p in v.windows(2) { let q = self.ar.eq(p[0], p[1]); r = self.ar.and(r, q); } return r; }
                "distinct" => { let mut r = self.ar.cst(1, 1); for i in 0..v.len() { for j in 0..i { let q = self.ar.eq(v[i], v[j]); let n = self.ar.not(q); r = self.ar.and(r, n); } } return r; }
                "ite" => return self.ar.ite(v[0], v[1], v[2]),
                _ => {}
            }
        }
        if op == "ite" { return self.ar.ite(v[0], v[1], v[2]); }
        self.ar.app(op, v, so)
    }
}
