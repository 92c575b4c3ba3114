//! GMP functions on guest memory: exact on concrete numbers, SMT terms on symbolic ones.
use crate::exec::*;
use crate::expr::*;
use crate::ir::Ty;
use rug::integer::Order;
use rug::ops::{DivRounding, Pow, RemRounding};
use rug::{Complete, Integer, Rational};

fn stuck<T>(s: impl Into<String>) -> R<T> { Err(Ev::End("stuck".into(), s.into())) }

#[derive(Clone, Debug)]
pub enum Z { C(Integer), S(Eid) }

impl<'p> Exec<'p> {
    fn rd(&mut self, st: &State, a: u64, n: usize) -> R<u64> {
        match st.mem.read(a, n) { Some(v) => Ok(v), None => { let v = self.load(st, a, &Ty::Int(8 * n as u32))?; self.conc(st, &v) } }
    }
    fn limbs(&mut self, st: &State, d: u64, n: u64) -> R<Integer> {
        let mut l = vec![];
        for i in 0..n { l.push(self.rd(st, d + 8 * i, 8)?); }
        Ok(Integer::from_digits(&l, Order::Lsf))
    }
    pub fn zget(&mut self, st: &State, p: u64) -> R<Z> {
        let d = self.rd(st, p + 8, 8)?;
        if d >= MAGIC {
            // the sign lives in the size field, which inlined code may flip on its own
            let e = ((d & 0xff_ffff_ffff) >> 4) as Eid;
            let exp = self.zsize(e);
            let v = self.load(st, p + 4, &Ty::Int(32))?;
            let s = self.e(&v, 32);
            let raw = self.bytewise(exp);
            if s == exp || s == raw { return Ok(Z::S(e)); }
            let (so, z32) = (self.ar.sort(e), self.ar.cst(32, 0));
            let ne = if so < SORT_BASE { let z = self.ar.cst(so, 0); self.ar.mk(K::Sub, so, [z, e, 0], 0) } else { let int = self.ar.sort_named("Int"); self.ar.app("-", &[e], int) };
            let nexp = self.ar.mk(K::Sub, 32, [z32, exp, 0], 0);
            let nraw = self.ar.mk(K::Sub, 32, [z32, raw, 0], 0);
            let (n1, n2) = (self.bytewise(nexp), self.bytewise(nraw));
            if s == nexp || s == nraw || s == n1 || s == n2 { return Ok(Z::S(ne)); }
            let a = self.ar.mk(K::Slt, 1, [s, z32, 0], 0);
            let b = self.ar.mk(K::Slt, 1, [exp, z32, 0], 0);
            let same = self.ar.eq(a, b);
            return Ok(Z::S(self.ar.ite(same, e, ne)));
        }
        let s = self.rd(st, p + 4, 4)? as u32 as i32;
        if s.unsigned_abs() == 1 && st.mem.read(d, 8).is_none() {
            // one limb that inlined code or `mpn_set_str` has filled with a symbolic value
            let v = self.load(st, d, &Ty::Int(64))?;
            let e = self.e(&v, 64);
            if self.ar.as_const(e).is_none() {
                let w = self.ar.zext(e, 72);
                let z = self.ar.cst(72, 0);
                return Ok(Z::S(if s < 0 { self.ar.mk(K::Sub, 72, [z, w, 0], 0) } else { w }));
            }
        }
        let x = self.limbs(st, d, s.unsigned_abs() as u64)?;
        Ok(Z::C(if s < 0 { -x } else { x }))
    }
    pub fn zset(&mut self, st: &mut State, p: u64, v: &Integer) -> R<()> {
        let l: Vec<u64> = v.to_digits(Order::Lsf);
        let n = l.len().max(1) as u64;
        let d = self.alloc(st, 8 * n, 8);
        for (i, x) in l.iter().enumerate() { st.mem.write(d + 8 * i as u64, 8, *x); }
        st.mem.write(p, 4, n);
        let s = l.len() as i32;
        st.mem.write(p + 4, 4, (if *v < 0 { -s } else { s }) as u32 as u64);
        st.mem.write(p + 8, 8, d);
        Ok(())
    }
    /// size field of a symbolic number: its sign
    fn zsize(&mut self, e: Eid) -> Eid {
        let so = self.ar.sort(e);
        let (neg, zer) = if so < SORT_BASE { let z = self.ar.cst(so, 0); (self.ar.mk(K::Slt, 1, [e, z, 0], 0), self.ar.eq(e, z)) } else { let z = self.ilit(0); let l = self.ar.app("<", &[e, z], 1); (l, self.ar.eq(e, z)) };
        let (c0, c1, cm) = (self.ar.cst(32, 0), self.ar.cst(32, 1), self.ar.cst(32, 0xffff_ffff));
        let s = self.ar.ite(neg, cm, c1);
        self.ar.ite(zer, c0, s)
    }
    /// what a value looks like after a trip through memory
    fn bytewise(&mut self, e: Eid) -> Eid { let b: Vec<Eid> = (0..4).map(|i| self.ar.extract(e, 8 * i, 8)).collect(); let mut r = b[0]; for x in &b[1..] { r = self.ar.concat(*x, r); } r }
    pub fn zset_sym(&mut self, st: &mut State, p: u64, e: Eid) -> R<()> {
        let so = self.ar.sort(e);
        if let Some(c) = self.ar.as_const(e) { let w = so; let mut v = Integer::from(c); if w < 128 && c >> (w - 1) & 1 == 1 { v -= Integer::from(1) << w; } return self.zset(st, p, &v); }
        let s = self.zsize(e);
        st.mem.write(p, 4, 1);
        let v = self.v(s);
        self.store(st, p + 4, &Ty::Int(32), &v)?;
        st.mem.write(p + 8, 8, MAGIC | (e as u64) << 4);
        Ok(())
    }
    fn put(&mut self, st: &mut State, p: u64, z: Z) -> R<()> { match z { Z::C(i) => self.zset(st, p, &i), Z::S(e) => self.zset_sym(st, p, e) } }
    pub fn ilit(&mut self, v: i64) -> Eid { self.ibig(&Integer::from(v)) }
    pub fn ibig(&mut self, v: &Integer) -> Eid { let so = self.ar.sort_named("Int"); let t = if *v < 0 { format!("(- {})", v.clone().abs()) } else { v.to_string() }; self.ar.lit(&t, so) }
    /// expression of a number; bv = 0 for Int
    pub fn zexpr(&mut self, z: &Z, bv: u32) -> Eid {
        match z {
            Z::S(e) => {
                let so = self.ar.sort(*e);
                if bv == 0 && so < SORT_BASE {
                    // a machine number as an integer
                    let int = self.ar.sort_named("Int");
                    let u = self.ar.app("bv2nat", &[*e], int);
                    let z = self.ar.cst(so, 0);
                    let neg = self.ar.mk(K::Slt, 1, [*e, z, 0], 0);
                    let m = self.ibig(&(Integer::from(1) << so));
                    let n = self.ar.app("-", &[u, m], int);
                    return self.ar.ite(neg, n, u);
                }
                if bv > 0 && so >= SORT_BASE { return self.ar.app(&format!("(_ int2bv {bv})"), &[*e], bv); }
                *e
            }
            Z::C(v) => if bv == 0 { self.ibig(v) } else { let m = (Integer::from(1) << bv.min(128)) - 1u32; let u = v.clone() & m; self.ar.cst(bv, u.to_u128().unwrap_or(0)) },
        }
    }
    fn mode(&self, a: &Z, b: &Z) -> u32 { let mut m = 0; for z in [a, b] { if let Z::S(e) = z { let s = self.ar.sort(*e); if s >= SORT_BASE { return 0; } m = s; } } m }
    fn zbin(&mut self, op: &str, a: &Z, b: &Z) -> R<Z> {
        if let (Z::C(x), Z::C(y)) = (a, b) {
            let (x, y) = (x.clone(), y.clone());
            if matches!(op, "tdiv" | "fdiv" | "cdiv" | "trem" | "frem" | "crem" | "mod") && y == 0 { return Err(Ev::End("panic".into(), format!("GMP division by zero in {op}"))); }
            return Ok(Z::C(match op {
                "add" => x + y, "sub" => x - y, "mul" => x * y,
                "tdiv" => x / y, "trem" => x % y,
                "fdiv" => x.div_floor(y), "frem" => x.rem_floor(y), "cdiv" => x.div_ceil(y), "crem" => x.rem_ceil(y),
                "mod" => x.rem_euc(y),
                "and" => x & y, "ior" => x | y, "xor" => x ^ y,
                "gcd" => x.gcd(&y), "lcm" => x.lcm(&y),
                _ => return stuck(format!("gmp op {op}")),
            }));
        }
        let bv = self.mode(a, b);
        if bv > 0 {
            let (x, y) = (self.zexpr(a, bv), self.zexpr(b, bv));
            let k = match op { "add" => K::Add, "sub" => K::Sub, "mul" => K::Mul, "and" => K::And, "ior" => K::Or, "xor" => K::Xor, "tdiv" => K::SDiv, "trem" => K::SRem,
                "fdiv" | "frem" | "cdiv" | "crem" | "mod" => {
                    let q = self.ar.mk(K::SDiv, bv, [x, y, 0], 0);
                    let r = self.ar.mk(K::SRem, bv, [x, y, 0], 0);
                    let z = self.ar.cst(bv, 0);
                    let rz = self.ar.eq(r, z);
                    let rneg = self.ar.mk(K::Slt, 1, [r, z, 0], 0);
                    let yneg = self.ar.mk(K::Slt, 1, [y, z, 0], 0);
                    let same = self.ar.eq(rneg, yneg);
                    let one = self.ar.cst(bv, 1);
                    let nz = self.ar.not(rz);
                    // truncation to floor: subtract one when the remainder is non-zero and of the other sign
                    let res = match op {
                        "fdiv" | "frem" => { let ns = self.ar.not(same); let adj = self.ar.and(nz, ns); if op == "fdiv" { let q1 = self.ar.mk(K::Sub, bv, [q, one, 0], 0); self.ar.ite(adj, q1, q) } else { let r1 = self.ar.mk(K::Add, bv, [r, y, 0], 0); self.ar.ite(adj, r1, r) } }
                        "cdiv" | "crem" => { let adj = self.ar.and(nz, same); if op == "cdiv" { let q1 = self.ar.mk(K::Add, bv, [q, one, 0], 0); self.ar.ite(adj, q1, q) } else { let r1 = self.ar.mk(K::Sub, bv, [r, y, 0], 0); self.ar.ite(adj, r1, r) } }
                        _ => { let ny = self.ar.mk(K::Sub, bv, [z, y, 0], 0); let ay = self.ar.ite(yneg, ny, y); let r1 = self.ar.mk(K::Add, bv, [r, ay, 0], 0); self.ar.ite(rneg, r1, r) }
                    };
                    return Ok(Z::S(res));
                }
                _ => return stuck(format!("symbolic gmp {op}")) };
            return Ok(Z::S(self.ar.mk(k, bv, [x, y, 0], 0)));
        }
        let int = self.ar.sort_named("Int");
        // easy folding
        match (op, a, b) {
            ("add", Z::C(z), s) | ("add" | "sub", s, Z::C(z)) if *z == 0 => return Ok(s.clone()),
            ("mul", Z::C(z), s) | ("mul", s, Z::C(z)) if *z == 1 => return Ok(s.clone()),
            ("mul", Z::C(z), _) | ("mul", _, Z::C(z)) if *z == 0 => return Ok(Z::C(Integer::new())),
            _ => {}
        }
        let (x, y) = (self.zexpr(a, 0), self.zexpr(b, 0));
        let zero = self.ilit(0);
        let e = match op {
            "add" => self.ar.app("+", &[x, y], int),
            "sub" => self.ar.app("-", &[x, y], int),
            "mul" => self.ar.app("*", &[x, y], int),
            // SMT-LIB div/mod are Euclidean
            "mod" => self.ar.app("mod", &[x, y], int),
            "fdiv" | "cdiv" | "tdiv" | "frem" | "crem" | "trem" => {
                let pos = self.ar.app(">", &[y, zero], 1);
                let nx = self.ar.app("-", &[x], int);
                let ny = self.ar.app("-", &[y], int);
                let fl = |s: &mut Self| { let d1 = s.ar.app("div", &[x, y], int); let d2 = s.ar.app("div", &[nx, ny], int); s.ar.ite(pos, d1, d2) };
                let ce = |s: &mut Self| { let d1 = s.ar.app("div", &[nx, y], int); let n1 = s.ar.app("-", &[d1], int); let d2 = s.ar.app("div", &[x, ny], int); let n2 = s.ar.app("-", &[d2], int); s.ar.ite(pos, n1, n2) };
                let q = match &op[..1] {
                    "f" => fl(self),
                    "c" => ce(self),
                    _ => { let xn = self.ar.app(">=", &[x, zero], 1); let same = self.ar.eq(xn, pos); let (f, c) = (fl(self), ce(self)); self.ar.ite(same, f, c) }
                };
                if op.ends_with("div") { q } else { let m = self.ar.app("*", &[q, y], int); self.ar.app("-", &[x, m], int) }
            }
            _ => return stuck(format!("symbolic gmp {op} in Int")),
        };
        Ok(Z::S(e))
    }
    fn zcmp(&mut self, st: &State, a: &Z, b: &Z) -> R<V> {
        if let (Z::C(x), Z::C(y)) = (a, b) { return Ok(V::C((x.cmp(y) as i32) as u32 as u64)); }
        let bv = self.mode(a, b);
        let (x, y) = (self.zexpr(a, bv), self.zexpr(b, bv));
        let eq = self.ar.eq(x, y);
        let lt = if bv > 0 { self.ar.mk(K::Slt, 1, [x, y, 0], 0) } else { self.ar.app("<", &[x, y], 1) };
        let _ = st;
        let (z, o, m) = (self.ar.cst(32, 0), self.ar.cst(32, 1), self.ar.cst(32, 0xffff_ffff));
        let i = self.ar.ite(lt, m, o);
        let r = self.ar.ite(eq, z, i);
        Ok(self.v(r))
    }
    fn qget(&mut self, st: &State, p: u64) -> R<(Z, Z)> { Ok((self.zget(st, p)?, self.zget(st, p + 16)?)) }
    fn qset(&mut self, st: &mut State, p: u64, n: Z, d: Z) -> R<()> {
        let (n, d) = self.qreduce(st, n, d)?;
        self.put(st, p, n)?;
        self.put(st, p + 16, d)
    }
    fn zneg(&mut self, z: &Z) -> Z { match z { Z::C(x) => Z::C(-x.clone()), Z::S(e) => { let so = self.ar.sort(*e); if so < SORT_BASE { let z0 = self.ar.cst(so, 0); Z::S(self.ar.mk(K::Sub, so, [z0, *e, 0], 0)) } else { Z::S(self.ar.app("-", &[*e], so)) } } } }
    /// branch on `x op y`
    fn ztest(&mut self, st: &State, op: &str, x: Eid, y: Eid) -> R<bool> { let c = if op == "=" { self.ar.eq(x, y) } else { self.ar.app(op, &[x, y], 1) }; let v = self.v(c); self.cond(st, &v) }
    fn divides(&mut self, st: &State, d: &Integer, x: Eid) -> R<bool> {
        let (int, dz) = (self.ar.sort_named("Int"), self.ibig(d));
        let (m, zero) = (self.ar.app("mod", &[x, dz], int), self.ilit(0));
        self.ztest(st, "=", m, zero)
    }
    fn zgcd(&mut self, st: &mut State, a: &Z, b: &Z) -> R<Z> {
        match (a, b) {
            (Z::C(_), Z::C(_)) => self.zbin("gcd", a, b),
            (Z::C(c), Z::S(e)) | (Z::S(e), Z::C(c)) => {
                let c = c.clone().abs();
                if self.ar.sort(*e) < SORT_BASE {
                    let Some(k) = c.to_u32().filter(|k| *k > 0 && *k <= 100_000) else { return stuck("gcd of a symbolic machine number") };
                    let w = self.ar.sort(*e);
                    for d in (2..=k).rev().filter(|d| k % d == 0) {
                        let (dz, zero) = (self.ar.cst(w, d as u128), self.ar.cst(w, 0));
                        let r = self.ar.mk(K::SRem, w, [*e, dz, 0], 0);
                        let q = self.ar.eq(r, zero);
                        let v = self.v(q);
                        if self.cond(st, &v)? { return Ok(Z::C(Integer::from(d))); }
                    }
                    return Ok(Z::C(Integer::from(1)));
                }
                if c == 0 { let int = self.ar.sort_named("Int"); return Ok(Z::S(self.ar.app("abs", &[*e], int))); }
                match c.to_u32() {
                    Some(k) if k <= 100_000 => { for d in (2..=k).rev().filter(|d| k % d == 0) { if self.divides(st, &Integer::from(d), *e)? { return Ok(Z::C(Integer::from(d))); } } Ok(Z::C(Integer::from(1))) }
                    _ => stuck("gcd of a symbolic number with a large one"),
                }
            }
            (Z::S(x), Z::S(y)) => {
                let (x, y) = (*x, *y);
                let int = self.ar.sort_named("Int");
                if self.ar.sort(x) < SORT_BASE { return stuck("gcd of symbolic machine numbers"); }
                let zero = self.ilit(0);
                if x == y || self.ztest(st, "=", y, zero)? { return Ok(Z::S(self.ar.app("abs", &[x], int))); }
                if self.ztest(st, "=", x, zero)? { return Ok(Z::S(self.ar.app("abs", &[y], int))); }
                let (g, _, _) = self.common(st, x, y);
                Ok(Z::S(g))
            }
        }
    }
    /// a positive common divisor of two numbers, and the two quotients
    fn common(&mut self, st: &mut State, x: Eid, y: Eid) -> (Eid, Eid, Eid) {
        let int = self.ar.sort_named("Int");
        let one = self.ilit(1);
        let g = self.ar.var(&format!("gcd!{x}!{y}"), int);
        let (p, q) = (self.ar.var(&format!("gcdl!{x}!{y}"), int), self.ar.var(&format!("gcdr!{x}!{y}"), int));
        let pos = self.ar.app(">=", &[g, one], 1);
        self.add(st, pos);
        for (w, k) in [(x, p), (y, q)] { let m = self.ar.app("*", &[g, k], int); let c = self.ar.eq(w, m); self.add(st, c); }
        (g, p, q)
    }
    /// the canonical form of a fraction
    fn qreduce(&mut self, st: &mut State, n: Z, d: Z) -> R<(Z, Z)> {
        let one = || Z::C(Integer::from(1));
        match (n, d) {
            (Z::C(n), Z::C(d)) => { if d == 0 { return Err(Ev::End("panic".into(), "GMP rational with denominator 0".into())); } let (n, d) = Rational::from((n, d)).into_numer_denom(); Ok((Z::C(n), Z::C(d))) }
            (Z::C(n), _) if n == 0 => Ok((Z::C(n), one())),
            (n, Z::C(d)) => {
                if d == 0 { return Err(Ev::End("panic".into(), "GMP rational with denominator 0".into())); }
                if d == 1 { return Ok((n, Z::C(d))); }
                let (n, d) = if d < 0 { (self.zneg(&n), -d) } else { (n, d) };
                if d == 1 { return Ok((n, Z::C(d))); }
                let dz = Z::C(d.clone());
                let g = self.zgcd(st, &n, &dz)?;
                let Z::C(gi) = &g else { return stuck("denominator") };
                let machine = matches!(&n, Z::S(e) if self.ar.sort(*e) < SORT_BASE);
                let q = if *gi == 1 { n } else if machine { let gz = g.clone(); self.zbin("tdiv", &n, &gz)? } else { let gz = g.clone(); self.zbin_exact(&n, &gz) };
                Ok((q, Z::C(d / gi)))
            }
            (n, Z::S(d)) => {
                let w = self.ar.sort(d);
                if w < SORT_BASE {
                    // one path for every value
                    if w > 64 {
                        let (h, z) = (self.ar.extract(d, 63, w - 63), self.ar.cst(w - 63, 0));
                        let q = self.ar.eq(h, z);
                        let v = self.v(q);
                        if !self.cond(st, &v)? { return stuck("large or negative machine number as denominator"); }
                    }
                    let l = if w > 64 { self.ar.extract(d, 0, 64) } else { d };
                    let v = self.v(l);
                    let k = self.conc(st, &v)?;
                    return self.qreduce(st, n, Z::C(Integer::from(k)));
                }
                let int = self.ar.sort_named("Int");
                let zero = self.ilit(0);
                if self.ztest(st, "=", d, zero)? { return Err(Ev::End("panic".into(), "GMP rational with denominator 0".into())); }
                let neg = self.ztest(st, "<", d, zero)?;
                let (n, d) = if neg { (self.zneg(&n), self.ar.app("-", &[d], int)) } else { (n, d) };
                let ne = self.zexpr(&n, 0);
                let m = self.ar.app("mod", &[ne, d], int);
                if self.ztest(st, "=", m, zero)? { return Ok((Z::S(self.ar.app("div", &[ne, d], int)), one())); }
                if let Z::C(c) = &n { if *c == 1 || *c == -1 { return Ok((n, Z::S(d))); } }
                let (_, p, q) = self.common(st, ne, d);
                let two = self.ilit(2);
                let big = self.ar.app(">=", &[q, two], 1);
                self.add(st, big);
                Ok((Z::S(p), Z::S(q)))
            }
        }
    }
    fn zbin_exact(&mut self, a: &Z, b: &Z) -> Z { let int = self.ar.sort_named("Int"); let (x, y) = (self.zexpr(a, 0), self.zexpr(b, 0)); Z::S(self.ar.app("div", &[x, y], int)) }
    pub fn gmp(&mut self, st: &mut State, n: &str, a: &[V]) -> R<Option<V>> {
        let mut c = [0u64; 5];
        for (i, v) in a.iter().enumerate().take(5) { c[i] = self.conc(st, v)?; }
        let none = Ok(Some(V::C(0)));
        let u = |x: u64| Z::C(Integer::from(x));
        let si = |x: u64| Z::C(Integer::from(x as i64));
        let f = n.strip_prefix("__gmp").unwrap();
        macro_rules! z { ($i:expr) => { self.zget(st, c[$i])? } }
        macro_rules! bin { ($op:expr, $x:expr, $y:expr) => {{ let x = $x; let y = $y; let r = self.zbin($op, &x, &y)?; self.put(st, c[0], r)?; return none; }} }
        match f {
            "z_init" | "z_init2" | "q_init" => { self.zset(st, c[0], &Integer::new())?; if f == "q_init" { self.zset(st, c[0] + 16, &Integer::from(1))?; } none }
            "z_clear" | "q_clear" => none,
            "z_init_set" | "z_set" => { let x = z!(1); self.put(st, c[0], x)?; none }
            "z_set_ui" | "z_init_set_ui" => { self.put(st, c[0], u(c[1]))?; none }
            "z_set_si" | "z_init_set_si" => { self.put(st, c[0], si(c[1]))?; none }
            "z_neg" => { let x = z!(1); let r = self.zbin("sub", &u(0), &x)?; self.put(st, c[0], r)?; none }
            "z_add" => bin!("add", z!(1), z!(2)),
            "z_sub" => bin!("sub", z!(1), z!(2)),
            "z_mul" => bin!("mul", z!(1), z!(2)),
            "z_add_ui" => bin!("add", z!(1), u(c[2])),
            "z_sub_ui" => bin!("sub", z!(1), u(c[2])),
            "z_mul_ui" => bin!("mul", z!(1), u(c[2])),
            "z_mul_si" => bin!("mul", z!(1), si(c[2])),
            "z_ui_sub" => bin!("sub", u(c[1]), z!(2)),
            "z_tdiv_q" => bin!("tdiv", z!(1), z!(2)),
            "z_tdiv_r" => bin!("trem", z!(1), z!(2)),
            "z_fdiv_q" => bin!("fdiv", z!(1), z!(2)),
            "z_fdiv_r" => bin!("frem", z!(1), z!(2)),
            "z_cdiv_q" => bin!("cdiv", z!(1), z!(2)),
            "z_cdiv_r" => bin!("crem", z!(1), z!(2)),
            "z_mod" => bin!("mod", z!(1), z!(2)),
            "z_divexact" => { let (x, y) = (z!(1), z!(2)); if self.mode(&x, &y) == 0 && matches!((&x, &y), (Z::S(_), _) | (_, Z::S(_))) { let r = self.zbin_exact(&x, &y); self.put(st, c[0], r)?; return none; } bin!("tdiv", x, y) }
            "z_gcd" => { let (x, y) = (z!(1), z!(2)); let g = self.zgcd(st, &x, &y)?; self.put(st, c[0], g)?; none }
            "z_and" => bin!("and", z!(1), z!(2)),
            "z_ior" => bin!("ior", z!(1), z!(2)),
            "z_xor" => bin!("xor", z!(1), z!(2)),
            "z_cdiv_qr" | "z_fdiv_qr" | "z_tdiv_qr" => { let (x, y) = (z!(2), z!(3)); let k = &f[2..3]; let q = self.zbin(&format!("{k}div"), &x, &y)?; let r = self.zbin(&format!("{k}rem"), &x, &y)?; self.put(st, c[0], q)?; self.put(st, c[1], r)?; none }
            "z_addmul" | "z_addmul_ui" | "z_submul" => { let (o, x) = (z!(0), z!(1)); let y = if f == "z_addmul_ui" { u(c[2]) } else { z!(2) }; let m = self.zbin("mul", &x, &y)?; bin!(if f == "z_submul" { "sub" } else { "add" }, o, m) }
            "z_com" => { let x = z!(1); let m1 = Z::C(Integer::from(-1)); bin!("sub", m1, x) }
            "z_mul_2exp" => { let x = z!(1); match x { Z::C(x) => { let r = x << c[2] as u32; self.zset(st, c[0], &r)?; none } s => { let p = Z::C(Integer::from(1) << c[2] as u32); bin!("mul", s, p) } } }
            "z_fdiv_q_2exp" | "z_tdiv_q_2exp" => { let x = z!(1); let p = Z::C(Integer::from(1) << c[2] as u32); bin!(if f.starts_with("z_f") { "fdiv" } else { "tdiv" }, x, p) }
            "z_fdiv_r_2exp" => { let x = z!(1);
                if let Z::S(e) = &x { let s = self.ar.sort(*e); if s < SORT_BASE { let k = c[2].min(1 << 20) as u32; let r = if k == 0 { self.ar.cst(s, 0) } else if k >= s { *e } else { let l = self.ar.extract(*e, 0, k); self.ar.zext(l, s) }; self.put(st, c[0], Z::S(r))?; return none; } }
                let p = Z::C(Integer::from(1) << c[2] as u32); bin!("frem", x, p) }
            "z_tstbit" => { let x = z!(0); match x { Z::C(x) => Ok(Some(V::C(x.get_bit(c[1] as u32) as u64))), Z::S(e) => { let s = self.ar.sort(e); if s < SORT_BASE { let k = (c[1] as u32).min(s - 1); let b = self.ar.extract(e, k, 1); let b = self.ar.zext(b, 32); return Ok(Some(self.v(b))); } stuck("tstbit of symbolic Int") } } }
            "z_setbit" | "z_clrbit" => { let x = z!(0); let set = f == "z_setbit"; match x { Z::C(mut x) => { x.set_bit(c[1] as u32, set); self.zset(st, c[0], &x)?; none } s => { let m = Integer::from(1) << c[1] as u32; if set { bin!("ior", s, Z::C(m)) } else { bin!("and", s, Z::C(!m)) } } } }
            "z_pow_ui" => { match z!(1) { Z::C(x) => { let r = x.pow(c[2] as u32); self.zset(st, c[0], &r)?; none } _ => stuck("pow of symbolic") } }
            "z_ui_pow_ui" => { let r = Integer::from(c[1]).pow(c[2] as u32); self.zset(st, c[0], &r)?; none }
            "z_cmp" => { let (x, y) = (z!(0), z!(1)); if self.debug { let (ex, ey) = (self.zexpr(&x, 0), self.zexpr(&y, 0)); eprintln!("cmp {} :: {}", self.sv.full_text(&self.ar, ex), self.sv.full_text(&self.ar, ey)); } Ok(Some(self.zcmp(st, &x, &y)?)) }
            "z_cmp_ui" => { let x = z!(0); Ok(Some(self.zcmp(st, &x, &u(c[1]))?)) }
            "z_cmp_si" => { let x = z!(0); Ok(Some(self.zcmp(st, &x, &si(c[1]))?)) }
            "z_sizeinbase" if c[1] == 2 && matches!(self.zget(st, c[0])?, Z::S(_)) => {
                let x = self.zget(st, c[0])?;
                let e = self.zexpr(&x, 0);
                let int = self.ar.sort_named("Int");
                let e = self.ar.app("abs", &[e], int);
                for k in 1..40u32 { let m = self.ibig(&(Integer::from(1) << k)); if self.ztest(st, "<", e, m)? { return Ok(Some(V::C(k as u64))); } }
                stuck("size of an unbounded number")
            }
            "z_sizeinbase" => match z!(0) { Z::C(x) => Ok(Some(V::C(x.to_string_radix(c[1] as i32).trim_start_matches('-').len().max(1) as u64))), _ => { st.tainted = true; Ok(Some(V::C(1))) } },
            "z_get_str" => match z!(2) { Z::C(x) => { let mut s = x.to_string_radix(c[1] as u32 as i32).into_bytes(); s.push(0); let p = if c[0] == 0 { self.alloc(st, s.len() as u64, 1) } else { c[0] }; st.mem.write_bytes(p, &s); Ok(Some(V::C(p))) } _ => { st.tainted = true; let p = if c[0] == 0 { self.alloc(st, 2, 1) } else { c[0] }; st.mem.write_bytes(p, b"?\0"); Ok(Some(V::C(p))) } },
            "z_realloc" => { let d = self.rd(st, c[0] + 8, 8)?; if d >= MAGIC { return stuck("realloc of symbolic"); } let s = self.rd(st, c[0] + 4, 4)? as u32 as i32; let nd = self.alloc(st, 8 * c[1].max(1), 8); st.mem.copy(nd, d, 8 * s.unsigned_abs() as u64); st.mem.write(c[0], 4, c[1].max(1)); st.mem.write(c[0] + 8, 8, nd); Ok(Some(V::C(nd))) }
            "n_set_str" if c[2] > 0 && c[2] <= 12 && (0..c[2]).any(|k| st.mem.read(c[1] + k, 1).is_none()) => {
                // symbolic digits: one limb
                let base = self.ar.cst(64, c[3] as u128);
                let mut x = self.ar.cst(64, 0);
                for k in 0..c[2] {
                    let v = self.load(st, c[1] + k, &Ty::Int(8))?;
                    let e = self.e(&v, 8);
                    let e = self.ar.zext(e, 64);
                    x = self.ar.mk(K::Mul, 64, [x, base, 0], 0);
                    x = self.ar.mk(K::Add, 64, [x, e, 0], 0);
                }
                let v = self.v(x);
                self.store(st, c[0], &Ty::Int(64), &v)?;
                Ok(Some(V::C(1)))
            }
            "n_set_str" => { let b = self.bytes(st, c[1], c[2])?; let mut x = Integer::new(); for d in b { x *= c[3] as u32; x += d as u32; } let l: Vec<u64> = x.to_digits(Order::Lsf); for (i, v) in l.iter().enumerate() { st.mem.write(c[0] + 8 * i as u64, 8, *v); } Ok(Some(V::C(l.len() as u64))) }
            "n_sizeinbase" if c[0] >= MAGIC => {
                if c[2] != 2 { return stuck("size of a symbolic number"); }
                let e = ((c[0] & 0xff_ffff_ffff) >> 4) as Eid;
                let e = self.zexpr(&Z::S(e), 0);
                let int = self.ar.sort_named("Int");
                let e = self.ar.app("abs", &[e], int);
                for k in 1..40u32 { let m = self.ibig(&(Integer::from(1) << k)); if self.ztest(st, "<", e, m)? { return Ok(Some(V::C(k as u64))); } }
                stuck("size of an unbounded number")
            }
            "n_sizeinbase" => { let x = self.limbs(st, c[0], c[1])?; Ok(Some(V::C(x.to_string_radix(c[2] as i32).len() as u64))) }
            "n_scan1" if c[0] >= MAGIC => {
                let e = ((c[0] & 0xff_ffff_ffff) >> 4) as Eid;
                let e = self.zexpr(&Z::S(e), 0);
                for k in 0..40u32 { if !self.divides(st, &(Integer::from(1) << (k + 1)), e)? { return Ok(Some(V::C(k as u64))); } }
                stuck("scan of an unbounded number")
            }
            "n_scan1" => { let mut k = c[1]; if k > 1 << 20 { return stuck("scan"); } loop { let l = self.rd(st, c[0] + 8 * (k / 64), 8)?; if l >> (k % 64) & 1 == 1 { return Ok(Some(V::C(k))); } k += 1; if k > 1 << 20 { return stuck("scan"); } } }
            "q_add" | "q_sub" => { let ((a, b), (x, y)) = (self.qget(st, c[1])?, self.qget(st, c[2])?); let l = self.zbin("mul", &a, &y)?; let r = self.zbin("mul", &x, &b)?; let nn = self.zbin(&f[2..], &l, &r)?; let d = self.zbin("mul", &b, &y)?; self.qset(st, c[0], nn, d)?; none }
            "q_mul" => { let ((a, b), (x, y)) = (self.qget(st, c[1])?, self.qget(st, c[2])?); let nn = self.zbin("mul", &a, &x)?; let d = self.zbin("mul", &b, &y)?; self.qset(st, c[0], nn, d)?; none }
            "q_div" => { let ((a, b), (x, y)) = (self.qget(st, c[1])?, self.qget(st, c[2])?); if let Z::C(x) = &x { if *x == 0 { return Err(Ev::End("panic".into(), format!("division by zero in {}", self.where_(st)))); } } let nn = self.zbin("mul", &a, &y)?; let d = self.zbin("mul", &b, &x)?; self.qset(st, c[0], nn, d)?; none }
            "q_neg" => { let (a, b) = self.qget(st, c[1])?; let m = self.zbin("sub", &u(0), &a)?; self.qset(st, c[0], m, b)?; none }
            "q_set" => { let (a, b) = self.qget(st, c[1])?; self.qset(st, c[0], a, b)?; none }
            "q_canonicalize" => { let (a, b) = self.qget(st, c[0])?; self.qset(st, c[0], a, b)?; none }
            "q_cmp" | "q_cmp_z" | "q_cmp_si" | "q_equal" => {
                let (a, b) = self.qget(st, c[0])?;
                let (x, y) = match f { "q_cmp_z" => (self.zget(st, c[1])?, u(1)), "q_cmp_si" => (si(c[1]), u(c[2])), _ => self.qget(st, c[1])? };
                let l = self.zbin("mul", &a, &y)?; let r = self.zbin("mul", &x, &b)?;
                let v = self.zcmp(st, &l, &r)?;
                if f == "q_equal" { let e = self.e(&v, 32); let z = self.ar.cst(32, 0); let q = self.ar.eq(e, z); let q = self.ar.zext(q, 32); return Ok(Some(self.v(q))); }
                Ok(Some(v))
            }
            "q_cmp_ui" => { let (a, b) = self.qget(st, c[0])?; let l = self.zbin("mul", &a, &u(c[2]))?; let r = self.zbin("mul", &u(c[1]), &b)?; Ok(Some(self.zcmp(st, &l, &r)?)) }
            _ => { let _ = Integer::from(0).add_complete(); stuck(format!("GMP function {n} in {}", self.where_(st))) }
        }
    }
}
trait Dummy { fn add_complete(&self) -> (); }
impl Dummy for Integer { fn add_complete(&self) { let _ = (self + self).complete(); } }
