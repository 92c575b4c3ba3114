//! Copy-on-write flat memory whose bytes may be symbolic.
use crate::expr::Eid;
use std::sync::Arc;

pub const PB: u64 = 10; // page bits
pub const PS: usize = 1 << PB;
const L2: usize = 1024;

#[derive(Clone)]
pub struct Page { pub d: [u8; PS], pub s: Option<Box<[u32; PS]>>, pub nsym: u32 }

type Tab = [Option<Arc<Page>>; L2];

#[derive(Clone)]
pub struct Mem { t: Vec<Option<Arc<Tab>>> }

impl Mem {
    pub fn new() -> Self { Mem { t: vec![None; 2048] } }
    #[inline]
    fn page(&self, a: u64) -> Option<&Page> {
        let p = a >> PB;
        let i = (p as usize) / L2;
        if i >= self.t.len() { return None; }
        self.t[i].as_ref()?[(p as usize) % L2].as_deref()
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> Option<&mut Page> {
        let p = a >> PB;
        let i = (p as usize) / L2;
        if i >= self.t.len() { return None; }
        let t = self.t[i].get_or_insert_with(|| Arc::new([const { None }; L2]));
        let t = Arc::make_mut(t);
        let pg = t[(p as usize) % L2].get_or_insert_with(|| Arc::new(Page { d: [0; PS], s: None, nsym: 0 }));
        Some(Arc::make_mut(pg))
    }
    #[inline]
    pub fn ok(&self, a: u64) -> bool { a >= 0x1000 && a < (1 << 31) }
    /// concrete read of up to 8 bytes; None when a symbolic byte is present
    #[inline]
    pub fn read(&self, a: u64, n: usize) -> Option<u64> {
        let off = (a as usize) & (PS - 1);
        if off + n <= PS {
            match self.page(a) {
                None => Some(0),
                Some(p) => {
                    if p.nsym > 0 { if let Some(s) = &p.s { if s[off..off + n].iter().any(|x| *x != 0) { return None; } } }
                    if n == 8 { return Some(u64::from_le_bytes(p.d[off..off + 8].try_into().unwrap())); }
                    let mut v = 0u64;
                    for i in (0..n).rev() { v = (v << 8) | p.d[off + i] as u64; }
                    Some(v)
                }
            }
        } else {
            let mut v = 0u64;
            for i in (0..n).rev() { v = (v << 8) | self.read(a + i as u64, 1)?; }
            Some(v)
        }
    }
    #[inline]
    pub fn byte(&self, a: u64) -> Result<u8, Eid> {
        match self.page(a) {
            None => Ok(0),
            Some(p) => { let off = (a as usize) & (PS - 1); if p.nsym > 0 { if let Some(s) = &p.s { if s[off] != 0 { return Err(s[off] - 1); } } } Ok(p.d[off]) }
        }
    }
    #[inline]
    pub fn write(&mut self, a: u64, n: usize, v: u64) {
        let off = (a as usize) & (PS - 1);
        if off + n <= PS {
            let p = self.page_mut(a).expect("bad address");
            if p.nsym > 0 { if let Some(s) = &mut p.s { for x in &mut s[off..off + n] { if *x != 0 { *x = 0; p.nsym -= 1; } } } }
            p.d[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
        } else { for i in 0..n { self.write(a + i as u64, 1, (v >> (8 * i)) & 255); } }
    }
    pub fn write_sym(&mut self, a: u64, e: Eid) {
        let off = (a as usize) & (PS - 1);
        let p = self.page_mut(a).expect("bad address");
        let s = p.s.get_or_insert_with(|| Box::new([0; PS]));
        if s[off] == 0 { p.nsym += 1; }
        s[off] = e + 1;
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) {
        if n == 0 || dst == src { return; }
        // fast path: no symbolic bytes
        let mut buf: Vec<Result<u8, Eid>> = Vec::new();
        let mut conc: Vec<u8> = Vec::with_capacity(n as usize);
        let mut i = 0u64;
        let mut clean = true;
        while i < n {
            let a = src + i;
            let off = (a as usize) & (PS - 1);
            let k = ((PS - off) as u64).min(n - i) as usize;
            match self.page(a) {
                None => conc.extend(std::iter::repeat(0).take(k)),
                Some(p) => { if p.nsym > 0 && p.s.as_ref().is_some_and(|s| s[off..off + k].iter().any(|x| *x != 0)) { clean = false; break; } conc.extend_from_slice(&p.d[off..off + k]); }
            }
            i += k as u64;
        }
        if clean { self.write_bytes(dst, &conc); return; }
        for i in 0..n { buf.push(self.byte(src + i)); }
        for (i, b) in buf.into_iter().enumerate() { match b { Ok(v) => self.write(dst + i as u64, 1, v as u64), Err(e) => self.write_sym(dst + i as u64, e) } }
    }
    pub fn write_bytes(&mut self, a: u64, b: &[u8]) {
        let mut i = 0usize;
        while i < b.len() {
            let ad = a + i as u64;
            let off = (ad as usize) & (PS - 1);
            let k = (PS - off).min(b.len() - i);
            let p = self.page_mut(ad).expect("bad address");
            if p.nsym > 0 { if let Some(s) = &mut p.s { for x in &mut s[off..off + k] { if *x != 0 { *x = 0; p.nsym -= 1; } } } }
            p.d[off..off + k].copy_from_slice(&b[i..i + k]);
            i += k;
        }
    }
}
