//! Copy-on-write byte memory: concrete bytes with a per-byte symbolic overlay.
use crate::expr::{Arena, E};
use std::rc::Rc;

pub const NOE: E = u32::MAX;
pub const PBITS: u64 = 9;
pub const PSIZE: u64 = 1 << PBITS;
pub const HEAP_BASE: u64 = 0x2000_0000;
pub const STACK_BASE: u64 = 0x6000_0000;
pub const STACK_MAX: u64 = 0x0100_0000;
pub const HEAP_MAX: u64 = 0x1000_0000;

#[derive(Clone)]
pub struct Page {
    data: [u8; PSIZE as usize],
    sym: Option<Box<[(E, u8); PSIZE as usize]>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct V {
    pub c: u64,
    pub e: E,
}
impl V {
    #[inline(always)]
    pub fn k(c: u64) -> V {
        V { c, e: NOE }
    }
    #[inline(always)]
    pub fn conc(&self) -> bool {
        self.e == NOE
    }
}

#[derive(Clone)]
pub struct Seg {
    base: u64,
    limit: u64,
    pages: Vec<Rc<Page>>,
}

#[derive(Clone)]
pub struct Mem {
    segs: [Seg; 3],
    pub heap_top: u64,
    pub sp: u64,
}

thread_local! {
    static ZERO: Rc<Page> = Rc::new(Page { data: [0; PSIZE as usize], sym: None });
}

impl Mem {
    pub fn new(globals_base: u64, globals: &[u8]) -> Mem {
        let mut pages = vec![];
        for ch in globals.chunks(PSIZE as usize) {
            let mut p = Page { data: [0; PSIZE as usize], sym: None };
            p.data[..ch.len()].copy_from_slice(ch);
            pages.push(Rc::new(p));
        }
        let glim = globals_base + globals.len() as u64;
        Mem {
            segs: [
                Seg { base: globals_base, limit: glim, pages },
                Seg { base: HEAP_BASE, limit: HEAP_BASE, pages: vec![] },
                Seg { base: STACK_BASE, limit: STACK_BASE, pages: vec![] },
            ],
            heap_top: HEAP_BASE,
            sp: STACK_BASE,
        }
    }
    pub fn alloc(&mut self, size: u64, align: u64) -> Option<u64> {
        let a = align.max(16);
        let p = self.heap_top.div_ceil(a) * a;
        let end = p.checked_add(size.max(1))?;
        if end - HEAP_BASE > HEAP_MAX {
            return None;
        }
        self.heap_top = end;
        self.grow(1, end);
        Some(p)
    }
    pub fn alloca(&mut self, size: u64, align: u64) -> Option<u64> {
        let p = self.sp.div_ceil(align.max(1)) * align.max(1);
        self.sp = p + size;
        if self.sp - STACK_BASE > STACK_MAX {
            return None;
        }
        self.grow(2, self.sp);
        Some(p)
    }
    fn grow(&mut self, s: usize, end: u64) {
        let sg = &mut self.segs[s];
        if end > sg.limit {
            sg.limit = end;
        }
        let n = ((end - sg.base).div_ceil(PSIZE)) as usize;
        if sg.pages.len() < n {
            ZERO.with(|z| sg.pages.resize(n, z.clone()));
        }
    }
    #[inline(always)]
    fn seg(&self, a: u64, n: u64) -> Option<usize> {
        let s = if a >= STACK_BASE {
            2
        } else if a >= HEAP_BASE {
            1
        } else {
            0
        };
        let g = &self.segs[s];
        if a >= g.base && a.wrapping_add(n) <= g.limit && a.wrapping_add(n) >= a {
            Some(s)
        } else {
            None
        }
    }
    #[inline(always)]
    pub fn load(&self, ar: &mut Arena, a: u64, w: u8) -> Option<V> {
        let n = (w as u64).div_ceil(8);
        let s = self.seg(a, n)?;
        let g = &self.segs[s];
        let off = a - g.base;
        let (p, o) = ((off >> PBITS) as usize, (off & (PSIZE - 1)) as usize);
        if o as u64 + n <= PSIZE {
            let pg = &g.pages[p];
            if pg.sym.is_none() {
                let d = &pg.data[o..o + n as usize];
                let mut b = [0u8; 8];
                b[..n as usize].copy_from_slice(d);
                let v = u64::from_le_bytes(b);
                return Some(V::k(if w < 64 { v & ((1u64 << w) - 1) } else { v }));
            }
        }
        Some(self.load_slow(ar, s, off, n, w))
    }
    fn byte(&self, s: usize, off: u64) -> (u8, E, u8) {
        let pg = &self.segs[s].pages[(off >> PBITS) as usize];
        let o = (off & (PSIZE - 1)) as usize;
        match &pg.sym {
            Some(sy) if sy[o].0 != NOE => (0, sy[o].0, sy[o].1),
            _ => (pg.data[o], NOE, 0),
        }
    }
    fn load_slow(&self, ar: &mut Arena, s: usize, off: u64, n: u64, w: u8) -> V {
        let bs: Vec<(u8, E, u8)> = (0..n).map(|i| self.byte(s, off + i)).collect();
        if bs.iter().all(|b| b.1 == NOE) {
            let mut v = 0u64;
            for (i, b) in bs.iter().enumerate() {
                v |= (b.0 as u64) << (8 * i);
            }
            return V::k(if w < 64 { v & ((1u64 << w) - 1) } else { v });
        }
        // maximal slices of one expression
        let mut acc: Option<E> = None;
        let mut i = 0;
        while i < bs.len() {
            let b = bs[i];
            let mut j = i + 1;
            let part = if b.1 == NOE {
                let mut v = b.0 as u64;
                while j < bs.len() && bs[j].1 == NOE {
                    v |= (bs[j].0 as u64) << (8 * (j - i));
                    j += 1;
                }
                ar.konst(v, (8 * (j - i)) as u8)
            } else {
                while j < bs.len() && bs[j].1 == b.1 && bs[j].2 as usize == b.2 as usize + (j - i) {
                    j += 1;
                }
                let ew = ar.w(b.1);
                let lo = 8 * b.2;
                let want = (8 * (j - i)) as u8;
                if ew < lo + want {
                    // sub-byte expression: stored zero-extended
                    let z = ar.zext(b.1, (lo + want).max(8));
                    ar.extract(z, lo, want)
                } else {
                    ar.extract(b.1, lo, want)
                }
            };
            acc = Some(match acc {
                None => part,
                Some(l) => ar.concat(part, l),
            });
            i = j;
        }
        let mut e = acc.unwrap();
        if ar.w(e) > w {
            e = ar.extract(e, 0, w);
        }
        mk(ar, e)
    }
    pub fn store(&mut self, a: u64, w: u8, v: V) -> Option<()> {
        let n = (w as u64).div_ceil(8);
        let s = self.seg(a, n)?;
        let g = &mut self.segs[s];
        let off = a - g.base;
        let (p, o) = ((off >> PBITS) as usize, (off & (PSIZE - 1)) as usize);
        if o as u64 + n <= PSIZE {
            let pg = Rc::make_mut(&mut g.pages[p]);
            if v.conc() {
                let b = v.c.to_le_bytes();
                pg.data[o..o + n as usize].copy_from_slice(&b[..n as usize]);
                if let Some(sy) = &mut pg.sym {
                    for x in &mut sy[o..o + n as usize] {
                        x.0 = NOE;
                    }
                }
            } else {
                let sy = pg.sym.get_or_insert_with(|| Box::new([(NOE, 0); PSIZE as usize]));
                for i in 0..n as usize {
                    sy[o + i] = (v.e, i as u8);
                }
            }
            return Some(());
        }
        for i in 0..n {
            let of = off + i;
            let pg = Rc::make_mut(&mut g.pages[(of >> PBITS) as usize]);
            let o = (of & (PSIZE - 1)) as usize;
            if v.conc() {
                pg.data[o] = (v.c >> (8 * i)) as u8;
                if let Some(sy) = &mut pg.sym {
                    sy[o].0 = NOE;
                }
            } else {
                let sy = pg.sym.get_or_insert_with(|| Box::new([(NOE, 0); PSIZE as usize]));
                sy[o] = (v.e, i as u8);
            }
        }
        Some(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Option<()> {
        if n == 0 || dst == src {
            return Some(());
        }
        let ss = self.seg(src, n)?;
        let ds = self.seg(dst, n)?;
        let so = src - self.segs[ss].base;
        let doff = dst - self.segs[ds].base;
        // gather then scatter, page run by page run
        let mut data = vec![0u8; n as usize];
        let mut sym: Option<Vec<(E, u8)>> = None;
        let mut i = 0u64;
        while i < n {
            let of = so + i;
            let o = (of & (PSIZE - 1)) as usize;
            let k = ((PSIZE - o as u64).min(n - i)) as usize;
            let pg = &self.segs[ss].pages[(of >> PBITS) as usize];
            data[i as usize..i as usize + k].copy_from_slice(&pg.data[o..o + k]);
            if let Some(sy) = &pg.sym {
                let v = sym.get_or_insert_with(|| vec![(NOE, 0); n as usize]);
                v[i as usize..i as usize + k].copy_from_slice(&sy[o..o + k]);
            }
            i += k as u64;
        }
        let mut i = 0u64;
        while i < n {
            let of = doff + i;
            let o = (of & (PSIZE - 1)) as usize;
            let k = ((PSIZE - o as u64).min(n - i)) as usize;
            let pg = Rc::make_mut(&mut self.segs[ds].pages[(of >> PBITS) as usize]);
            let r = i as usize..i as usize + k;
            pg.data[o..o + k].copy_from_slice(&data[r.clone()]);
            match &sym {
                Some(v) if v[r.clone()].iter().any(|x| x.0 != NOE) => {
                    let sy = pg.sym.get_or_insert_with(|| Box::new([(NOE, 0); PSIZE as usize]));
                    sy[o..o + k].copy_from_slice(&v[r]);
                }
                _ => {
                    if let Some(sy) = &mut pg.sym {
                        for x in &mut sy[o..o + k] {
                            x.0 = NOE;
                        }
                    }
                }
            }
            i += k as u64;
        }
        Some(())
    }
    pub fn fill(&mut self, dst: u64, v: V, n: u64) -> Option<()> {
        self.seg(dst, n)?;
        if n == 0 {
            return Some(());
        }
        if v.conc() {
            let w = u64::from_le_bytes([v.c as u8; 8]);
            let mut i = 0;
            while i + 8 <= n {
                self.store(dst + i, 64, V::k(w))?;
                i += 8;
            }
            while i < n {
                self.store(dst + i, 8, v)?;
                i += 1;
            }
        } else {
            for i in 0..n {
                self.store(dst + i, 8, v)?;
            }
        }
        Some(())
    }
    pub fn bytes(&self, a: u64, n: u64) -> Option<Vec<u8>> {
        let s = self.seg(a, n)?;
        let off = a - self.segs[s].base;
        (0..n)
            .map(|i| {
                let b = self.byte(s, off + i);
                if b.1 == NOE {
                    Some(b.0)
                } else {
                    None
                }
            })
            .collect()
    }
}

/// wrap an expression, collapsing constants to concrete values
#[inline]
pub fn mk(ar: &Arena, e: E) -> V {
    match ar.cval(e) {
        Some(c) => V::k(c),
        None => V { c: 0, e },
    }
}
