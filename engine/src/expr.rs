//! Hash-consed symbolic bit-vector expressions (widths 1..=64) with a
//! simplifier built around a linear normal form and unsigned intervals.
//!
//! Every rewrite here is an equivalence over bit-vectors; intervals follow
//! from declared variable bounds only (never from a path condition), so an
//! expression's meaning does not depend on the path it was built on.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u64),
    Var(u32),
    /// c + sum coef*atom (mod 2^w)
    Lin(Box<[(E, u64)]>, u64),
    Mul(E, E),
    UDiv(E, E),
    URem(E, E),
    SDiv(E, E),
    SRem(E, E),
    And(E, E),
    Or(E, E),
    Xor(E, E),
    Shl(E, E),
    LShr(E, E),
    AShr(E, E),
    Zext(E),
    Sext(E),
    /// bits [lo, lo+w)
    Extract(E, u8),
    Concat(E, E),
    Ite(E, E, E),
    Eq(E, E),
    Ult(E, E),
    Slt(E, E),
    Not(E),
}

#[derive(Clone, Debug)]
pub struct Info {
    pub node: Node,
    pub w: u8,
    /// unsigned interval
    pub lo: u64,
    pub hi: u64,
    /// mask of bits that may be non-zero
    pub nz: u64,
    /// can the node (and everything under it) be put into linear integer arithmetic
    pub lia: bool,
}

pub struct Arena {
    pub nodes: Vec<Info>,
    map: HashMap<(Node, u8), E>,
    /// per variable: lo, hi, name
    pub vars: Vec<VarInfo>,
    var_map: HashMap<(u32, u64, u64), u32>,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub lo: u64,
    pub hi: u64,
    pub ord: u32,
    pub e: E,
}

pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn bits_mask(hi: u64) -> u64 {
    if hi == 0 {
        0
    } else {
        u64::MAX >> hi.leading_zeros()
    }
}
pub fn sval(v: u64, w: u8) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}
fn pow2(w: u8) -> i128 {
    1i128 << w
}

impl Arena {
    pub fn new() -> Self {
        Arena {
            nodes: vec![],
            map: HashMap::new(),
            vars: vec![],
            var_map: HashMap::new(),
        }
    }
    #[inline]
    pub fn n(&self, e: E) -> &Node {
        &self.nodes[e as usize].node
    }
    #[inline]
    pub fn i(&self, e: E) -> &Info {
        &self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].w
    }
    pub fn cval(&self, e: E) -> Option<u64> {
        match self.n(e) {
            Node::Const(c) => Some(*c),
            _ => None,
        }
    }
    fn mk(&mut self, node: Node, w: u8) -> E {
        if let Some(&e) = self.map.get(&(node.clone(), w)) {
            return e;
        }
        let (lo, hi, nz) = self.bounds(&node, w);
        // an interval of one point is a constant
        if lo == hi && !matches!(node, Node::Const(_)) {
            let c = self.konst(lo, w);
            self.map.insert((node, w), c);
            return c;
        }
        let lia = self.lia_of(&node, w, hi);
        let e = self.nodes.len() as E;
        self.nodes.push(Info {
            node: node.clone(),
            w,
            lo,
            hi,
            nz,
            lia,
        });
        self.map.insert((node, w), e);
        e
    }
    fn lia_of(&self, node: &Node, w: u8, _hi: u64) -> bool {
        let l = |e: &E| self.i(*e).lia;
        match node {
            Node::Const(_) | Node::Var(_) => true,
            Node::Lin(t, _) => w > 1 && t.iter().all(|(e, c)| {
                let s = sval(*c, w).unsigned_abs();
                l(e) && s <= 1 << 20
            }),
            Node::Zext(a) | Node::Not(a) => l(a),
            Node::Sext(a) => l(a) && self.w(*a) == 1,
            Node::Extract(a, lo) => *lo == 0 && l(a) && self.i(*a).hi <= mask(w),
            Node::Ite(c, a, b) => l(c) && l(a) && l(b),
            Node::Eq(a, b) | Node::Ult(a, b) | Node::Slt(a, b) => l(a) && l(b),
            Node::And(a, b) | Node::Or(a, b) | Node::Xor(a, b) => w == 1 && l(a) && l(b),
            _ => false,
        }
    }
    /// exact integer interval of a linear form (signed coefficients)
    pub fn lin_exact(&self, t: &[(E, u64)], c: u64, w: u8) -> (i128, i128) {
        let (mut l, mut h) = (sval(c, w) as i128, sval(c, w) as i128);
        for (e, k) in t {
            let k = sval(*k, w) as i128;
            let (el, eh) = (self.i(*e).lo as i128, self.i(*e).hi as i128);
            if k >= 0 {
                l = l.saturating_add(k.saturating_mul(el));
                h = h.saturating_add(k.saturating_mul(eh));
            } else {
                l = l.saturating_add(k.saturating_mul(eh));
                h = h.saturating_add(k.saturating_mul(el));
            }
        }
        (l, h)
    }
    fn bounds(&self, node: &Node, w: u8) -> (u64, u64, u64) {
        let m = mask(w);
        let r = |e: &E| (self.i(*e).lo, self.i(*e).hi);
        let nzf = |e: &E| self.i(*e).nz;
        let (lo, hi, nz) = match node {
            Node::Const(c) => (*c, *c, *c),
            Node::Var(v) => {
                let v = &self.vars[*v as usize];
                (v.lo, v.hi, bits_mask(v.hi))
            }
            Node::Lin(t, c) => {
                let (l, h) = self.lin_exact(t, *c, w);
                let k = l.div_euclid(pow2(w));
                if k == h.div_euclid(pow2(w)) {
                    (
                        (l - k * pow2(w)) as u64,
                        (h - k * pow2(w)) as u64,
                        m,
                    )
                } else {
                    (0, m, m)
                }
            }
            Node::UDiv(a, b) => {
                let ((al, ah), (bl, bh)) = (r(a), r(b));
                if bl > 0 {
                    (al / bh, ah / bl, m)
                } else {
                    (0, m, m)
                }
            }
            Node::URem(a, b) => {
                let ((_, ah), (bl, bh)) = (r(a), r(b));
                if bl > 0 {
                    (0, ah.min(bh - 1), m)
                } else {
                    (0, m, m)
                }
            }
            Node::Mul(a, b) => {
                let ((al, ah), (bl, bh)) = (r(a), r(b));
                match ah.checked_mul(bh) {
                    Some(h) if h <= m => (al * bl, h, m),
                    _ => (0, m, m),
                }
            }
            Node::And(a, b) => (0, r(a).1.min(r(b).1), nzf(a) & nzf(b)),
            Node::Or(a, b) => (r(a).0.max(r(b).0), m, nzf(a) | nzf(b)),
            Node::Xor(a, b) => (0, m, nzf(a) | nzf(b)),
            Node::Zext(a) => (r(a).0, r(a).1, nzf(a)),
            Node::Extract(a, lo) => {
                let (al, ah) = r(a);
                let (sl, sh) = (al >> lo, ah >> lo);
                if sl >> (w.min(63)) == sh >> (w.min(63)) && w < 64 {
                    (sl & m, sh & m, (nzf(a) >> lo) & m)
                } else if w == 64 {
                    (sl, sh, nzf(a) >> lo)
                } else {
                    (0, m, (nzf(a) >> lo) & m)
                }
            }
            Node::Concat(h, l) => {
                let wl = self.w(*l);
                (
                    r(h).0 << wl | r(l).0,
                    r(h).1 << wl | r(l).1,
                    nzf(h) << wl | nzf(l),
                )
            }
            Node::Ite(_, a, b) => (
                r(a).0.min(r(b).0),
                r(a).1.max(r(b).1),
                nzf(a) | nzf(b),
            ),
            Node::LShr(a, _) => (0, r(a).1, m),
            _ => (0, m, m),
        };
        let nz = nz & bits_mask(hi) & m;
        let hi = hi.min(nz);
        (lo.min(hi), hi, nz)
    }
    pub fn konst(&mut self, c: u64, w: u8) -> E {
        self.mk(Node::Const(c & mask(w)), w)
    }
    pub fn var(&mut self, ord: u32, lo: u64, hi: u64) -> E {
        if lo == hi {
            return self.konst(lo, 64);
        }
        if let Some(&v) = self.var_map.get(&(ord, lo, hi)) {
            return self.vars[v as usize].e;
        }
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { lo, hi, ord, e: 0 });
        let e = self.mk(Node::Var(id), 64);
        self.vars[id as usize].e = e;
        self.var_map.insert((ord, lo, hi), id);
        e
    }
    // ---- linear forms
    fn lin_parts(&self, e: E) -> (Vec<(E, u64)>, u64) {
        match self.n(e) {
            Node::Const(c) => (vec![], *c),
            Node::Lin(t, c) => (t.to_vec(), *c),
            _ => (vec![(e, 1)], 0),
        }
    }
    fn mk_lin(&mut self, mut t: Vec<(E, u64)>, c: u64, w: u8) -> E {
        let m = mask(w);
        t.sort_unstable();
        let mut out: Vec<(E, u64)> = Vec::with_capacity(t.len());
        for (e, k) in t {
            if let Some(l) = out.last_mut() {
                if l.0 == e {
                    l.1 = l.1.wrapping_add(k) & m;
                    continue;
                }
            }
            out.push((e, k & m));
        }
        out.retain(|x| x.1 != 0);
        let c = c & m;
        if out.is_empty() {
            return self.konst(c, w);
        }
        if out.len() == 1 && out[0].1 == 1 && c == 0 {
            return out[0].0;
        }
        self.mk(Node::Lin(out.into_boxed_slice(), c), w)
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (mut ta, ca) = self.lin_parts(a);
        let (tb, cb) = self.lin_parts(b);
        ta.extend(tb);
        self.mk_lin(ta, ca.wrapping_add(cb), w)
    }
    pub fn mulc(&mut self, a: E, k: u64) -> E {
        let w = self.w(a);
        let (t, c) = self.lin_parts(a);
        let t = t.into_iter().map(|(e, x)| (e, x.wrapping_mul(k))).collect();
        self.mk_lin(t, c.wrapping_mul(k), w)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let nb = self.mulc(b, u64::MAX);
        self.add(a, nb)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        if let Some(c) = self.cval(a) {
            return self.mulc(b, c);
        }
        if let Some(c) = self.cval(b) {
            return self.mulc(a, c);
        }
        let w = self.w(a);
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Node::Mul(a, b), w)
    }
    pub fn not(&mut self, a: E) -> E {
        debug_assert_eq!(self.w(a), 1);
        match *self.n(a) {
            Node::Const(c) => self.konst(c ^ 1, 1),
            Node::Not(x) => x,
            _ => self.mk(Node::Not(a), 1),
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.konst(x & c, w);
            }
            let nz = self.i(a).nz;
            if nz & c == 0 {
                return self.konst(0, w);
            }
            if nz & !c == 0 {
                return a;
            }
            // low mask
            if c & c.wrapping_add(1) == 0 {
                let k = c.count_ones() as u8;
                let x = self.extract(a, 0, k);
                return self.zext(x, w);
            }
        }
        if w == 1 {
            if let Node::Not(x) = *self.n(a) {
                if x == b {
                    return self.konst(0, 1);
                }
            }
            if let Node::Not(x) = *self.n(b) {
                if x == a {
                    return self.konst(0, 1);
                }
            }
        }
        if self.i(a).nz & self.i(b).nz == 0 {
            return self.konst(0, w);
        }
        let (a, b) = if a < b || self.cval(b).is_some() { (a, b) } else { (b, a) };
        self.mk(Node::And(a, b), w)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.konst(x | c, w);
            }
            if c == 0 {
                return a;
            }
            if c == mask(w) {
                return b;
            }
        }
        if w == 1 {
            // de Morgan keeps a single connective
            let (na, nb) = (self.not(a), self.not(b));
            let x = self.and(na, nb);
            return self.not(x);
        }
        if self.i(a).nz & self.i(b).nz == 0 {
            return self.add(a, b);
        }
        let (a, b) = if a < b || self.cval(b).is_some() { (a, b) } else { (b, a) };
        self.mk(Node::Or(a, b), w)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.konst(0, w);
        }
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.cval(b) {
            if let Some(x) = self.cval(a) {
                return self.konst(x ^ c, w);
            }
            if c == 0 {
                return a;
            }
            if w == 1 {
                return self.not(a);
            }
            if c == mask(w) {
                // !a = -a - 1
                let na = self.mulc(a, u64::MAX);
                let k = self.konst(u64::MAX, w);
                return self.add(na, k);
            }
        }
        let (a, b) = if a < b || self.cval(b).is_some() { (a, b) } else { (b, a) };
        self.mk(Node::Xor(a, b), w)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cval(b) {
            if k >= w as u64 {
                return self.konst(0, w);
            }
            return self.mulc(a, 1u64 << k);
        }
        self.mk(Node::Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cval(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u64 {
                return self.konst(0, w);
            }
            let x = self.extract(a, k as u8, w - k as u8);
            return self.zext(x, w);
        }
        self.mk(Node::LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cval(b) {
            let k = k.min(w as u64 - 1);
            if k == 0 {
                return a;
            }
            let x = self.extract(a, k as u8, w - k as u8);
            return self.sext(x, w);
        }
        self.mk(Node::AShr(a, b), w)
    }
    pub fn udivrem(&mut self, a: E, b: E, rem: bool) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            if y != 0 {
                return self.konst(if rem { x % y } else { x / y }, w);
            }
        }
        if let Some(y) = self.cval(b) {
            if y == 1 {
                return if rem { self.konst(0, w) } else { a };
            }
            if y.is_power_of_two() {
                let k = y.trailing_zeros() as u64;
                if rem {
                    let m = self.konst(y - 1, w);
                    return self.and(a, m);
                }
                let k = self.konst(k, w);
                return self.lshr(a, k);
            }
            if self.i(a).hi < y {
                return if rem { a } else { self.konst(0, w) };
            }
        }
        self.mk(if rem { Node::URem(a, b) } else { Node::UDiv(a, b) }, w)
    }
    pub fn sdivrem(&mut self, a: E, b: E, rem: bool) -> E {
        let w = self.w(a);
        let half = mask(w) >> 1;
        if self.i(a).hi <= half && self.i(b).hi <= half {
            return self.udivrem(a, b, rem);
        }
        self.mk(if rem { Node::SRem(a, b) } else { Node::SDiv(a, b) }, w)
    }
    /// is this expression's integer reading (signed coefficients) always equal to its unsigned value
    pub fn exact(&self, e: E) -> bool {
        match self.n(e) {
            Node::Lin(t, c) => {
                let w = self.w(e);
                let (l, h) = self.lin_exact(t, *c, w);
                l >= 0 && h < pow2(w)
            }
            _ => true,
        }
    }
    /// as `exact`, for the signed value
    pub fn sexact(&self, e: E) -> bool {
        let w = self.w(e);
        match self.n(e) {
            Node::Lin(t, c) => {
                let (l, h) = self.lin_exact(t, *c, w);
                l >= -pow2(w - 1) && h < pow2(w - 1)
            }
            Node::Const(_) => true,
            _ => self.i(e).hi <= mask(w) >> 1,
        }
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        match self.n(a).clone() {
            Node::Const(c) => self.konst(c, w),
            Node::Zext(x) => self.zext(x, w),
            Node::Extract(x, 0) if self.w(x) == w && self.i(x).nz & !mask(wa) == 0 => x,
            Node::Lin(t, c) if self.exact(a) => {
                let mut acc = self.konst(sval(c, wa) as u64, w);
                for (e, k) in t.iter() {
                    let z = self.zext(*e, w);
                    let z = self.mulc(z, sval(*k, wa) as u64);
                    acc = self.add(acc, z);
                }
                acc
            }
            _ => self.mk(Node::Zext(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(c) = self.cval(a) {
            return self.konst(sval(c, wa) as u64, w);
        }
        if self.i(a).hi <= mask(wa) >> 1 {
            return self.zext(a, w);
        }
        if wa == 1 {
            let (x, z) = (self.konst(u64::MAX, w), self.konst(0, w));
            return self.ite(a, x, z);
        }
        self.mk(Node::Sext(a), w)
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        let nz = self.i(a).nz;
        if (nz >> lo) & mask(w) == 0 {
            return self.konst(0, w);
        }
        match self.n(a).clone() {
            Node::Const(c) => self.konst(c >> lo, w),
            Node::Extract(x, l2) => self.extract(x, l2 + lo, w),
            Node::Concat(h, l) => {
                let wl = self.w(l);
                if lo >= wl {
                    self.extract(h, lo - wl, w)
                } else if lo + w <= wl {
                    self.extract(l, lo, w)
                } else {
                    let lw = wl - lo;
                    let lp = self.extract(l, lo, lw);
                    let hp = self.extract(h, 0, w - lw);
                    self.concat(hp, lp)
                }
            }
            Node::Zext(x) => {
                let wx = self.w(x);
                if lo >= wx {
                    self.konst(0, w)
                } else if lo + w <= wx {
                    self.extract(x, lo, w)
                } else {
                    let p = self.extract(x, lo, wx - lo);
                    self.zext(p, w)
                }
            }
            Node::Ite(c, x, y) => {
                let (x, y) = (self.extract(x, lo, w), self.extract(y, lo, w));
                if self.cval(x).is_some() || self.cval(y).is_some() || lo == 0 {
                    self.ite(c, x, y)
                } else {
                    self.mk(Node::Extract(a, lo), w)
                }
            }
            Node::Lin(t, c) if lo == 0 && t.iter().all(|(e, _)| matches!(self.n(*e), Node::Zext(x) if self.w(*x) <= w)) => {
                let mut acc = self.konst(c, w);
                for (e, k) in t.iter() {
                    let x = self.extract(*e, 0, w);
                    let x = self.mulc(x, *k);
                    acc = self.add(acc, x);
                }
                acc
            }
            _ => self.mk(Node::Extract(a, lo), w),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.cval(h), self.cval(l)) {
            return self.konst(x << wl | y, w);
        }
        if self.cval(h) == Some(0) {
            return self.zext(l, w);
        }
        if let (Node::Extract(x, lx), Node::Extract(y, ly)) = (self.n(h).clone(), self.n(l).clone()) {
            if x == y && lx == ly + wl {
                return self.extract(x, ly, w);
            }
        }
        // extract(x, k..) above a direct small x is handled by the memory layer
        self.mk(Node::Concat(h, l), w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.cval(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Node::Not(x) = *self.n(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        if let Node::Ite(c2, x, _) = *self.n(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let Node::Ite(c2, _, y) = *self.n(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        self.mk(Node::Ite(c, a, b), w)
    }
    /// integer interval of b - a when both integer readings are exact
    fn diff(&self, a: E, b: E) -> (i128, i128) {
        let w = self.w(a);
        let (ta, ca) = self.lin_parts(a);
        let (tb, cb) = self.lin_parts(b);
        let mut m: HashMap<E, i128> = HashMap::new();
        // constants/coefs in signed reading (as used by lin_exact); a bare constant is unsigned
        let cs = |e: E, c: u64| -> i128 {
            if matches!(self.n(e), Node::Const(_)) {
                c as i128
            } else {
                sval(c, w) as i128
            }
        };
        let c = cs(b, cb) - cs(a, ca);
        for (e, k) in tb {
            *m.entry(e).or_default() += sval(k, w) as i128;
        }
        for (e, k) in ta {
            *m.entry(e).or_default() -= sval(k, w) as i128;
        }
        let (mut l, mut h) = (c, c);
        for (e, k) in m {
            let (el, eh) = (self.i(e).lo as i128, self.i(e).hi as i128);
            if k >= 0 {
                l = l.saturating_add(k.saturating_mul(el));
                h = h.saturating_add(k.saturating_mul(eh));
            } else {
                l = l.saturating_add(k.saturating_mul(eh));
                h = h.saturating_add(k.saturating_mul(el));
            }
        }
        (l, h)
    }
    fn sdiff(&self, a: E, b: E) -> (i128, i128) {
        let w = self.w(a);
        let (mut l, mut h) = self.diff(a, b);
        // `diff` read bare constants as unsigned; shift to the signed reading
        for (e, s) in [(a, 1i128), (b, -1)] {
            if let Some(c) = self.cval(e) {
                if c > mask(w) >> 1 {
                    l += s * pow2(w);
                    h += s * pow2(w);
                }
            }
        }
        (l, h)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.konst(1, 1);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        let (ia, ib) = (self.i(a), self.i(b));
        if ia.hi < ib.lo || ib.hi < ia.lo {
            return self.konst(0, 1);
        }
        let d = self.sub(a, b);
        if let Some(c) = self.cval(d) {
            return self.konst((c == 0) as u64, 1);
        }
        // exact integer difference that excludes every multiple of 2^w
        if let Node::Lin(t, c) = self.n(d) {
            let (l, h) = self.lin_exact(t, *c, w);
            let k = l.div_euclid(pow2(w)) + if l.rem_euclid(pow2(w)) == 0 { 0 } else { 1 };
            if k * pow2(w) > h {
                return self.konst(0, 1);
            }
        } else if self.i(d).lo > 0 {
            return self.konst(0, 1);
        }
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(cb) = self.cval(b) {
            match self.n(a).clone() {
                Node::Lin(t, c) => {
                    if c != 0 {
                        let x = self.mk_lin(t.to_vec(), 0, w);
                        let y = self.konst(cb.wrapping_sub(c), w);
                        return self.eq(x, y);
                    }
                    if t.len() == 1 && t[0].1 == mask(w) {
                        let y = self.konst(cb.wrapping_neg(), w);
                        return self.eq(t[0].0, y);
                    }
                }
                Node::Zext(x) => {
                    let wx = self.w(x);
                    if wx == 1 {
                        return match cb {
                            0 => self.not(x),
                            1 => x,
                            _ => self.konst(0, 1),
                        };
                    }
                    if cb & !mask(wx) != 0 {
                        return self.konst(0, 1);
                    }
                    let y = self.konst(cb, wx);
                    return self.eq(x, y);
                }
                Node::Ite(c, x, y) => {
                    let (cx, cy) = (self.cval(x), self.cval(y));
                    if cx.is_some() || cy.is_some() {
                        let ex = self.eq(x, b);
                        let ey = self.eq(y, b);
                        return self.ite(c, ex, ey);
                    }
                }
                Node::Extract(x, 0) if self.i(x).nz & !mask(w) == 0 => {
                    let wx = self.w(x);
                    let y = self.konst(cb, wx);
                    return self.eq(x, y);
                }
                _ => {}
            }
        }
        let (a, b) = if a < b || self.cval(b).is_some() { (a, b) } else { (b, a) };
        self.mk(Node::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.konst(0, 1);
        }
        let w = self.w(a);
        let (ia, ib) = (self.i(a), self.i(b));
        if ia.hi < ib.lo {
            return self.konst(1, 1);
        }
        if ia.lo >= ib.hi {
            return self.konst(0, 1);
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if self.exact(a) && self.exact(b) {
            let (l, h) = self.diff(a, b);
            if l > 0 {
                return self.konst(1, 1);
            }
            if h <= 0 {
                return self.konst(0, 1);
            }
        }
        if let Some(1) = self.cval(b) {
            let z = self.konst(0, w);
            return self.eq(a, z);
        }
        if let Some(0) = self.cval(a) {
            let e = self.eq(b, a);
            return self.not(e);
        }
        // strip zext/ite against constants
        if let Node::Ite(c, x, y) = *self.n(a) {
            if self.cval(b).is_some() && (self.cval(x).is_some() || self.cval(y).is_some()) {
                let (p, q) = (self.ult(x, b), self.ult(y, b));
                return self.ite(c, p, q);
            }
        }
        if let Node::Ite(c, x, y) = *self.n(b) {
            if self.cval(a).is_some() && (self.cval(x).is_some() || self.cval(y).is_some()) {
                let (p, q) = (self.ult(a, x), self.ult(a, y));
                return self.ite(c, p, q);
            }
        }
        // move constants: x + c < k with everything exact
        if self.exact(a) && self.exact(b) {
            if let (Node::Lin(t, c), Some(k)) = (self.n(a).clone(), self.cval(b)) {
                if c != 0 {
                    let cs = sval(c, w) as i128;
                    let nk = k as i128 - cs;
                    let x = self.mk_lin(t.to_vec(), 0, w);
                    if self.exact(x) && nk >= 0 && nk < pow2(w) {
                        let y = self.konst(nk as u64, w);
                        return self.ult(x, y);
                    }
                }
            }
            if let (Some(k), Node::Lin(t, c)) = (self.cval(a), self.n(b).clone()) {
                if c != 0 {
                    let cs = sval(c, w) as i128;
                    let nk = k as i128 - cs;
                    let x = self.mk_lin(t.to_vec(), 0, w);
                    if self.exact(x) && nk >= 0 && nk < pow2(w) {
                        let y = self.konst(nk as u64, w);
                        return self.ult(y, x);
                    }
                }
            }
        }
        self.mk(Node::Ult(a, b), 1)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.konst(0, 1);
        }
        let w = self.w(a);
        let half = mask(w) >> 1;
        if w > 1 && self.i(a).hi <= half && self.i(b).hi <= half {
            return self.ult(a, b);
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.konst((sval(x, w) < sval(y, w)) as u64, 1);
        }
        if self.i(a).lo > half && self.i(b).hi <= half {
            return self.konst(1, 1);
        }
        if self.i(b).lo > half && self.i(a).hi <= half {
            return self.konst(0, 1);
        }
        if self.sexact(a) && self.sexact(b) {
            let (l, h) = self.sdiff(a, b);
            if l > 0 {
                return self.konst(1, 1);
            }
            if h <= 0 {
                return self.konst(0, 1);
            }
        }
        if let Node::Ite(c, x, y) = *self.n(a) {
            if self.cval(b).is_some() && (self.cval(x).is_some() || self.cval(y).is_some()) {
                let (p, q) = (self.slt(x, b), self.slt(y, b));
                return self.ite(c, p, q);
            }
        }
        if let Node::Ite(c, x, y) = *self.n(b) {
            if self.cval(a).is_some() && (self.cval(x).is_some() || self.cval(y).is_some()) {
                let (p, q) = (self.slt(a, x), self.slt(a, y));
                return self.ite(c, p, q);
            }
        }
        self.mk(Node::Slt(a, b), 1)
    }
    // ---- evaluation under a full assignment (var id -> value)
    pub fn eval(&self, e: E, model: &[u64], memo: &mut HashMap<E, u64>) -> u64 {
        if let Node::Const(c) = self.n(e) {
            return *c;
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let w = self.w(e);
        let m = mask(w);
        let v = match self.n(e) {
            Node::Const(c) => *c,
            Node::Var(v) => model
                .get(*v as usize)
                .copied()
                .unwrap_or(self.vars[*v as usize].lo),
            Node::Lin(t, c) => {
                let mut s = *c;
                for (x, k) in t.iter() {
                    s = s.wrapping_add(self.eval(*x, model, memo).wrapping_mul(*k));
                }
                s
            }
            Node::Mul(a, b) => self
                .eval(*a, model, memo)
                .wrapping_mul(self.eval(*b, model, memo)),
            Node::UDiv(a, b) => {
                let (x, y) = (self.eval(*a, model, memo), self.eval(*b, model, memo));
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            Node::URem(a, b) => {
                let (x, y) = (self.eval(*a, model, memo), self.eval(*b, model, memo));
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Node::SDiv(a, b) => {
                let (x, y) = (
                    sval(self.eval(*a, model, memo), w),
                    sval(self.eval(*b, model, memo), w),
                );
                if y == 0 {
                    if x >= 0 {
                        m
                    } else {
                        1
                    }
                } else {
                    x.wrapping_div(y) as u64
                }
            }
            Node::SRem(a, b) => {
                let (x, y) = (
                    sval(self.eval(*a, model, memo), w),
                    sval(self.eval(*b, model, memo), w),
                );
                if y == 0 {
                    x as u64
                } else {
                    x.wrapping_rem(y) as u64
                }
            }
            Node::And(a, b) => self.eval(*a, model, memo) & self.eval(*b, model, memo),
            Node::Or(a, b) => self.eval(*a, model, memo) | self.eval(*b, model, memo),
            Node::Xor(a, b) => self.eval(*a, model, memo) ^ self.eval(*b, model, memo),
            Node::Shl(a, b) => {
                let (x, y) = (self.eval(*a, model, memo), self.eval(*b, model, memo));
                if y >= w as u64 {
                    0
                } else {
                    x << y
                }
            }
            Node::LShr(a, b) => {
                let (x, y) = (self.eval(*a, model, memo), self.eval(*b, model, memo));
                if y >= w as u64 {
                    0
                } else {
                    x >> y
                }
            }
            Node::AShr(a, b) => {
                let (x, y) = (self.eval(*a, model, memo), self.eval(*b, model, memo));
                (sval(x, w) >> y.min(w as u64 - 1)) as u64
            }
            Node::Zext(a) => self.eval(*a, model, memo),
            Node::Sext(a) => sval(self.eval(*a, model, memo), self.w(*a)) as u64,
            Node::Extract(a, lo) => self.eval(*a, model, memo) >> lo,
            Node::Concat(h, l) => {
                let wl = self.w(*l);
                self.eval(*h, model, memo) << wl | self.eval(*l, model, memo)
            }
            Node::Ite(c, a, b) => {
                if self.eval(*c, model, memo) == 1 {
                    self.eval(*a, model, memo)
                } else {
                    self.eval(*b, model, memo)
                }
            }
            Node::Eq(a, b) => (self.eval(*a, model, memo) == self.eval(*b, model, memo)) as u64,
            Node::Ult(a, b) => (self.eval(*a, model, memo) < self.eval(*b, model, memo)) as u64,
            Node::Slt(a, b) => {
                let wa = self.w(*a);
                (sval(self.eval(*a, model, memo), wa) < sval(self.eval(*b, model, memo), wa)) as u64
            }
            Node::Not(a) => self.eval(*a, model, memo) ^ 1,
        } & m;
        memo.insert(e, v);
        v
    }
}
