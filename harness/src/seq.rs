//! A tree of a given shape, a sequence of operations with symbolic arguments,
//! and the assertions that must hold afterwards.
use crate::model::*;
use crate::sx::*;
use crate::walk::*;
use generic_btree::{BTree, Cursor, LeafIndex, LengthFinder, QueryResult, SplittedLeaves};

pub const CONTENT: u64 = 1;
pub const AGG: u64 = 2;
pub const STRUCT: u64 = 4;
pub const NAV: u64 = 8;
pub const QUERY: u64 = 16;
pub const HANDLE: u64 = 32;
pub const REPORT: u64 = 64;
/// the tree's own consistency check
pub const SELF: u64 = 128;

pub const SPACE: u64 = 1_000_000;
/// the kind of an element which the solver chooses freely
const FREE: u64 = 9;

pub struct Handle {
    pub leaf: LeafIndex,
    pub unit: u64,
    pub pos: u64,
    pub dead: bool,
}

pub struct Ctx<X: HElem, const D: bool> {
    pub t: BTree<T<X, D>>,
    pub h: Hist,
    pub mask: u64,
    pub lmax: u64,
    /// concrete lengths and positions: histories are compared unit by unit
    pub big: bool,
    pub fresh: u64,
    pub bound: u64,
    pub handles: Vec<Handle>,
    /// some operation passed a difference, which cannot express a maximum
    pub nomax: bool,
    /// new elements have the length 2
    pub fixlen: bool,
    /// neighbours differ only in an attribute an update can make equal
    pub near: bool,
    /// elements that merge with nothing
    pub solo: bool,
    pub stride: u64,
}

pub fn go<X: HElem, const D: bool>() {
    let mut c = build::<X, D>(cfg(0), cfg(2), cfg(3), cfg(4), cfg(5));
    let n = cfg(6);
    for k in 0..n {
        c.op(cfg(7 + k));
    }
    c.post();
}

pub fn h_seq() {
    match cfg(1) {
        0 => go::<Run, true>(),
        1 => go::<Run, false>(),
        2 => go::<Chunk, true>(),
        3 => go::<Chunk, false>(),
        4 => go::<Styled, true>(),
        _ => go::<Styled, false>(),
    }
}

/// lmax 0: unit lengths and every position tried; lmax 1000 + s: unit lengths
/// and the positions at most one away from a multiple of s
pub fn build<X: HElem, const D: bool>(mask: u64, shape: u64, n: u64, lmax: u64, par: u64) -> Ctx<X, D> {
    let stride = if lmax >= 1000 { lmax - 1000 } else { 0 };
    let lmax = if lmax >= 1000 { 0 } else { lmax };
    let big = lmax == 0;
    let mut t: BTree<T<X, D>> = BTree::new();
    let mut base: Vec<Run> = Vec::new();
    let mut used = 0;
    if shape == 7 {
        (base, used) = history::<X, D>(&mut t, n, lmax, par);
    }
    for i in 0..if shape == 7 { 0 } else { n } {
        let len = if X::SYMLEN {
            if lmax <= 1 {
                1
            } else {
                sym(1, lmax)
            }
        } else if X::STYLED {
            1 + (i * 2) % 3
        } else if lmax <= 1 {
            CAP as u64
        } else {
            // neighbours never fit together
            1 + (i * 5 + par + 2) % CAP as u64
        };
        let b = match base.last() {
            // shape 5: every element continues the one before it
            Some(r) if shape == 5 => r.base.wrapping_add(r.len as u64),
            _ => (i + 1) * SPACE,
        };
        base.push(Run { base: b, len: len as usize, attr: i % 3 + 1, mode: (shape == 6) as u8 });
    }
    let elems = |v: &Vec<Run>| {
        let mut o = Vec::with_capacity(v.len());
        for r in v {
            o.push(X::make(r.base, r.len, r.attr, r.mode));
        }
        o
    };
    match shape {
        1 => t = elems(&base).into_iter().collect(),
        7 => {}
        _ => {
            for e in elems(&base) {
                t.push(e);
            }
        }
    }
    match shape {
        2 => {
            // drop the first `par` leaves with one drain
            let l = walk(&t).leaves;
            let q = |i: usize| QueryResult { cursor: Cursor { leaf: l[i], offset: 0 }, found: true };
            drop(t.drain(q(0)..q(par as usize)));
            base.drain(..par as usize);
        }
        3 => {
            // remove single leaves in a pattern
            let l = walk(&t).leaves;
            let m = par / 8 + 2;
            let r = par % 8;
            let mut keep = Vec::new();
            for i in 0..n as usize {
                if i as u64 % m == r {
                    keep.push(base[i].clone());
                } else {
                    t.remove_leaf(Cursor { leaf: l[i], offset: 0 });
                }
            }
            base = keep;
        }
        4 => {
            // drop `par` leaves from the middle with one drain
            let l = walk(&t).leaves;
            let s = (n - par) as usize / 2;
            let q = |i: usize| QueryResult { cursor: Cursor { leaf: l[i], offset: 0 }, found: true };
            drop(t.drain(q(s)..q(s + par as usize)));
            base.drain(s..s + par as usize);
        }
        8 => {
            // crowd one node: par % 16 more elements inside the (par / 16)th six
            let at = 6 * (par / 16) as usize + 1;
            for k in 0..par % 16 {
                let l = walk(&t).leaves[at];
                let r = Run { base: (n + 1 + k) * SPACE, len: base[0].len, attr: k % 3 + 1, mode: 0 };
                t.insert_by_path(Cursor { leaf: l, offset: 0 }, X::make(r.base, r.len, r.attr, r.mode));
                base.insert(at, r);
            }
        }
        _ => {}
    }
    let per = if X::SYMLEN { lmax.max(1) } else { CAP as u64 };
    let bound = if shape == 7 { total(&base) } else { base.len() as u64 * per };
    let mut c = Ctx {
        t,
        h: Hist::new(base),
        mask,
        lmax: lmax.max(1),
        big: big || !X::SYMLEN,
        fresh: used.max(500) * SPACE,
        bound,
        handles: Vec::new(),
        nomax: false,
        fixlen: false,
        near: X::STYLED || shape == 5,
        solo: shape == 6,
        stride,
    };
    c.note_handles();
    c
}

/// a fixed history of `n` operations chosen by a generator started with `seed`:
/// what the sequence is afterwards, and how many elements were made
fn history<X: HElem, const D: bool>(t: &mut BTree<T<X, D>>, n: u64, lmax: u64, seed: u64) -> (Vec<Run>, u64) {
    let mut z = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let mut rnd = move |k: u64| {
        z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (z >> 33) % k.max(1)
    };
    let mut m: Vec<(u64, u64)> = Vec::new();
    let mut made = 0;
    for step in 0..n {
        let len = m.len() as u64;
        let what = if step == 0 { 0 } else { rnd(9) };
        match what {
            0 | 1 | 2 | 8 => {
                let p = match rnd(3) {
                    0 => len,
                    _ => rnd(len + 1),
                };
                let k = if what == 2 { 1 } else { 1 + rnd(14) };
                let mut es = Vec::with_capacity(k as usize);
                let mut us = Vec::new();
                for _ in 0..k {
                    made += 1;
                    let r = Run {
                        base: made * SPACE,
                        len: 1 + rnd(lmax.max(1)) as usize,
                        attr: 1 + rnd(3),
                        mode: 0,
                    };
                    es.push(X::make(r.base, r.len, r.attr, 0));
                    us.extend(flat(&[r]));
                }
                let c = t.query::<LengthFinder>(&(p as usize)).map(|q| q.cursor);
                match what {
                    8 if p == len => {
                        for e in es {
                            t.push(e);
                        }
                    }
                    8 => {
                        for (i, e) in es.into_iter().enumerate() {
                            let at = p as usize + us.iter().position(|u| u.0 == e.first_unit()).unwrap_or(i);
                            t.insert::<LengthFinder>(&at, e);
                        }
                    }
                    _ => t.insert_many_by_cursor(c, es.into_iter()),
                }
                let tail = m.split_off(p as usize);
                m.extend(us);
                m.extend(tail);
            }
            3 | 4 => {
                let l = walk(t).leaves;
                if l.is_empty() {
                    continue;
                }
                let leaf = l[rnd(l.len() as u64) as usize];
                let p = pos_of(t, &l, Cursor { leaf, offset: 0 }).unwrap() as usize;
                let k = t.get_elem(leaf).unwrap().rle_len();
                if what == 3 {
                    t.remove_leaf(Cursor { leaf, offset: 0 });
                } else {
                    t.update_leaf(leaf, |e| {
                        e.clear_elem();
                        (true, None, None)
                    });
                }
                m.drain(p..p + k);
            }
            5 | 6 => {
                let a = if rnd(4) == 0 { 0 } else { rnd(len + 1) };
                let b = (a + rnd(if what == 5 { 14 } else { len / 2 + 1 })).min(len);
                drop(t.drain_by_query::<LengthFinder>(a as usize..b as usize));
                m.drain(a as usize..b as usize);
            }
            _ => {
                if len == 0 || !D {
                    continue;
                }
                let a = rnd(len + 1);
                let b = (a + rnd(8)).min(len);
                let c = |t: &BTree<T<X, D>>, p: u64| t.query::<LengthFinder>(&(p as usize)).unwrap().cursor;
                let (ca, cb) = (c(t, a), c(t, b));
                t.update(ca..cb, &mut |x: &mut X| {
                    let n = x.rle_len() as u64;
                    x.add_attr(1);
                    Some(Di { len: 0, weight: n as i64 })
                });
                for u in &mut m[a as usize..b as usize] {
                    u.1 += 1;
                }
            }
        }
    }
    let mut base: Vec<Run> = Vec::new();
    for (id, attr) in m {
        match base.last_mut() {
            Some(r) if r.base + r.len as u64 == id && r.attr == attr => r.len += 1,
            _ => base.push(Run { base: id, len: 1, attr, mode: 0 }),
        }
    }
    (base, made + 1)
}

impl<X: HElem, const D: bool> Ctx<X, D> {
    fn note_handles(&mut self) {
        if self.mask & HANDLE == 0 {
            return;
        }
        let mut t = 0u64;
        for l in walk(&self.t).leaves {
            let e = self.t.get_elem(l).unwrap();
            let len = e.rle_len() as u64;
            let mut known = false;
            for h in self.handles.iter_mut() {
                if !h.dead && h.leaf == l {
                    h.unit = e.first_unit();
                    h.pos = t;
                    known = true;
                }
            }
            if !known {
                self.handles.push(Handle { leaf: l, unit: e.first_unit(), pos: t, dead: false });
            }
            t = t.wrapping_add(len);
        }
    }

    /// leaf handles taken before the last operation, which deleted [s, e)
    /// (`except`: a leaf whose element was exchanged by the caller)
    fn check_handles(&mut self, s: u64, e: u64, except: Option<LeafIndex>) {
        if self.mask & HANDLE == 0 {
            return;
        }
        for h in self.handles.iter_mut() {
            let el = self.t.get_elem(h.leaf);
            if h.dead {
                check(el.is_none(), "the handle of a removed element stays dead");
                continue;
            }
            if Some(h.leaf) == except {
                h.dead = el.is_none();
                continue;
            }
            let gone = and(h.pos >= s, h.pos < e);
            match el {
                None => {
                    check(gone, "a leaf handle stays valid while its element's start survives");
                    h.dead = true;
                }
                Some(el) => {
                    check(!gone, "a leaf handle dies with its element");
                    let mut v = Vec::new();
                    el.segs(&mut v);
                    let mut has = false;
                    for r in &v {
                        has = or(has, and(h.unit >= r.base, h.unit < r.base.wrapping_add(r.len as u64)));
                    }
                    check(has, "a leaf handle still leads to the element it was taken for");
                }
            }
        }
        self.note_handles();
    }

    pub fn leaves(&self) -> Vec<LeafIndex> {
        walk(&self.t).leaves
    }
    pub fn total(&self) -> u64 {
        self.h.total()
    }
    pub fn pos(&self, lo: u64, slack: u64) -> u64 {
        let _ = lo;
        if self.stride > 0 {
            let n = self.total() + slack;
            let k = conc(sym(0, n / self.stride + 1)) * self.stride;
            return (k + pick(3)).saturating_sub(1).min(n);
        }
        let p = sym(0, self.bound + slack);
        assume(p <= self.total().wrapping_add(slack));
        if self.big {
            conc(p)
        } else {
            p
        }
    }
    /// len of a new element
    pub fn newlen(&self) -> u64 {
        if X::SYMLEN {
            if self.lmax <= 1 {
                1
            } else {
                sym(1, self.lmax)
            }
        } else if self.fixlen {
            2
        } else {
            1 + pick(3)
        }
    }
    pub fn fresh_run(&mut self) -> Run {
        let len = self.newlen();
        self.run_at(None, len)
    }
    fn run_at(&mut self, at: Option<(u64, u64)>, len: u64) -> Run {
        let (b, a) = match at {
            Some(x) => x,
            None => {
                self.fresh += SPACE;
                // attributes of all neighbours, so that these may merge with it
                (self.fresh, if X::STYLED { 1 + pick(3) } else { 2 })
            }
        };
        self.bound += if X::SYMLEN { self.lmax } else { CAP as u64 };
        Run { base: b, len: len as usize, attr: a, mode: self.solo as u8 }
    }
    /// can a new element's identity be left to the solver?
    fn free(&self) -> bool {
        X::SYMLEN && !self.big
    }
    /// an element about which nothing is fixed: it may continue, or be
    /// continued by, any other element (or both), or none
    fn any_run(&mut self, free: bool) -> Run {
        if free {
            self.free_run()
        } else {
            self.fresh_run()
        }
    }
    fn free_run(&mut self) -> Run {
        let len = self.newlen();
        if !self.free() {
            return self.run_at(None, len);
        }
        let at = (sym(0, 2000 * SPACE), sym(1, 3));
        self.run_at(Some(at), len)
    }
    /// what an update adds to attributes
    fn delta(&self, far: u64) -> u64 {
        if self.near {
            1 + pick(2)
        } else {
            far
        }
    }
    pub fn elem(&self, r: &Run) -> X {
        X::make(r.base, r.len, r.attr, r.mode)
    }
    /// the cursor for position p; alt: the form at the end of a leaf
    pub fn cursor(&self, p: u64, alt: bool) -> Option<Cursor> {
        let q = self.t.query::<LengthFinder>(&(p as usize))?;
        if !alt {
            return Some(q.cursor);
        }
        if q.cursor.offset != 0 {
            return None;
        }
        let l = self.leaves();
        for i in 1..l.len() {
            if l[i] == q.cursor.leaf {
                return Some(Cursor { leaf: l[i - 1], offset: self.t.get_elem(l[i - 1]).unwrap().rle_len() });
            }
        }
        None
    }
    /// a run to insert at the cursor: kind 0 fresh, 1 continues what is to the
    /// left, 2 is continued by what is to the right
    fn new_run(&mut self, c: Cursor, kind: u64) -> Option<Run> {
        if kind == FREE {
            return Some(self.free_run());
        }
        if kind == 0 {
            return Some(self.fresh_run());
        }
        if !X::SYMLEN {
            return None;
        }
        let l = self.leaves();
        let i = l.iter().position(|x| *x == c.leaf).unwrap();
        let mut segs = Vec::new();
        let e = self.t.get_elem(c.leaf).unwrap();
        let len = e.rle_len();
        if kind == 1 {
            if c.offset == len {
                e.segs(&mut segs);
            } else if c.offset == 0 && i > 0 {
                self.t.get_elem(l[i - 1]).unwrap().segs(&mut segs);
            } else {
                return None;
            }
            let s = &segs[0];
            let at = (s.base.wrapping_add(s.len as u64), s.attr);
            let n = self.newlen();
            Some(self.run_at(Some(at), n))
        } else {
            if c.offset == 0 {
                e.segs(&mut segs);
            } else if c.offset == len && i + 1 < l.len() {
                self.t.get_elem(l[i + 1]).unwrap().segs(&mut segs);
            } else {
                return None;
            }
            let n = self.newlen();
            let s = &segs[0];
            let at = (s.base.wrapping_sub(n), s.attr);
            Some(self.run_at(Some(at), n))
        }
    }

    fn new_leaves(&self, before: &[LeafIndex]) -> Vec<LeafIndex> {
        let mut v = Vec::new();
        for l in self.leaves() {
            if !before.contains(&l) {
                v.push(l);
            }
        }
        v
    }
    /// every leaf that appeared is reported, nothing else is
    fn check_report(&self, before: &[LeafIndex], rep: &SplittedLeaves, also: Option<LeafIndex>, exact: bool) {
        if self.mask & REPORT == 0 {
            return;
        }
        let new = self.new_leaves(before);
        for l in &new {
            check(
                rep.arr.contains(l) || Some(*l) == also,
                "every leaf created by the operation is reported to the caller",
            );
        }
        if exact {
            for l in &rep.arr {
                check(new.contains(l), "every reported new leaf is a live leaf that was not there before");
            }
        }
    }
    /// the cursor handed back points at the first new unit
    fn check_cursor(&self, c: Cursor, p: u64) {
        if self.mask & REPORT == 0 {
            return;
        }
        match pos_of(&self.t, &self.leaves(), c) {
            None => check(false, "the returned cursor points into the tree"),
            Some(q) => check(q == p, "the returned cursor is where the new content starts"),
        }
        let n = self.t.get_elem(c.leaf).unwrap().rle_len();
        check(c.offset < n, "the returned cursor points at an existing unit");
    }

    pub fn op(&mut self, code: u64) {
        let op = code & 31;
        let par = code >> 5;
        if op == 8 || op == 10 || op == 11 {
            self.nomax = true;
        }
        match op {
            0 => self.insert_by_path(par),
            1 => self.push(par),
            2 => self.prepend(par),
            3 => self.insert_query(par),
            4 => self.drain(par, false),
            5 => self.drain(par, true),
            6 => self.remove_leaf(),
            7 => self.insert_many(par),
            8 => self.update(par),
            9 => self.update_leaf(par),
            10 => self.update_by_search(par),
            11 => self.update_ranges(par),
            12 => {
                self.t.clear();
                self.h = Hist::new(Vec::new());
                self.handles.clear();
            }
            _ => check(false, "harness: unknown operation"),
        }
    }

    /// par: 0 any element and cursor form, 1 only fresh runs at canonical cursors
    fn insert_by_path(&mut self, par: u64) {
        let p = self.pos(0, 0);
        let alt = par == 0 && pick(2) == 1;
        let Some(c) = self.cursor(p, alt) else { return };
        let kind = if par != 0 {
            0
        } else if self.free() {
            FREE
        } else {
            pick(3)
        };
        let Some(r) = self.new_run(c, kind) else { return };
        let before = self.leaves();
        let e = self.elem(&r);
        let (cur, sp) = self.t.insert_by_path(c, e);
        self.h.ins(p, vec![r]);
        self.check_cursor(cur, p);
        self.check_report(&before, &sp, Some(cur.leaf), true);
        self.check_handles(0, 0, None);
        reach(1);
    }
    /// par 0: any element; 1: one that merges with nothing; 2: one that merges
    /// with nothing or continues its neighbour
    fn push(&mut self, par: u64) {
        let p = self.total();
        let kind = if par == 1 {
            0
        } else if par == 0 && self.free() {
            FREE
        } else {
            pick(2)
        };
        let r = match self.t.end_cursor() {
            Some(c) => self.new_run(c, kind),
            None => {
                if kind == 0 || kind == FREE {
                    Some(self.free_run())
                } else {
                    None
                }
            }
        };
        let Some(r) = r else { return };
        let before = self.leaves();
        let e = self.elem(&r);
        let cur = self.t.push(e);
        self.h.ins(p, vec![r]);
        self.check_cursor(cur, p);
        self.check_report(&before, &SplittedLeaves::default(), Some(cur.leaf), true);
        self.check_handles(0, 0, None);
        reach(2);
    }
    fn prepend(&mut self, par: u64) {
        let kind = if par == 1 {
            0
        } else if par == 0 && self.free() {
            FREE
        } else {
            pick(2) * 2
        };
        let r = match self.t.start_cursor() {
            Some(c) => self.new_run(c, kind),
            None => {
                if kind == 0 || kind == FREE {
                    Some(self.free_run())
                } else {
                    None
                }
            }
        };
        let Some(r) = r else { return };
        let before = self.leaves();
        let e = self.elem(&r);
        let cur = self.t.prepend(e);
        self.h.ins(0, vec![r]);
        self.check_cursor(cur, 0);
        self.check_report(&before, &SplittedLeaves::default(), Some(cur.leaf), true);
        self.check_handles(0, 0, None);
        reach(3);
    }
    fn insert_query(&mut self, par: u64) {
        let p = self.pos(0, 0);
        let r = self.any_run(par == 0);
        let before = self.leaves();
        let e = self.elem(&r);
        let (cur, sp) = self.t.insert::<LengthFinder>(&(p as usize), e);
        self.h.ins(p, vec![r]);
        self.check_cursor(cur, p);
        self.check_report(&before, &sp, Some(cur.leaf), true);
        self.check_handles(0, 0, None);
        reach(4);
    }

    /// par & 3: how much of the drained content is consumed (0 all, 1 none,
    /// 2 one element, 3 any of these); par & 4: all cursor forms
    fn drain(&mut self, par: u64, by_query: bool) {
        let s = self.pos(0, 0);
        let e = self.pos(0, 0);
        assume(s <= e);
        let consume = if par & 3 == 3 { pick(3) } else { par & 3 };
        let mut out: Vec<Run> = Vec::new();
        let mut partial = false;
        {
            let empty = self.t.is_empty();
            let mut d = if by_query || empty {
                self.t.drain_by_query::<LengthFinder>(s as usize..e as usize)
            } else {
                let (fa, fb) = if par & 4 != 0 { (pick(2), pick(2)) } else { (0, 0) };
                let Some(a) = self.cursor(s, fa == 1) else { return };
                let Some(b) = self.cursor(e, fb == 1) else { return };
                self.t.drain(QueryResult { cursor: a, found: true }..QueryResult { cursor: b, found: true })
            };
            match consume {
                0 => {
                    while let Some(x) = d.next() {
                        x.segs(&mut out);
                    }
                    let more = d.next().is_some();
                    if self.mask & CONTENT != 0 {
                        check(!more, "a finished drain stays finished");
                    }
                }
                1 => partial = true,
                _ => {
                    partial = true;
                    if let Some(x) = d.next() {
                        x.segs(&mut out);
                    }
                }
            }
        }
        if self.mask & CONTENT != 0 {
            let n = total(&out);
            let want = e.wrapping_sub(s);
            if partial {
                check(n <= want, "a drain yields no more than its range");
            } else {
                check(n == want, "a drain yields exactly its range");
            }
            if self.big {
                let f = self.h.flat();
                let g = flat(&out);
                for i in 0..g.len() {
                    check(g[i] == f[s as usize + i], "a drain yields the drained content in order");
                }
            } else if !out.is_empty() {
                let y = sym(0, self.bound);
                let (i, a) = unit_at(&out, y);
                let (j, b) = self.h.at(s.wrapping_add(y));
                check(or(y >= n, and(i == j, a == b)), "a drain yields the drained content in order");
            }
        }
        self.h.del(s, e);
        self.check_handles(s, e, None);
        reach(5 + consume);
    }

    fn remove_leaf(&mut self) {
        let l = self.leaves();
        if l.is_empty() {
            return;
        }
        let i = pick(l.len() as u64) as usize;
        let p = pos_of(&self.t, &l, Cursor { leaf: l[i], offset: 0 }).unwrap();
        let mut want = Vec::new();
        self.t.get_elem(l[i]).unwrap().segs(&mut want);
        let got = self.t.remove_leaf(Cursor { leaf: l[i], offset: 0 });
        if self.mask & CONTENT != 0 {
            match got {
                None => check(false, "removing a live element returns it"),
                Some(e) => {
                    let mut g = Vec::new();
                    e.segs(&mut g);
                    check(g.len() == want.len(), "the removed element is the one addressed");
                    for k in 0..g.len().min(want.len()) {
                        check(g[k].base == want[k].base, "the removed element is the one addressed");
                        check(g[k].len == want[k].len, "the removed element is the one addressed");
                        check(g[k].attr == want[k].attr, "the removed element is the one addressed");
                    }
                }
            }
        }
        let e = p.wrapping_add(total(&want));
        self.h.del(p, e);
        let again = self.t.remove_leaf(Cursor { leaf: l[i], offset: 0 });
        if self.mask & (CONTENT | HANDLE) != 0 {
            check(self.t.get_elem(l[i]).is_none(), "a removed element is gone");
            check(again.is_none(), "removing an element again returns nothing");
        }
        self.check_handles(p, e, None);
        reach(9);
    }

    /// par & 63: number of elements; par & 64: all fresh
    fn insert_many(&mut self, par: u64) {
        let k = (par & 63) as usize;
        let simple = par & 64 != 0;
        let p = self.pos(0, 0);
        let alt = !simple && pick(2) == 1;
        self.fixlen = k > 4;
        let empty = self.t.is_empty();
        let c = if empty { None } else { self.cursor(p, alt) };
        if (!empty && c.is_none()) || (empty && alt) {
            return;
        }
        let mut runs: Vec<Run> = Vec::with_capacity(k);
        for i in 0..k {
            // 0 fresh, 1 continues the previous one (for the first: what is left
            // of the cursor), 2 only for the last: continued by what is right,
            // 3 only for the first: continues the leaf before the cursor's leaf
            let kinds = if i == 0 && !empty { 4 } else if i + 1 == k && !empty { 3 } else { 2 };
            let kind = if simple || !X::SYMLEN {
                0
            } else if self.free() {
                FREE
            } else {
                pick(kinds)
            };
            let r = match (kind, c) {
                (FREE, _) => Some(self.free_run()),
                (0, _) => Some(self.fresh_run()),
                (1, Some(c)) if i == 0 => self.new_run(c, 1),
                (1, None) if i == 0 => None,
                (1, _) => {
                    let q = &runs[i - 1];
                    let at = (q.base.wrapping_add(q.len as u64), q.attr);
                    let n = self.newlen();
                    Some(self.run_at(Some(at), n))
                }
                (3, Some(c)) => {
                    let l = self.leaves();
                    let j = l.iter().position(|x| *x == c.leaf).unwrap();
                    // at offset 0 this is the same as kind 1
                    if j == 0 || c.offset == 0 {
                        None
                    } else {
                        let mut v = Vec::new();
                        self.t.get_elem(l[j - 1]).unwrap().segs(&mut v);
                        let at = (v[0].base.wrapping_add(v[0].len as u64), v[0].attr);
                        let n = self.newlen();
                        Some(self.run_at(Some(at), n))
                    }
                }
                (_, Some(c)) if i + 1 == k => self.new_run(c, 2),
                _ => None,
            };
            match r {
                Some(r) => runs.push(r),
                None => return,
            }
        }
        let mut elems = Vec::with_capacity(k);
        for r in &runs {
            elems.push(self.elem(r));
        }
        self.t.insert_many_by_cursor(c, elems.into_iter());
        self.h.ins(p, runs);
        self.check_handles(0, 0, None);
        reach(10);
    }

    /// par: 0 any effect; 1 annotate, 2 clear, 3 nothing; +4: all cursor forms
    fn update(&mut self, par: u64) {
        if self.t.is_empty() {
            return;
        }
        let s = self.pos(0, 0);
        let e = self.pos(0, 0);
        assume(s <= e);
        let kind = if par & 3 == 0 { pick(3) } else { (par & 3) - 1 };
        let (fa, fb) = if par & 4 != 0 { (pick(2), pick(2)) } else { (0, 0) };
        let Some(a) = self.cursor(s, fa == 1) else { return };
        let Some(b) = self.cursor(e, fb == 1) else { return };
        let before = self.leaves();
        let d = self.delta(5);
        let sp = self.t.update(a..b, &mut |x: &mut X| match kind {
            0 => {
                let n = x.rle_len() as u64;
                x.add_attr(d);
                Some(Di { len: 0, weight: n.wrapping_mul(d) as i64 })
            }
            1 => {
                let n = x.rle_len() as u64;
                let w = x.weight();
                x.clear_elem();
                Some(Di { len: 0u64.wrapping_sub(n) as i64, weight: 0u64.wrapping_sub(w) as i64 })
            }
            _ => None,
        });
        let (mut ds, mut de) = (0, 0);
        match kind {
            0 => self.h.add(s, e, d),
            1 => {
                self.h.del(s, e);
                ds = s;
                de = e;
            }
            _ => {}
        }
        self.check_report(&before, &sp, None, kind != 1);
        self.check_handles(ds, de, None);
        reach(11 + kind);
    }

    /// par: 0 every variant, else the variant plus 1; +32: new elements merge with nothing
    fn update_leaf(&mut self, par: u64) {
        let (par, free) = (par & 31, par < 32);
        let l = self.leaves();
        if l.is_empty() {
            return;
        }
        let i = pick(l.len() as u64) as usize;
        let v = if par == 0 { pick(18) } else { par - 1 };
        let leaf = l[i];
        let dl = if v == 0 || v == 4 || v == 10 { self.delta(7) } else { 0 };
        let p = pos_of(&self.t, &l, Cursor { leaf, offset: 0 }).unwrap();
        let len = self.t.get_elem(leaf).unwrap().rle_len() as u64;
        let off = |c: &Self, lo: u64| {
            let o = sym(lo, if X::SYMLEN { c.lmax } else { CAP as u64 });
            assume(o < len);
            if c.big {
                conc(o)
            } else {
                o
            }
        };
        let empty = X::make(0, 0, 0, 0);
        let mut d = (0, 0);
        let mut ins: Option<(u64, Vec<Run>)> = None;
        let mut add = None;
        let mut alive = true;
        let before = l.clone();
        let res;
        match v {
            0 => {
                res = self.t.update_leaf(leaf, |e| {
                    e.add_attr(dl);
                    (true, None, None)
                });
                add = Some((p, p.wrapping_add(len), dl));
            }
            1 | 2 | 3 => {
                let o = off(self, 1);
                res = self.t.update_leaf(leaf, |e| {
                    let r = e.split(o as usize);
                    match v {
                        1 => (true, Some(r), None),
                        2 => (true, Some(empty), Some(r)),
                        _ => (true, None, Some(r)),
                    }
                });
            }
            4 => {
                let a = off(self, 1);
                let b = off(self, 1);
                assume(a < b);
                res = self.t.update_leaf(leaf, |e| {
                    let r = e.split(b as usize);
                    let mut m = e.split(a as usize);
                    m.add_attr(dl);
                    (true, Some(m), Some(r))
                });
                add = Some((p.wrapping_add(a), p.wrapping_add(b), dl));
            }
            5 => {
                res = self.t.update_leaf(leaf, |e| {
                    e.clear_elem();
                    (true, None, None)
                });
                d = (p, p.wrapping_add(len));
                alive = false;
            }
            6 => {
                res = self.t.update_leaf(leaf, |e| {
                    e.clear_elem();
                    (true, Some(empty.clone()), Some(empty))
                });
                d = (p, p.wrapping_add(len));
                alive = false;
            }
            7 | 8 | 9 => {
                let o = off(self, 1);
                res = self.t.update_leaf(leaf, |e| {
                    let r = e.split(o as usize);
                    e.clear_elem();
                    match v {
                        7 => (true, Some(r), None),
                        8 => (true, Some(empty), Some(r)),
                        _ => (true, None, Some(r)),
                    }
                });
                d = (p, p.wrapping_add(o));
            }
            10 => {
                res = self.t.update_leaf(leaf, |e| {
                    e.add_attr(dl);
                    (true, Some(empty.clone()), Some(empty))
                });
                add = Some((p, p.wrapping_add(len), dl));
            }
            11 => {
                res = self.t.update_leaf(leaf, |_| (false, None, None));
            }
            12 => {
                let r1 = self.any_run(free);
                let r2 = self.any_run(free);
                let (e1, e2) = (self.elem(&r1), self.elem(&r2));
                res = self.t.update_leaf(leaf, |_| (true, Some(e1), Some(e2)));
                ins = Some((p.wrapping_add(len), vec![r1, r2]));
            }
            13 => {
                // new content that continues into the next leaf
                let c = Cursor { leaf, offset: len as usize };
                let Some(r) = self.new_run(c, 2) else { return };
                let e1 = self.elem(&r);
                res = self.t.update_leaf(leaf, |_| (true, Some(e1), None));
                ins = Some((p.wrapping_add(len), vec![r]));
            }
            14 => {
                let r1 = self.any_run(free);
                let r2 = self.any_run(free);
                let (e1, e2) = (self.elem(&r1), self.elem(&r2));
                res = self.t.update_leaf(leaf, |e| {
                    e.clear_elem();
                    (true, Some(e1), Some(e2))
                });
                d = (p, p.wrapping_add(len));
                ins = Some((p, vec![r1, r2]));
            }
            15 => {
                // a part, and nothing after it
                let o = off(self, 1);
                res = self.t.update_leaf(leaf, |e| {
                    let r = e.split(o as usize);
                    (true, Some(r), Some(empty))
                });
            }
            16 => {
                let r1 = self.any_run(free);
                let e1 = self.elem(&r1);
                res = self.t.update_leaf(leaf, |e| {
                    e.clear_elem();
                    (true, Some(e1), Some(empty))
                });
                d = (p, p.wrapping_add(len));
                ins = Some((p, vec![r1]));
            }
            _ => {
                let r1 = self.any_run(free);
                let e1 = self.elem(&r1);
                let o = off(self, 1);
                res = self.t.update_leaf(leaf, |e| {
                    let r = e.split(o as usize);
                    (true, Some(e1), Some(r))
                });
                ins = Some((p.wrapping_add(o), vec![r1]));
            }
        }
        self.h.del(d.0, d.1);
        if let Some((a, b, n)) = add {
            self.h.add(a, b, n);
        }
        if let Some((q, r)) = ins {
            self.h.ins(q, r);
        }
        if self.mask & CONTENT != 0 {
            check(res.0 == alive, "update_leaf tells whether the leaf is still there");
            check(self.t.get_elem(leaf).is_some() == alive, "update_leaf removes exactly the leaves left empty");
        }
        self.check_report(&before, &res.1, None, false);
        if self.mask & REPORT != 0 {
            for l in &res.1.arr {
                check(self.t.get_elem(*l).is_some(), "every reported leaf is live");
            }
        }
        self.check_handles(0, 0, Some(leaf));
        reach(20 + v);
    }

    fn update_by_search(&mut self, par: u64) {
        let (par, free) = (par & 31, par < 32);
        if self.t.is_empty() {
            return;
        }
        let q = self.pos(0, 0);
        let v = if par == 0 { pick(5) } else { par - 1 };
        let total = self.total();
        let sa = if v == 1 { self.delta(3) } else { 0 };
        let before = self.leaves();
        let mut rr = None;
        if v == 4 {
            rr = Some(self.any_run(free));
        }
        let e1 = rr.as_ref().map(|r| self.elem(r));
        let mut seen = None;
        let mut whole = 0;
        let symlen = X::SYMLEN && !self.big;
        let lmax = self.lmax;
        let mut cut = 0;
        let res = self.t.update_leaf_by_search::<LengthFinder>(&(q as usize), |e, r| {
            seen = Some(r);
            let n = e.rle_len() as u64;
            whole = n;
            match v {
                0 => None,
                1 => {
                    e.add_attr(sa);
                    Some((Di { len: 0, weight: n.wrapping_mul(sa) as i64 }, None, None))
                }
                2 => {
                    // split at a free point; nothing changes
                    let o = sym(1, if X::SYMLEN { lmax } else { CAP as u64 });
                    assume(o < n);
                    let o = if symlen { o } else { conc(o) };
                    cut = o;
                    let r = e.split(o as usize);
                    Some((Di { len: 0, weight: 0 }, Some(r), None))
                }
                3 => {
                    let w = e.weight();
                    e.clear_elem();
                    Some((
                        Di { len: 0u64.wrapping_sub(n) as i64, weight: 0u64.wrapping_sub(w) as i64 },
                        None,
                        None,
                    ))
                }
                _ => {
                    let x = e1.unwrap();
                    let di = Di { len: x.rle_len() as i64, weight: x.weight() as i64 };
                    Some((di, Some(x), None))
                }
            }
        });
        let r = seen.unwrap();
        let p = q.wrapping_sub(r.cursor.offset as u64);
        if self.mask & CONTENT != 0 {
            check(r.found == (q < total), "searching finds exactly the positions inside the sequence");
            check((r.cursor.offset as u64) < whole.wrapping_add(if q < total { 0 } else { 1 }), "the search hands the element holding the position");
            check(res.0.is_none() == (v == 3), "the returned cursor is absent exactly when the leaf went away");
            if let Some(c) = res.0 {
                check(c.leaf == r.cursor.leaf, "the returned cursor is the updated leaf");
            }
        }
        let (mut ds, mut de) = (0, 0);
        match v {
            1 => self.h.add(p, p.wrapping_add(whole), sa),
            3 => {
                ds = p;
                de = p.wrapping_add(whole);
                self.h.del(ds, de);
            }
            4 => self.h.ins(p.wrapping_add(whole), vec![rr.unwrap()]),
            _ => {}
        }
        let _ = cut;
        self.check_report(&before, &res.1, None, true);
        self.check_handles(ds, de, None);
        reach(40 + v);
    }

    /// par: number of annotated ranges
    fn update_ranges(&mut self, par: u64) {
        let l = self.leaves();
        if l.is_empty() {
            return;
        }
        let before = l.clone();
        let mut args = Vec::new();
        let mut adds = Vec::new();
        let mut last = 0;
        for k in 0..par {
            let i = pick(l.len() as u64) as usize;
            // unordered pairs of leaves suffice in one order and the reverse
            let _ = last;
            last = i;
            let len = self.t.get_elem(l[i]).unwrap().rle_len() as u64;
            let m = if X::SYMLEN { self.lmax } else { CAP as u64 };
            let a = sym(0, m);
            let b = sym(0, m);
            assume(b <= len);
            assume(a < b);
            let (a, b) = (conc(a), conc(b));
            let len = conc(len);
            assume(b <= len);
            let p = pos_of(&self.t, &l, Cursor { leaf: l[i], offset: 0 }).unwrap();
            let d = self.delta(10u64 << (4 * k));
            args.push((l[i], a as usize..b as usize, d));
            adds.push((p.wrapping_add(a), p.wrapping_add(b), d));
        }
        let new = self.t.update_leaves_with_arg_in_ranges(args, |e, d| e.add_attr(*d));
        for (a, b, d) in adds {
            self.h.add(a, b, d);
        }
        if self.mask & REPORT != 0 {
            let fresh = self.new_leaves(&before);
            for x in &fresh {
                check(new.contains(x), "every leaf created by the operation is reported to the caller");
            }
            for x in &new {
                check(self.t.get_elem(*x).is_some(), "every reported new leaf is live");
            }
        }
        self.check_handles(0, 0, None);
        reach(50);
    }

    pub fn post(&mut self) {
        let t = &self.t;
        if self.mask & CONTENT != 0 {
            check_content(t, &self.h, self.bound, self.big);
        }
        if self.mask & AGG != 0 {
            check_agg(t, !self.nomax);
            check(t.root_cache().len == self.h.total(), "the root aggregate is the sequence's length");
        }
        if self.mask & STRUCT != 0 {
            check_struct(t);
            if self.mask & NAV == 0 {
                check_nav(t, false);
            }
            for e in t.iter() {
                check(e.rle_len() > 0, "no empty element is left in the tree");
            }
        }
        if self.mask & SELF != 0 && !self.nomax {
            t.check();
            check(true, "the tree's own consistency check accepts it");
        }
        if self.mask & NAV != 0 {
            check_nav(t, true);
        }
        if self.mask & QUERY != 0 {
            self.check_query();
        }
        obs_tree(t);
        reach(100);
    }

    fn check_query(&self) {
        let t = &self.t;
        let q = self.pos(0, 0);
        let n = self.total();
        let r = t.query::<LengthFinder>(&(q as usize));
        if t.is_empty() {
            check(r.is_none(), "nothing is found in an empty tree");
            check(t.range::<LengthFinder>(0..0).is_none(), "an empty tree has no range");
            return;
        }
        let Some(r) = r else {
            check(false, "every position of a non-empty tree can be located");
            return;
        };
        check(r.found() == (q < n), "a position is found exactly when it lies inside the sequence");
        let l = self.leaves();
        match pos_of(t, &l, r.cursor()) {
            None => check(false, "a located cursor points into the tree"),
            Some(p) => check(p == q, "a located cursor is at the position asked for"),
        }
        let e = t.get_elem(r.leaf()).unwrap();
        check(r.offset() <= e.rle_len(), "a located offset lies inside its element");
        if q < n {
            check(r.offset() < e.rle_len(), "a located position inside the sequence points at a unit");
            let mut v = Vec::new();
            e.segs(&mut v);
            let got = unit_at(&v, r.offset() as u64);
            let want = if self.big { self.h.flat()[q as usize] } else { self.h.at(q) };
            check(and(got.0 == want.0, got.1 == want.1), "a located position holds the right unit");
        }
        // what precedes the cursor
        let (pl, pw) = prev_sum(t, r.cursor());
        check(pl == q, "the aggregates before a cursor add up to its position");
        let mut w = 0u64;
        for x in &l {
            if *x == r.leaf() {
                break;
            }
            w = w.wrapping_add(t.get_elem(*x).unwrap().weight());
        }
        check(pw == w, "the aggregates before a cursor add up to the weight before it");
        if let Some(rg) = t.range::<LengthFinder>(0..q as usize) {
            check(rg.end == r, "a range query locates both ends");
            check(rg.start.leaf() == l[0] && rg.start.offset() == 0, "a range query locates both ends");
        } else {
            check(false, "a non-empty tree has a range");
        }
        reach(60);
    }
}

pub fn check_content<X: HElem, const D: bool>(t: &BTree<T<X, D>>, h: &Hist, bound: u64, big: bool) {
    let s = segs(t);
    let n = total(&s);
    check(n == h.total(), "the content has the right length");
    if big {
        let a = flat(&s);
        let b = h.flat();
        check(a.len() == b.len(), "the content has the right length");
        let mut same = true;
        for i in 0..a.len().min(b.len()) {
            if a[i].0 != b[i].0 || a[i].1 != b[i].1 {
                same = false;
            }
        }
        check(same, "every unit is where it should be");
    } else if !s.is_empty() {
        let x = sym(0, bound);
        let (i, a) = unit_at(&s, x);
        let (j, b) = h.at(x);
        check(or(x >= n, i == j), "every unit is where it should be");
        check(or(x >= n, a == b), "every unit carries the right annotation");
    }
}

pub fn obs_tree<X: HElem, const D: bool>(t: &BTree<T<X, D>>) {
    for e in t.iter() {
        let mut v = Vec::new();
        e.segs(&mut v);
        for r in &v {
            obs(r.base);
            obs(r.len as u64);
            obs(r.attr);
        }
        obs(u64::MAX);
    }
    obs(t.root_cache().len);
    obs(t.root_cache().weight);
    obs(t.node_len() as u64);
    let w = walk(t);
    obs(w.depth as u64);
    obs(w.max_children as u64);
    obs(w.min_children as u64);
}
