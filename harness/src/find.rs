//! Searches guided by other aggregates than the length, against a scan of the
//! elements from left to right.
use crate::model::*;
use crate::seq::*;
use crate::sx::*;
use generic_btree::rle::HasLength;
use generic_btree::{Child, FindResult, Query};

/// A unit picked by the running total of weights.  M 0: the one at which it
/// exceeds the target; 1: that one, but only an exact hit counts as found; 2:
/// the place where it first reaches the target, the end of an element rather
/// than the start of the next.
pub struct ByWeight<const M: u8> {
    left: u64,
    miss: bool,
}
impl<X: HElem, const D: bool, const M: u8> Query<T<X, D>> for ByWeight<M> {
    type QueryArg = u64;
    fn init(t: &u64) -> Self {
        ByWeight { left: *t, miss: false }
    }
    fn find_node(&mut self, _: &u64, c: &[Child<T<X, D>>]) -> FindResult {
        if !self.miss {
            for (i, c) in c.iter().enumerate() {
                if stops::<M>(self.left, c.cache.weight) {
                    return FindResult::new_found(i, 0);
                }
                self.left -= c.cache.weight;
            }
            self.miss = true;
        }
        FindResult::new_missing(c.len() - 1, 0)
    }
    fn confirm_elem(&mut self, _: &u64, e: &X) -> (usize, bool) {
        if self.miss {
            return (e.rle_len(), false);
        }
        let (o, exact) = unit_by_weight(e, self.left);
        (o, stops::<M>(self.left, e.weight()) && (M != 1 || exact))
    }
}
fn stops<const M: u8>(left: u64, w: u64) -> bool {
    if M == 2 {
        left <= w
    } else {
        left < w
    }
}

/// The first element whose largest attribute is at least the target.
pub struct ByMax {
    miss: bool,
}
impl<X: HElem> Query<T<X, false>> for ByMax {
    type QueryArg = u64;
    fn init(_: &u64) -> Self {
        ByMax { miss: false }
    }
    fn find_node(&mut self, m: &u64, c: &[Child<T<X, false>>]) -> FindResult {
        for (i, c) in c.iter().enumerate() {
            if !self.miss && c.cache.mx >= *m {
                return FindResult::new_found(i, 0);
            }
        }
        self.miss = true;
        FindResult::new_missing(c.len() - 1, 0)
    }
    fn confirm_elem(&mut self, m: &u64, e: &X) -> (usize, bool) {
        if self.miss {
            return (e.rle_len(), false);
        }
        (0, e.max_attr() >= *m)
    }
}

/// the unit of an element at which `left` is used up, and whether exactly at
/// its start
fn unit_by_weight<X: HElem>(e: &X, mut left: u64) -> (usize, bool) {
    let mut v = Vec::new();
    e.segs(&mut v);
    let mut o = 0;
    for r in &v {
        let a = conc(r.attr);
        let w = a.wrapping_mul(r.len as u64);
        if left < w {
            return (o + (left / a) as usize, left % a == 0);
        }
        left -= w;
        o += r.len;
    }
    (o, left == 0)
}

pub fn h_find() {
    match cfg(1) {
        0 => by_weight::<Run, true>(),
        1 if cfg(8) & 8 != 0 => max::<Run>(),
        1 => by_weight::<Run, false>(),
        2 => by_weight::<Chunk, true>(),
        3 if cfg(8) & 8 != 0 => max::<Chunk>(),
        3 => by_weight::<Chunk, false>(),
        4 => by_weight::<Styled, true>(),
        5 if cfg(8) & 8 != 0 => max::<Styled>(),
        _ => by_weight::<Styled, false>(),
    }
}

/// cfg 6: give every element a free attribute; cfg 7: 1 + an operation that
/// comes first; cfg 8: what is done, + 8 by maximum, + 16, 32 by another way to
/// stop
fn start<X: HElem, const D: bool>() -> Ctx<X, D> {
    let mut c = build::<X, D>(cfg(0), cfg(2), cfg(3), cfg(4), cfg(5));
    if cfg(6) > 0 {
        let mut p = 0u64;
        for l in c.leaves() {
            let d = sym(0, 3).wrapping_sub(1);
            let n = c.t.get_elem(l).unwrap().rle_len() as u64;
            c.t.update_leaf(l, |e| {
                e.add_attr(d);
                (true, None, None)
            });
            c.h.add(p, p.wrapping_add(n), d);
            p = p.wrapping_add(n);
        }
    }
    if cfg(7) > 0 {
        c.op(cfg(7) - 1);
    }
    c
}

/// Where the scan ends: (index of the element, offset, its position, found).
fn scan<X: HElem, const D: bool>(c: &Ctx<X, D>, stop: &mut dyn FnMut(&X) -> Option<usize>) -> (usize, usize, u64, bool) {
    let l = c.leaves();
    let mut p = 0u64;
    for (i, x) in l.iter().enumerate() {
        let e = c.t.get_elem(*x).unwrap();
        if let Some(o) = stop(e) {
            return (i, o, p.wrapping_add(o as u64), true);
        }
        if i + 1 == l.len() {
            return (i, e.rle_len(), p.wrapping_add(e.rle_len() as u64), false);
        }
        p = p.wrapping_add(e.rle_len() as u64);
    }
    (0, 0, 0, false)
}

fn target<X: HElem, const D: bool>(c: &Ctx<X, D>) -> u64 {
    let mut n = 0u64;
    for x in c.leaves() {
        n = n.wrapping_add(c.t.get_elem(x).unwrap().weight());
    }
    if c.stride > 0 {
        let n = conc(n);
        let k = conc(sym(0, n / c.stride + 1)) * c.stride;
        return (k + pick(3)).saturating_sub(1).min(n + 1);
    }
    let w = sym(0, 1 << 20);
    assume(w <= n.wrapping_add(1));
    conc_if(c.big && cfg(6) == 0, w)
}

fn by_weight<X: HElem, const D: bool>() {
    match cfg(8) >> 4 {
        0 => weight::<X, D, 0>(),
        1 => weight::<X, D, 1>(),
        _ => weight::<X, D, 2>(),
    }
}
fn weight<X: HElem, const D: bool, const M: u8>() {
    let c = start::<X, D>();
    let w = target(&c);
    let go = |c: &Ctx<X, D>, w: u64| {
        let mut left = w;
        let mut exact = true;
        let mut r = scan(c, &mut |e| {
            if stops::<M>(left, e.weight()) {
                let (o, x) = unit_by_weight(e, left);
                exact = x;
                return Some(o);
            }
            left -= e.weight();
            None
        });
        r.3 = r.3 && (M != 1 || exact);
        r
    };
    common::<X, D, ByWeight<M>>(c, w, &go, true);
}

fn max<X: HElem>() {
    let c = start::<X, false>();
    if c.nomax {
        return;
    }
    let m = sym(0, 12);
    let go = |c: &Ctx<X, false>, m: u64| scan(c, &mut |e| (e.max_attr() >= m).then_some(0));
    common::<X, false, ByMax>(c, m, &go, false);
}

fn common<X: HElem, const D: bool, Q: Query<T<X, D>, QueryArg = u64>>(
    mut c: Ctx<X, D>,
    w: u64,
    go: &dyn Fn(&Ctx<X, D>, u64) -> (usize, usize, u64, bool),
    ranges: bool,
) {
    let l = c.leaves();
    match cfg(8) & 3 {
        0 => {
            let r = c.t.query::<Q>(&w);
            let Some(r) = r else {
                check(l.is_empty(), "a search in a tree with elements leads somewhere");
                return;
            };
            let (i, o, _, found) = go(&c, w);
            check(!l.is_empty() && r.leaf() == l[i], "a search ends at the element the scan stops at");
            check(r.offset() == o, "a search ends at the offset the scan stops at");
            check(r.found() == found, "a search finds something exactly when the scan does");
            if ranges && cfg(7) == 0 {
                let u = target(&c);
                let (k, v, _, f) = go(&c, u);
                let Some(g) = c.t.range::<Q>(w..u) else {
                    check(false, "a tree with elements has a range");
                    return;
                };
                check(g.start == r, "a range starts where the search for its start ends");
                check(g.end.leaf() == l[k] && g.end.offset() == v && g.end.found() == f, "a range ends where the scan stops");
            }
            reach(1);
            return;
        }
        1 => {
            let p = if l.is_empty() { 0 } else { go(&c, w).2 };
            let r = c.fresh_run();
            let e = c.elem(&r);
            c.t.insert::<Q>(&w, e);
            c.h.ins(conc_if(c.big, p), vec![r]);
        }
        2 => {
            // remove what lies between two targets, or everything from one on
            let u = if ranges { target(&c) } else { 100 };
            assume(w <= u);
            let (p, q) = if l.is_empty() { (0, 0) } else { (go(&c, w).2, go(&c, u).2) };
            if p > q {
                return;
            }
            let mut got = 0;
            for e in c.t.drain_by_query::<Q>(w..u) {
                got += e.rle_len() as u64;
            }
            check(got == q.wrapping_sub(p), "draining by a search removes what lies between the two positions");
            c.h.del(conc_if(c.big, p), conc_if(c.big, q));
        }
        _ => {
            if l.is_empty() {
                return;
            }
            let (i, o, p, found) = go(&c, w);
            let e = c.t.get_elem(l[i]).unwrap();
            let n = e.rle_len() as u64;
            let s = p.wrapping_sub(o as u64);
            let v = pick(3);
            let mut seen = None;
            let res = c.t.update_leaf_by_search::<Q>(&w, |e, r| {
                seen = Some(r);
                match v {
                    0 => None,
                    1 => {
                        e.add_attr(2);
                        Some((Di { len: 0, weight: 2 * n as i64 }, None, None))
                    }
                    _ => {
                        let d = Di { len: 0u64.wrapping_sub(n) as i64, weight: 0u64.wrapping_sub(e.weight()) as i64 };
                        e.clear_elem();
                        Some((d, None, None))
                    }
                }
            });
            let r = seen.unwrap();
            check(r.leaf() == l[i] && r.offset() == o, "a search for an update ends where the scan stops");
            check(r.found() == found, "a search for an update finds something exactly when the scan does");
            check(res.0.is_none() == (v == 2), "the returned cursor is absent exactly when the leaf went away");
            let (s, t) = (conc_if(c.big, s), conc_if(c.big, s.wrapping_add(n)));
            match v {
                1 => c.h.add(s, t, 2),
                2 => c.h.del(s, t),
                _ => {}
            }
            if v > 0 {
                c.nomax = true;
            }
        }
    }
    c.post();
}
fn conc_if(big: bool, x: u64) -> u64 {
    if big {
        conc(x)
    } else {
        x
    }
}
