//! Harnesses that are not a plain operation sequence on one tree.
use crate::model::*;
use crate::seq::*;
use crate::sx::*;
use crate::walk::*;
use core::cmp::Ordering;
use core::ops::Bound;
use generic_btree::rle::{HasLength, Sliceable};
use generic_btree::{BTree, Cursor, HeapVec, LengthFinder, OrdTreeMap, OrdTreeSet, Rope};

macro_rules! by_kind {
    ($f:ident) => {
        match cfg(1) {
            0 => $f::<Run, true>(),
            1 => $f::<Run, false>(),
            2 => $f::<Chunk, true>(),
            3 => $f::<Chunk, false>(),
            4 => $f::<Styled, true>(),
            _ => $f::<Styled, false>(),
        }
    };
}
fn base<X: HElem, const D: bool>() -> Ctx<X, D> {
    build::<X, D>(cfg(0), cfg(2), cfg(3), cfg(4), cfg(5))
}

// -------------------------------------------------------------- iter_range

pub fn h_iter_range() {
    by_kind!(iter_range)
}
/// cfg 6: 0 start..end, 1 start..=end, 2 start.., 3 ..end, 4 ..
fn iter_range<X: HElem, const D: bool>() {
    let c = base::<X, D>();
    let v = cfg(6);
    let s = if v <= 2 { c.pos(0, 0) } else { 0 };
    let e = if v <= 1 || v == 3 { c.pos(0, 0) } else { c.total() };
    assume(s <= e);
    let (Some(a), Some(b)) = (c.cursor(s, v <= 2 && pick(2) == 1), c.cursor(e, (v <= 1 || v == 3) && pick(2) == 1)) else {
        return;
    };
    assume(c.t.compare_pos(a, b) != Ordering::Greater);
    let (lo, hi) = match v {
        0 => (Bound::Included(a), Bound::Excluded(b)),
        1 => (Bound::Included(a), Bound::Included(b)),
        2 => (Bound::Included(a), Bound::Unbounded),
        3 => (Bound::Unbounded, Bound::Excluded(b)),
        _ => (Bound::Unbounded, Bound::Unbounded),
    };
    let l = c.leaves();
    let mut out: Vec<Run> = Vec::new();
    let mut prev: Option<usize> = None;
    for x in c.t.iter_range((lo, hi)) {
        let k = l.iter().position(|y| *y == x.cursor().leaf);
        let Some(k) = k else {
            check(false, "range iteration yields leaves of the tree");
            return;
        };
        if let Some(p) = prev {
            check(k == p + 1, "range iteration yields neighbouring leaves left to right");
        }
        prev = Some(k);
        check(core::ptr::eq(x.elem, c.t.get_elem(l[k]).unwrap()), "the yielded cursor leads to the yielded element");
        check(x.cursor().offset == 0, "the yielded cursor is the element's start");
        if (v == 0 || v == 3) && b.offset == 0 {
            check(l[k] != b.leaf, "an excluded end at an element's start does not yield the element");
        }
        let n = x.elem.rle_len();
        let i = x.start.unwrap_or(0);
        let j = x.end.unwrap_or(n);
        check(i <= j && j <= n, "the yielded part lies inside its element");
        if i < j {
            x.elem._slice(i..j).segs(&mut out);
        }
    }
    let n = total(&out);
    check(n == e.wrapping_sub(s), "range iteration covers exactly the range");
    if c.big {
        let f = c.h.flat();
        let g = flat(&out);
        for i in 0..g.len() {
            check(g[i] == f[s as usize + i], "range iteration yields the range's content in order");
        }
    } else if !out.is_empty() {
        let y = sym(0, c.bound);
        let (i, a) = unit_at(&out, y);
        let (j, b) = c.h.at(s.wrapping_add(y));
        check(or(y >= n, and(i == j, a == b)), "range iteration yields the range's content in order");
    }
    obs(n);
    reach(1);
}

// ------------------------------------------------------- cursor arithmetic

pub fn h_shift() {
    by_kind!(shift)
}
fn shift<X: HElem, const D: bool>() {
    let c = base::<X, D>();
    let p = c.pos(0, 0);
    let Some(a) = c.cursor(p, pick(2) == 1) else { return };
    let n = c.total();
    let l = c.leaves();
    match c.t.shift_path_by_one_offset(a) {
        None => check(p.wrapping_add(1) >= n, "shifting by one stops only at the end"),
        Some(b) => {
            check(p.wrapping_add(1) < n, "shifting by one does not leave the sequence");
            check(pos_of(&c.t, &l, b) == Some(p.wrapping_add(1)), "shifting by one moves by one position");
            check(
                b.offset < c.t.get_elem(b.leaf).unwrap().rle_len(),
                "a shifted cursor points at a unit",
            );
        }
    }
    reach(1);
}

pub fn h_prefer() {
    by_kind!(prefer)
}
fn prefer<X: HElem, const D: bool>() {
    let c = base::<X, D>();
    let p = c.pos(0, 0);
    let Some(a) = c.cursor(p, pick(2) == 1) else { return };
    let l = c.leaves();
    match c.t.prefer_right(a) {
        None => check(p == c.total(), "preferring the right fails only at the end"),
        Some(b) => {
            check(pos_of(&c.t, &l, b) == Some(p), "preferring the right keeps the position");
            check(
                b.offset < c.t.get_elem(b.leaf).unwrap().rle_len(),
                "preferring the right never stays at an element's end",
            );
        }
    }
    match c.t.prefer_left(a) {
        None => check(p == 0, "preferring the left fails only at the start"),
        Some(b) => {
            check(pos_of(&c.t, &l, b) == Some(p), "preferring the left keeps the position");
            check(b.offset > 0, "preferring the left never stays at an element's start");
        }
    }
    reach(1);
}

/// any query: the way it takes decides the leaf, and it has found what it
/// looked for exactly when it says so all the way down
pub fn h_spot() {
    by_kind!(spot)
}
fn spot<X: HElem, const D: bool>() {
    let c = base::<X, D>();
    if c.t.is_empty() {
        check(c.t.query::<Walk<Ca>>(&Vec::new()).is_none(), "nothing is found in an empty tree");
        return;
    }
    let d = walk(&c.t).depth;
    let mut w = Way { path: Vec::new(), found: Vec::new(), offset: symu(0, 5), leaf_found: sym(0, 1) == 1 };
    let mut want = w.leaf_found;
    let mut leaf = None;
    for k in 0..d {
        let rec = c.t.query_with_finder_return::<Walk<Ca>>(&w.path).1.rec;
        let i = pick(rec[k].len() as u64) as usize;
        w.path.push(i);
        leaf = Some(rec[k][i].0);
        let f = sym(0, 1) == 1;
        want = and(want, f);
        w.found.push(f);
    }
    let r = c.t.query::<Spot>(&w).unwrap();
    check(r.found() == want, "a query has found its target exactly when every step found it");
    check(r.offset() == w.offset, "a query's offset is the one it determined");
    check(Some(r.arena()) == leaf.map(|l| l.unwrap_leaf()), "a query ends where it was led");
    reach(1);
}

pub fn h_order() {
    by_kind!(order)
}
fn order<X: HElem, const D: bool>() {
    let c = base::<X, D>();
    let (p, q) = (c.pos(0, 0), c.pos(0, 0));
    let (Some(a), Some(b)) = (c.cursor(p, false), c.cursor(q, false)) else { return };
    let o = c.t.compare_pos(a, b);
    check((o == Ordering::Less) == (p < q), "cursors compare like their positions");
    check((o == Ordering::Equal) == (p == q), "cursors compare like their positions");
    check((o == Ordering::Greater) == (p > q), "cursors compare like their positions");
    check(c.t.compare_pos(b, a) == o.reverse(), "cursor comparison is antisymmetric");
    reach(1);
}

// ------------------------------------------------------------------ filters

pub fn h_filter() {
    by_kind!(filter)
}
/// only for traits that keep the maximum
fn filter<X: HElem, const D: bool>() {
    let mut c = base::<X, D>();
    let thr = if cfg(6) == 0 {
        conc(sym(0, 4))
    } else {
        // one stretch of elements stands out
        let n = c.leaves().len() as u64;
        let st = cfg(6);
        let a = (conc(sym(0, n / st)) * st).min(n);
        let b = (conc(sym(0, n / st)) * st).min(n);
        assume(a < b);
        for i in a..b {
            let l = c.leaves()[i as usize];
            let p = pos_of(&c.t, &c.leaves(), Cursor { leaf: l, offset: 0 }).unwrap();
            let n = c.t.get_elem(l).unwrap().rle_len() as u64;
            c.t.get_elem_mut(l).unwrap().add_attr(10);
            c.t.recursive_update_cache(l.into(), false, None);
            c.h.add(p, p.wrapping_add(n), 10);
        }
        10
    };
    let l = c.leaves();
    let mut want = Vec::new();
    let mut t = 0u64;
    let mut spans = Vec::new();
    for (i, x) in l.iter().enumerate() {
        let e = c.t.get_elem(*x).unwrap();
        let n = e.rle_len() as u64;
        if e.max_attr() >= thr {
            want.push((i, t, e.first_unit()));
            spans.push((t, t.wrapping_add(n)));
        }
        t = t.wrapping_add(n);
    }
    let mut k = 0;
    for (r, e) in c.t.iter_with_filter(|ca| (ca.mx >= thr, ca.len)) {
        check(k < want.len(), "a filtered iteration yields only accepted elements");
        if k < want.len() {
            let (i, before, _) = want[k];
            check(
                core::ptr::eq(e, c.t.get_elem(l[i]).unwrap()),
                "a filtered iteration yields the accepted elements in order",
            );
            check(r == before, "a filtered iteration accumulates everything to the left");
        }
        k += 1;
    }
    check(k == want.len(), "a filtered iteration yields every accepted element");
    // the updating form visits the same elements, each once
    let mut seen = Vec::new();
    c.t.update_cache_and_elem_with_filter(
        |ca| {
            let go = ca.mx >= thr;
            if go {
                ca.weight = ca.weight.wrapping_add(1);
            }
            go
        },
        |e: &mut X| {
            seen.push(e.first_unit());
            e.add_attr(100);
        },
    );
    check(seen.len() == want.len(), "a filtered update visits every accepted element once");
    for w in &want {
        let mut n = 0;
        for s in &seen {
            if *s == w.2 {
                n += 1;
            }
        }
        check(n == 1, "a filtered update visits every accepted element once");
    }
    for (s, e) in spans {
        c.h.add(s, e, 100);
    }
    check_content(&c.t, &c.h, c.bound, c.big);
    // the caches the filter changed are the ones on the way to those elements
    let w = walk(&c.t);
    for (i, x) in l.iter().enumerate() {
        let e = c.t.get_elem(*x).unwrap();
        let acc = want.iter().any(|w| w.0 == i);
        let was = if acc { e.weight().wrapping_sub(100 * e.rle_len() as u64).wrapping_add(1) } else { e.weight() };
        check(w.leaf_caches[i].weight == was, "a filtered update hands out each element's stored aggregate once");
    }
    reach(1);
}

// -------------------------------------------------------------------- clone

pub fn h_clone() {
    by_kind!(clone)
}
/// cfg 6: operation on one of the two copies; cfg 7: 1 + an operation before
fn clone<X: HElem, const D: bool>() {
    let mut c = base::<X, D>();
    let first = c.leaves();
    if cfg(7) > 0 {
        c.op(cfg(7) - 1);
    }
    let old = c.h.clone();
    let l = c.leaves();
    let mut gone = Vec::new();
    for x in &first {
        if c.t.get_elem(*x).is_none() {
            gone.push(*x);
        }
    }
    let mut other = c.t.clone();
    let bound = c.bound;
    if pick(2) == 1 {
        core::mem::swap(&mut other, &mut c.t);
    }
    c.op(cfg(6));
    // the changed copy
    check_content(&c.t, &c.h, c.bound, c.big);
    // the untouched copy
    check_content(&other, &old, bound, c.big);
    let w = walk(&other);
    check(w.leaves.len() == l.len(), "a clone keeps the leaf handles");
    for i in 0..l.len().min(w.leaves.len()) {
        check(w.leaves[i] == l[i], "a clone keeps the leaf handles");
    }
    check_agg(&other, !c.nomax);
    if !c.nomax {
        other.check();
    }
    // and the untouched copy can still be used
    let r = Run { base: 900 * SPACE, len: 1, attr: 2, mode: 0 };
    let p = sym(0, bound);
    assume(p <= old.total());
    let p = if c.big { conc(p) } else { p };
    let cur = other.query::<LengthFinder>(&(p as usize));
    let mut h2 = old;
    match cur {
        Some(q) => {
            other.insert_by_path(q.cursor, c.elem(&r));
        }
        None => {
            other.push(c.elem(&r));
        }
    }
    h2.ins(p, vec![r]);
    check_content(&other, &h2, bound + 1, c.big);
    for x in &l {
        check(other.get_elem(*x).is_some(), "a clone keeps the leaf handles");
    }
    for x in &gone {
        check(other.get_elem(*x).is_none(), "the handle of a removed element stays dead in a clone");
        if cfg(6) & 31 != 12 {
            check(c.t.get_elem(*x).is_none(), "the handle of a removed element stays dead in a clone");
        }
    }
    reach(1);
}

// ------------------------------------------------------- element slice helpers

fn same(r: &Run, base: u64, len: u64, m: &'static str) {
    check(r.base == base, m);
    check(r.len as u64 == len, m);
}
pub fn h_slices() {
    let b = sym(0, 1 << 40);
    let n = sym(1, 1 << 32);
    let a = sym(0, 1 << 32);
    let z = sym(0, 1 << 32);
    assume(a <= z);
    assume(z <= n);
    let r = Run { base: b, len: n as usize, attr: 1, mode: 0 };
    let lo = match pick(3) {
        0 => (Bound::Included(a as usize), a),
        1 => {
            assume(a > 0);
            (Bound::Excluded(a as usize - 1), a)
        }
        _ => (Bound::Unbounded, 0),
    };
    let hi = match pick(3) {
        0 => (Bound::Excluded(z as usize), z),
        1 => {
            assume(z > 0);
            (Bound::Included(z as usize - 1), z)
        }
        _ => (Bound::Unbounded, n),
    };
    let rg = (lo.0, hi.0);
    let (s, e) = (lo.1, hi.1);
    assume(s <= e);
    const M: &str = "a slice is exactly the part between its bounds";
    match cfg(0) {
        0 => same(&r.slice(rg), b.wrapping_add(s), e.wrapping_sub(s), M),
        1 => {
            let mut q = r.clone();
            q.slice_(rg);
            same(&q, b.wrapping_add(s), e.wrapping_sub(s), M);
        }
        2 => {
            let mut q = r.clone();
            let t = q.split(a as usize);
            same(&q, b, a, "splitting keeps the left part in place");
            same(&t, b.wrapping_add(a), n.wrapping_sub(a), "splitting returns the right part");
        }
        _ => {
            let mut q = r.clone();
            let mut calls = 0;
            let (x, y) = q.update_with_split(rg, |e| {
                calls += 1;
                e.attr = 7;
            });
            let mut v = vec![q];
            v.extend(x);
            v.extend(y);
            // concatenated: the same units; exactly the range is changed
            check(total(&v) == n, "updating a part keeps the length");
            check((calls == 1) == (s < e), "the update runs once, and only for a non-empty range");
            let p = sym(0, 1 << 32);
            let (i, at) = unit_at(&v, p);
            check(or(p >= n, i == b.wrapping_add(p)), "updating a part keeps the units in order");
            let inside = and(p >= s, p < e);
            check(or(p >= n, (at == 7) == inside), "exactly the given part is updated");
            for r in &v {
                check(r.len > 0, "updating a part leaves no empty piece");
            }
        }
    }
    reach(1);
}

// -------------------------------------------------------------------- depth

/// cfg: 0 where (0 front, 1 back, 2 a fixed symbolic position, 3 alternating
/// ends, 4 middle), 1 number of insertions, 2 kind (0 diff, 1 no diff), 3 how
/// they are removed again (0 not at all, 1 remove_leaf, 2 update_leaf, 3 search,
/// 4 drain, 5 update, 6 one large drain, 7 one large update), 4 in which order
/// (0 front, 1 back, 2 a symbolic place, 3 middle, 4 every other one; 6 and 7:
/// the grid of the ends), 5 built at once
pub fn h_depth() {
    if cfg(2) == 0 {
        depth::<true>()
    } else {
        depth::<false>()
    }
}
fn depth<const D: bool>() {
    let mut t: BTree<T<Run, D>> = BTree::new();
    let m = cfg(1);
    let at = if cfg(0) == 2 { conc(sym(0, m)) } else { 0 };
    let mut floor = 2usize; // fewest leaves a tree of the current depth may hold
    let mut d = 1usize;
    for i in 0..m {
        let p = match cfg(0) {
            0 => 0,
            1 => i,
            2 => at.min(i),
            3 => {
                if i % 2 == 0 {
                    0
                } else {
                    i
                }
            }
            _ => i / 2,
        };
        let r = Run { base: (i + 1) * SPACE, len: 1, attr: 1, mode: 1 };
        t.insert::<LengthFinder>(&(p as usize), r);
        let n = i as usize + 1;
        let k = t.depth();
        check(k == d || k == d + 1, "one insertion adds at most one level");
        if k > d {
            d = k;
            floor *= 5;
        }
        // a split leaves at least five children on either side
        check(d == 1 || n >= floor, "the depth stays logarithmic in the number of insertions");
    }
    let s = check_struct(&t);
    check(s.leaves.len() == m as usize, "every insertion is there");
    check(s.depth < 2 || s.min_children >= 5, "insertions alone keep every node at least half full");
    obs(t.depth() as u64);
    reach(1);
    if cfg(3) == 0 {
        return;
    }
    if cfg(5) == 1 {
        let mut v = Vec::new();
        for i in 0..m {
            v.push(Run { base: (i + 1) * SPACE, len: 1, attr: 1, mode: 1 });
        }
        t = v.into_iter().collect();
    }
    if cfg(3) >= 6 {
        // one large drain (6) or update (7) at a symbolic place
        let g = cfg(4).max(1);
        let a = (conc(sym(0, m / g)) * g + pick(3)).min(m);
        let b = (conc(sym(0, m / g)) * g + pick(3)).min(m);
        if a > b {
            return;
        }
        if cfg(3) == 6 {
            drop(t.drain_by_query::<LengthFinder>(a as usize..b as usize));
        } else {
            let y = t.query::<LengthFinder>(&(a as usize)).unwrap().cursor;
            let z = t.query::<LengthFinder>(&(b as usize)).unwrap().cursor;
            t.update(y..z, &mut |e: &mut Run| {
                e.clear_elem();
                Some(Di { len: -1, weight: -1 })
            });
        }
        let left = m - (b - a);
        check(t.root_cache().len == left, "a drain takes its range away");
        if left > 0 {
            let mut least = 1;
            for _ in 1..t.depth() {
                least *= 3;
            }
            check(left >= least, "the depth stays logarithmic when elements are removed");
        }
        check_struct(&t);
        reach(3);
        return;
    }
    let place = if cfg(4) == 2 { conc(sym(0, m - 1)) } else { 0 };
    let mut left = m;
    let mut turn = 0;
    while left > 0 {
        let i = match cfg(4) {
            0 => 0,
            1 => left - 1,
            2 => place.min(left - 1),
            3 => left / 2,
            _ => turn % left,
        };
        turn += 1;
        let q = t.query::<LengthFinder>(&(i as usize)).unwrap().cursor;
        // ranges: up to three at once
        let k = (left - i).min(1 + turn % 3);
        match cfg(3) {
            1 => {
                t.remove_leaf(q);
                left -= 1;
            }
            2 => {
                t.update_leaf(q.leaf, |e| {
                    e.clear_elem();
                    (true, None, None)
                });
                left -= 1;
            }
            3 => {
                t.update_leaf_by_search::<LengthFinder>(&(i as usize), |e, _| {
                    e.clear_elem();
                    Some((Di { len: -1, weight: -1 }, None, None))
                });
                left -= 1;
            }
            4 => {
                drop(t.drain_by_query::<LengthFinder>(i as usize..(i + k) as usize));
                left -= k;
            }
            _ => {
                let z = t.query::<LengthFinder>(&((i + k) as usize)).unwrap().cursor;
                t.update(q..z, &mut |e: &mut Run| {
                    e.clear_elem();
                    Some(Di { len: -1, weight: -1 })
                });
                left -= k;
            }
        }
        check(t.root_cache().len == left, "every removal takes one away");
        if left > 0 {
            let d = t.depth();
            let mut least = 1;
            for _ in 1..d {
                least *= 3;
            }
            check(left >= least, "the depth stays logarithmic when elements are removed");
        }
    }
    check_struct(&t);
    check(t.is_empty(), "removing everything leaves nothing");
    reach(2);
}

// ------------------------------------------------------------- ordered map

struct MapModel {
    /// (insert?, key, value) in order
    ops: Vec<(bool, u64, u64)>,
}
impl MapModel {
    fn get(&self, x: u64) -> (bool, u64) {
        let mut f = false;
        let mut v = 0;
        for (ins, k, val) in &self.ops {
            let c = x == *k;
            if *ins {
                f = or(f, c);
                v = ite(c, *val, v);
            } else {
                f = and(f, !c);
            }
        }
        (f, v)
    }
}
fn model_key(j: u64) -> u64 {
    (j + 1) * 1000
}

/// cfg: 0 prefill (0: ascending concrete keys, 1: ascending symbolic keys,
/// 2: symbolic keys in any order, 3: concrete, scrambled), 1 prefill size,
/// 2 deleted prefill keys (every cfg2-th is kept, 0: none deleted),
/// 3 number of operations, 4.. operations: 0 insert, 1 delete, 2 either
pub fn h_ord() {
    let mut t: OrdTreeMap<u64, u64> = OrdTreeMap::new();
    let mut m = MapModel { ops: Vec::new() };
    let mut len = 0u64;
    let n = cfg(1);
    let mut prev: Option<u64> = None;
    for i in 0..n {
        let k = match cfg(0) {
            0 => model_key(i),
            1 | 2 => sym(0, u64::MAX),
            _ => model_key((i * 11 + 3) % n),
        };
        if cfg(0) == 1 {
            if let Some(p) = prev {
                assume(p < k);
            }
            prev = Some(k);
        }
        let v = 7000 + i;
        let (f, _) = if cfg(0) == 2 { m.get(k) } else { (false, 0) };
        t.insert(k, v);
        m.ops.push((true, k, v));
        len = len.wrapping_add(ite(f, 0, 1));
    }
    if cfg(2) > 0 {
        for i in 0..n {
            if i % cfg(2) != 0 {
                let k = m.ops[i as usize].1;
                let got = t.delete(&k);
                check(got.is_some(), "deleting a present key returns it");
                m.ops.push((false, k, 0));
                len = len.wrapping_sub(1);
            }
        }
    }
    for j in 0..cfg(3) {
        let op = cfg(4 + j);
        let op = if op == 2 { pick(2) } else { op };
        let k = sym(0, u64::MAX);
        let (f, old) = m.get(k);
        if op == 0 {
            let v = sym(0, u64::MAX);
            t.insert(k, v);
            m.ops.push((true, k, v));
            len = len.wrapping_add(ite(f, 0, 1));
        } else {
            match t.delete(&k) {
                None => check(!f, "deleting a present key returns it"),
                Some((rk, rv)) => {
                    check(f, "deleting an absent key removes nothing");
                    check(rk == k, "deleting returns the key that was asked for");
                    check(rv == old, "deleting returns the latest value");
                }
            }
            m.ops.push((false, k, 0));
            len = len.wrapping_sub(ite(f, 1, 0));
        }
    }
    check(t.len() as u64 == len, "the map's length counts its keys");
    check(t.is_empty() == (len == 0), "the map is empty exactly when it has no key");
    let mut prev: Option<u64> = None;
    let mut cnt = 0u64;
    let x = sym(0, u64::MAX);
    let mut found = false;
    let mut val = 0;
    for (k, v) in t.iter() {
        if let Some(p) = prev {
            check(p < *k, "iteration is in strictly increasing key order");
        }
        prev = Some(*k);
        let c = x == *k;
        found = or(found, c);
        val = ite(c, *v, val);
        cnt += 1;
        obs(*k);
        obs(*v);
    }
    check(cnt == len, "iteration yields every key once");
    let (f, v) = m.get(x);
    check(found == f, "the map holds exactly the keys inserted and not deleted");
    check(or(!f, v == val), "the map holds the latest value of each key");
    let mut kk = t.iter_key();
    for (k, _) in t.iter() {
        match kk.next() {
            Some(y) => check(*y == *k, "key iteration agrees with entry iteration"),
            None => check(false, "key iteration agrees with entry iteration"),
        }
    }
    check(kk.next().is_none(), "key iteration agrees with entry iteration");
    reach(1);
}

/// the same for the set
pub fn h_ordset() {
    let mut t: OrdTreeSet<u64> = OrdTreeSet::new();
    let mut m = MapModel { ops: Vec::new() };
    let mut len = 0u64;
    for i in 0..cfg(1) {
        t.insert(model_key(i));
        m.ops.push((true, model_key(i), 0));
        len += 1;
    }
    for j in 0..cfg(3) {
        let op = cfg(4 + j);
        let op = if op == 2 { pick(2) } else { op };
        let k = sym(0, u64::MAX);
        let (f, _) = m.get(k);
        if op == 0 {
            t.insert(k);
            m.ops.push((true, k, 0));
            len = len.wrapping_add(ite(f, 0, 1));
        } else {
            check(t.delete(&k) == f, "deleting tells whether the key was present");
            m.ops.push((false, k, 0));
            len = len.wrapping_sub(ite(f, 1, 0));
        }
    }
    check(t.len() as u64 == len, "the set's length counts its keys");
    check(t.is_empty() == (len == 0), "the set is empty exactly when it has no key");
    let x = sym(0, u64::MAX);
    let mut prev: Option<u64> = None;
    let mut found = false;
    let mut cnt = 0u64;
    for k in t.iter() {
        if let Some(p) = prev {
            check(p < *k, "iteration is in strictly increasing key order");
        }
        prev = Some(*k);
        found = or(found, x == *k);
        cnt += 1;
        obs(*k);
    }
    check(cnt == len, "iteration yields every key once");
    check(found == m.get(x).0, "the set holds exactly the keys inserted and not deleted");
    reach(1);
}

// --------------------------------------------------------------------- rope

/// `n` bytes of text; with `wide`, characters of one to four bytes (the last
/// ones short enough to fit)
fn text(seed: u64, n: usize, wide: bool) -> String {
    let mut s = String::with_capacity(n);
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    let mut i = 0;
    while s.len() < n {
        i += 1;
        if wide && n >= 128 {
            // a character lies across every 128th byte or the next one
            let c = if i % 4 == 0 { 'é' } else { '€' };
            s.push(if s.len() + c.len_utf8() <= n { c } else { 'x' });
            continue;
        }
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let r = (x >> 33) % 94;
        let c = match if wide { (x >> 48) % 5 } else { 0 } {
            2 => 'é',
            3 => '€',
            4 => '😀',
            _ => (33 + r as u8) as char,
        };
        if s.len() + c.len_utf8() <= n {
            s.push(c);
        }
    }
    s
}

/// cfg: 0 number of initial pieces, 1 bytes per piece, 2 where they go (0 end,
/// 1 front; + 2: text of one to four byte characters, edits at their
/// boundaries), 3 stride of positions, 4 operations, then two words per
/// operation: code | window << 8, size
/// codes: 0 insert, 1 delete a..b, 2 delete one, 3 clear, 4 delete with any
/// kind of range, 5 insert symbolic bytes, 6 delete everything, 7 insert at the
/// last position or next to it (typing), 8 delete just before it (backspace)
/// the last character boundary up to `p`
fn boundary(m: &[u8], p: usize) -> usize {
    let mut p = p;
    while p < m.len() && m[p] & 0xC0 == 0x80 {
        p -= 1;
    }
    p
}

pub fn h_rope() {
    let mut r = Rope::new();
    let mut m: Vec<u8> = Vec::new();
    let wide = cfg(2) & 2 != 0;
    for i in 0..cfg(0) {
        let s = text(i + 1, cfg(1) as usize, wide);
        if cfg(2) & 1 == 0 {
            r.insert(r.len(), &s);
            m.extend_from_slice(s.as_bytes());
        } else {
            r.insert(0, &s);
            let mut v = s.into_bytes();
            v.extend_from_slice(&m);
            m = v;
        }
    }
    let stride = cfg(3).max(1);
    let mut last = 0usize;
    for j in 0..cfg(4) {
        let code = cfg(5 + 2 * j);
        let win = code >> 8;
        let code = code & 255;
        let size = cfg(6 + 2 * j) as usize;
        let n = m.len();
        // positions: multiples of the stride, or (window) near `last`
        let place = |last: usize| -> usize {
            let p = if win > 0 {
                let d = conc(sym(0, 2 * win)) as usize;
                (last + d).saturating_sub(win as usize).min(n)
            } else if stride == 1 {
                conc(sym(0, n as u64)) as usize
            } else {
                // multiples of the stride and both their neighbours
                let k = conc(sym(0, n as u64 / stride + 1)) * stride;
                (k + pick(3)).saturating_sub(1).min(n as u64) as usize
            };
            boundary(&m, p)
        };
        match code {
            0 | 5 | 7 => {
                let p = if code == 7 { last.min(n) } else { place(last) };
                let s = text(100 + j, size, wide);
                r.insert(p, &s);
                let t = m.split_off(p);
                m.extend_from_slice(s.as_bytes());
                m.extend_from_slice(&t);
                last = p + size;
            }
            1 => {
                let a = place(last);
                let b = if size == 0 { place(last).max(a) } else { boundary(&m, (a + size).min(n)) };
                r.delete_range(a..b);
                m.drain(a..b);
                last = a;
            }
            2 | 8 => {
                let a = if code == 8 { boundary(&m, last.min(n).saturating_sub(1)) } else { place(last) };
                // one character
                let mut b = a + 1;
                while b < n && boundary(&m, b) != b {
                    b += 1;
                }
                r.delete_range(a..b);
                if a < n {
                    m.drain(a..b);
                }
                last = a;
            }
            3 => {
                r.clear();
                m.clear();
            }
            4 => {
                let a = place(last);
                let b = boundary(&m, (a + size).min(n));
                match pick(7) {
                    6 if !wide => {
                        // the unit at a stays
                        r.delete_range((Bound::Excluded(a), Bound::Excluded(b)));
                        if a + 1 < b {
                            m.drain(a + 1..b);
                        }
                    }
                    0 => {
                        r.delete_range(..b);
                        m.drain(..b);
                    }
                    1 => {
                        r.delete_range(a..);
                        m.truncate(a);
                    }
                    2 => {
                        if b > a {
                            r.delete_range(a..=b - 1);
                            m.drain(a..b);
                        }
                    }
                    3 => {
                        // past the end is clamped
                        r.delete_range(a..n + 3);
                        m.truncate(a);
                    }
                    4 => {
                        r.delete_range(n + 1..n + 3);
                    }
                    _ => {
                        r.delete_range(a..a);
                    }
                }
                last = a.min(m.len());
            }
            _ => {
                r.delete_range(..);
                m.clear();
                last = 0;
            }
        }
        check(r.len() == m.len(), "the rope is as long as the string");
        check(r.is_empty() == m.is_empty(), "the rope is empty exactly when the string is");
    }
    r.check();
    let s = r.to_string();
    check(s.len() == m.len(), "the rope reads back as the string");
    let b = s.as_bytes();
    let mut same = true;
    for i in 0..m.len().min(b.len()) {
        if b[i] != m[i] {
            same = false;
        }
    }
    check(same, "the rope reads back as the string");
    obs(m.len() as u64);
    let mut hsh = 0u64;
    for x in b {
        hsh = hsh.wrapping_mul(31).wrapping_add(*x as u64);
    }
    obs(hsh);
    reach(1);
}

// --------------------------------------------------------------- degenerate

/// cfg 6: which request
pub fn h_degenerate() {
    by_kind!(degenerate)
}
fn degenerate<X: HElem, const D: bool>() {
    let mut c = base::<X, D>();
    let n = c.total();
    match cfg(6) {
        // nothing to find in an empty tree
        0 => {
            let mut t: BTree<T<X, D>> = BTree::new();
            let q = symu(0, 5);
            check(t.query::<LengthFinder>(&q).is_none(), "nothing is found in an empty tree");
            check(t.range::<LengthFinder>(q..q).is_none(), "an empty tree has no range");
            check(t.iter().next().is_none(), "an empty tree yields nothing");
            check(t.iter_range(..).next().is_none(), "an empty tree yields nothing");
            check(t.first_leaf().is_none(), "an empty tree has no ends");
            check(t.last_leaf().is_none(), "an empty tree has no ends");
            check(t.start_cursor().is_none(), "an empty tree has no ends");
            check(t.end_cursor().is_none(), "an empty tree has no ends");
            check(t.is_empty(), "a new tree is empty");
            check(*t.root_cache() == Ca::default(), "an empty tree has no weight");
            check(t.iter_with_filter(|_| (true, 0u64)).next().is_none(), "an empty tree yields nothing");
            t.clear();
            check(t.is_empty(), "a cleared tree is empty");
            let e: Vec<X> = Vec::new();
            let t2: BTree<T<X, D>> = e.into_iter().collect();
            check(t2.is_empty(), "collecting nothing gives an empty tree");
            t2.check();
        }
        // draining an empty range, anywhere, changes nothing
        1 => {
            let p = c.pos(0, 0);
            let k = {
                let mut d = c.t.drain_by_query::<LengthFinder>(p as usize..p as usize);
                d.next().is_some()
            };
            check(!k, "draining an empty range yields nothing");
            check_content(&c.t, &c.h, c.bound, c.big);
        }
        // an empty batch changes nothing
        2 => {
            let p = c.pos(0, 0);
            let cur = c.cursor(p, false);
            c.t.insert_many_by_cursor(cur, core::iter::empty());
            check_content(&c.t, &c.h, c.bound, c.big);
        }
        // annotating an empty range changes nothing
        3 => {
            let l = c.leaves();
            if l.is_empty() {
                let v = c.t.update_leaves_with_arg_in_ranges(Vec::<(_, _, u64)>::new(), |e, d| e.add_attr(*d));
                check(v.is_empty(), "no annotation creates no leaf");
            } else {
                let i = pick(l.len() as u64) as usize;
                let len = conc(c.t.get_elem(l[i]).unwrap().rle_len() as u64) as usize;
                let a = conc(sym(0, len as u64)) as usize;
                let mut args = vec![(l[i], a..a, 5u64)];
                let other = pick(2) == 1;
                if other && len > 1 {
                    let p = pos_of(&c.t, &l, Cursor { leaf: l[i], offset: 0 }).unwrap();
                    args.push((l[i], 0..1, 9u64));
                    c.h.add(p, p.wrapping_add(1), 9);
                }
                c.t.update_leaves_with_arg_in_ranges(args, |e, d| e.add_attr(*d));
            }
            check_content(&c.t, &c.h, c.bound, c.big);
        }
        // updating an empty range changes nothing
        4 => {
            if !c.t.is_empty() {
                let p = c.pos(0, 0);
                let (Some(a), Some(b)) = (c.cursor(p, false), c.cursor(p, false)) else { return };
                c.t.update(a..b, &mut |e: &mut X| {
                    e.add_attr(1);
                    Some(Di { len: 0, weight: e.rle_len() as i64 })
                });
            }
            check_content(&c.t, &c.h, c.bound, c.big);
        }
        // a tree emptied in any way is as good as new
        _ => {
            match pick(4) {
                0 => drop(c.t.drain_by_query::<LengthFinder>(0..n as usize)),
                1 => {
                    for l in c.leaves() {
                        c.t.remove_leaf(Cursor { leaf: l, offset: 0 });
                    }
                }
                2 => {
                    for l in c.leaves() {
                        c.t.update_leaf(l, |e| {
                            e.clear_elem();
                            (true, None, None)
                        });
                    }
                }
                _ => c.t.clear(),
            }
            check(c.t.is_empty(), "an emptied tree is empty");
            check(c.t.root_cache().len == 0, "an emptied tree has no length");
            check(c.t.query::<LengthFinder>(&0).is_none(), "nothing is found in an emptied tree");
            c.h = Hist::new(Vec::new());
            let k = pick(4);
            let r = c.fresh_run();
            let e = c.elem(&r);
            c.h.ins(0, vec![r]);
            match k {
                0 => {
                    c.t.push(e);
                }
                1 => {
                    c.t.prepend(e);
                }
                2 => {
                    c.t.insert::<LengthFinder>(&0, e);
                }
                _ => c.t.insert_many_by_cursor(None, core::iter::once(e)),
            }
            check_content(&c.t, &c.h, c.bound, c.big);
            check_agg(&c.t, !c.nomax);
            let p = c.pos(0, 0);
            let r = c.fresh_run();
            let e = c.elem(&r);
            c.t.insert::<LengthFinder>(&(p as usize), e);
            c.h.ins(p, vec![r]);
            check_content(&c.t, &c.h, c.bound, c.big);
        }
    }
    c.t.check();
    reach(1);
}

#[allow(unused)]
fn unused(_: HeapVec<u8>, r: &Run) -> usize {
    r.rle_len()
}

// ---------------------------------------------------- in-place changes

/// cfg 6: 0 refreshed without differences, 1 with the difference given, 2 with
/// the difference worked out by the tree, 3 with a difference that must not be
/// used; cfg 7: how many elements, one by one
pub fn h_inplace() {
    by_kind!(inplace)
}
fn inplace<X: HElem, const D: bool>() {
    let mut c = base::<X, D>();
    for _ in 0..cfg(7) {
        let l = c.leaves();
        if l.is_empty() {
            return;
        }
        let i = pick(l.len() as u64) as usize;
        let p = pos_of(&c.t, &l, Cursor { leaf: l[i], offset: 0 }).unwrap();
        let cut = pick(2) == 1;
        let x = c.t.get_elem_mut(l[i]).unwrap();
        let n = x.rle_len() as u64;
        let w = x.weight();
        if cut {
            let o = sym(1, if X::SYMLEN { c.lmax } else { CAP as u64 });
            assume(o <= n);
            let o = if c.big { conc(o) } else { o };
            x.slice_(0..o as usize);
            c.h.del(p.wrapping_add(o), p.wrapping_add(n));
        } else {
            x.add_attr(7);
            c.h.add(p, p.wrapping_add(n), 7);
        }
        let d = Di {
            len: (x.rle_len() as u64).wrapping_sub(n) as i64,
            weight: x.weight().wrapping_sub(w) as i64,
        };
        match cfg(6) {
            0 => c.t.recursive_update_cache(l[i].into(), false, None),
            1 => c.t.recursive_update_cache(l[i].into(), true, Some(d)),
            2 => c.t.recursive_update_cache(l[i].into(), true, None),
            _ => c.t.recursive_update_cache(l[i].into(), false, Some(Di { len: 1, weight: 1 })),
        }
        c.nomax |= cfg(6) == 1 || cfg(6) == 2;
    }
    check_content(&c.t, &c.h, c.bound, c.big);
    check_agg(&c.t, !c.nomax);
    check(c.t.root_cache().len == c.h.total(), "the root aggregate is the sequence's length");
    check_struct(&c.t);
    reach(1);
}

// ------------------------------------------------------------------- work

/// The number of aggregates and elements consulted by one operation on a large
/// tree is bounded by its depth (and, for ranges, by what the range touches).
/// cfg 6: operation, cfg 7: how often
pub fn h_work() {
    by_kind!(h_work_)
}
fn h_work_<X: HElem, const D: bool>() {
    work();
    let mut c = base::<X, D>();
    let w = work();
    let n = c.t.root_cache().len / c.t.iter().next().map_or(1, |x| x.rle_len() as u64);
    check(cfg(2) != 1 || w <= 4 * n, "building a tree consults a number of elements and aggregates proportional to its length");
    check(w <= 60 * n, "growing a tree consults logarithmically many aggregates per element");
    for _ in 0..cfg(7) {
        one_work(&mut c, cfg(6));
    }
    reach(1);
}
/// generous: a dozen full nodes on each level
fn budget(depth: usize) -> u64 {
    12 * 12 * (depth as u64 + 1)
}
fn one_work<X: HElem, const D: bool>(c: &mut Ctx<X, D>, op: u64) {
    let depth = c.t.depth();
    let n = c.t.root_cache().len;
    check(budget(depth) < n, "harness: the tree is too small for its budget to mean anything");
    // around any multiple of cfg 8
    let g = cfg(8);
    let p = (conc(sym(0, n / g)) * g + pick(3)).saturating_sub(1).min(n);
    let q = p as usize;
    let cur = c.t.query::<LengthFinder>(&q).unwrap().cursor;
    let r = c.fresh_run();
    let e = c.elem(&r);
    let len = c.t.get_elem(cur.leaf).unwrap().rle_len();
    // a range over a few elements
    let z = (p + 9).min(n);
    let end = c.t.query::<LengthFinder>(&(z as usize)).unwrap().cursor;
    let di = |e: &X| Di { len: e.rle_len() as i64, weight: e.weight() as i64 };
    work();
    match op {
        0 => {
            let a = c.t.query::<LengthFinder>(&q);
            obs(a.unwrap().offset() as u64);
        }
        1 => {
            c.t.insert::<LengthFinder>(&q, e);
        }
        2 => {
            c.t.insert_by_path(cur, e);
        }
        3 => {
            c.t.remove_leaf(cur);
        }
        4 => {
            c.t.update_leaf(cur.leaf, |x| {
                x.add_attr(3);
                (true, Some(e.clone()), Some(e))
            });
        }
        5 => {
            let d = di(&e);
            c.t.update_leaf_by_search::<LengthFinder>(&q, |_, _| Some((d, Some(e), None)));
        }
        6 => {
            c.t.push(e);
        }
        7 => {
            c.t.prepend(e);
        }
        8 => {
            obs(c.t.next_elem(cur).is_some() as u64);
            obs(c.t.prev_elem(cur).is_some() as u64);
            obs((c.t.compare_pos(cur, end) == Ordering::Less) as u64);
            obs(c.t.first_leaf().is_some() as u64);
            obs(c.t.last_leaf().is_some() as u64);
            obs(c.t.shift_path_by_one_offset(cur).is_some() as u64);
            obs(c.t.prefer_left(cur).is_some() as u64);
            obs(c.t.prefer_right(cur).is_some() as u64);
        }
        9 => {
            drop(c.t.drain_by_query::<LengthFinder>(q..z as usize));
        }
        10 => {
            c.t.update(cur..end, &mut |x: &mut X| {
                let n = x.rle_len() as i64;
                x.add_attr(3);
                Some(Di { len: 0, weight: 3 * n })
            });
        }
        11 => {
            let mut k = 0;
            for x in c.t.iter_range(cur..end) {
                k += x.elem.rle_len() as u64;
            }
            obs(k);
        }
        12 => {
            c.t.insert_many_by_cursor(Some(cur), vec![e.clone(), e].into_iter());
        }
        13 => {
            c.t.update_leaves_with_arg_in_ranges(vec![(cur.leaf, 0..len, 3u64), (end.leaf, 0..1, 5)], |x, d| x.add_attr(*d));
        }
        14 => {
            let mut k = 0u64;
            c.t.visit_previous_caches(cur, |_| k += 1);
            obs(k);
            // each aggregate handed out is work as well
            check(k <= 12 * depth as u64 + 1, "what precedes a cursor is reported by logarithmically many aggregates");
        }
        15 => {
            c.t.get_elem_mut(cur.leaf).unwrap().add_attr(2);
            c.t.recursive_update_cache(cur.leaf.into(), false, None);
        }
        16 => {
            // a filter that accepts the elements above a threshold: just one
            c.t.get_elem_mut(cur.leaf).unwrap().add_attr(1000);
            c.t.recursive_update_cache(cur.leaf.into(), false, None);
            let mut k = 0u64;
            let mut a = 0;
            for (_, x) in c.t.iter_with_filter(|cache| {
                a += 1;
                (D || cache.mx >= 1000, cache.len)
            }) {
                k += x.rle_len() as u64;
            }
            check(D || a <= budget(depth), "a filtered traversal visits only the accepted subtrees");
            obs(k);
        }
        _ => {
            // clearing a stretch of elements by an update
            c.t.update(cur..end, &mut |x: &mut X| {
                let n = x.rle_len() as i64;
                let w = x.weight() as i64;
                x.clear_elem();
                Some(Di { len: -n, weight: -w })
            });
        }
    }
    let w = work();
    obs(w);
    check(w <= budget(depth), "one operation consults a number of aggregates and elements proportional to the depth");
}

/// keys that count comparisons
#[derive(Debug, Clone, Copy, Eq)]
pub struct CKey(u64);
impl PartialEq for CKey {
    fn eq(&self, o: &Self) -> bool {
        unsafe { *CMPS.0.get() += 1 }
        self.0 == o.0
    }
}
struct Cmps(core::cell::UnsafeCell<u64>);
unsafe impl Sync for Cmps {}
static CMPS: Cmps = Cmps(core::cell::UnsafeCell::new(0));
impl Ord for CKey {
    fn cmp(&self, o: &Self) -> Ordering {
        unsafe { *CMPS.0.get() += 1 }
        self.0.cmp(&o.0)
    }
}
impl PartialOrd for CKey {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
/// cfg 0: order of the insertions, cfg 1: how many; then one insertion or
/// deletion with any key
pub fn h_ordwork() {
    let mut t: OrdTreeMap<CKey, u64> = OrdTreeMap::new();
    let n = cfg(1);
    for i in 0..n {
        let k = match cfg(0) {
            0 => i,
            1 => n - 1 - i,
            _ => (i * 7919) % n,
        };
        t.insert(CKey(2 * k + 1), i);
        let c = unsafe { core::mem::replace(&mut *CMPS.0.get(), 0) };
        check(i < 512 || c <= 200, "inserting a key makes logarithmically many comparisons");
    }
    let k = CKey(conc(sym(0, 20)) * (n / 10));
    match pick(2) {
        0 => t.insert(k, 1),
        _ => {
            obs(t.delete(&k).is_some() as u64);
        }
    }
    let c = unsafe { core::mem::replace(&mut *CMPS.0.get(), 0) };
    obs(c);
    check(c <= 200, "finding a key makes logarithmically many comparisons");
    reach(1);
}
