//! Looking at a tree from outside: a query that steers along a chosen child
//! path and records the child tables it is shown.
use crate::model::*;
use crate::sx::*;
use core::cmp::Ordering;
use generic_btree::{ArenaIndex, BTree, BTreeTrait, Child, Cursor, FindResult, LeafIndex, PreviousCache, Query};

pub struct Walk<C> {
    level: usize,
    pub rec: Vec<Vec<(ArenaIndex, C)>>,
}
impl<B: BTreeTrait> Query<B> for Walk<B::Cache> {
    type QueryArg = Vec<usize>;
    fn init(_: &Vec<usize>) -> Self {
        Walk { level: 0, rec: Vec::new() }
    }
    fn find_node(&mut self, path: &Vec<usize>, ch: &[Child<B>]) -> FindResult {
        let mut v = Vec::with_capacity(ch.len());
        for c in ch {
            v.push((c.arena, c.cache.clone()));
        }
        self.rec.push(v);
        let i = if self.level < path.len() { path[self.level] } else { 0 };
        self.level += 1;
        FindResult::new_found(i, 0)
    }
    fn confirm_elem(&mut self, _: &Vec<usize>, _: &B::Elem) -> (usize, bool) {
        (0, true)
    }
}

/// A query that takes a given way down and reports given flags.
pub struct Spot {
    level: usize,
}
#[derive(Clone)]
pub struct Way {
    pub path: Vec<usize>,
    pub found: Vec<bool>,
    pub offset: usize,
    pub leaf_found: bool,
}
impl<B: BTreeTrait> Query<B> for Spot {
    type QueryArg = Way;
    fn init(_: &Way) -> Self {
        Spot { level: 0 }
    }
    fn find_node(&mut self, w: &Way, _: &[Child<B>]) -> FindResult {
        let i = self.level;
        self.level += 1;
        FindResult { index: w.path[i], offset: 0, found: w.found[i] }
    }
    fn confirm_elem(&mut self, w: &Way, _: &B::Elem) -> (usize, bool) {
        (w.offset, w.leaf_found)
    }
}

pub struct Seen<C> {
    pub leaves: Vec<LeafIndex>,
    /// node directly above each leaf (None: the root)
    pub above: Vec<Option<ArenaIndex>>,
    pub depth: usize,
    pub internal: usize,
    pub max_children: usize,
    /// smallest child count of any node other than the root
    pub min_children: usize,
    pub root_children: Vec<C>,
    pub leaf_caches: Vec<C>,
    /// (stored cache, caches of the node's children)
    pub pairs: Vec<(C, Vec<C>)>,
    pub uniform: bool,
}

pub fn is_leaf(a: &ArenaIndex) -> bool {
    matches!(a, ArenaIndex::Leaf(_))
}

pub fn walk<B: BTreeTrait>(tree: &BTree<B>) -> Seen<B::Cache> {
    let mut s = Seen {
        leaves: Vec::new(),
        above: Vec::new(),
        depth: 0,
        internal: 1,
        max_children: 0,
        min_children: usize::MAX,
        root_children: Vec::new(),
        leaf_caches: Vec::new(),
        pairs: Vec::new(),
        uniform: true,
    };
    let mut path: Vec<usize> = Vec::new();
    let mut first = true;
    loop {
        let (r, w) = tree.query_with_finder_return::<Walk<B::Cache>>(&path);
        if r.is_none() {
            return s;
        }
        let d = w.rec.len();
        // levels at or below `fresh` are visited for the first time
        let fresh = if first { 0 } else { path.len() };
        if first {
            s.depth = d;
            for c in &w.rec[0] {
                s.root_children.push(c.1.clone());
            }
            s.max_children = w.rec[0].len();
            first = false;
        }
        if d != s.depth {
            s.uniform = false;
            return s;
        }
        while path.len() + 1 < d {
            path.push(0);
        }
        for k in 0..d {
            for c in &w.rec[k] {
                if is_leaf(&c.0) != (k + 1 == d) {
                    s.uniform = false;
                    return s;
                }
            }
            if k > 0 && k >= fresh {
                s.internal += 1;
                let n = w.rec[k].len();
                if n > s.max_children {
                    s.max_children = n;
                }
                if n < s.min_children {
                    s.min_children = n;
                }
                let mut v = Vec::with_capacity(n);
                for c in &w.rec[k] {
                    v.push(c.1.clone());
                }
                s.pairs.push((w.rec[k - 1][path[k - 1]].1.clone(), v));
            }
        }
        let up = if d > 1 { Some(w.rec[d - 2][path[d - 2]].0) } else { None };
        for c in &w.rec[d - 1] {
            s.leaves.push(c.0.unwrap_leaf().into());
            s.above.push(up);
            s.leaf_caches.push(c.1.clone());
        }
        // next bottom node
        let mut k = path.len();
        loop {
            if k == 0 {
                return s;
            }
            k -= 1;
            if path[k] + 1 < w.rec[k].len() {
                path[k] += 1;
                path.truncate(k + 1);
                break;
            }
        }
    }
}

/// shape invariants, from the outside and by the tree's own self-check
pub fn check_struct<B: BTreeTrait>(tree: &BTree<B>) -> Seen<B::Cache> {
    let s = walk(tree);
    check(s.uniform, "all leaves are at the same depth");
    check(s.max_children <= 12, "no node holds more than the maximum number of children");
    check(s.min_children >= 1, "no empty internal node below the root");
    check(s.depth < 2 || s.root_children.len() > 1, "the root is not above a single internal node");
    check(
        tree.node_len() == s.internal + s.leaves.len(),
        "every stored node is reachable (node count matches the reachable nodes)",
    );
    check(tree.is_empty() == s.leaves.is_empty(), "is_empty agrees with the content");
    if !s.leaves.is_empty() {
        check(tree.depth() == s.depth, "depth() is the distance from root to leaves");
    }
    for (i, l) in s.leaves.iter().enumerate() {
        check(tree.get_elem(*l).is_some(), "every leaf slot holds an element");
        if let Some(a) = s.above[i] {
            check(tree.get_leaf((*l).into()).parent() == a, "a leaf's parent is the node that lists it");
            if i == 0 || s.above[i - 1] != Some(a) {
                let mut n = 1;
                while i + n < s.leaves.len() && s.above[i + n] == Some(a) {
                    n += 1;
                }
                let node = tree.get_internal(a);
                check(node.len() == n, "a node tells how many children it has");
                check(node.is_full() == (n == 12), "a node tells whether it is full");
                check(!node.is_empty() && node.is_child_leaf(), "a node tells what its children are");
            }
        }
    }
    s
}

fn same_leaf(a: Option<Cursor>, l: Option<LeafIndex>) -> bool {
    match (a, l) {
        (None, None) => true,
        (Some(a), Some(l)) => a.leaf == l,
        _ => false,
    }
}

/// neighbour navigation, ends and order agree with the left-to-right order
pub fn check_nav<B: BTreeTrait>(tree: &BTree<B>, all_pairs: bool) {
    let s = walk(tree);
    let n = s.leaves.len();
    check(tree.first_leaf() == s.leaves.first().copied(), "first_leaf is the leftmost leaf");
    check(tree.last_leaf() == s.leaves.last().copied(), "last_leaf is the rightmost leaf");
    let cur = |i: usize, offset: usize| Cursor { leaf: s.leaves[i], offset };
    for i in 0..n {
        let nx = if i + 1 < n { Some(s.leaves[i + 1]) } else { None };
        let pv = if i > 0 { Some(s.leaves[i - 1]) } else { None };
        check(same_leaf(tree.next_elem(cur(i, 0)), nx), "next_elem is the leaf to the right");
        check(same_leaf(tree.prev_elem(cur(i, 0)), pv), "prev_elem is the leaf to the left");
        if let Some(c) = tree.next_elem(cur(i, 0)) {
            check(c.offset == 0, "next_elem points at the element's start");
        }
        if i + 1 < n {
            check(tree.compare_pos(cur(i, 0), cur(i + 1, 0)) == Ordering::Less, "compare_pos: left before right");
            check(tree.compare_pos(cur(i + 1, 0), cur(i, 0)) == Ordering::Greater, "compare_pos: right after left");
        }
        check(tree.compare_pos(cur(i, 0), cur(i, 0)) == Ordering::Equal, "compare_pos: a position equals itself");
        if all_pairs {
            for j in i + 2..n {
                // large trees: a spread of pairs
                if n > 24 && (j - i) % 7 != 0 && j + 1 < n {
                    continue;
                }
                check(tree.compare_pos(cur(i, 0), cur(j, 0)) == Ordering::Less, "compare_pos: earlier before later");
                check(tree.compare_pos(cur(j, 0), cur(i, 0)) == Ordering::Greater, "compare_pos: later after earlier");
            }
        }
    }
    let mut k = 0;
    for e in tree.iter() {
        check(k < n, "iter yields no more elements than there are leaves");
        if k < n {
            let g = tree.get_elem(s.leaves[k]).unwrap();
            check(core::ptr::eq(e, g), "iter yields the leaves in order");
        }
        k += 1;
    }
    check(k == n, "iter yields every leaf once");
}

/// aggregates: every stored cache is the combination of what is below it
/// mx: whether the maxima are expected to be exact
pub fn check_agg<X: HElem, const D: bool>(tree: &BTree<T<X, D>>, mx: bool) {
    let s = walk(tree);
    let mut sum = Ca::default();
    for (i, l) in s.leaves.iter().enumerate() {
        let e = tree.get_elem(*l).unwrap();
        let c = <T<X, D> as BTreeTrait>::get_elem_cache(e);
        check(s.leaf_caches[i].len == c.len, "a leaf's stored length is its element's");
        check(s.leaf_caches[i].weight == c.weight, "a leaf's stored weight is its element's");
        check(!mx || s.leaf_caches[i].mx == c.mx, "a leaf's stored maximum is its element's");
        comb(&mut sum, &c);
    }
    for (stored, ch) in &s.pairs {
        let mut t = Ca::default();
        for c in ch {
            comb(&mut t, c);
        }
        check(stored.len == t.len, "a node's stored length is the sum of its children");
        check(stored.weight == t.weight, "a node's stored weight is the sum of its children");
        check(!mx || stored.mx == t.mx, "a node's stored maximum is the maximum of its children");
    }
    let r = tree.root_cache();
    check(r.len == sum.len, "the root aggregate counts every unit");
    check(r.weight == sum.weight, "the root aggregate sums every weight");
    check(!mx || r.mx == sum.mx, "the root aggregate holds the maximum");
}
pub fn comb(a: &mut Ca, b: &Ca) {
    a.len = a.len.wrapping_add(b.len);
    a.weight = a.weight.wrapping_add(b.weight);
    if b.mx > a.mx {
        a.mx = b.mx;
    }
}

pub fn segs<X: HElem, const D: bool>(tree: &BTree<T<X, D>>) -> Vec<Run> {
    let mut v = Vec::new();
    for e in tree.iter() {
        e.segs(&mut v);
    }
    v
}

/// index-based position of a cursor: units before it
pub fn pos_of<X: HElem, const D: bool>(tree: &BTree<T<X, D>>, leaves: &[LeafIndex], c: Cursor) -> Option<u64> {
    let mut t = 0u64;
    for l in leaves {
        if *l == c.leaf {
            return Some(t.wrapping_add(c.offset as u64));
        }
        t = t.wrapping_add(tree.get_elem(*l).unwrap().rle_len() as u64);
    }
    None
}

/// visit_previous_caches must add up to the cursor's position
pub fn prev_sum<X: HElem, const D: bool>(tree: &BTree<T<X, D>>, c: Cursor) -> (u64, u64) {
    let mut t = 0u64;
    let mut w = 0u64;
    tree.visit_previous_caches(c, |p| match p {
        PreviousCache::NodeCache(c) => {
            t = t.wrapping_add(c.len);
            w = w.wrapping_add(c.weight);
        }
        PreviousCache::PrevSiblingElem(e) => {
            t = t.wrapping_add(e.rle_len() as u64);
            w = w.wrapping_add(e.weight());
        }
        PreviousCache::ThisElemAndOffset { offset, .. } => {
            t = t.wrapping_add(offset as u64);
        }
    });
    (t, w)
}
