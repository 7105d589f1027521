//! Element types, tree traits and the reference semantics.
use crate::sx::*;
use core::marker::PhantomData;
use core::ops::Range;
use generic_btree::rle::{CanRemove, HasLength, Mergeable, Sliceable, TryInsert};
use generic_btree::{BTreeTrait, Child, UseLengthFinder};

/// A stretch of content: unit i (0 <= i < len) has identity base+i.
#[derive(Debug, Clone)]
pub struct Run {
    pub base: u64,
    pub len: usize,
    pub attr: u64,
    /// 0: merges with a contiguous run of equal attribute, 1: never merges
    pub mode: u8,
}

pub trait HElem:
    core::fmt::Debug + Clone + HasLength + Sliceable + Mergeable + TryInsert + CanRemove + 'static
{
    /// can lengths be symbolic?
    const SYMLEN: bool;
    /// does mergeability depend on the attribute alone?
    const STYLED: bool = false;
    fn make(base: u64, len: usize, attr: u64, mode: u8) -> Self;
    fn segs(&self, out: &mut Vec<Run>);
    fn add_attr(&mut self, d: u64);
    fn weight(&self) -> u64;
    fn max_attr(&self) -> u64;
    fn first_unit(&self) -> u64;
    fn clear_elem(&mut self);
    fn mode(&self) -> u8 {
        1
    }
}

impl HElem for Run {
    fn clear_elem(&mut self) {
        self.len = 0
    }
    fn mode(&self) -> u8 {
        self.mode
    }
    const SYMLEN: bool = true;
    fn make(base: u64, len: usize, attr: u64, mode: u8) -> Self {
        Run { base, len, attr, mode }
    }
    fn segs(&self, out: &mut Vec<Run>) {
        out.push(self.clone())
    }
    fn add_attr(&mut self, d: u64) {
        self.attr = self.attr.wrapping_add(d)
    }
    fn weight(&self) -> u64 {
        self.attr.wrapping_mul(self.len as u64)
    }
    fn max_attr(&self) -> u64 {
        self.attr
    }
    fn first_unit(&self) -> u64 {
        self.base
    }
}
impl HasLength for Run {
    fn rle_len(&self) -> usize {
        self.len
    }
}
impl Sliceable for Run {
    fn _slice(&self, r: Range<usize>) -> Self {
        Run {
            base: self.base.wrapping_add(r.start as u64),
            len: r.end.wrapping_sub(r.start),
            attr: self.attr,
            mode: self.mode,
        }
    }
}
impl Mergeable for Run {
    fn can_merge(&self, rhs: &Self) -> bool {
        if self.mode != 0 || rhs.mode != 0 || self.attr != rhs.attr {
            return false;
        }
        self.base.wrapping_add(self.len as u64) == rhs.base
    }
    fn merge_right(&mut self, rhs: &Self) {
        self.len = self.len.wrapping_add(rhs.len);
    }
    fn merge_left(&mut self, left: &Self) {
        self.base = left.base;
        self.len = self.len.wrapping_add(left.len);
    }
}
impl TryInsert for Run {
    fn try_insert(&mut self, _pos: usize, elem: Self) -> Result<(), Self> {
        Err(elem)
    }
}
impl CanRemove for Run {
    fn can_remove(&self) -> bool {
        self.len == 0
    }
}

pub const CAP: usize = 4;

/// A small buffer of units: accepts insertions while it has room and merges
/// with any neighbour it has room for (gap-buffer style).  STYLED: only with
/// content of the same attribute (rich-text style).
#[derive(Debug, Clone)]
pub struct ChunkG<const STYLED: bool> {
    pub u: [(u64, u64); CAP],
    pub n: usize,
}
impl<const S: bool> ChunkG<S> {
    fn empty() -> Self {
        ChunkG { u: [(0, 0); CAP], n: 0 }
    }
    fn same_style(&self, o: &Self) -> bool {
        !S || self.n == 0 || o.n == 0 || self.u[0].1 == o.u[0].1
    }
}
impl<const S: bool> HElem for ChunkG<S> {
    fn clear_elem(&mut self) {
        self.n = 0
    }
    const SYMLEN: bool = false;
    const STYLED: bool = S;
    fn make(base: u64, len: usize, attr: u64, _mode: u8) -> Self {
        let mut c = Self::empty();
        for i in 0..len {
            c.u[i] = (base + i as u64, attr);
        }
        c.n = len;
        c
    }
    fn segs(&self, out: &mut Vec<Run>) {
        for i in 0..self.n {
            out.push(Run { base: self.u[i].0, len: 1, attr: self.u[i].1, mode: 1 });
        }
    }
    fn add_attr(&mut self, d: u64) {
        for i in 0..self.n {
            self.u[i].1 = self.u[i].1.wrapping_add(d);
        }
    }
    fn weight(&self) -> u64 {
        let mut w = 0;
        for i in 0..self.n {
            w += self.u[i].1;
        }
        w
    }
    fn max_attr(&self) -> u64 {
        let mut w = 0;
        for i in 0..self.n {
            if self.u[i].1 > w {
                w = self.u[i].1
            }
        }
        w
    }
    fn first_unit(&self) -> u64 {
        self.u[0].0
    }
}
impl<const S: bool> HasLength for ChunkG<S> {
    fn rle_len(&self) -> usize {
        self.n
    }
}
impl<const S: bool> Sliceable for ChunkG<S> {
    fn _slice(&self, r: Range<usize>) -> Self {
        let mut c = Self::empty();
        for i in r.start..r.end {
            c.u[i - r.start] = self.u[i];
        }
        c.n = r.end - r.start;
        c
    }
}
impl<const S: bool> Mergeable for ChunkG<S> {
    fn can_merge(&self, rhs: &Self) -> bool {
        self.n + rhs.n <= CAP && self.same_style(rhs)
    }
    fn merge_right(&mut self, rhs: &Self) {
        for i in 0..rhs.n {
            self.u[self.n + i] = rhs.u[i];
        }
        self.n += rhs.n;
    }
    fn merge_left(&mut self, left: &Self) {
        let mut c = left.clone();
        c.merge_right(self);
        *self = c;
    }
}
impl<const S: bool> TryInsert for ChunkG<S> {
    fn try_insert(&mut self, pos: usize, elem: Self) -> Result<(), Self> {
        if self.n + elem.n > CAP || !self.same_style(&elem) {
            return Err(elem);
        }
        let mut c = self._slice(0..pos);
        let r = self._slice(pos..self.n);
        c.merge_right(&elem);
        c.merge_right(&r);
        *self = c;
        Ok(())
    }
}
impl<const S: bool> CanRemove for ChunkG<S> {
    fn can_remove(&self) -> bool {
        self.n == 0
    }
}

pub type Chunk = ChunkG<false>;
pub type Styled = ChunkG<true>;

/// How many aggregates and elements the tree has consulted: every child of a
/// node whose aggregate is recomputed, every difference applied, every element
/// summarised and every aggregate measured by a length query counts once.
struct Work(core::cell::UnsafeCell<u64>);
unsafe impl Sync for Work {}
static WORK: Work = Work(core::cell::UnsafeCell::new(0));
fn tick(n: usize) {
    unsafe { *WORK.0.get() += n as u64 }
}
/// work done since the last call
pub fn work() -> u64 {
    unsafe {
        let w = *WORK.0.get();
        *WORK.0.get() = 0;
        w
    }
}

#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Ca {
    pub len: u64,
    pub weight: u64,
    /// largest attribute below (only kept by the difference-free trait)
    pub mx: u64,
}
#[derive(Debug, Clone, Default)]
pub struct Di {
    pub len: i64,
    pub weight: i64,
}
impl CanRemove for Di {
    fn can_remove(&self) -> bool {
        self.len == 0 && self.weight == 0
    }
}

/// DIFF: caches are maintained by differences; otherwise they are recomputed
/// and also carry a maximum, which has no inverse.
#[derive(Debug)]
pub struct T<X, const DIFF: bool>(PhantomData<X>);

impl<X: HElem, const DIFF: bool> BTreeTrait for T<X, DIFF> {
    type Elem = X;
    type Cache = Ca;
    type CacheDiff = Di;
    const USE_DIFF: bool = DIFF;

    fn calc_cache_internal(cache: &mut Ca, caches: &[Child<Self>]) -> Di {
        tick(caches.len());
        let mut n = Ca::default();
        for c in caches {
            n.len = n.len.wrapping_add(c.cache.len);
            n.weight = n.weight.wrapping_add(c.cache.weight);
            if c.cache.mx > n.mx {
                n.mx = c.cache.mx;
            }
        }
        let d = Di {
            len: n.len.wrapping_sub(cache.len) as i64,
            weight: n.weight.wrapping_sub(cache.weight) as i64,
        };
        *cache = n;
        d
    }
    fn apply_cache_diff(cache: &mut Ca, diff: &Di) {
        tick(1);
        cache.len = cache.len.wrapping_add(diff.len as u64);
        cache.weight = cache.weight.wrapping_add(diff.weight as u64);
    }
    fn merge_cache_diff(a: &mut Di, b: &Di) {
        a.len = a.len.wrapping_add(b.len);
        a.weight = a.weight.wrapping_add(b.weight);
    }
    fn get_elem_cache(elem: &X) -> Ca {
        tick(1);
        Ca {
            len: elem.rle_len() as u64,
            weight: elem.weight(),
            mx: if DIFF { 0 } else { elem.max_attr() },
        }
    }
    fn new_cache_to_diff(c: &Ca) -> Di {
        Di { len: c.len as i64, weight: c.weight as i64 }
    }
    fn sub_cache(a: &Ca, b: &Ca) -> Di {
        Di {
            len: a.len.wrapping_sub(b.len) as i64,
            weight: a.weight.wrapping_sub(b.weight) as i64,
        }
    }
}
impl<X: HElem, const DIFF: bool> UseLengthFinder<T<X, DIFF>> for T<X, DIFF> {
    fn get_len(cache: &Ca) -> usize {
        tick(1);
        cache.len as usize
    }
}

// ---------------------------------------------------------------- oracle

pub const BIG: u64 = 1 << 32;

#[derive(Clone)]
pub enum MOp {
    Ins { p: u64, runs: Vec<Run>, len: u64 },
    Del { s: u64, e: u64 },
    Add { s: u64, e: u64, d: u64 },
}

/// What the sequence must look like: an initial list of runs and the
/// operations applied to it, evaluated pointwise (branch-free).
#[derive(Clone)]
pub struct Hist {
    pub base: Vec<Run>,
    pub ops: Vec<MOp>,
}

pub fn total(segs: &[Run]) -> u64 {
    let mut t = 0u64;
    for s in segs {
        t = t.wrapping_add(s.len as u64);
    }
    t
}
/// (identity, attribute) of the unit at y-BIG-shift in a list of runs
fn lookup(segs: &[Run], y: u64, shift: u64) -> (u64, u64) {
    let mut id = 0;
    let mut at = 0;
    // from the back, so the first matching run wins
    let mut ends = Vec::with_capacity(segs.len());
    let mut t = BIG.wrapping_add(shift);
    for s in segs {
        let st = t;
        t = t.wrapping_add(s.len as u64);
        ends.push((st, t));
    }
    let mut k = segs.len();
    let mut first = true;
    while k > 0 {
        k -= 1;
        let s = &segs[k];
        let v = s.base.wrapping_add(y).wrapping_sub(ends[k].0);
        if first {
            id = v;
            at = s.attr;
            first = false;
        } else {
            let c = y < ends[k].1;
            id = ite(c, v, id);
            at = ite(c, s.attr, at);
        }
    }
    (id, at)
}
pub fn unit_at(segs: &[Run], x: u64) -> (u64, u64) {
    lookup(segs, x.wrapping_add(BIG), 0)
}

impl Hist {
    pub fn new(base: Vec<Run>) -> Self {
        Hist { base, ops: Vec::new() }
    }
    pub fn ins(&mut self, p: u64, runs: Vec<Run>) {
        let len = total(&runs);
        self.ops.push(MOp::Ins { p, runs, len });
    }
    pub fn del(&mut self, s: u64, e: u64) {
        self.ops.push(MOp::Del { s, e });
    }
    pub fn add(&mut self, s: u64, e: u64, d: u64) {
        self.ops.push(MOp::Add { s, e, d });
    }
    pub fn total(&self) -> u64 {
        let mut t = total(&self.base);
        for o in &self.ops {
            match o {
                MOp::Ins { len, .. } => t = t.wrapping_add(*len),
                MOp::Del { s, e } => t = t.wrapping_sub(e.wrapping_sub(*s)),
                MOp::Add { .. } => {}
            }
        }
        t
    }
    pub fn at(&self, x: u64) -> (u64, u64) {
        let mut y = x.wrapping_add(BIG);
        let mut done = false;
        let mut id = 0;
        let mut at = 0;
        let mut extra = 0;
        let mut k = self.ops.len();
        while k > 0 {
            k -= 1;
            match &self.ops[k] {
                MOp::Ins { p, runs, len } => {
                    let lo = p.wrapping_add(BIG);
                    let hi = lo.wrapping_add(*len);
                    let below = y < lo;
                    let inside = and(!below, y < hi);
                    if !runs.is_empty() {
                        let (i, a) = lookup(runs, y, *p);
                        let take = and(!done, inside);
                        id = ite(take, i, id);
                        at = ite(take, a.wrapping_add(extra), at);
                        done = or(done, inside);
                    }
                    y = ite(below, y, y.wrapping_sub(*len));
                }
                MOp::Del { s, e } => {
                    y = ite(y < s.wrapping_add(BIG), y, y.wrapping_add(e.wrapping_sub(*s)));
                }
                MOp::Add { s, e, d } => {
                    let c = and(y >= s.wrapping_add(BIG), y < e.wrapping_add(BIG));
                    extra = ite(c, extra.wrapping_add(*d), extra);
                }
            }
        }
        let (i, a) = lookup(&self.base, y, 0);
        (ite(done, id, i), ite(done, at, a.wrapping_add(extra)))
    }
    /// the same sequence unit by unit; every bound must be concrete
    pub fn flat(&self) -> Vec<(u64, u64)> {
        let mut v = flat(&self.base);
        for o in &self.ops {
            match o {
                MOp::Ins { p, runs, .. } => {
                    let t = v.split_off(*p as usize);
                    v.extend(flat(runs));
                    v.extend(t);
                }
                MOp::Del { s, e } => {
                    let t = v.split_off(*e as usize);
                    v.truncate(*s as usize);
                    v.extend(t);
                }
                MOp::Add { s, e, d } => {
                    for i in *s..*e {
                        v[i as usize].1 = v[i as usize].1.wrapping_add(*d);
                    }
                }
            }
        }
        v
    }
}
pub fn flat(r: &[Run]) -> Vec<(u64, u64)> {
    let mut v = Vec::new();
    for r in r {
        for i in 0..r.len as u64 {
            v.push((r.base + i, r.attr));
        }
    }
    v
}
