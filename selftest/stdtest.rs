//! What refactored code may use: pieces of the standard library over symbolic
//! values, observed by the executor and by the native run alike.
use crate::sx::*;
use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::*;
use std::rc::Rc;

fn v(n: usize, hi: u64) -> Vec<u64> {
    (0..n).map(|_| sym(0, hi)).collect()
}
fn o<I: IntoIterator<Item = u64>>(i: I) {
    for x in i {
        obs(x)
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum En {
    A(u64),
    B { x: u32, y: u16 },
    C,
}
trait Sh {
    fn f(&self, x: u64) -> u64;
}
struct P(u64);
struct Q(Vec<u64>);
impl Sh for P {
    fn f(&self, x: u64) -> u64 {
        self.0 + x
    }
}
impl Sh for Q {
    fn f(&self, x: u64) -> u64 {
        self.0.iter().filter(|y| **y > x).count() as u64
    }
}
thread_local!(static TL: Cell<u64> = const { Cell::new(0) });
thread_local!(static TL2: RefCell<Vec<u64>> = RefCell::new(Vec::new()));

pub fn h_std() {
    match cfg(0) {
        0 => {
            let mut a = v(5, 6);
            a.sort();
            o(a);
        }
        1 => {
            let mut a = v(5, 6);
            a.sort_unstable_by(|x, y| y.cmp(x));
            a.dedup();
            o(a);
        }
        2 => {
            let mut a = v(4, 6);
            a.sort_by_key(|x| (x % 3, Reverse(*x)));
            o(a);
            let mut b = v(4, 5);
            b.sort_by_cached_key(|x| x.wrapping_mul(7) % 5);
            o(b);
        }
        3 => {
            let mut h = BinaryHeap::new();
            for x in v(4, 6) {
                h.push(Reverse(x));
            }
            while let Some(Reverse(x)) = h.pop() {
                obs(x)
            }
        }
        4 => {
            let mut m: HashMap<u64, u64> = HashMap::new();
            for x in v(4, 3) {
                *m.entry(x).or_insert(0) += 1;
            }
            let mut r: Vec<_> = m.iter().map(|(a, b)| a * 10 + b).collect();
            r.sort();
            o(r);
            m.retain(|k, _| k % 2 == 0);
            obs(m.len() as u64);
        }
        5 => {
            let mut m: HashSet<(u64, bool)> = HashSet::default();
            for x in v(4, 3) {
                m.insert((x, x > 1));
            }
            obs(m.len() as u64);
            obs(m.contains(&(2, true)) as u64);
            obs(m.remove(&(1, false)) as u64);
        }
        6 => {
            let mut m = BTreeMap::new();
            for (i, x) in v(7, 9).into_iter().enumerate() {
                m.insert(x, i as u64);
            }
            o(m.iter().map(|(k, v)| k * 100 + v));
            o(m.range(3..7).map(|x| *x.0));
            m.remove(&4);
            obs(m.len() as u64);
            if let Some(mut e) = m.last_entry() {
                *e.get_mut() += 1;
            }
            o(m.into_values());
        }
        7 => {
            let mut d: VecDeque<u64> = v(4, 3).into();
            d.push_front(7);
            d.rotate_left(2);
            d.extend([1, 2, 3]);
            d.truncate(6);
            d.make_contiguous().sort();
            o(d.drain(1..4));
            o(d.iter().rev().copied());
        }
        8 => {
            let a = v(6, 4);
            for w in a.windows(2) {
                obs(w[0].max(w[1]))
            }
            for c in a.chunks(4) {
                obs(c.iter().sum())
            }
            o(a.iter().zip(a.iter().skip(1)).map(|(x, y)| x * y));
            o(a.iter().rev().step_by(2).copied());
            obs(a.iter().position(|x| *x == 3).map_or(99, |x| x as u64));
            obs(a.iter().rposition(|x| *x == 3).map_or(99, |x| x as u64));
            obs(*a.iter().max_by_key(|x| **x % 3).unwrap());
            obs(a.iter().fold(0, |s, x| s * 5 + x));
        }
        9 => {
            let a = v(5, 4);
            let (x, y): (Vec<u64>, Vec<u64>) = a.iter().partition(|x| **x > 2);
            o(x);
            o(y);
            obs(a.iter().any(|x| *x == 1) as u64);
            obs(a.iter().all(|x| *x < 4) as u64);
            o(a.iter().take_while(|x| **x != 2).copied());
            o(a.iter().skip_while(|x| **x != 2).copied());
            o(a.iter().scan(0, |s, x| {
                *s += x;
                Some(*s)
            }));
            o(a.iter().flat_map(|x| vec![*x; (*x > 1) as usize]));
        }
        10 => {
            let mut a = v(6, 4);
            a.retain(|x| *x != 2);
            obs(a.len() as u64);
            a.insert(0, 9);
            let b = a.split_off(1);
            o(b.iter().copied());
            a.extend_from_slice(&b);
            a.swap(0, b.len());
            a.reverse();
            a.rotate_right(1);
            let z: Vec<u64> = a.splice(0..1, [5, 6]).collect();
            o(z);
            o(a.drain(..));
        }
        11 => {
            let a = v(3, 300);
            let e: Vec<En> = a
                .iter()
                .map(|x| match x % 3 {
                    0 => En::A(*x),
                    1 => En::B { x: *x as u32, y: (*x % 7) as u16 },
                    _ => En::C,
                })
                .collect();
            let mut f = e.clone();
            f.sort();
            for x in &f {
                obs(match x {
                    En::A(x) => *x,
                    En::B { x, y } => *x as u64 * *y as u64,
                    En::C => 3,
                })
            }
            obs((e[0] == e[1]) as u64);
        }
        12 => {
            let a = v(3, 20);
            let s: Vec<Box<dyn Sh>> = vec![Box::new(P(a[0])), Box::new(Q(a.clone()))];
            o(s.iter().map(|s| s.f(a[1])));
            let mut fs: Vec<Box<dyn FnMut(u64) -> u64>> = Vec::new();
            let mut n = a[2];
            fs.push(Box::new(move |x| {
                n += x;
                n
            }));
            let k = a[0];
            fs.push(Box::new(move |x| x * k));
            for f in fs.iter_mut() {
                obs(f(2));
                obs(f(3));
            }
        }
        13 => {
            let a = v(2, 50);
            let r = Rc::new(RefCell::new(vec![a[0]]));
            let q = Rc::clone(&r);
            q.borrow_mut().push(a[1]);
            o(r.borrow().iter().copied());
            obs(Rc::strong_count(&r) as u64);
            let c = Cell::new(a[0]);
            c.set(c.get() + 1);
            obs(c.replace(0));
            TL.with(|t| t.set(t.get() + a[0]));
            obs(TL.with(|t| t.get()));
            TL.with(|t| t.set(0));
            TL2.with(|t| t.borrow_mut().push(a[1]));
            obs(TL2.with(|t| t.borrow_mut().pop().unwrap()));
        }
        14 => {
            let a = v(2, 1000);
            let s = format!("{}-{:?}", a[0] % 4, Some(a[1] % 3));
            obs(s.len() as u64);
            obs(s.as_bytes()[0] as u64);
            let t: String = s.chars().rev().collect();
            obs(t.starts_with(')') as u64);
        }
        15 => {
            let a = v(3, u64::MAX);
            obs(a[0].wrapping_add(a[1]));
            obs(a[0].saturating_sub(a[1]));
            obs(a[0].checked_add(a[1]).unwrap_or(1));
            obs(a[0].leading_zeros() as u64);
            obs(a[1].trailing_zeros() as u64);
            obs(a[2].count_ones() as u64);
            obs((a[0] as u128 * a[1] as u128 >> 64) as u64);
            obs(a[0].rotate_left(13) ^ a[1].swap_bytes());
            obs(a[0].abs_diff(a[2]));
            obs((a[0] as i64).signum() as u64);
            obs(((a[0] >> 40) as u32).pow(2) as u64 & 0xff);
        }
        16 => {
            let a = v(3, 100);
            let f = a[0] as f64 / (a[1] + 1) as f64;
            obs(f as u64);
            obs(f.floor() as u64);
            obs((a[2] as f32 * 1.5) as u64);
            obs((f > 2.0) as u64);
        }
        17 => {
            let mut a = [[0u64; 4]; 3];
            let x = v(2, 3);
            a[(x[0] % 3) as usize][x[1] as usize] = 5;
            a[1][0] += 1;
            o(a.iter().flatten().copied());
            let mut b = [1u8; 20];
            b.copy_within(3..7, (x[0] + 2) as usize);
            b[x[1] as usize] = 9;
            b[..].fill(x[0] as u8);
            obs(b.iter().map(|x| *x as u64).sum());
            let mut c = vec![0u16; 9];
            c[x[0] as usize..][..2].copy_from_slice(&[4, 5]);
            o(c.iter().map(|x| *x as u64));
        }
        18 => {
            let a = v(4, 5);
            let k = a.binary_search(&3);
            obs(match k {
                Ok(i) => i as u64,
                Err(i) => 100 + i as u64,
            });
            let mut b = a.clone();
            b.sort();
            obs(b.binary_search(&3).is_ok() as u64);
            obs(b.partition_point(|x| *x < 3) as u64);
            obs(b.first().copied().unwrap_or(0) + b.last().copied().unwrap_or(0));
            let (l, r) = b.split_at(2);
            obs((l < r) as u64);
            obs((l == &a[..2]) as u64);
            b.select_nth_unstable(2);
            obs(b[2]);
        }
        19 => {
            fn rec(x: u64, d: u64) -> u64 {
                if d == 0 {
                    x
                } else if x % 2 == 0 {
                    rec(x / 2, d - 1)
                } else {
                    rec(3 * x + 1, d - 1)
                }
            }
            obs(rec(sym(0, 40), 6));
        }
        20 => {
            let mut l = LinkedList::new();
            for x in v(3, 4) {
                if x > 2 {
                    l.push_front(x)
                } else {
                    l.push_back(x)
                }
            }
            o(l.into_iter());
            let mut s = BTreeSet::new();
            for x in v(4, 5) {
                s.insert(x);
            }
            while let Some(x) = s.pop_first() {
                obs(x)
            }
        }
        21 => {
            // std::mem and Option juggling
            let a = v(3, 9);
            let mut x = Some(a[0]);
            let y = x.take();
            obs(y.is_some() as u64 + x.is_none() as u64);
            let z = x.get_or_insert_with(|| a[1]);
            *z += 1;
            obs(x.filter(|x| *x > 4).or(Some(3)).unwrap());
            let mut p = (a[0], a[1]);
            std::mem::swap(&mut p.0, &mut p.1);
            obs(p.0 * 10 + p.1);
            obs(std::mem::replace(&mut p.0, 4));
            obs(x.zip(y).map(|(a, b)| a + b).unwrap_or_default());
            let r: Result<Vec<u64>, u64> = a.iter().map(|x| if *x == 7 { Err(*x) } else { Ok(x + 1) }).collect();
            obs(r.map(|v| v.iter().sum()).unwrap_or_else(|e| e));
            let s: Option<u64> = a.iter().map(|x| x.checked_sub(1)).sum();
            obs(s.unwrap_or(77));
        }
        22 => {
            let a = v(4, 3);
            let mut m: FxLike = HashMap::default();
            for x in &a {
                m.entry(*x).or_default().push(*x);
            }
            let mut k: Vec<_> = m.into_iter().collect();
            k.sort_unstable();
            for (a, b) in k {
                obs(a + b.len() as u64);
            }
        }
        23 => {
            let a = v(4, 9);
            let s: &[u64] = &a;
            obs(match s {
                [x, .., y] if x == y => 1,
                [0, rest @ ..] => rest.iter().sum(),
                [_, b, ..] => *b,
                _ => 5,
            });
            let mut it = a.iter().peekable();
            while let Some(x) = it.next() {
                if it.peek().is_some_and(|y| *y > x) {
                    obs(*x)
                }
            }
            let b: Box<[u64]> = a.clone().into_boxed_slice();
            obs(b.len() as u64);
            let c: [u64; 4] = a.try_into().unwrap();
            obs(c.map(|x| x + 1).iter().product());
            obs(c.concat_like());
        }
        24 => {
            let x = sym(0, 300);
            let c = char::from_u32(0x61 + (x % 26) as u32).unwrap();
            let s: String = std::iter::repeat(c).take(3).chain("xyz".chars()).collect();
            obs(s.find('z').unwrap() as u64);
            obs(s.bytes().map(|b| b as u64).sum());
            obs(s.to_uppercase().as_bytes()[0] as u64);
            let t = s.replace('x', "--");
            obs(t.split('-').count() as u64);
        }
        _ => {}
    }
}
type FxLike = HashMap<u64, Vec<u64>, std::hash::BuildHasherDefault<std::hash::DefaultHasher>>;
trait CL {
    fn concat_like(&self) -> u64;
}
impl CL for [u64; 4] {
    fn concat_like(&self) -> u64 {
        [&self[..2], &self[3..]].concat().iter().fold(0, |a, b| a * 10 + b)
    }
}
