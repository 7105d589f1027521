//! Path-exploring symbolic executor over the decoded IR.
use crate::expr::{mask, sval, Arena, E};
use crate::ir::*;
use crate::mem::{mk, Mem, NOE, V};
use crate::solver::{Sat, Solver};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum H {
    None,
    Panic,
    Sym,
    Assume,
    Check,
    Ite,
    Conc,
    Obs,
    Reach,
    Cfg,
    And,
    Or,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Memcmp,
    Bcmp,
    Nop,
    MemcpyF,
    MemsetF,
    HashKeys,
}

pub fn handlers(p: &Program) -> Vec<H> {
    p.funcs
        .iter()
        .map(|f| {
            let n = f.name.as_str();
            match n {
                "sx_sym" => return H::Sym,
                "sx_assume" => return H::Assume,
                "sx_check" => return H::Check,
                "sx_ite" => return H::Ite,
                "sx_conc" => return H::Conc,
                "sx_obs" => return H::Obs,
                "sx_reach" => return H::Reach,
                "sx_cfg" => return H::Cfg,
                "sx_and" => return H::And,
                "sx_or" => return H::Or,
                "memcmp" => return H::Memcmp,
                "bcmp" => return H::Bcmp,
                "memcpy" | "memmove" => return H::MemcpyF,
                "memset" => return H::MemsetF,
                _ => {}
            }
            if n.contains("__rust_no_alloc_shim_is_unstable")
                || (!f.defined && n.contains("thread_local") && n.contains("register"))
                || (!f.defined && (n.ends_with("__eprint") || n.ends_with("__print")))
            {
                H::Nop
            } else if !f.defined && n.contains("hashmap_random_keys") {
                H::HashKeys
            } else if n.contains("___rust_alloc_zeroed") || n == "__rust_alloc_zeroed" {
                H::AllocZ
            } else if n.ends_with("___rust_alloc") || n == "__rust_alloc" {
                H::Alloc
            } else if n.ends_with("___rust_dealloc") || n == "__rust_dealloc" {
                H::Dealloc
            } else if n.ends_with("___rust_realloc") || n == "__rust_realloc" {
                H::Realloc
            } else if f.noreturn {
                H::Panic
            } else {
                H::None
            }
        })
        .collect()
}

#[derive(Clone, Copy)]
struct Frame {
    func: u32,
    pc: u32,
    base: u32,
    ret: u32,
    retn: u32,
    sp: u64,
}

pub struct MV {
    vals: RefCell<Vec<u64>>,
    memo: RefCell<HashMap<E, u64>>,
}
impl MV {
    fn new(v: Vec<u64>) -> Rc<MV> {
        Rc::new(MV { vals: RefCell::new(v), memo: RefCell::new(HashMap::new()) })
    }
    fn eval(&self, ar: &Arena, e: E) -> u64 {
        let mut v = self.vals.borrow_mut();
        while v.len() < ar.vars.len() {
            let lo = ar.vars[v.len()].lo;
            v.push(lo);
        }
        ar.eval(e, &v, &mut self.memo.borrow_mut())
    }
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    regs: Vec<V>,
    mem: Mem,
    pc: Vec<(E, bool)>,
    known: Vec<(E, u64)>,
    model: Rc<MV>,
    inputs: Vec<(u64, V)>,
    obs: Vec<V>,
    steps: u64,
    forks: u32,
}

enum Stop {
    Done,
    Infeasible,
    Viol(String),
    Err(String),
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
    pub inputs: Vec<(u64, u64)>,
    pub trace: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Sample {
    pub inputs: Vec<(u64, u64)>,
    pub obs: Vec<u64>,
    pub pc: usize,
}

#[derive(Default)]
pub struct JobResult {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub instrs: u64,
    pub checks: u64,
    pub checks_const: u64,
    pub checks_solver: u64,
    pub max_pc: usize,
    pub vars: usize,
    pub violations: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub reach: BTreeSet<u64>,
    pub checked_msgs: BTreeMap<String, u64>,
    pub errors: Vec<String>,
    pub complete: bool,
    pub wall: f64,
    pub solver: crate::solver::Stats,
}

pub struct Limits {
    pub steps: u64,
    pub depth: usize,
    pub max_viol: usize,
    pub deadline: Instant,
    pub samples: usize,
    pub seed: u64,
}

pub struct Exec<'a> {
    p: &'a Program,
    hs: &'a [H],
    ar: Arena,
    solver: Solver,
    work: Vec<State>,
    cfg: Vec<u64>,
    lim: &'a Limits,
    pub res: JobResult,
    pub cov: Vec<u8>,
    pub fcov: Vec<u8>,
    stop_flag: &'a std::sync::atomic::AtomicBool,
}

macro_rules! tr {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(s) => return s,
        }
    };
}

impl<'a> Exec<'a> {
    pub fn new(
        p: &'a Program,
        hs: &'a [H],
        solver: Solver,
        cfg: Vec<u64>,
        lim: &'a Limits,
        stop_flag: &'a std::sync::atomic::AtomicBool,
    ) -> Self {
        Exec {
            p,
            hs,
            ar: Arena::new(),
            solver,
            work: vec![],
            cfg,
            lim,
            res: JobResult::default(),
            cov: vec![0; p.lines.len()],
            fcov: vec![0; p.funcs.len()],
            stop_flag,
        }
    }

    pub fn run(&mut self, entry: &str) {
        let t0 = Instant::now();
        let Some(&f) = self.p.fmap.get(entry) else {
            self.res.errors.push(format!("no entry {entry}"));
            return;
        };
        let mut st = State {
            frames: vec![],
            regs: vec![],
            mem: Mem::new(self.p.globals_base, &self.p.globals_mem),
            pc: vec![],
            known: vec![],
            model: MV::new(vec![]),
            inputs: vec![],
            obs: vec![],
            steps: 0,
            forks: 0,
        };
        self.enter(&mut st, f, &[], 0, 0);
        self.work.push(st);
        let mut rng = self.lim.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        let mut complete = true;
        while let Some(mut st) = self.work.pop() {
            if self.stop_flag.load(std::sync::atomic::Ordering::Relaxed) || Instant::now() > self.lim.deadline {
                complete = false;
                break;
            }
            let s0 = st.steps;
            let r = self.path(&mut st);
            self.res.instrs += st.steps - s0;
            match r {
                Stop::Done => {
                    self.res.paths += 1;
                    self.res.max_pc = self.res.max_pc.max(st.pc.len());
                    if let Err(m) = self.sane(&st) {
                        self.res.errors.push(m);
                        break;
                    }
                    if self.lim.samples > 0 {
                        let n = self.res.paths;
                        rng ^= rng << 13;
                        rng ^= rng >> 7;
                        rng ^= rng << 17;
                        let k = self.lim.samples;
                        let s = || Sample {
                            inputs: self.inputs(&st),
                            obs: st.obs.iter().map(|v| self.val(&st, *v)).collect(),
                            pc: st.pc.len(),
                        };
                        if self.res.samples.len() < k {
                            let s = s();
                            self.res.samples.push(s);
                        } else if rng % n < k as u64 {
                            let s = s();
                            let i = (rng >> 32) as usize % k;
                            self.res.samples[i] = s;
                        }
                    }
                }
                Stop::Infeasible => self.res.infeasible += 1,
                Stop::Viol(msg) => {
                    self.res.paths += 1;
                    if let Err(m) = self.sane(&st) {
                        self.res.errors.push(m);
                        break;
                    }
                    let same = self.res.violations.iter().filter(|v| v.msg == msg).count();
                    if same < 3 {
                        let v = Violation { msg, inputs: self.inputs(&st), trace: self.trace(&st) };
                        self.res.violations.push(v);
                    }
                    if self.res.violations.len() >= self.lim.max_viol {
                        complete = false;
                        break;
                    }
                }
                Stop::Err(m) => {
                    let t = self.trace(&st).join(" < ");
                    self.res.errors.push(format!("{m} in {t}"));
                    if self.res.errors.len() > 3 {
                        complete = false;
                        break;
                    }
                }
            }
        }
        self.res.vars = self.ar.vars.len();
        self.res.complete = complete && self.res.errors.is_empty();
        self.res.wall = t0.elapsed().as_secs_f64();
        self.res.solver = self.solver.stats.clone();
    }

    /// the model a path carries must satisfy its path condition
    fn sane(&self, st: &State) -> Result<(), String> {
        for (e, b) in &st.pc {
            if st.model.eval(&self.ar, *e) != *b as u64 {
                return Err("model does not satisfy the path condition (solver/encoder mismatch)".into());
            }
        }
        for (e, v) in &st.known {
            if st.model.eval(&self.ar, *e) != *v {
                return Err("model contradicts a derived fact (solver/encoder mismatch)".into());
            }
        }
        Ok(())
    }
    fn val(&self, st: &State, v: V) -> u64 {
        if v.conc() {
            v.c
        } else {
            st.model.eval(&self.ar, v.e)
        }
    }
    fn inputs(&self, st: &State) -> Vec<(u64, u64)> {
        st.inputs.iter().map(|(i, v)| (*i, self.val(st, *v))).collect()
    }
    fn trace(&self, st: &State) -> Vec<String> {
        st.frames
            .iter()
            .rev()
            .map(|f| {
                let fu = &self.p.funcs[f.func as usize];
                let mut s = format!("{:#}", rustc_demangle::demangle(&fu.name));
                if let Some(l) = fu.lines.get(f.pc as usize) {
                    if *l != 0 {
                        let (fi, ln) = self.p.lines[*l as usize];
                        s += &format!(" ({}:{})", self.p.files[fi as usize], ln);
                    }
                }
                s
            })
            .collect()
    }

    fn enter(&mut self, st: &mut State, f: u32, args: &[V], ret: u32, retn: u32) {
        let fu = &self.p.funcs[f as usize];
        let base = st.regs.len() as u32;
        st.regs.resize(base as usize + fu.nregs as usize, V::k(0));
        st.regs[base as usize..base as usize + args.len()].copy_from_slice(args);
        st.frames.push(Frame { func: f, pc: 0, base, ret, retn, sp: st.mem.sp });
        self.fcov[f as usize] = 1;
    }

    /// Fix the value of `e` on this path; other feasible values go to the worklist.
    fn conc(&mut self, st: &mut State, e: E) -> Result<u64, Stop> {
        if let Some(c) = self.ar.cval(e) {
            return Ok(c);
        }
        for (k, v) in st.known.iter().rev() {
            if *k == e {
                return Ok(*v);
            }
        }
        let v0 = st.model.eval(&self.ar, e);
        let w = self.ar.w(e);
        let (atom, pos) = if w == 1 {
            (e, v0 == 1)
        } else {
            let k = self.ar.konst(v0, w);
            (self.ar.eq(e, k), true)
        };
        match self.solver.check(&self.ar, &st.pc, atom, !pos) {
            (Sat::Unsat, _) => {}
            (Sat::Sat, m) => {
                let mut o = st.clone();
                o.pc.push((atom, !pos));
                if w == 1 {
                    o.known.push((e, 1 - v0));
                }
                o.model = MV::new(m);
                o.forks += 1;
                self.work.push(o);
                st.pc.push((atom, pos));
                self.res.forks += 1;
            }
            (Sat::Unknown, _) => return Err(Stop::Err("solver returned unknown".into())),
        }
        st.known.push((e, v0));
        Ok(v0)
    }
    #[inline(always)]
    fn cv(&mut self, st: &mut State, v: V) -> Result<u64, Stop> {
        if v.conc() {
            Ok(v.c)
        } else {
            self.conc(st, v.e)
        }
    }
    #[inline(always)]
    fn ex(&mut self, v: V, w: u8) -> E {
        if v.conc() {
            self.ar.konst(v.c & mask(w), w)
        } else {
            v.e
        }
    }

    fn bin_sym(&mut self, b: Bin, w: u8, x: V, y: V) -> V {
        let (a, c) = (self.ex(x, w), self.ex(y, w));
        let ar = &mut self.ar;
        let r = match b {
            Bin::Add => ar.add(a, c),
            Bin::Sub => ar.sub(a, c),
            Bin::Mul => ar.mul(a, c),
            Bin::UDiv => ar.udivrem(a, c, false),
            Bin::URem => ar.udivrem(a, c, true),
            Bin::SDiv => ar.sdivrem(a, c, false),
            Bin::SRem => ar.sdivrem(a, c, true),
            Bin::And => ar.and(a, c),
            Bin::Or => ar.or(a, c),
            Bin::Xor => ar.xor(a, c),
            Bin::Shl => ar.shl(a, c),
            Bin::LShr => ar.lshr(a, c),
            Bin::AShr => ar.ashr(a, c),
        };
        mk(ar, r)
    }
    fn icmp_sym(&mut self, p: Pred, w: u8, x: V, y: V) -> V {
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let ar = &mut self.ar;
        let r = match p {
            Pred::Eq => ar.eq(a, b),
            Pred::Ne => {
                let e = ar.eq(a, b);
                ar.not(e)
            }
            Pred::Ult => ar.ult(a, b),
            Pred::Ugt => ar.ult(b, a),
            Pred::Ule => {
                let e = ar.ult(b, a);
                ar.not(e)
            }
            Pred::Uge => {
                let e = ar.ult(a, b);
                ar.not(e)
            }
            Pred::Slt => ar.slt(a, b),
            Pred::Sgt => ar.slt(b, a),
            Pred::Sle => {
                let e = ar.slt(b, a);
                ar.not(e)
            }
            Pred::Sge => {
                let e = ar.slt(a, b);
                ar.not(e)
            }
        };
        mk(ar, r)
    }
    /// (result, overflow)
    fn ovf(&mut self, st: &mut State, k: Intr, w: u8, x: V, y: V) -> Result<(V, V), Stop> {
        let m = mask(w);
        if x.conc() && y.conc() {
            let (a, b) = (x.c as u128, y.c as u128);
            let (sa, sb) = (sval(x.c, w) as i128, sval(y.c, w) as i128);
            let (r, o) = match k {
                Intr::UAddO | Intr::UAddSat => (a + b, a + b > m as u128),
                Intr::USubO | Intr::USubSat => (a.wrapping_sub(b), a < b),
                Intr::UMulO => (a.wrapping_mul(b), a * b > m as u128),
                _ => {
                    let r = match k {
                        Intr::SAddO | Intr::SAddSat => sa + sb,
                        Intr::SSubO | Intr::SSubSat => sa - sb,
                        _ => sa * sb,
                    };
                    let lo = -(1i128 << (w - 1));
                    (r as u128, r < lo || r >= -lo)
                }
            };
            return Ok((V::k(r as u64 & m), V::k(o as u64)));
        }
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let (ahi, bhi) = (self.ar.i(a).hi as u128, self.ar.i(b).hi as u128);
        let alo = self.ar.i(a).lo as u128;
        let ar = &mut self.ar;
        let half = 1u128 << (w - 1);
        let (r, o) = match k {
            Intr::UAddO | Intr::UAddSat => {
                let s = ar.add(a, b);
                let o = if ahi + bhi <= m as u128 { ar.konst(0, 1) } else { ar.ult(s, a) };
                (s, o)
            }
            Intr::USubO | Intr::USubSat => {
                let s = ar.sub(a, b);
                let o = if alo >= bhi { ar.konst(0, 1) } else { ar.ult(a, b) };
                (s, o)
            }
            Intr::SAddO | Intr::SAddSat => {
                let s = ar.add(a, b);
                let o = if ahi < half && bhi < half && ahi + bhi < half {
                    ar.konst(0, 1)
                } else {
                    let z = ar.konst(0, w);
                    let bn = ar.slt(b, z);
                    let l = ar.slt(s, a);
                    let g = ar.slt(a, s);
                    ar.ite(bn, g, l)
                };
                (s, o)
            }
            Intr::SSubO | Intr::SSubSat => {
                let s = ar.sub(a, b);
                let o = if ahi < half && bhi < half {
                    ar.konst(0, 1)
                } else {
                    let z = ar.konst(0, w);
                    let bn = ar.slt(b, z);
                    let l = ar.slt(s, a);
                    let g = ar.slt(a, s);
                    ar.ite(bn, l, g)
                };
                (s, o)
            }
            _ => {
                let lim = if k == Intr::UMulO { m as u128 } else { half - 1 };
                let small = if k == Intr::UMulO { true } else { ahi < half && bhi < half };
                if small && ahi.checked_mul(bhi).is_some_and(|p| p <= lim) {
                    let r = ar.mul(a, b);
                    (r, ar.konst(0, 1))
                } else {
                    let x = V::k(self.conc(st, a)?);
                    let y = V::k(self.conc(st, b)?);
                    return self.ovf(st, k, w, x, y);
                }
            }
        };
        Ok((mk(&self.ar, r), mk(&self.ar, o)))
    }

    fn intr(&mut self, st: &mut State, k: Intr, w: u8, dst: usize, a: &[V]) -> Result<(), Stop> {
        let m = mask(w);
        let bad = |what: &str| Stop::Err(format!("memory access out of bounds ({what})"));
        match k {
            Intr::Memcpy => {
                let d = self.cv(st, a[0])?;
                let s = self.cv(st, a[1])?;
                let n = self.cv(st, a[2])?;
                st.mem.copy(d, s, n).ok_or_else(|| bad("memcpy"))?;
                return Ok(());
            }
            Intr::Memset => {
                let d = self.cv(st, a[0])?;
                let n = self.cv(st, a[2])?;
                st.mem.fill(d, a[1], n).ok_or_else(|| bad("memset"))?;
                return Ok(());
            }
            Intr::Trap => return Err(Stop::Viol("trap".into())),
            _ => {}
        }
        let r = match k {
            Intr::Expect => a[0],
            Intr::IsConst => V::k(0),
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let lt = if a[0].conc() && a[1].conc() {
                    if matches!(k, Intr::UMax | Intr::UMin) {
                        a[0].c < a[1].c
                    } else {
                        sval(a[0].c, w) < sval(a[1].c, w)
                    }
                } else {
                    let p = if matches!(k, Intr::UMax | Intr::UMin) { Pred::Ult } else { Pred::Slt };
                    let c = self.icmp_sym(p, w, a[0], a[1]);
                    self.cv(st, c)? == 1
                };
                let max = matches!(k, Intr::UMax | Intr::SMax);
                if lt == max {
                    a[1]
                } else {
                    a[0]
                }
            }
            Intr::UCmp | Intr::SCmp => {
                // result width is not carried; callers only truncate/compare it
                let (x, y) = (a[0], a[1]);
                let p = if k == Intr::UCmp { Pred::Ult } else { Pred::Slt };
                let lt = if x.conc() && y.conc() {
                    if k == Intr::UCmp {
                        x.c < y.c
                    } else {
                        sval(x.c, w) < sval(y.c, w)
                    }
                } else {
                    let c = self.icmp_sym(p, w, x, y);
                    self.cv(st, c)? == 1
                };
                if lt {
                    V::k(0xff)
                } else {
                    let eq = if x.conc() && y.conc() {
                        x.c == y.c
                    } else {
                        let c = self.icmp_sym(Pred::Eq, w, x, y);
                        self.cv(st, c)? == 1
                    };
                    V::k(if eq { 0 } else { 1 })
                }
            }
            Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let (r, o) = self.ovf(st, k, w, a[0], a[1])?;
                st.regs[dst] = r;
                st.regs[dst + 1] = o;
                return Ok(());
            }
            Intr::UAddSat | Intr::USubSat | Intr::SAddSat | Intr::SSubSat => {
                let (r, o) = self.ovf(st, k, w, a[0], a[1])?;
                let o = self.cv(st, o)? == 1;
                if !o {
                    r
                } else {
                    match k {
                        Intr::UAddSat => V::k(m),
                        Intr::USubSat => V::k(0),
                        _ => {
                            let x = self.cv(st, a[0])?;
                            if sval(x, w) < 0 {
                                V::k(1u64 << (w - 1))
                            } else {
                                V::k(m >> 1)
                            }
                        }
                    }
                }
            }
            Intr::Fshl | Intr::Fshr => {
                let s = self.cv(st, a[2])? % w as u64;
                let sl = if k == Intr::Fshl { s } else { (w as u64 - s) % w as u64 };
                if s == 0 {
                    if k == Intr::Fshl {
                        a[0]
                    } else {
                        a[1]
                    }
                } else {
                    let hi = self.bin(Bin::Shl, w, a[0], V::k(sl));
                    let lo = self.bin(Bin::LShr, w, a[1], V::k(w as u64 - sl));
                    self.bin(Bin::Or, w, hi, lo)
                }
            }
            _ => {
                let x = self.cv(st, a[0])?;
                V::k(match k {
                    Intr::Ctlz => (x.leading_zeros() as u64) - (64 - w as u64),
                    Intr::Cttz => {
                        if x == 0 {
                            w as u64
                        } else {
                            x.trailing_zeros() as u64
                        }
                    }
                    Intr::Ctpop => x.count_ones() as u64,
                    Intr::Bitrev => x.reverse_bits() >> (64 - w),
                    Intr::Bswap => x.swap_bytes() >> (64 - w),
                    Intr::Abs => {
                        let s = sval(x, w);
                        (s.wrapping_abs() as u64) & m
                    }
                    _ => return Err(Stop::Err(format!("intrinsic {k:?}"))),
                })
            }
        };
        st.regs[dst] = r;
        Ok(())
    }

    #[inline(always)]
    fn bin(&mut self, b: Bin, w: u8, x: V, y: V) -> V {
        if x.conc() && y.conc() {
            let (a, c) = (x.c, y.c);
            let m = mask(w);
            let r = match b {
                Bin::Add => a.wrapping_add(c),
                Bin::Sub => a.wrapping_sub(c),
                Bin::Mul => a.wrapping_mul(c),
                Bin::UDiv => a.checked_div(c).unwrap_or(0),
                Bin::URem => a.checked_rem(c).unwrap_or(0),
                Bin::SDiv => sval(a, w).checked_div(sval(c, w)).unwrap_or(0) as u64,
                Bin::SRem => sval(a, w).checked_rem(sval(c, w)).unwrap_or(0) as u64,
                Bin::And => a & c,
                Bin::Or => a | c,
                Bin::Xor => a ^ c,
                Bin::Shl => {
                    if c >= w as u64 {
                        0
                    } else {
                        a << c
                    }
                }
                Bin::LShr => {
                    if c >= w as u64 {
                        0
                    } else {
                        a >> c
                    }
                }
                Bin::AShr => (sval(a, w) >> c.min(w as u64 - 1)) as u64,
            };
            V::k(r & m)
        } else {
            self.bin_sym(b, w, x, y)
        }
    }

    fn panic_msg(&self, st: &State, name: &str, args: &[V]) -> String {
        let short = rustc_demangle::demangle(name).to_string();
        let short = short.split("::h").next().unwrap_or("").to_string();
        let rd = |a: u64, n: u64| -> Option<u64> {
            let b = st.mem.bytes(a, n)?;
            let mut v = 0;
            for (i, x) in b.iter().enumerate() {
                v |= (*x as u64) << (8 * i);
            }
            Some(v)
        };
        let mut loc = String::new();
        let mut txt = String::new();
        for (i, v) in args.iter().enumerate().rev() {
            if !v.conc() {
                continue;
            }
            if loc.is_empty() {
                if let (Some(p), Some(n), Some(l), Some(c)) = (rd(v.c, 8), rd(v.c + 8, 8), rd(v.c + 16, 4), rd(v.c + 20, 4))
                {
                    if n < 400 && n > 3 && c > 0 && c < 1000 {
                        if let Some(s) = st.mem.bytes(p, n).and_then(|b| String::from_utf8(b).ok()) {
                            if s.ends_with(".rs") {
                                loc = format!(" at {}:{}", s, l);
                                continue;
                            }
                        }
                    }
                }
            }
            if i + 1 < args.len() && args[i + 1].conc() && args[i + 1].c < 200 && args[i + 1].c > 2 {
                if let Some(s) = st.mem.bytes(v.c, args[i + 1].c).and_then(|b| String::from_utf8(b).ok()) {
                    txt = format!(" \"{s}\"");
                }
            }
        }
        format!("panic: {short}{txt}{loc}")
    }

    fn assume(&mut self, st: &mut State, e: E) -> Result<(), Stop> {
        if st.model.eval(&self.ar, e) == 1 {
            st.pc.push((e, true));
            return Ok(());
        }
        match self.solver.check(&self.ar, &st.pc, e, true) {
            (Sat::Unsat, _) => Err(Stop::Infeasible),
            (Sat::Sat, m) => {
                st.model = MV::new(m);
                st.pc.push((e, true));
                Ok(())
            }
            _ => Err(Stop::Err("solver returned unknown".into())),
        }
    }

    /// library functions modelled by the executor
    fn builtin(&mut self, st: &mut State, h: H, name: &str, a: &[V], dst: usize, n: u32) -> Result<(), Stop> {
        let mut out = V::k(0);
        match h {
            H::None => {}
            H::Panic => return Err(Stop::Viol(self.panic_msg(st, name, a))),
            H::Sym => {
                let id = self.cv(st, a[0])?;
                let lo = self.cv(st, a[1])?;
                let hi = self.cv(st, a[2])?;
                if lo > hi {
                    return Err(Stop::Infeasible);
                }
                out = if lo == hi {
                    V::k(lo)
                } else {
                    let e = self.ar.var(id as u32, lo, hi);
                    mk(&self.ar, e)
                };
                if st.inputs.iter().any(|x| x.0 == id) {
                    return Err(Stop::Err(format!("duplicate symbolic input id {id}")));
                }
                st.inputs.push((id, out));
            }
            H::Assume => {
                let c = a[0];
                let e = self.ex(c, 64);
                let z = self.ar.konst(0, 64);
                let q = self.ar.eq(e, z);
                match self.ar.cval(q) {
                    Some(0) => {}
                    Some(_) => return Err(Stop::Infeasible),
                    None => {
                        let t = self.ar.not(q);
                        self.assume(st, t)?
                    }
                }
            }
            H::Check => {
                let e = self.ex(a[0], 64);
                let z = self.ar.konst(0, 64);
                let q = self.ar.eq(e, z);
                self.res.checks += 1;
                let mp = self.cv(st, a[1])?;
                let ml = self.cv(st, a[2])?;
                let msg = st
                    .mem
                    .bytes(mp, ml)
                    .map(|b| String::from_utf8_lossy(&b).into_owned())
                    .unwrap_or_default();
                *self.res.checked_msgs.entry(msg.clone()).or_default() += 1;
                match self.ar.cval(q) {
                    Some(0) => self.res.checks_const += 1,
                    Some(_) => {
                        return Err(Stop::Viol(format!("check failed: {msg}")));
                    }
                    None => {
                        self.res.checks_solver += 1;
                        match self.solver.check(&self.ar, &st.pc, q, true) {
                            (Sat::Unsat, _) => {}
                            (Sat::Sat, m) => {
                                st.pc.push((q, true));
                                st.model = MV::new(m);
                                return Err(Stop::Viol(format!("check failed: {msg}")));
                            }
                            _ => return Err(Stop::Err(format!("solver returned unknown on check: {msg}"))),
                        }
                    }
                }
            }
            H::Ite => {
                let c = self.ex(a[0], 64);
                let z = self.ar.konst(0, 64);
                let q = self.ar.eq(c, z);
                out = match self.ar.cval(q) {
                    Some(0) => a[1],
                    Some(_) => a[2],
                    None => {
                        let (x, y) = (self.ex(a[1], 64), self.ex(a[2], 64));
                        let r = self.ar.ite(q, y, x);
                        mk(&self.ar, r)
                    }
                }
            }
            H::And | H::Or => {
                let z = self.ar.konst(0, 64);
                let (x, y) = (self.ex(a[0], 64), self.ex(a[1], 64));
                let x = self.ar.eq(x, z);
                let x = self.ar.not(x);
                let y = self.ar.eq(y, z);
                let y = self.ar.not(y);
                let r = if h == H::And { self.ar.and(x, y) } else { self.ar.or(x, y) };
                let r = self.ar.zext(r, 64);
                out = mk(&self.ar, r);
            }
            H::Conc => out = V::k(self.cv(st, a[0])?),
            H::Obs => st.obs.push(a[0]),
            H::Reach => {
                let c = self.cv(st, a[0])?;
                self.res.reach.insert(c);
            }
            H::Cfg => {
                let i = self.cv(st, a[0])?;
                match self.cfg.get(i as usize) {
                    Some(v) => out = V::k(*v),
                    None => return Err(Stop::Err(format!("missing cfg {i}"))),
                }
            }
            H::Alloc | H::AllocZ => {
                let s = self.cv(st, a[0])?;
                let al = self.cv(st, a[1])?;
                out = match st.mem.alloc(s, al) {
                    Some(p) => V::k(p),
                    None => return Err(Stop::Viol(format!("allocation of {s} bytes exceeds the memory bound"))),
                };
            }
            H::Dealloc | H::Nop => {}
            // RandomState: one fixed pair of keys
            H::HashKeys => {
                st.regs[dst] = V::k(0x9e37_79b9_7f4a_7c15);
                st.regs[dst + 1] = V::k(0xd1b5_4a32_d192_ed03);
                return Ok(());
            }
            H::Realloc => {
                let p = self.cv(st, a[0])?;
                let old = self.cv(st, a[1])?;
                let al = self.cv(st, a[2])?;
                let new = self.cv(st, a[3])?;
                let q = match st.mem.alloc(new, al) {
                    Some(p) => p,
                    None => return Err(Stop::Viol(format!("allocation of {new} bytes exceeds the memory bound"))),
                };
                st.mem.copy(q, p, old.min(new)).ok_or_else(|| Stop::Err("realloc".into()))?;
                out = V::k(q);
            }
            H::MemcpyF => {
                self.intr(st, Intr::Memcpy, 64, 0, a)?;
                out = a[0];
            }
            H::MemsetF => {
                let mut b = a.to_vec();
                b[1] = if a[1].conc() {
                    V::k(a[1].c & 0xff)
                } else {
                    let e = self.ar.extract(a[1].e, 0, 8);
                    mk(&self.ar, e)
                };
                self.intr(st, Intr::Memset, 8, 0, &b)?;
                out = a[0];
            }
            H::Memcmp | H::Bcmp => {
                let p = self.cv(st, a[0])?;
                let q = self.cv(st, a[1])?;
                let n = self.cv(st, a[2])?;
                let mut r = 0i64;
                for i in 0..n {
                    let x = st.mem.load(&mut self.ar, p + i, 8).ok_or_else(|| Stop::Err("memcmp".into()))?;
                    let y = st.mem.load(&mut self.ar, q + i, 8).ok_or_else(|| Stop::Err("memcmp".into()))?;
                    let c = if x.conc() && y.conc() {
                        V::k((x.c == y.c) as u64)
                    } else {
                        self.icmp_sym(Pred::Eq, 8, x, y)
                    };
                    if self.cv(st, c)? == 0 {
                        let l = if x.conc() && y.conc() {
                            V::k((x.c < y.c) as u64)
                        } else {
                            self.icmp_sym(Pred::Ult, 8, x, y)
                        };
                        r = if h == H::Bcmp || self.cv(st, l)? == 0 { 1 } else { -1 };
                        break;
                    }
                }
                out = V::k(r as u64 & 0xffff_ffff);
            }
        }
        if n > 0 {
            st.regs[dst] = out;
        }
        Ok(())
    }

    fn path(&mut self, st: &mut State) -> Stop {
        let p = self.p;
        let mut args: Vec<V> = Vec::with_capacity(16);
        let mut tmp: Vec<V> = Vec::with_capacity(16);
        'frame: loop {
            let fr = *st.frames.last().unwrap();
            let fu = &p.funcs[fr.func as usize];
            let base = fr.base as usize;
            let mut pc = fr.pc as usize;
            macro_rules! o {
                ($x:expr) => {
                    match $x {
                        Opnd::R(r) => st.regs[base + r as usize],
                        Opnd::C(c) => V::k(c),
                    }
                };
            }
            macro_rules! sync {
                () => {
                    st.frames.last_mut().unwrap().pc = pc as u32
                };
            }
            macro_rules! cv {
                ($v:expr) => {{
                    let v = $v;
                    if v.conc() {
                        v.c
                    } else {
                        sync!();
                        tr!(self.conc(st, v.e))
                    }
                }};
            }
            macro_rules! go {
                ($e:expr) => {{
                    let e: &Edge = $e;
                    match e.moves.len() {
                        0 => {}
                        1 => {
                            let (d, s) = e.moves[0];
                            st.regs[base + d as usize] = o!(s);
                        }
                        _ => {
                            tmp.clear();
                            for (_, s) in e.moves.iter() {
                                tmp.push(o!(*s));
                            }
                            for (k, (d, _)) in e.moves.iter().enumerate() {
                                st.regs[base + *d as usize] = tmp[k];
                            }
                        }
                    }
                    pc = e.target as usize;
                    continue;
                }};
            }
            loop {
                st.steps += 1;
                if st.steps > self.lim.steps {
                    sync!();
                    return Stop::Viol("execution does not finish within the step bound".into());
                }
                let l = fu.lines[pc];
                if l != 0 {
                    self.cov[l as usize] = 1;
                }
                match &fu.code[pc] {
                    Op::Bin(b, w, d, x, y) => {
                        let (x, y) = (o!(*x), o!(*y));
                        st.regs[base + *d as usize] = self.bin(*b, *w, x, y);
                    }
                    Op::Icmp(pr, w, d, x, y) => {
                        let (x, y) = (o!(*x), o!(*y));
                        st.regs[base + *d as usize] = if x.conc() && y.conc() {
                            let (a, b) = (x.c, y.c);
                            V::k(match pr {
                                Pred::Eq => a == b,
                                Pred::Ne => a != b,
                                Pred::Ult => a < b,
                                Pred::Ule => a <= b,
                                Pred::Ugt => a > b,
                                Pred::Uge => a >= b,
                                Pred::Slt => sval(a, *w) < sval(b, *w),
                                Pred::Sle => sval(a, *w) <= sval(b, *w),
                                Pred::Sgt => sval(a, *w) > sval(b, *w),
                                Pred::Sge => sval(a, *w) >= sval(b, *w),
                            } as u64)
                        } else {
                            self.icmp_sym(*pr, *w, x, y)
                        };
                    }
                    Op::Cast(c, ws, wd, d, x) => {
                        let x = o!(*x);
                        st.regs[base + *d as usize] = if x.conc() {
                            V::k(match c {
                                Cast::Zext => x.c,
                                Cast::Sext => sval(x.c, *ws) as u64 & mask(*wd),
                                Cast::Trunc => x.c & mask(*wd),
                            })
                        } else {
                            let r = match c {
                                Cast::Zext => self.ar.zext(x.e, *wd),
                                Cast::Sext => self.ar.sext(x.e, *wd),
                                Cast::Trunc => self.ar.extract(x.e, 0, *wd),
                            };
                            mk(&self.ar, r)
                        };
                    }
                    Op::Mov(d, x) => st.regs[base + *d as usize] = o!(*x),
                    Op::Select(d, c, a, b, w) => {
                        let c = o!(*c);
                        let (a, b) = (o!(*a), o!(*b));
                        st.regs[base + *d as usize] = if !c.conc() && *w == 1 {
                            let (x, y) = (self.ex(a, 1), self.ex(b, 1));
                            let r = self.ar.ite(c.e, x, y);
                            mk(&self.ar, r)
                        } else if a == b {
                            a
                        } else if cv!(c) == 1 {
                            a
                        } else {
                            b
                        };
                    }
                    Op::Load(d, a, off, w) => {
                        let a = cv!(o!(*a)).wrapping_add(*off as u64);
                        match st.mem.load(&mut self.ar, a, *w) {
                            Some(v) => st.regs[base + *d as usize] = v,
                            None => {
                                sync!();
                                return Stop::Err(format!("load out of bounds at {a:#x}"));
                            }
                        }
                    }
                    Op::Store(v, a, off, w) => {
                        let v = o!(*v);
                        let a = cv!(o!(*a)).wrapping_add(*off as u64);
                        if st.mem.store(a, *w, v).is_none() {
                            sync!();
                            return Stop::Err(format!("store out of bounds at {a:#x}"));
                        }
                    }
                    Op::Alloca(d, n, al) => match st.mem.alloca(*n as u64, *al as u64) {
                        Some(a) => st.regs[base + *d as usize] = V::k(a),
                        None => {
                            sync!();
                            return Stop::Viol("stack overflow (bound)".into());
                        }
                    },
                    Op::Gep(d, b, k, idx) => {
                        let mut acc = o!(*b);
                        if *k != 0 {
                            acc = self.bin(Bin::Add, 64, acc, V::k(*k as u64));
                        }
                        for (i, sc, w) in idx.iter() {
                            let i = o!(*i);
                            let t = if i.conc() {
                                V::k((sval(i.c, *w) as u64).wrapping_mul(*sc as u64))
                            } else {
                                let e = if *w < 64 { self.ar.sext(i.e, 64) } else { i.e };
                                let e = self.ar.mulc(e, *sc as u64);
                                mk(&self.ar, e)
                            };
                            acc = self.bin(Bin::Add, 64, acc, t);
                        }
                        st.regs[base + *d as usize] = acc;
                    }
                    Op::Br(e) => go!(e),
                    Op::CondBr(c, es) => {
                        let c = cv!(o!(*c));
                        if c == 1 {
                            go!(&es.0)
                        } else {
                            go!(&es.1)
                        }
                    }
                    Op::Switch(x, w, cs) => {
                        let v = o!(*x);
                        let v = if v.conc() {
                            v.c
                        } else {
                            // decide the case equations one by one, the model's case first
                            sync!();
                            let v0 = st.model.eval(&self.ar, v.e);
                            let mut hit = None;
                            if let Some(c) = cs.0.iter().find(|c| c.0 == v0) {
                                let k = self.ar.konst(c.0, *w);
                                let q = self.ar.eq(v.e, k);
                                if tr!(self.conc(st, q)) == 1 {
                                    hit = Some(v0);
                                }
                            }
                            if hit.is_none() {
                                for c in cs.0.iter() {
                                    let k = self.ar.konst(c.0, *w);
                                    let q = self.ar.eq(v.e, k);
                                    if tr!(self.conc(st, q)) == 1 {
                                        hit = Some(c.0);
                                        break;
                                    }
                                }
                            }
                            match hit {
                                Some(c) => c,
                                None => {
                                    go!(&cs.1)
                                }
                            }
                        };
                        match cs.0.iter().find(|c| c.0 == v) {
                            Some(c) => go!(&c.1),
                            None => go!(&cs.1),
                        }
                    }
                    Op::Ret(vs) => {
                        tmp.clear();
                        for v in vs.iter() {
                            tmp.push(o!(*v));
                        }
                        st.frames.pop();
                        st.mem.sp = fr.sp;
                        st.regs.truncate(base);
                        match st.frames.last_mut() {
                            None => return Stop::Done,
                            Some(c) => {
                                let b = c.base as usize + fr.ret as usize;
                                for k in 0..(fr.retn as usize).min(tmp.len()) {
                                    st.regs[b + k] = tmp[k];
                                }
                                c.pc += 1;
                            }
                        }
                        continue 'frame;
                    }
                    Op::Unreachable => {
                        sync!();
                        return Stop::Viol("reached code the compiler assumes unreachable".into());
                    }
                    Op::Call(callee, d, n, a) => {
                        let f = match callee {
                            Callee::Func(f) => *f,
                            Callee::Ptr(q) => {
                                let v = cv!(o!(*q));
                                if v < FUNC_BASE || v >= GLOB_BASE || (v - FUNC_BASE) % 16 != 0 {
                                    sync!();
                                    return Stop::Err(format!("call through bad pointer {v:#x}"));
                                }
                                ((v - FUNC_BASE) / 16) as u32
                            }
                        };
                        args.clear();
                        for x in a.iter() {
                            args.push(o!(*x));
                        }
                        sync!();
                        let h = self.hs[f as usize];
                        if h != H::None {
                            let name = &p.funcs[f as usize].name;
                            let av = std::mem::take(&mut args);
                            let r = self.builtin(st, h, name, &av, base + *d as usize, *n);
                            args = av;
                            tr!(r);
                        } else {
                            if !p.funcs[f as usize].defined {
                                return Stop::Err(format!(
                                    "call to undefined function {:#}",
                                    rustc_demangle::demangle(&p.funcs[f as usize].name)
                                ));
                            }
                            if st.frames.len() >= self.lim.depth {
                                return Stop::Viol("call depth exceeds the bound".into());
                            }
                            let av = std::mem::take(&mut args);
                            self.enter(st, f, &av, *d, *n);
                            args = av;
                            continue 'frame;
                        }
                    }
                    Op::Intr(k, w, d, a) => {
                        args.clear();
                        for x in a.iter() {
                            args.push(o!(*x));
                        }
                        sync!();
                        let av = std::mem::take(&mut args);
                        let r = self.intr(st, *k, *w, base + *d as usize, &av);
                        args = av;
                        tr!(r);
                    }
                    Op::Flt(k, ws, wd, d, xs) => {
                        let mut v = [0u64; 2];
                        for (i, x) in xs.iter().enumerate() {
                            v[i] = cv!(o!(*x));
                        }
                        match float(*k, *ws, *wd, v) {
                            Some(r) => st.regs[base + *d as usize] = V::k(r),
                            None => return Stop::Err(format!("unsupported float width {ws}/{wd}")),
                        }
                    }
                    Op::Rebits(d, wd, n, ws, xs) => {
                        let vals: Vec<V> = xs.iter().map(|x| o!(*x)).collect();
                        if vals.iter().all(|v| v.conc()) {
                            let mut bits: Vec<bool> = vec![];
                            for v in &vals {
                                for i in 0..*ws {
                                    bits.push(v.c >> i & 1 == 1);
                                }
                            }
                            for k in 0..*n as usize {
                                let mut r = 0u64;
                                for i in 0..*wd as usize {
                                    if bits.get(k * *wd as usize + i) == Some(&true) {
                                        r |= 1 << i;
                                    }
                                }
                                st.regs[base + *d as usize + k] = V::k(r);
                            }
                        } else {
                            for v in &vals {
                                cv!(*v);
                            }
                            let mut bits: Vec<bool> = vec![];
                            for v in &vals {
                                let c = cv!(*v);
                                for i in 0..*ws {
                                    bits.push(c >> i & 1 == 1);
                                }
                            }
                            for k in 0..*n as usize {
                                let mut r = 0u64;
                                for i in 0..*wd as usize {
                                    if bits.get(k * *wd as usize + i) == Some(&true) {
                                        r |= 1 << i;
                                    }
                                }
                                st.regs[base + *d as usize + k] = V::k(r);
                            }
                        }
                    }
                    Op::Bad(m) => {
                        sync!();
                        return Stop::Err(format!("unsupported instruction: {m}"));
                    }
                }
                pc += 1;
            }
        }
    }
}

pub const _UNUSED: E = NOE;

fn float(k: Flt, ws: u8, wd: u8, v: [u64; 2]) -> Option<u64> {
    macro_rules! go {
        ($f:ty, $bits:ty) => {{
            let get = |i: usize| <$f>::from_bits(v[i] as $bits);
            let put = |x: $f| x.to_bits() as u64;
            let (a, b) = (get(0), get(1));
            match k {
                Flt::Add => put(a + b),
                Flt::Sub => put(a - b),
                Flt::Mul => put(a * b),
                Flt::Div => put(a / b),
                Flt::Rem => put(a % b),
                Flt::Neg => put(-a),
                Flt::Cmp(m) => {
                    let r = if a == b {
                        1
                    } else if a > b {
                        2
                    } else if a < b {
                        4
                    } else {
                        8
                    };
                    (m & r != 0) as u64
                }
                Flt::ToS => {
                    let (lo, hi) = (-(1i128 << (wd - 1)), (1i128 << (wd - 1)) - 1);
                    ((a as i128).clamp(lo, hi) as u64) & mask(wd)
                }
                Flt::ToU => (a as u128).min(mask(wd) as u128) as u64,
                Flt::Conv => match wd {
                    64 => (a as f64).to_bits(),
                    32 => (a as f32).to_bits() as u64,
                    _ => return None,
                },
                Flt::Ceil => put(a.ceil()),
                Flt::Floor => put(a.floor()),
                Flt::Trunc => put(a.trunc()),
                Flt::Round => put(a.round()),
                Flt::Even => put(a.round_ties_even()),
                Flt::Abs => put(a.abs()),
                Flt::Sqrt => put(a.sqrt()),
                Flt::Max => put(a.max(b)),
                Flt::Min => put(a.min(b)),
                Flt::FromS | Flt::FromU => return None,
            }
        }};
    }
    Some(match (k, ws, wd) {
        (Flt::FromU, _, 64) => (v[0] as f64).to_bits(),
        (Flt::FromU, _, 32) => (v[0] as f32).to_bits() as u64,
        (Flt::FromS, _, 64) => (sval(v[0], ws) as f64).to_bits(),
        (Flt::FromS, _, 32) => (sval(v[0], ws) as f32).to_bits() as u64,
        (_, 64, _) => go!(f64, u64),
        (_, 32, _) => go!(f32, u32),
        _ => return None,
    })
}
