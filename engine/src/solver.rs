//! SMT back end: z3 through its C API (loaded with dlopen so the solver
//! version is a run-time choice). Two encodings of the same expressions:
//! linear integer arithmetic when every node allows it, bit-vectors otherwise.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type Ptr = *mut c_void;

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> Ptr;
    fn dlsym(h: Ptr, s: *const c_char) -> Ptr;
    fn dlerror() -> *const c_char;
}

macro_rules! api {
    ($($n:ident : fn($($a:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        #[derive(Clone, Copy)]
        pub struct Api { $($n: unsafe extern "C" fn($($a),*) $(-> $r)?,)* }
        impl Api {
            pub fn load(path: &str) -> Result<Api, String> {
                unsafe {
                    let p = CString::new(path).unwrap();
                    let h = dlopen(p.as_ptr(), 2);
                    if h.is_null() {
                        return Err(CStr::from_ptr(dlerror()).to_string_lossy().into_owned());
                    }
                    Ok(Api { $($n: {
                        let s = CString::new(concat!("Z3_", stringify!($n))).unwrap();
                        let f = dlsym(h, s.as_ptr());
                        if f.is_null() { return Err(format!("missing Z3_{}", stringify!($n))); }
                        std::mem::transmute::<Ptr, unsafe extern "C" fn($($a),*) $(-> $r)?>(f)
                    },)* })
                }
            }
        }
    };
}
type C = Ptr;
type A = Ptr;
api! {
    mk_config: fn() -> Ptr;
    set_param_value: fn(Ptr, *const c_char, *const c_char);
    mk_context: fn(Ptr) -> C;
    del_context: fn(C);
    get_full_version: fn() -> *const c_char;
    mk_simple_solver: fn(C) -> Ptr;
    mk_solver: fn(C) -> Ptr;
    solver_inc_ref: fn(C, Ptr);
    solver_push: fn(C, Ptr);
    solver_pop: fn(C, Ptr, c_uint);
    solver_assert: fn(C, Ptr, A);
    solver_check: fn(C, Ptr) -> c_int;
    solver_get_model: fn(C, Ptr) -> Ptr;
    solver_set_params: fn(C, Ptr, Ptr);
    solver_get_reason_unknown: fn(C, Ptr) -> *const c_char;
    solver_to_string: fn(C, Ptr) -> *const c_char;
    model_inc_ref: fn(C, Ptr);
    model_dec_ref: fn(C, Ptr);
    model_eval: fn(C, Ptr, A, bool, *mut A) -> bool;
    get_numeral_string: fn(C, A) -> *const c_char;
    mk_params: fn(C) -> Ptr;
    params_inc_ref: fn(C, Ptr);
    params_set_uint: fn(C, Ptr, Ptr, c_uint);
    mk_string_symbol: fn(C, *const c_char) -> Ptr;
    mk_int_sort: fn(C) -> Ptr;
    mk_bool_sort: fn(C) -> Ptr;
    mk_bv_sort: fn(C, c_uint) -> Ptr;
    mk_const: fn(C, Ptr, Ptr) -> A;
    mk_int64: fn(C, i64, Ptr) -> A;
    mk_unsigned_int64: fn(C, u64, Ptr) -> A;
    mk_numeral: fn(C, *const c_char, Ptr) -> A;
    mk_true: fn(C) -> A;
    mk_false: fn(C) -> A;
    mk_add: fn(C, c_uint, *const A) -> A;
    mk_mul: fn(C, c_uint, *const A) -> A;
    mk_and: fn(C, c_uint, *const A) -> A;
    mk_or: fn(C, c_uint, *const A) -> A;
    mk_xor: fn(C, A, A) -> A;
    mk_not: fn(C, A) -> A;
    mk_eq: fn(C, A, A) -> A;
    mk_lt: fn(C, A, A) -> A;
    mk_le: fn(C, A, A) -> A;
    mk_ite: fn(C, A, A, A) -> A;
    mk_bvadd: fn(C, A, A) -> A;
    mk_bvmul: fn(C, A, A) -> A;
    mk_bvudiv: fn(C, A, A) -> A;
    mk_bvurem: fn(C, A, A) -> A;
    mk_bvsdiv: fn(C, A, A) -> A;
    mk_bvsrem: fn(C, A, A) -> A;
    mk_bvand: fn(C, A, A) -> A;
    mk_bvor: fn(C, A, A) -> A;
    mk_bvxor: fn(C, A, A) -> A;
    mk_bvnot: fn(C, A) -> A;
    mk_bvshl: fn(C, A, A) -> A;
    mk_bvlshr: fn(C, A, A) -> A;
    mk_bvashr: fn(C, A, A) -> A;
    mk_bvult: fn(C, A, A) -> A;
    mk_bvslt: fn(C, A, A) -> A;
    mk_bvule: fn(C, A, A) -> A;
    mk_zero_ext: fn(C, c_uint, A) -> A;
    mk_sign_ext: fn(C, c_uint, A) -> A;
    mk_extract: fn(C, c_uint, c_uint, A) -> A;
    mk_concat: fn(C, A, A) -> A;
    set_error_handler: fn(C, Ptr);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub lia: u64,
    pub bv: u64,
    pub time: f64,
    pub max_query: f64,
}

struct Side {
    solver: Ptr,
    bv: bool,
    /// asserted path-condition prefix, with the side constraints each level added
    stack: Vec<(E, bool)>,
    added: Vec<Vec<A>>, // keys of definitions first asserted at each level
    has: std::collections::HashSet<usize>,
    tr: HashMap<E, A>,
    /// defining constraints under an expression (cached per expression)
    defs: HashMap<E, Box<[(usize, A)]>>,
    own: HashMap<E, (usize, A)>,
    sx: HashMap<E, A>,
    sown: HashMap<E, (usize, A)>,
}

pub struct Solver {
    api: Api,
    ctx: C,
    int_sort: Ptr,
    lia: Side,
    bv: Side,
    vars_lia: HashMap<u32, A>,
    vars_bv: HashMap<u32, A>,
    fresh: u64,
    pub stats: Stats,
    pub force_bv: bool,
}

impl Solver {
    pub fn new(api: Api, timeout_ms: u32, force_bv: bool) -> Solver {
        unsafe {
            let cfg = (api.mk_config)();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            (api.set_param_value)(cfg, k.as_ptr(), v.as_ptr());
            let ctx = (api.mk_context)(cfg);
            (api.set_error_handler)(ctx, std::ptr::null_mut());
            let mk = |bv: bool| -> Side {
                let s = (api.mk_simple_solver)(ctx);
                (api.solver_inc_ref)(ctx, s);
                let p = (api.mk_params)(ctx);
                (api.params_inc_ref)(ctx, p);
                let t = CString::new("timeout").unwrap();
                let sym = (api.mk_string_symbol)(ctx, t.as_ptr());
                (api.params_set_uint)(ctx, p, sym, timeout_ms);
                (api.solver_set_params)(ctx, s, p);
                Side {
                    solver: s,
                    bv,
                    stack: vec![],
                    added: vec![],
                    has: Default::default(),
                    tr: HashMap::new(),
                    defs: HashMap::new(),
                    own: HashMap::new(),
                    sx: HashMap::new(),
                    sown: HashMap::new(),
                }
            };
            let lia = mk(false);
            let bv = mk(true);
            Solver {
                int_sort: (api.mk_int_sort)(ctx),
                lia,
                bv,
                vars_lia: HashMap::new(),
                vars_bv: HashMap::new(),
                fresh: 0,
                stats: Stats::default(),
                api,
                ctx,
                force_bv,
            }
        }
    }
    pub fn version(&self) -> String {
        unsafe { CStr::from_ptr((self.api.get_full_version)()).to_string_lossy().into_owned() }
    }
    fn int(&self, v: i128) -> A {
        unsafe {
            if let Ok(x) = i64::try_from(v) {
                (self.api.mk_int64)(self.ctx, x, self.int_sort)
            } else {
                let s = CString::new(v.to_string()).unwrap();
                (self.api.mk_numeral)(self.ctx, s.as_ptr(), self.int_sort)
            }
        }
    }
    fn mkc(&mut self, pfx: &str, n: u64, sort: Ptr) -> A {
        unsafe {
            let s = CString::new(format!("{pfx}{n}")).unwrap();
            let sym = (self.api.mk_string_symbol)(self.ctx, s.as_ptr());
            (self.api.mk_const)(self.ctx, sym, sort)
        }
    }
    fn bool(&self, b: bool) -> A {
        unsafe {
            if b {
                (self.api.mk_true)(self.ctx)
            } else {
                (self.api.mk_false)(self.ctx)
            }
        }
    }
    fn between(&self, lo: i128, x: A, hi: i128) -> A {
        unsafe {
            let c = [
                (self.api.mk_le)(self.ctx, self.int(lo), x),
                (self.api.mk_le)(self.ctx, x, self.int(hi)),
            ];
            (self.api.mk_and)(self.ctx, 2, c.as_ptr())
        }
    }
    fn children(ar: &Arena, e: E) -> Vec<E> {
        match ar.n(e) {
            Node::Const(_) | Node::Var(_) => vec![],
            Node::Lin(t, _) => t.iter().map(|x| x.0).collect(),
            Node::Mul(a, b)
            | Node::UDiv(a, b)
            | Node::URem(a, b)
            | Node::SDiv(a, b)
            | Node::SRem(a, b)
            | Node::And(a, b)
            | Node::Or(a, b)
            | Node::Xor(a, b)
            | Node::Shl(a, b)
            | Node::LShr(a, b)
            | Node::AShr(a, b)
            | Node::Concat(a, b)
            | Node::Eq(a, b)
            | Node::Ult(a, b)
            | Node::Slt(a, b) => vec![*a, *b],
            Node::Zext(a) | Node::Sext(a) | Node::Extract(a, _) | Node::Not(a) => vec![*a],
            Node::Ite(a, b, c) => vec![*a, *b, *c],
        }
    }
    // ---- integers
    fn lia_sum(&mut self, ar: &Arena, t: &[(E, u64)], c: u64, w: u8) -> A {
        let mut v: Vec<A> = vec![];
        for (e, k) in t {
            let x = self.tl(ar, *e);
            let k = sval(*k, w) as i128;
            if k == 1 {
                v.push(x);
            } else {
                let m = [self.int(k), x];
                v.push(unsafe { (self.api.mk_mul)(self.ctx, 2, m.as_ptr()) });
            }
        }
        let c = sval(c, w) as i128;
        if c != 0 || v.is_empty() {
            v.push(self.int(c));
        }
        if v.len() == 1 {
            v[0]
        } else {
            unsafe { (self.api.mk_add)(self.ctx, v.len() as c_uint, v.as_ptr()) }
        }
    }
    /// integer (w>1) or boolean (w==1) translation
    fn tl(&mut self, ar: &Arena, e: E) -> A {
        if let Some(a) = self.lia.tr.get(&e) {
            return *a;
        }
        let w = ar.w(e);
        let ctx = self.ctx;
        let api = self.api;
        let r = unsafe {
            match ar.n(e).clone() {
                Node::Const(c) => {
                    if w == 1 {
                        self.bool(c == 1)
                    } else {
                        self.int(c as i128)
                    }
                }
                Node::Var(v) => {
                    let s = self.int_sort;
                    let x = self.mkc("v", v as u64, s);
                    self.vars_lia.insert(v, x);
                    let vi = &ar.vars[v as usize];
                    let d = self.between(vi.lo as i128, x, vi.hi as i128);
                    self.lia.own.insert(e, (d as usize, d));
                    x
                }
                Node::Lin(t, c) => {
                    let sum = self.lia_sum(ar, &t, c, w);
                    let (l, h) = ar.lin_exact(&t, c, w);
                    let m = 1i128 << w;
                    let (kl, kh) = (l.div_euclid(m), h.div_euclid(m));
                    if kl == kh {
                        if kl == 0 {
                            sum
                        } else {
                            let x = [sum, self.int(-kl * m)];
                            (api.mk_add)(ctx, 2, x.as_ptr())
                        }
                    } else {
                        self.fresh += 1;
                        let s = self.int_sort;
                        let f = self.fresh;
                        let q = self.mkc("k", f, s);
                        let x = [self.int(-m), q];
                        let y = [sum, (api.mk_mul)(ctx, 2, x.as_ptr())];
                        let val = (api.mk_add)(ctx, 2, y.as_ptr());
                        let d = [self.between(0, val, m - 1), self.between(kl, q, kh)];
                        let d = (api.mk_and)(ctx, 2, d.as_ptr());
                        self.lia.own.insert(e, (d as usize, d));
                        val
                    }
                }
                Node::Zext(a) => {
                    let x = self.tl(ar, a);
                    if ar.w(a) == 1 {
                        (api.mk_ite)(ctx, x, self.int(1), self.int(0))
                    } else {
                        x
                    }
                }
                Node::Sext(a) => {
                    let x = self.tl(ar, a);
                    (api.mk_ite)(ctx, x, self.int(mask(w) as i128), self.int(0))
                }
                Node::Extract(a, _) => {
                    let x = self.tl(ar, a);
                    if w == 1 {
                        (api.mk_eq)(ctx, x, self.int(1))
                    } else {
                        x
                    }
                }
                Node::Not(a) => {
                    let x = self.tl(ar, a);
                    (api.mk_not)(ctx, x)
                }
                Node::And(a, b) => {
                    let x = [self.tl(ar, a), self.tl(ar, b)];
                    (api.mk_and)(ctx, 2, x.as_ptr())
                }
                Node::Or(a, b) => {
                    let x = [self.tl(ar, a), self.tl(ar, b)];
                    (api.mk_or)(ctx, 2, x.as_ptr())
                }
                Node::Xor(a, b) => {
                    let x = [self.tl(ar, a), self.tl(ar, b)];
                    (api.mk_xor)(ctx, x[0], x[1])
                }
                Node::Ite(c, a, b) => {
                    let x = [self.tl(ar, c), self.tl(ar, a), self.tl(ar, b)];
                    (api.mk_ite)(ctx, x[0], x[1], x[2])
                }
                Node::Eq(a, b) => {
                    let x = [self.tl(ar, a), self.tl(ar, b)];
                    (api.mk_eq)(ctx, x[0], x[1])
                }
                Node::Ult(a, b) => {
                    let x = [self.tl(ar, a), self.tl(ar, b)];
                    (api.mk_lt)(ctx, x[0], x[1])
                }
                Node::Slt(a, b) => {
                    let x = [self.ts(ar, a), self.ts(ar, b)];
                    (api.mk_lt)(ctx, x[0], x[1])
                }
                n => unreachable!("not linear: {n:?}"),
            }
        };
        self.lia.tr.insert(e, r);
        r
    }
    /// signed integer reading
    fn ts(&mut self, ar: &Arena, e: E) -> A {
        if let Some(a) = self.lia.sx.get(&e) {
            return *a;
        }
        let w = ar.w(e);
        let m = 1i128 << w;
        let r = match ar.n(e).clone() {
            Node::Const(c) => self.int(sval(c, w) as i128),
            Node::Lin(t, c) if ar.sexact(e) => self.lia_sum(ar, &t, c, w),
            _ => {
                let x = self.tl(ar, e);
                if ar.i(e).hi <= mask(w) >> 1 {
                    x
                } else {
                    unsafe {
                        let c = (self.api.mk_lt)(self.ctx, x, self.int(m / 2));
                        let y = [x, self.int(-m)];
                        let n = (self.api.mk_add)(self.ctx, 2, y.as_ptr());
                        (self.api.mk_ite)(self.ctx, c, x, n)
                    }
                }
            }
        };
        self.lia.sx.insert(e, r);
        r
    }
    // ---- bit-vectors (width 1 is a boolean)
    fn tb(&mut self, ar: &Arena, e: E) -> A {
        if let Some(a) = self.bv.tr.get(&e) {
            return *a;
        }
        let w = ar.w(e);
        let ctx = self.ctx;
        let api = self.api;
        unsafe {
            let sort = |w: u8| (api.mk_bv_sort)(ctx, w as c_uint);
            let num = |v: u64, w: u8| (api.mk_unsigned_int64)(ctx, v, sort(w));
            let to_bv1 = |b: A| (api.mk_ite)(ctx, b, num(1, 1), num(0, 1));
            let from_bv1 = |x: A| (api.mk_eq)(ctx, x, num(1, 1));
            let r = match ar.n(e).clone() {
                Node::Const(c) => {
                    if w == 1 {
                        self.bool(c == 1)
                    } else {
                        num(c, w)
                    }
                }
                Node::Var(v) => {
                    let vi = ar.vars[v as usize].clone();
                    let k = (64 - vi.hi.leading_zeros()).max(1) as u8;
                    let x = self.mkc("b", v as u64, sort(k));
                    self.vars_bv.insert(v, x);
                    let mut d = vec![];
                    if vi.lo > 0 {
                        d.push((api.mk_bvule)(ctx, num(vi.lo, k), x));
                    }
                    if vi.hi != mask(k) {
                        d.push((api.mk_bvule)(ctx, x, num(vi.hi, k)));
                    }
                    if !d.is_empty() {
                        let d = (api.mk_and)(ctx, d.len() as c_uint, d.as_ptr());
                        self.bv.own.insert(e, (d as usize, d));
                    }
                    if k == 64 {
                        x
                    } else {
                        (api.mk_zero_ext)(ctx, 64 - k as c_uint, x)
                    }
                }
                Node::Lin(t, c) if w == 1 => {
                    let mut acc = self.bool(c & 1 == 1);
                    for (x, k) in t.iter() {
                        if k & 1 == 1 {
                            let y = self.tb(ar, *x);
                            acc = (api.mk_xor)(ctx, acc, y);
                        }
                    }
                    acc
                }
                Node::Lin(t, c) => {
                    let mut acc: Option<A> = if c != 0 { Some(num(c, w)) } else { None };
                    for (x, k) in t.iter() {
                        let mut y = self.tb(ar, *x);
                        if *k != 1 {
                            y = (api.mk_bvmul)(ctx, num(*k, w), y);
                        }
                        acc = Some(match acc {
                            Some(a) => (api.mk_bvadd)(ctx, a, y),
                            None => y,
                        });
                    }
                    acc.unwrap()
                }
                Node::Mul(a, b)
                | Node::UDiv(a, b)
                | Node::URem(a, b)
                | Node::SDiv(a, b)
                | Node::SRem(a, b)
                | Node::Shl(a, b)
                | Node::LShr(a, b)
                | Node::AShr(a, b) => {
                    let (mut x, mut y) = (self.tb(ar, a), self.tb(ar, b));
                    if w == 1 {
                        x = to_bv1(x);
                        y = to_bv1(y);
                    }
                    let z = match ar.n(e) {
                        Node::Mul(..) => (api.mk_bvmul)(ctx, x, y),
                        Node::UDiv(..) => (api.mk_bvudiv)(ctx, x, y),
                        Node::URem(..) => (api.mk_bvurem)(ctx, x, y),
                        Node::SDiv(..) => (api.mk_bvsdiv)(ctx, x, y),
                        Node::SRem(..) => (api.mk_bvsrem)(ctx, x, y),
                        Node::Shl(..) => (api.mk_bvshl)(ctx, x, y),
                        Node::LShr(..) => (api.mk_bvlshr)(ctx, x, y),
                        _ => (api.mk_bvashr)(ctx, x, y),
                    };
                    if w == 1 {
                        from_bv1(z)
                    } else {
                        z
                    }
                }
                Node::And(a, b) | Node::Or(a, b) | Node::Xor(a, b) => {
                    let x = [self.tb(ar, a), self.tb(ar, b)];
                    match (ar.n(e), w) {
                        (Node::And(..), 1) => (api.mk_and)(ctx, 2, x.as_ptr()),
                        (Node::Or(..), 1) => (api.mk_or)(ctx, 2, x.as_ptr()),
                        (Node::Xor(..), 1) => (api.mk_xor)(ctx, x[0], x[1]),
                        (Node::And(..), _) => (api.mk_bvand)(ctx, x[0], x[1]),
                        (Node::Or(..), _) => (api.mk_bvor)(ctx, x[0], x[1]),
                        _ => (api.mk_bvxor)(ctx, x[0], x[1]),
                    }
                }
                Node::Zext(a) | Node::Sext(a) => {
                    let wa = ar.w(a);
                    let mut x = self.tb(ar, a);
                    if wa == 1 {
                        x = to_bv1(x);
                    }
                    if matches!(ar.n(e), Node::Zext(_)) {
                        (api.mk_zero_ext)(ctx, (w - wa) as c_uint, x)
                    } else {
                        (api.mk_sign_ext)(ctx, (w - wa) as c_uint, x)
                    }
                }
                Node::Extract(a, lo) => {
                    let mut x = self.tb(ar, a);
                    if ar.w(a) == 1 {
                        x = to_bv1(x);
                    }
                    let z = (api.mk_extract)(ctx, (lo + w - 1) as c_uint, lo as c_uint, x);
                    if w == 1 {
                        from_bv1(z)
                    } else {
                        z
                    }
                }
                Node::Concat(h, l) => {
                    let (mut x, mut y) = (self.tb(ar, h), self.tb(ar, l));
                    if ar.w(h) == 1 {
                        x = to_bv1(x);
                    }
                    if ar.w(l) == 1 {
                        y = to_bv1(y);
                    }
                    (api.mk_concat)(ctx, x, y)
                }
                Node::Ite(c, a, b) => {
                    let x = [self.tb(ar, c), self.tb(ar, a), self.tb(ar, b)];
                    (api.mk_ite)(ctx, x[0], x[1], x[2])
                }
                Node::Eq(a, b) => {
                    let x = [self.tb(ar, a), self.tb(ar, b)];
                    (api.mk_eq)(ctx, x[0], x[1])
                }
                Node::Ult(a, b) | Node::Slt(a, b) => {
                    let (mut x, mut y) = (self.tb(ar, a), self.tb(ar, b));
                    if ar.w(a) == 1 {
                        x = to_bv1(x);
                        y = to_bv1(y);
                    }
                    if matches!(ar.n(e), Node::Ult(..)) {
                        (api.mk_bvult)(ctx, x, y)
                    } else {
                        (api.mk_bvslt)(ctx, x, y)
                    }
                }
                Node::Not(a) => {
                    let x = self.tb(ar, a);
                    (api.mk_not)(ctx, x)
                }
            };
            self.bv.tr.insert(e, r);
            r
        }
    }
    fn collect_defs(&mut self, ar: &Arena, e: E, bv: bool) -> Box<[(usize, A)]> {
        {
            let s = if bv { &self.bv } else { &self.lia };
            if let Some(d) = s.defs.get(&e) {
                return d.clone();
            }
        }
        let mut v: Vec<(usize, A)> = vec![];
        for c in Self::children(ar, e) {
            for d in self.collect_defs(ar, c, bv).iter() {
                if !v.iter().any(|x| x.0 == d.0) {
                    v.push(*d);
                }
            }
        }
        let s = if bv { &mut self.bv } else { &mut self.lia };
        if let Some(d) = s.own.get(&e) {
            v.push(*d);
        }
        if let Some(d) = s.sown.get(&e) {
            v.push(*d);
        }
        let b: Box<[(usize, A)]> = v.into();
        s.defs.insert(e, b.clone());
        b
    }
    fn push_atom(&mut self, ar: &Arena, e: E, pos: bool, bv: bool) {
        let a = if bv { self.tb(ar, e) } else { self.tl(ar, e) };
        let defs = self.collect_defs(ar, e, bv);
        let (api, ctx) = (self.api, self.ctx);
        let s = if bv { &mut self.bv } else { &mut self.lia };
        unsafe {
            (api.solver_push)(ctx, s.solver);
            let mut added = vec![];
            for (k, d) in defs.iter() {
                if s.has.insert(*k) {
                    (api.solver_assert)(ctx, s.solver, *d);
                    added.push(*d);
                }
            }
            let a = if pos { a } else { (api.mk_not)(ctx, a) };
            (api.solver_assert)(ctx, s.solver, a);
            s.stack.push((e, pos));
            s.added.push(added);
        }
    }
    fn pop_to(&mut self, n: usize, bv: bool) {
        let s = if bv { &mut self.bv } else { &mut self.lia };
        let k = s.stack.len() - n;
        if k > 0 {
            unsafe { (self.api.solver_pop)(self.ctx, s.solver, k as c_uint) };
            s.stack.truncate(n);
            for added in s.added.drain(n..) {
                for d in added {
                    s.has.remove(&(d as usize));
                }
            }
        }
    }
    /// is pc ∧ (q == val) satisfiable?  On Sat the model covers every variable.
    pub fn check(&mut self, ar: &Arena, pc: &[(E, bool)], q: E, val: bool) -> (Sat, Vec<u64>) {
        let bv = self.force_bv || !ar.i(q).lia || pc.iter().any(|(e, _)| !ar.i(*e).lia);
        let s = if bv { &self.bv } else { &self.lia };
        let mut n = 0;
        while n < s.stack.len() && n < pc.len() && s.stack[n] == pc[n] {
            n += 1;
        }
        self.pop_to(n, bv);
        for (e, b) in &pc[n..] {
            self.push_atom(ar, *e, *b, bv);
        }
        let t0 = Instant::now();
        self.push_atom(ar, q, val, bv);
        let (api, ctx) = (self.api, self.ctx);
        let solver = if bv { self.bv.solver } else { self.lia.solver };
        let r = unsafe { (api.solver_check)(ctx, solver) };
        let mut model = vec![];
        let res = match r {
            1 => Sat::Sat,
            -1 => Sat::Unsat,
            _ => Sat::Unknown,
        };
        if res == Sat::Sat {
            model = self.model(ar, solver, bv);
        }
        self.pop_to(pc.len(), bv);
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.max_query {
            self.stats.max_query = dt;
        }
        if bv {
            self.stats.bv += 1
        } else {
            self.stats.lia += 1
        }
        match res {
            Sat::Sat => self.stats.sat += 1,
            Sat::Unsat => self.stats.unsat += 1,
            Sat::Unknown => self.stats.unknown += 1,
        }
        (res, model)
    }
    fn model(&mut self, ar: &Arena, solver: Ptr, bv: bool) -> Vec<u64> {
        let (api, ctx) = (self.api, self.ctx);
        let mut out = vec![];
        unsafe {
            let m = (api.solver_get_model)(ctx, solver);
            (api.model_inc_ref)(ctx, m);
            for (i, vi) in ar.vars.iter().enumerate() {
                let x = if bv { self.vars_bv.get(&(i as u32)) } else { self.vars_lia.get(&(i as u32)) };
                let mut v = vi.lo;
                if let Some(x) = x {
                    let mut o: A = std::ptr::null_mut();
                    if (api.model_eval)(ctx, m, *x, true, &mut o) {
                        let s = CStr::from_ptr((api.get_numeral_string)(ctx, o)).to_string_lossy();
                        if let Ok(n) = s.parse::<u64>() {
                            v = n;
                        }
                    }
                }
                // a variable the query does not mention is unconstrained
                if v < vi.lo || v > vi.hi {
                    v = vi.lo;
                }
                out.push(v);
            }
            (api.model_dec_ref)(ctx, m);
        }
        out
    }
    pub fn dump(&mut self, ar: &Arena, pc: &[(E, bool)], q: E, val: bool, bv: bool) -> String {
        self.pop_to(0, bv);
        for (e, b) in pc {
            self.push_atom(ar, *e, *b, bv);
        }
        self.push_atom(ar, q, val, bv);
        let solver = if bv { self.bv.solver } else { self.lia.solver };
        let s = unsafe {
            CStr::from_ptr((self.api.solver_to_string)(self.ctx, solver)).to_string_lossy().into_owned()
        };
        self.pop_to(0, bv);
        s
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        unsafe { (self.api.del_context)(self.ctx) }
    }
}
