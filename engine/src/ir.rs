//! Reader for the textual LLVM IR rustc emits, decoded into a compact form.
//! Aggregates and vectors are flattened into scalar registers; phis become
//! parallel moves on CFG edges.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Meta,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                b.next_power_of_two()
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w as u64).div_ceil(8).next_power_of_two(),
                _ => n * t.size(),
            },
            Ty::Struct(ts, packed) => {
                let mut off = 0u64;
                let mut al = 1;
                for t in ts {
                    if !packed {
                        let a = t.align();
                        off = off.div_ceil(a) * a;
                        al = al.max(a);
                    }
                    off += t.size();
                }
                if *packed {
                    off
                } else {
                    off.div_ceil(al) * al
                }
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 1,
            Ty::Int(_) | Ty::Float(_) | Ty::Ptr => self.size().clamp(1, 16),
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().clamp(1, 64),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut off = 0u64;
                for (k, t) in ts.iter().enumerate() {
                    if !packed {
                        off = off.div_ceil(t.align()) * t.align();
                    }
                    if k == i {
                        return off;
                    }
                    off += t.size();
                }
                off
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => 0,
        }
    }
    /// flattened scalars: (byte offset, bit width)
    pub fn flat(&self, base: u64, out: &mut Vec<(u64, u32)>) {
        match self {
            Ty::Void | Ty::Meta => {}
            Ty::Int(w) | Ty::Float(w) => out.push((base, *w)),
            Ty::Ptr => out.push((base, 64)),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                for i in 0..*n {
                    t.flat(base + i * t.size(), out)
                }
            }
            Ty::Struct(ts, _) => {
                for (i, t) in ts.iter().enumerate() {
                    t.flat(base + self.field_off(i), out)
                }
            }
        }
    }
    pub fn slots(&self) -> usize {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(_) | Ty::Float(_) | Ty::Ptr => 1,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.slots(),
            Ty::Struct(ts, _) => ts.iter().map(|t| t.slots()).sum(),
        }
    }
    pub fn has_big(&self) -> bool {
        let mut v = vec![];
        self.flat(0, &mut v);
        v.iter().any(|x| x.1 > 64)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opnd {
    R(u32),
    C(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    Memcpy,
    Memset,
    UMax,
    UMin,
    SMax,
    SMin,
    Ctlz,
    Cttz,
    Ctpop,
    Bitrev,
    IsConst,
    Bswap,
    Abs,
    Fshl,
    Fshr,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UCmp,
    SCmp,
    Expect,
    Trap,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Flt {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Neg,
    /// bits: 1 equal, 2 greater, 4 less, 8 unordered
    Cmp(u8),
    FromS,
    FromU,
    ToS,
    ToU,
    Conv,
    Ceil,
    Floor,
    Trunc,
    Round,
    Even,
    Abs,
    Sqrt,
    Max,
    Min,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ptr(Opnd),
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub target: u32,
    pub moves: Box<[(u32, Opnd)]>,
}

#[derive(Clone, Debug)]
pub enum Op {
    Bin(Bin, u8, u32, Opnd, Opnd),
    Icmp(Pred, u8, u32, Opnd, Opnd),
    Cast(Cast, u8, u8, u32, Opnd),
    Mov(u32, Opnd),
    Select(u32, Opnd, Opnd, Opnd, u8),
    Load(u32, Opnd, u32, u8),
    Store(Opnd, Opnd, u32, u8),
    Alloca(u32, u32, u32),
    /// dst = base + konst + sum idx*scale  (idx sign-extended from width)
    Gep(u32, Opnd, i64, Box<[(Opnd, i64, u8)]>),
    Br(Box<Edge>),
    CondBr(Opnd, Box<(Edge, Edge)>),
    Switch(Opnd, u8, Box<(Vec<(u64, Edge)>, Edge)>),
    Ret(Box<[Opnd]>),
    Unreachable,
    Call(Callee, u32, u32, Box<[Opnd]>),
    Intr(Intr, u8, u32, Box<[Opnd]>),
    /// re-slice bits: dst base, dst width, #dst, src width, srcs
    Rebits(u32, u8, u32, u8, Box<[Opnd]>),
    /// floating point, on concrete operands (a symbolic one is enumerated)
    Flt(Flt, u8, u8, u32, Box<[Opnd]>),
    Bad(Box<str>),
}

#[derive(Clone, Debug, Default)]
pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub nargs: u32,
    pub code: Vec<Op>,
    pub lines: Vec<u32>,
    pub defined: bool,
    pub noreturn: bool,
    pub addr: u64,
    pub param_slots: u32,
}

pub struct Program {
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals_base: u64,
    pub globals_mem: Vec<u8>,
    pub files: Vec<String>,
    /// dbg line ids: (file idx, line)
    pub lines: Vec<(u32, u32)>,
}

pub const FUNC_BASE: u64 = 0x0f00_0000;
pub const GLOB_BASE: u64 = 0x1000_0000;

#[derive(Clone, Debug, PartialEq)]
enum T {
    Word(String),
    Local(String),
    Global(String),
    Int(i128),
    Str(Vec<u8>),
    P(char),
    Meta(String),
}

fn fconst(x: &str, w: u32) -> Option<u64> {
    if let Some(h) = x.strip_prefix("f0x") {
        return u64::from_str_radix(h, 16).ok();
    }
    let d = match x.strip_prefix("0x") {
        Some(h) => f64::from_bits(u64::from_str_radix(h, 16).ok()?),
        None => match x {
            "inf" | "+inf" => f64::INFINITY,
            "-inf" => f64::NEG_INFINITY,
            _ => x.parse().ok()?,
        },
    };
    match w {
        64 => Some(d.to_bits()),
        32 => Some((d as f32).to_bits() as u64),
        _ => None,
    }
}

fn lex(s: &str, out: &mut Vec<T>) {
    let b = s.as_bytes();
    let mut i = 0;
    let name_ch = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                i += 1;
                let name;
                if b[i] == b'"' {
                    let st = i + 1;
                    i = st;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                    i += 1;
                } else {
                    let st = i;
                    while i < b.len() && name_ch(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                out.push(if c == b'%' { T::Local(name) } else { T::Global(name) });
            }
            b'!' => {
                i += 1;
                let st = i;
                if i < b.len() && b[i] == b'"' {
                    i += 1;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    i += 1;
                } else {
                    while i < b.len() && name_ch(b[i]) {
                        i += 1;
                    }
                }
                out.push(T::Meta(s[st..i].to_string()));
            }
            b'"' => {
                i += 1;
                let mut v = vec![];
                while b[i] != b'"' {
                    if b[i] == b'\\' {
                        if b[i + 1] == b'\\' {
                            v.push(b'\\');
                            i += 2;
                        } else {
                            v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                            i += 3;
                        }
                    } else {
                        v.push(b[i]);
                        i += 1;
                    }
                }
                i += 1;
                out.push(T::Str(v));
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                i += 1;
            }
            b'#' => {
                i += 1;
                let st = i;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                out.push(T::Word(format!("#{}", &s[st..i])));
            }
            _ if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) => {
                let st = i;
                i += 1;
                while i < b.len()
                    && (name_ch(b[i])
                        || b[i] == b'+' && b[i - 1] == b'e' && s[st..i].contains('.') && !s[st..i].contains('x'))
                {
                    i += 1;
                }
                match s[st..i].parse::<i128>() {
                    Ok(v) => out.push(T::Int(v)),
                    Err(_) => out.push(T::Word(s[st..i].to_string())),
                }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let st = i;
                while i < b.len() && name_ch(b[i]) {
                    i += 1;
                }
                out.push(T::Word(s[st..i].to_string()));
            }
            _ => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
}

struct P<'a> {
    t: &'a [T],
    i: usize,
}
type R<X> = Result<X, String>;

#[derive(Clone, Debug)]
enum Cst {
    Int(u128),
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Cst)>),
    Sym(String, i64),
    Zero,
    Undef,
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a T> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<&'a T> {
        let x = self.t.get(self.i).ok_or("eol")?;
        self.i += 1;
        Ok(x)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(&T::P(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {c} at {:?}", &self.t[self.i.min(self.t.len())..].iter().take(5).collect::<Vec<_>>()))
        }
    }
    fn word(&mut self) -> R<&'a str> {
        match self.next()? {
            T::Word(w) => Ok(w),
            x => Err(format!("expected word, got {x:?}")),
        }
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if let Some(T::Word(x)) = self.peek() {
            if x == w {
                self.i += 1;
                return true;
            }
        }
        false
    }
    fn skip_group(&mut self) -> R<()> {
        // at '(' : skip to the matching ')'
        self.expect('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                T::P('(') => d += 1,
                T::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    fn ty(&mut self, named: &HashMap<String, Ty>) -> R<Ty> {
        match self.next()? {
            T::Word(w) => match w.as_str() {
                "void" => Ok(Ty::Void),
                "ptr" => Ok(Ty::Ptr),
                "metadata" => Ok(Ty::Meta),
                "double" => Ok(Ty::Float(64)),
                "float" => Ok(Ty::Float(32)),
                "half" => Ok(Ty::Float(16)),
                "fp128" | "x86_fp80" => Ok(Ty::Float(128)),
                _ if w.starts_with('i') => w[1..]
                    .parse()
                    .map(Ty::Int)
                    .map_err(|_| format!("type {w}")),
                _ => Err(format!("type {w}")),
            },
            T::Local(n) => named.get(n).cloned().ok_or(format!("named type {n}")),
            T::P('[') => {
                let n = self.int()?;
                self.word()?;
                let t = self.ty(named)?;
                self.expect(']')?;
                Ok(Ty::Arr(n as u64, Box::new(t)))
            }
            T::P('<') => {
                if self.eat('{') {
                    let v = self.ty_list(named)?;
                    self.expect('>')?;
                    return Ok(Ty::Struct(v, true));
                }
                let n = self.int()?;
                self.word()?;
                let t = self.ty(named)?;
                self.expect('>')?;
                Ok(Ty::Vec(n as u64, Box::new(t)))
            }
            T::P('{') => Ok(Ty::Struct(self.ty_list(named)?, false)),
            x => Err(format!("type {x:?}")),
        }
    }
    fn ty_list(&mut self, named: &HashMap<String, Ty>) -> R<Vec<Ty>> {
        let mut v = vec![];
        while !self.eat('}') {
            v.push(self.ty(named)?);
            self.eat(',');
        }
        Ok(v)
    }
    fn int(&mut self) -> R<i128> {
        match self.next()? {
            T::Int(v) => Ok(*v),
            x => Err(format!("int, got {x:?}")),
        }
    }
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(T::Word(w)) => {
                    match w.as_str() {
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat"
                        | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "sub" | "add"
                        | "none" | "addrspacecast" => return Ok(()),
                        "void" | "ptr" | "metadata" | "double" | "float" | "half" => return Ok(()),
                        _ if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => {
                            return Ok(())
                        }
                        _ => {}
                    }
                    self.i += 1;
                    if w == "align" {
                        if let Some(T::Int(_)) = self.peek() {
                            self.i += 1;
                            continue;
                        }
                    }
                    if self.peek() == Some(&T::P('(')) {
                        self.skip_group()?;
                    }
                }
                Some(T::Str(_)) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    fn cst(&mut self, ty: &Ty, named: &HashMap<String, Ty>) -> R<Cst> {
        let t = self.next()?;
        if let (Ty::Float(w), T::Word(x)) = (ty, t) {
            if !matches!(x.as_str(), "undef" | "poison" | "zeroinitializer") {
                return fconst(x, *w).map(|v| Cst::Int(v as u128)).ok_or(format!("float constant {x}"));
            }
        }
        Ok(match t {
            T::Int(v) => Cst::Int(*v as u128),
            T::Global(g) => Cst::Sym(g.clone(), 0),
            T::Str(b) => Cst::Bytes(b.clone()),
            T::Word(w) => match w.as_str() {
                "true" => Cst::Int(1),
                "false" => Cst::Int(0),
                "null" | "zeroinitializer" | "none" => Cst::Zero,
                "undef" | "poison" => Cst::Undef,
                "splat" => {
                    self.expect('(')?;
                    let t = self.ty(named)?;
                    let c = self.cst(&t, named)?;
                    self.expect(')')?;
                    let n = match ty {
                        Ty::Vec(n, _) => *n,
                        _ => 1,
                    };
                    Cst::Agg((0..n).map(|_| (t.clone(), c.clone())).collect())
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "trunc" => {
                    self.expect('(')?;
                    let t = self.ty(named)?;
                    let c = self.cst(&t, named)?;
                    self.word()?; // to
                    self.ty(named)?;
                    self.expect(')')?;
                    c
                }
                "add" | "sub" => {
                    let neg = w == "sub";
                    while let Some(T::Word(_)) = self.peek() {
                        self.i += 1;
                    }
                    self.expect('(')?;
                    let t1 = self.ty(named)?;
                    let a = self.cst(&t1, named)?;
                    self.expect(',')?;
                    let t2 = self.ty(named)?;
                    let b = self.cst(&t2, named)?;
                    self.expect(')')?;
                    match (a, b) {
                        (Cst::Sym(s, o), Cst::Int(v)) => {
                            Cst::Sym(s, if neg { o - v as i64 } else { o + v as i64 })
                        }
                        (Cst::Int(a), Cst::Int(b)) => {
                            Cst::Int(if neg { a.wrapping_sub(b) } else { a.wrapping_add(b) })
                        }
                        x => return Err(format!("const add {x:?}")),
                    }
                }
                "getelementptr" => {
                    while let Some(T::Word(_)) = self.peek() {
                        let is_range = matches!(self.peek(), Some(T::Word(w)) if w=="inrange");
                        self.i += 1;
                        if is_range {
                            self.skip_group()?;
                        }
                    }
                    self.expect('(')?;
                    let mut cur = self.ty(named)?;
                    self.expect(',')?;
                    let bt = self.ty(named)?;
                    let base = self.cst(&bt, named)?;
                    let mut off = 0i64;
                    let mut first = true;
                    while self.eat(',') {
                        let it = self.ty(named)?;
                        let Cst::Int(ix) = self.cst(&it, named)? else {
                            return Err("gep idx".into());
                        };
                        let ix = ix as i64;
                        if first {
                            off += ix * cur.size() as i64;
                            first = false;
                        } else {
                            off += cur.field_off(ix as usize) as i64;
                            cur = match cur {
                                Ty::Struct(ts, _) => ts[ix as usize].clone(),
                                Ty::Arr(_, t) | Ty::Vec(_, t) => *t,
                                t => t,
                            };
                        }
                    }
                    self.expect(')')?;
                    match base {
                        Cst::Sym(s, o) => Cst::Sym(s, o + off),
                        Cst::Zero => Cst::Int(off as u128),
                        Cst::Int(v) => Cst::Int(v.wrapping_add(off as u128)),
                        x => return Err(format!("gep base {x:?}")),
                    }
                }
                _ => return Err(format!("const {w}")),
            },
            T::P('[') | T::P('{') => {
                let close = if *t == T::P('[') { ']' } else { '}' };
                self.agg(close, named)?
            }
            T::P('<') => {
                if self.eat('{') {
                    let a = self.agg('}', named)?;
                    self.expect('>')?;
                    a
                } else {
                    self.agg('>', named)?
                }
            }
            x => return Err(format!("const {x:?}")),
        })
    }
    fn agg(&mut self, close: char, named: &HashMap<String, Ty>) -> R<Cst> {
        let mut v = vec![];
        while !self.eat(close) {
            let t = self.ty(named)?;
            let c = self.cst(&t, named)?;
            v.push((t, c));
            self.eat(',');
        }
        Ok(Cst::Agg(v))
    }
}

pub struct Loader {
    named: HashMap<String, Ty>,
    gaddr: HashMap<String, u64>,
    fmap: HashMap<String, u32>,
    aliases: HashMap<String, String>,
}

enum Src {
    Local(String),
    Const(Cst),
}

struct FnCtx<'a> {
    l: &'a Loader,
    regs: HashMap<String, (u32, Ty)>,
    nregs: u32,
}

impl<'a> FnCtx<'a> {
    fn alloc(&mut self, name: &str, ty: &Ty) -> u32 {
        let s = self.nregs;
        self.nregs += ty.slots() as u32;
        self.regs.insert(name.to_string(), (s, ty.clone()));
        s
    }
    fn val(&self, p: &mut P, ty: &Ty) -> R<Vec<Opnd>> {
        let s = self.src(p, ty)?;
        self.resolve(&s, ty)
    }
    fn src(&self, p: &mut P, ty: &Ty) -> R<Src> {
        if let Some(T::Local(n)) = p.peek() {
            p.i += 1;
            return Ok(Src::Local(n.clone()));
        }
        Ok(Src::Const(p.cst(ty, &self.l.named)?))
    }
    fn resolve(&self, s: &Src, ty: &Ty) -> R<Vec<Opnd>> {
        match s {
            Src::Local(n) => {
                let (b, _) = self.regs.get(n).ok_or(format!("unknown local {n}"))?;
                Ok((0..ty.slots() as u32).map(|i| Opnd::R(b + i)).collect())
            }
            Src::Const(c) => {
                let mut v = vec![];
                self.l.flat_const(c, ty, &mut v)?;
                Ok(v.into_iter().map(Opnd::C).collect())
            }
        }
    }
    fn one(&self, p: &mut P, ty: &Ty) -> R<Opnd> {
        let v = self.val(p, ty)?;
        if v.len() != 1 {
            return Err(format!("scalar expected for {ty:?}"));
        }
        Ok(v[0])
    }
}

impl Loader {
    fn sym(&self, s: &str) -> R<u64> {
        if let Some(a) = self.gaddr.get(s) {
            return Ok(*a);
        }
        if let Some(f) = self.fmap.get(s) {
            return Ok(FUNC_BASE + 16 * *f as u64);
        }
        if let Some(t) = self.aliases.get(s) {
            return self.sym(t);
        }
        Err(format!("symbol {s}"))
    }
    fn flat_const(&self, c: &Cst, ty: &Ty, out: &mut Vec<u64>) -> R<()> {
        match (c, ty) {
            (Cst::Zero | Cst::Undef, _) => {
                for _ in 0..ty.slots() {
                    out.push(0)
                }
            }
            (Cst::Int(v), Ty::Int(w)) => {
                if *w > 64 && (*v >> 64) != 0 && (*v as i128) >= 0 {
                    return Err("wide const".into());
                }
                out.push(*v as u64 & if *w >= 64 { u64::MAX } else { (1 << w) - 1 })
            }
            (Cst::Int(v), Ty::Ptr) => out.push(*v as u64),
            (Cst::Int(v), Ty::Float(_)) => out.push(*v as u64),
            (Cst::Sym(s, o), _) => out.push(self.sym(s)?.wrapping_add(*o as u64)),
            (Cst::Agg(v), _) => {
                for (t, c) in v {
                    self.flat_const(c, t, out)?
                }
            }
            (Cst::Bytes(b), _) => out.extend(b.iter().map(|x| *x as u64)),
            _ => return Err(format!("const {c:?} of {ty:?}")),
        }
        Ok(())
    }
    fn write_const(&self, c: &Cst, ty: &Ty, mem: &mut [u8]) -> R<()> {
        match (c, ty) {
            (Cst::Zero | Cst::Undef, _) => {}
            (Cst::Int(v), _) => {
                let n = ty.size() as usize;
                mem[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            (Cst::Sym(s, o), _) => {
                // a missing external symbol reads as a null address
                let a = self.sym(s).map(|a| a.wrapping_add(*o as u64)).unwrap_or(0);
                mem[..8].copy_from_slice(&a.to_le_bytes());
            }
            (Cst::Bytes(b), _) => mem[..b.len()].copy_from_slice(b),
            (Cst::Agg(v), _) => {
                let packed = matches!(ty, Ty::Struct(_, true));
                let mut off = 0u64;
                for (t, c) in v {
                    if !packed {
                        off = off.div_ceil(t.align()) * t.align();
                    }
                    self.write_const(c, t, &mut mem[off as usize..])?;
                    off += t.size();
                }
            }
        }
        Ok(())
    }
}

fn join_lines(text: &str) -> Vec<String> {
    // a `switch` and an `invoke` span several lines
    let mut out: Vec<String> = vec![];
    let mut it = text.lines();
    while let Some(l) = it.next() {
        let t = l.trim_start();
        if t.starts_with("switch ") && t.trim_end().ends_with('[') {
            let mut s = l.to_string();
            for m in it.by_ref() {
                s.push(' ');
                s.push_str(m.trim());
                if m.trim_start().starts_with(']') {
                    break;
                }
            }
            out.push(s);
        } else if t.starts_with("to label ") && !out.is_empty() {
            let last = out.last_mut().unwrap();
            last.push(' ');
            last.push_str(t);
        } else {
            out.push(l.to_string());
        }
    }
    out
}

fn header(l: &str) -> String {
    l.to_string()
}

struct Dbg {
    loc: HashMap<u32, (u32, u32, Option<u32>)>, // line, scope, inlinedAt
    scope_file: HashMap<u32, u32>,
    scope_parent: HashMap<u32, u32>,
    files: HashMap<u32, String>,
}

fn meta_field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    let i = s.find(&format!("{k}: "))?;
    let r = &s[i + k.len() + 2..];
    if let Some(q) = r.strip_prefix('"') {
        return q.split('"').next();
    }
    let e = r.find([',', ')']).unwrap_or(r.len());
    Some(&r[..e])
}

fn parse_dbg(lines: &[String]) -> Dbg {
    let mut d = Dbg {
        loc: HashMap::new(),
        scope_file: HashMap::new(),
        scope_parent: HashMap::new(),
        files: HashMap::new(),
    };
    for l in lines {
        if !l.starts_with('!') {
            continue;
        }
        let Some((id, rest)) = l[1..].split_once(" = ") else {
            continue;
        };
        let Ok(id) = id.parse::<u32>() else { continue };
        let rest = rest.strip_prefix("distinct ").unwrap_or(rest);
        let r = |k: &str| -> Option<u32> { meta_field(rest, k)?.strip_prefix('!')?.parse().ok() };
        if rest.starts_with("!DILocation(") {
            let line = meta_field(rest, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
            if let Some(s) = r("scope") {
                d.loc.insert(id, (line, s, r("inlinedAt")));
            }
        } else if rest.starts_with("!DIFile(") {
            let f = meta_field(rest, "filename").unwrap_or("");
            let dir = meta_field(rest, "directory").unwrap_or("");
            let p = if f.starts_with('/') {
                f.to_string()
            } else {
                format!("{dir}/{f}")
            };
            d.files.insert(id, p);
        } else if rest.starts_with("!DISubprogram(") || rest.starts_with("!DILexicalBlock") {
            if let Some(f) = r("file") {
                d.scope_file.insert(id, f);
            }
            if let Some(s) = r("scope") {
                d.scope_parent.insert(id, s);
            }
        }
    }
    d
}

fn intrinsic(name: &str) -> Option<Option<Intr>> {
    let n = name.strip_prefix("llvm.")?;
    Some(Some(match () {
        _ if n.starts_with("lifetime")
            || n.starts_with("assume")
            || n.starts_with("experimental.noalias")
            || n.starts_with("dbg.")
            || n.starts_with("invariant")
            || n.starts_with("sideeffect")
            || n.starts_with("prefetch")
            || n.starts_with("donothing") =>
        {
            return Some(None)
        }
        _ if n.starts_with("memcpy") || n.starts_with("memmove") => Intr::Memcpy,
        _ if n.starts_with("memset") => Intr::Memset,
        _ if n.starts_with("umax") => Intr::UMax,
        _ if n.starts_with("umin") => Intr::UMin,
        _ if n.starts_with("smax") => Intr::SMax,
        _ if n.starts_with("smin") => Intr::SMin,
        _ if n.starts_with("ctlz") => Intr::Ctlz,
        _ if n.starts_with("cttz") => Intr::Cttz,
        _ if n.starts_with("ctpop") => Intr::Ctpop,
        _ if n.starts_with("is.constant") => Intr::IsConst,
        _ if n.starts_with("bswap") => Intr::Bswap,
        _ if n.starts_with("bitreverse") => Intr::Bitrev,
        _ if n.starts_with("abs") => Intr::Abs,
        _ if n.starts_with("fshl") => Intr::Fshl,
        _ if n.starts_with("fshr") => Intr::Fshr,
        _ if n.starts_with("uadd.with") => Intr::UAddO,
        _ if n.starts_with("usub.with") => Intr::USubO,
        _ if n.starts_with("umul.with") => Intr::UMulO,
        _ if n.starts_with("sadd.with") => Intr::SAddO,
        _ if n.starts_with("ssub.with") => Intr::SSubO,
        _ if n.starts_with("smul.with") => Intr::SMulO,
        _ if n.starts_with("uadd.sat") => Intr::UAddSat,
        _ if n.starts_with("usub.sat") => Intr::USubSat,
        _ if n.starts_with("sadd.sat") => Intr::SAddSat,
        _ if n.starts_with("ssub.sat") => Intr::SSubSat,
        _ if n.starts_with("ucmp") => Intr::UCmp,
        _ if n.starts_with("scmp") => Intr::SCmp,
        _ if n.starts_with("expect") || n.starts_with("threadlocal.address") => Intr::Expect,
        _ if n.starts_with("trap") || n.starts_with("ubsantrap") || n.starts_with("debugtrap") => Intr::Trap,
        _ => return None,
    }))
}

pub fn load(text: &str) -> R<Program> {
    let lines = join_lines(text);
    let dbg = parse_dbg(&lines);
    let mut ld = Loader {
        named: HashMap::new(),
        gaddr: HashMap::new(),
        fmap: HashMap::new(),
        aliases: HashMap::new(),
    };
    let mut noret_attr: HashMap<String, bool> = HashMap::new();
    // pass 1: types, attributes, function and global names
    let mut glines: Vec<(String, Vec<T>)> = vec![];
    let mut flines: Vec<(usize, usize, Vec<T>)> = vec![]; // (start,end,header)
    let mut decls: Vec<Vec<T>> = vec![];
    let mut tylines: Vec<(String, Vec<T>)> = vec![];
    let mut k = 0;
    while k < lines.len() {
        let l = &lines[k];
        if l.starts_with('%') {
            if let Some((n, rest)) = l.split_once(" = type ") {
                let mut t = vec![];
                lex(rest, &mut t);
                let mut nm = vec![];
                lex(n, &mut nm);
                if let T::Local(n) = &nm[0] {
                    tylines.push((n.clone(), t));
                }
            }
        } else if l.starts_with("attributes #") {
            let id = l["attributes ".len()..].split(' ').next().unwrap().to_string();
            noret_attr.insert(id, l.split_whitespace().any(|w| w == "noreturn"));
        } else if l.starts_with('@') {
            let mut t = vec![];
            lex(l, &mut t);
            if let T::Global(n) = &t[0] {
                let n = n.clone();
                glines.push((n, t));
            }
        } else if l.starts_with("define ") || l.starts_with("declare ") {
            let mut t = vec![];
            lex(&header(l), &mut t);
            if l.starts_with("define ") {
                let st = k + 1;
                while lines[k] != "}" {
                    k += 1;
                }
                flines.push((st, k, t));
            } else {
                decls.push(t);
            }
        }
        k += 1;
    }
    // named types may refer to later ones
    loop {
        let before = tylines.len();
        tylines.retain(|(n, t)| {
            let mut p = P { t, i: 0 };
            match p.ty(&ld.named) {
                Ok(ty) => {
                    ld.named.insert(n.clone(), ty);
                    false
                }
                Err(_) => true,
            }
        });
        if tylines.len() == before {
            break;
        }
    }
    let mut funcs: Vec<Func> = vec![];
    let fname = |t: &[T]| -> Option<(String, usize)> {
        t.iter().enumerate().find_map(|(i, x)| match x {
            T::Global(n) => Some((n.clone(), i)),
            _ => None,
        })
    };
    for (t, def) in flines
        .iter()
        .map(|f| (&f.2, true))
        .chain(decls.iter().map(|d| (d, false)))
    {
        let (n, gi) = fname(t).ok_or("function name")?;
        if ld.fmap.contains_key(&n) {
            continue;
        }
        let id = funcs.len() as u32;
        ld.fmap.insert(n.clone(), id);
        let noret = t[gi..].iter().any(|x| match x {
            T::Word(w) => w == "noreturn" || (w.starts_with('#') && noret_attr.get(w) == Some(&true)),
            _ => false,
        });
        funcs.push(Func {
            name: n,
            defined: def,
            noreturn: noret,
            addr: FUNC_BASE + 16 * id as u64,
            ..Default::default()
        });
    }
    // globals: layout, then contents
    let mut addr = GLOB_BASE;
    let mut ginit = vec![];
    for (n, t) in &glines {
        let mut p = P { t, i: 2 };
        // linkage words up to the type
        let mut is_alias = false;
        let mut is_ext = false;
        loop {
            match p.peek() {
                Some(T::Word(w)) => {
                    let w = w.as_str();
                    if w == "global" || w == "constant" {
                        p.i += 1;
                        break;
                    }
                    if w == "alias" {
                        is_alias = true;
                        p.i += 1;
                        break;
                    }
                    if w == "external" || w == "extern_weak" {
                        is_ext = true;
                    }
                    p.i += 1;
                    if p.peek() == Some(&T::P('(')) {
                        p.skip_group()?;
                    }
                }
                _ => break,
            }
        }
        let ty = p.ty(&ld.named).map_err(|e| format!("global {n}: {e}"))?;
        if is_alias {
            p.expect(',')?;
            p.ty(&ld.named)?;
            if let T::Global(g) = p.next()? {
                ld.aliases.insert(n.clone(), g.clone());
            }
            continue;
        }
        let al = ty.align().max(16);
        addr = addr.div_ceil(al) * al;
        ld.gaddr.insert(n.clone(), addr);
        let size = ty.size().max(1);
        if !is_ext {
            ginit.push((addr, ty, p.i, t));
        }
        addr += size + 16;
    }
    let mut mem = vec![0u8; (addr - GLOB_BASE) as usize + 64];
    for (a, ty, i, t) in &ginit {
        let mut p = P { t, i: *i };
        let c = p.cst(ty, &ld.named)?;
        let o = (*a - GLOB_BASE) as usize;
        ld.write_const(&c, ty, &mut mem[o..])?;
    }
    // function bodies
    let mut line_ids: HashMap<(String, u32), u32> = HashMap::new();
    let mut files: Vec<String> = vec![];
    let mut file_ids: HashMap<String, u32> = HashMap::new();
    let mut line_tab: Vec<(u32, u32)> = vec![(u32::MAX, 0)];
    let mut loc_cache: HashMap<u32, u32> = HashMap::new();
    for (st, en, h) in &flines {
        let (n, gi) = fname(h).unwrap();
        let id = ld.fmap[&n] as usize;
        let mut lineof = |loc: u32| -> u32 {
            if let Some(x) = loc_cache.get(&loc) {
                return *x;
            }
            // innermost frame in the repository under check
            let mut cur = Some(loc);
            let mut best = 0;
            while let Some(c) = cur {
                let Some((line, scope, inl)) = dbg.loc.get(&c) else { break };
                let mut s = *scope;
                let f = loop {
                    if let Some(f) = dbg.scope_file.get(&s) {
                        break dbg.files.get(f);
                    }
                    match dbg.scope_parent.get(&s) {
                        Some(p) => s = *p,
                        None => break None,
                    }
                };
                if let Some(f) = f {
                    if f.starts_with("/repo/src") && *line > 0 {
                        let key = (f.clone(), *line);
                        let nl = line_tab.len() as u32;
                        let lid = *line_ids.entry(key).or_insert(nl);
                        if lid == nl {
                            let nf = files.len() as u32;
                            let fid = *file_ids.entry(f.clone()).or_insert(nf);
                            if fid == nf {
                                files.push(f.clone());
                            }
                            line_tab.push((fid, *line));
                        }
                        best = lid;
                        break;
                    }
                }
                cur = *inl;
            }
            loc_cache.insert(loc, best);
            best
        };
        let f = parse_fn(&ld, h, gi, &lines[*st..*en], &funcs, &noret_attr, &mut lineof)
            .map_err(|e| format!("{n}: {e}"))?;
        let tgt = &mut funcs[id];
        tgt.code = f.code;
        tgt.lines = f.lines;
        tgt.nregs = f.nregs;
        tgt.nargs = f.nargs;
        tgt.param_slots = f.param_slots;
    }
    Ok(Program {
        funcs,
        fmap: ld.fmap,
        globals_base: GLOB_BASE,
        globals_mem: mem,
        files,
        lines: line_tab,
    })
}

fn parse_fn(
    ld: &Loader,
    h: &[T],
    gi: usize,
    body: &[String],
    funcs: &[Func],
    _noret: &HashMap<String, bool>,
    lineof: &mut dyn FnMut(u32) -> u32,
) -> R<Func> {
    let mut cx = FnCtx {
        l: ld,
        regs: HashMap::new(),
        nregs: 0,
    };
    // parameters
    let mut p = P { t: h, i: gi + 1 };
    p.expect('(')?;
    let mut anon = 0;
    while !p.eat(')') {
        if p.eat('.') {
            p.eat('.');
            p.eat('.');
            continue;
        }
        if let Some(T::Word(w)) = p.peek() {
            if w == "..." {
                p.i += 1;
                continue;
            }
        }
        let ty = p.ty(&ld.named)?;
        p.skip_attrs()?;
        match p.peek() {
            Some(T::Local(n)) => {
                p.i += 1;
                cx.alloc(n, &ty);
            }
            _ => {
                cx.alloc(&anon.to_string(), &ty);
            }
        }
        anon += 1;
        p.eat(',');
    }
    let nargs = cx.nregs;
    // tokenise; blocks
    struct Ins {
        t: Vec<T>,
        line: u32,
    }
    let mut blocks: Vec<(String, Vec<Ins>)> = vec![];
    for l in body {
        let tr = l.trim_end();
        if tr.is_empty() || tr.trim_start().starts_with(';') {
            continue;
        }
        if !tr.starts_with(' ') {
            // label
            let lab = tr.split(';').next().unwrap().trim_end();
            if let Some(lab) = lab.strip_suffix(':') {
                blocks.push((lab.trim_matches('"').to_string(), vec![]));
                continue;
            }
        }
        if tr.trim_start().starts_with("#dbg_") {
            continue;
        }
        if blocks.is_empty() {
            // unnamed entry block takes the next number
            blocks.push((anon.to_string(), vec![]));
        }
        let mut t = vec![];
        lex(tr, &mut t);
        let mut line = 0;
        for w in 0..t.len().saturating_sub(1) {
            if let (T::Meta(a), T::Meta(b)) = (&t[w], &t[w + 1]) {
                if a == "dbg" {
                    if let Ok(x) = b.parse() {
                        line = lineof(x);
                    }
                }
            }
        }
        blocks.last_mut().unwrap().1.push(Ins { t, line });
    }
    // pass A: result registers (types first, so forward references resolve)
    for (_, ins) in &blocks {
        for i in ins {
            if let (Some(T::Local(n)), Some(T::P('='))) = (i.t.first(), i.t.get(1)) {
                let ty = result_ty(&i.t[2..], ld, funcs, &cx)?;
                cx.alloc(n, &ty);
            }
        }
    }
    // pass B: code
    let mut code: Vec<Op> = vec![];
    let mut lines: Vec<u32> = vec![];
    let mut starts: HashMap<String, u32> = HashMap::new();
    // phis per block: (dst, ty, [(src, pred)])
    struct Phi {
        dst: u32,
        ty: Ty,
        src: Vec<(Src, String)>,
    }
    let mut phis: HashMap<String, Vec<Phi>> = HashMap::new();
    for (lab, ins) in &blocks {
        for i in ins {
            let t = &i.t;
            if t.len() > 3 && t[2] == T::Word("phi".into()) {
                let T::Local(n) = &t[0] else { return Err("phi".into()) };
                let mut p = P { t, i: 3 };
                let ty = p.ty(&ld.named)?;
                let mut src = vec![];
                loop {
                    p.expect('[')?;
                    let s = cx.src(&mut p, &ty)?;
                    p.expect(',')?;
                    let T::Local(b) = p.next()? else {
                        return Err("phi pred".into());
                    };
                    p.expect(']')?;
                    src.push((s, b.clone()));
                    if !p.eat(',') {
                        break;
                    }
                    if !matches!(p.peek(), Some(T::P('['))) {
                        break;
                    }
                }
                let dst = cx.regs[n].0;
                phis.entry(lab.clone()).or_default().push(Phi { dst, ty, src });
            }
        }
    }
    let mut fixups: Vec<(usize, Vec<String>)> = vec![];
    for (lab, ins) in &blocks {
        starts.insert(lab.clone(), code.len() as u32);
        let mk_edge = |cx: &FnCtx, to: &str| -> R<Edge> {
            let mut moves = vec![];
            if let Some(ps) = phis.get(to) {
                for ph in ps {
                    let s = ph
                        .src
                        .iter()
                        .find(|x| x.1 == *lab)
                        .ok_or(format!("phi edge {lab}->{to}"))?;
                    let v = cx.resolve(&s.0, &ph.ty)?;
                    for (k, o) in v.into_iter().enumerate() {
                        moves.push((ph.dst + k as u32, o));
                    }
                }
            }
            Ok(Edge {
                target: 0,
                moves: moves.into(),
            })
        };
        for i in ins {
            let before = code.len();
            let mut labs: Vec<String> = vec![];
            let r = decode(&mut cx, ld, funcs, &i.t, &mut code, &mut labs, &mk_edge);
            if let Err(e) = r {
                code.truncate(before);
                labs.clear();
                let txt: String = format!("{e}: {:?}", i.t.iter().take(8).collect::<Vec<_>>());
                code.push(Op::Bad(txt.into()));
            }
            if !labs.is_empty() {
                fixups.push((code.len() - 1, labs));
            }
            while lines.len() < code.len() {
                lines.push(i.line);
            }
        }
    }
    for (at, labs) in fixups {
        let tg = |l: &String| starts.get(l).copied().ok_or(format!("label {l}"));
        match &mut code[at] {
            Op::Br(e) => e.target = tg(&labs[0])?,
            Op::CondBr(_, e) => {
                e.0.target = tg(&labs[0])?;
                e.1.target = tg(&labs[1])?;
            }
            Op::Switch(_, _, b) => {
                b.1.target = tg(&labs[0])?;
                for (k, l) in labs[1..].iter().enumerate() {
                    b.0[k].1.target = tg(l)?;
                }
            }
            _ => {}
        }
    }
    Ok(Func {
        nregs: cx.nregs,
        nargs,
        param_slots: nargs,
        code,
        lines,
        ..Default::default()
    })
}

const CASTS: &[&str] = &[
    "zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "ptrtoaddr", "uitofp", "sitofp", "fptoui",
    "fptosi", "fpext", "fptrunc", "addrspacecast",
];

fn skip_flags(p: &mut P) {
    while let Some(T::Word(w)) = p.peek() {
        match w.as_str() {
            "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile"
            | "atomic" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "tail"
            | "musttail" | "notail" => p.i += 1,
            _ => break,
        }
    }
}

fn sub_ty(t: &Ty, i: usize) -> Ty {
    match t {
        Ty::Struct(ts, _) => ts[i].clone(),
        Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
        t => t.clone(),
    }
}
fn slot_off(t: &Ty, i: usize) -> usize {
    match t {
        Ty::Struct(ts, _) => ts[..i].iter().map(|t| t.slots()).sum(),
        Ty::Arr(_, t) | Ty::Vec(_, t) => t.slots() * i,
        _ => 0,
    }
}

/// `call`/`invoke` header: returns (ret type, index of the callee token)
fn call_head(p: &mut P, ld: &Loader) -> R<Ty> {
    skip_flags(p);
    p.skip_attrs()?;
    let ty = p.ty(&ld.named)?;
    // a function type may follow: `(...)`
    if p.peek() == Some(&T::P('(')) {
        p.skip_group()?;
    }
    Ok(ty)
}

fn result_ty(t: &[T], ld: &Loader, _funcs: &[Func], cx: &FnCtx) -> R<Ty> {
    let mut p = P { t, i: 0 };
    skip_flags(&mut p);
    let op = p.word()?;
    skip_flags(&mut p);
    let nm = &ld.named;
    Ok(match op {
        "alloca" | "getelementptr" | "inttoptr" => {
            if op == "inttoptr" || op == "alloca" {
                return Ok(Ty::Ptr);
            }
            // vector geps are not produced by rustc here
            Ty::Ptr
        }
        "load" | "phi" | "freeze" => p.ty(nm)?,
        "icmp" | "fcmp" => {
            skip_flags(&mut p);
            p.word()?;
            match p.ty(nm)? {
                Ty::Vec(n, _) => Ty::Vec(n, Box::new(Ty::Int(1))),
                _ => Ty::Int(1),
            }
        }
        "select" => {
            let ct = p.ty(nm)?;
            cx.src(&mut p, &ct)?;
            p.expect(',')?;
            p.ty(nm)?
        }
        _ if CASTS.contains(&op) => {
            let it = p.ty(nm)?;
            cx.src(&mut p, &it)?;
            p.word()?;
            p.ty(nm)?
        }
        "extractvalue" => {
            let mut ty = p.ty(nm)?;
            cx.src(&mut p, &ty)?;
            while p.eat(',') {
                match p.peek() {
                    Some(T::Int(i)) => {
                        ty = sub_ty(&ty, *i as usize);
                        p.i += 1;
                    }
                    _ => break,
                }
            }
            ty
        }
        "extractelement" => match p.ty(nm)? {
            Ty::Vec(_, t) => *t,
            t => t,
        },
        "insertvalue" | "insertelement" => p.ty(nm)?,
        "shufflevector" => {
            let ty = p.ty(nm)?;
            cx.src(&mut p, &ty)?;
            p.expect(',')?;
            let t2 = p.ty(nm)?;
            cx.src(&mut p, &t2)?;
            p.expect(',')?;
            let m = p.ty(nm)?;
            match (ty, m) {
                (Ty::Vec(_, e), Ty::Vec(n, _)) => Ty::Vec(n, e),
                (t, _) => t,
            }
        }
        "call" | "invoke" => call_head(&mut p, ld)?,
        "landingpad" => p.ty(nm)?,
        "cmpxchg" | "atomicrmw" => Ty::Struct(vec![Ty::Int(64), Ty::Int(1)], false),
        _ => p.ty(nm)?,
    })
}

fn fintrinsic(n: &str) -> Option<Flt> {
    let n = n.strip_prefix("llvm.")?;
    let k = match n.split('.').next()? {
        "ceil" => Flt::Ceil,
        "floor" => Flt::Floor,
        "trunc" => Flt::Trunc,
        "round" => Flt::Round,
        "roundeven" | "rint" | "nearbyint" => Flt::Even,
        "fabs" => Flt::Abs,
        "sqrt" => Flt::Sqrt,
        "maxnum" | "maximumnum" => Flt::Max,
        "minnum" | "minimumnum" => Flt::Min,
        "fptoui" => Flt::ToU,
        "fptosi" => Flt::ToS,
        _ => return None,
    };
    Some(k)
}

fn decode(
    cx: &mut FnCtx,
    ld: &Loader,
    funcs: &[Func],
    t: &[T],
    code: &mut Vec<Op>,
    labs: &mut Vec<String>,
    mk_edge: &dyn Fn(&FnCtx, &str) -> R<Edge>,
) -> R<()> {
    let nm = &ld.named;
    let mut p = P { t, i: 0 };
    let mut dst = 0u32;
    let mut dty = Ty::Void;
    if let (Some(T::Local(n)), Some(T::P('='))) = (t.first(), t.get(1)) {
        let r = &cx.regs[n];
        dst = r.0;
        dty = r.1.clone();
        p.i = 2;
    }
    skip_flags(&mut p);
    let op = p.word()?;
    if dty.has_big() && op != "call" && op != "phi" {
        return Err("wide integer".into());
    }
    skip_flags(&mut p);
    let label = |p: &mut P| -> R<String> {
        if p.word()? != "label" {
            return Err("label".into());
        }
        match p.next()? {
            T::Local(n) => Ok(n.clone()),
            x => Err(format!("label {x:?}")),
        }
    };
    let sw = |t: &Ty| -> R<u8> {
        match t {
            Ty::Int(w) | Ty::Float(w) if *w <= 64 => Ok(*w as u8),
            Ty::Ptr => Ok(64),
            Ty::Vec(_, t) => match **t {
                Ty::Int(w) | Ty::Float(w) if w <= 64 => Ok(w as u8),
                Ty::Ptr => Ok(64),
                _ => Err(format!("width {t:?}")),
            },
            _ => Err(format!("width {t:?}")),
        }
    };
    match op {
        "phi" => {}
        "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr"
        | "ashr" => {
            let b = match op {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "urem" => Bin::URem,
                "sdiv" => Bin::SDiv,
                "srem" => Bin::SRem,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                _ => Bin::AShr,
            };
            let ty = p.ty(nm)?;
            let w = sw(&ty)?;
            let x = cx.val(&mut p, &ty)?;
            p.expect(',')?;
            let y = cx.val(&mut p, &ty)?;
            for (k, (x, y)) in x.into_iter().zip(y).enumerate() {
                code.push(Op::Bin(b, w, dst + k as u32, x, y));
            }
        }
        "icmp" => {
            let pr = match p.word()? {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                x => return Err(format!("icmp {x}")),
            };
            let ty = p.ty(nm)?;
            let w = sw(&ty)?;
            let x = cx.val(&mut p, &ty)?;
            p.expect(',')?;
            let y = cx.val(&mut p, &ty)?;
            for (k, (x, y)) in x.into_iter().zip(y).enumerate() {
                code.push(Op::Icmp(pr, w, dst + k as u32, x, y));
            }
        }
        "freeze" => {
            let ty = p.ty(nm)?;
            let x = cx.val(&mut p, &ty)?;
            for (k, x) in x.into_iter().enumerate() {
                code.push(Op::Mov(dst + k as u32, x));
            }
        }
        "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
            let ty = p.ty(nm)?;
            let x = cx.val(&mut p, &ty)?;
            let (ws, wd) = (sw(&ty)?, sw(&dty)?);
            let c = match op {
                "zext" => Cast::Zext,
                "sext" => Cast::Sext,
                "trunc" => Cast::Trunc,
                _ if wd > ws => Cast::Zext,
                _ => Cast::Trunc,
            };
            for (k, x) in x.into_iter().enumerate() {
                if ws == wd {
                    code.push(Op::Mov(dst + k as u32, x));
                } else {
                    code.push(Op::Cast(c, ws, wd, dst + k as u32, x));
                }
            }
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" => {
            let k = match op {
                "fadd" => Flt::Add,
                "fsub" => Flt::Sub,
                "fmul" => Flt::Mul,
                "fdiv" => Flt::Div,
                "frem" => Flt::Rem,
                _ => Flt::Neg,
            };
            let ty = p.ty(nm)?;
            let w = sw(&ty)?;
            let x = cx.val(&mut p, &ty)?;
            let y = if k == Flt::Neg {
                x.clone()
            } else {
                p.expect(',')?;
                cx.val(&mut p, &ty)?
            };
            for (i, (x, y)) in x.into_iter().zip(y).enumerate() {
                code.push(Op::Flt(k, w, w, dst + i as u32, [x, y].into()));
            }
        }
        "fcmp" => {
            let bits = match p.word()? {
                "false" => 0,
                "oeq" => 1,
                "ogt" => 2,
                "oge" => 3,
                "olt" => 4,
                "ole" => 5,
                "one" => 6,
                "ord" => 7,
                "uno" => 8,
                "ueq" => 9,
                "ugt" => 10,
                "uge" => 11,
                "ult" => 12,
                "ule" => 13,
                "une" => 14,
                "true" => 15,
                x => return Err(format!("fcmp {x}")),
            };
            let ty = p.ty(nm)?;
            let w = sw(&ty)?;
            let x = cx.val(&mut p, &ty)?;
            p.expect(',')?;
            let y = cx.val(&mut p, &ty)?;
            for (i, (x, y)) in x.into_iter().zip(y).enumerate() {
                code.push(Op::Flt(Flt::Cmp(bits), w, 1, dst + i as u32, [x, y].into()));
            }
        }
        "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
            let k = match op {
                "uitofp" => Flt::FromU,
                "sitofp" => Flt::FromS,
                "fptoui" => Flt::ToU,
                "fptosi" => Flt::ToS,
                _ => Flt::Conv,
            };
            let ty = p.ty(nm)?;
            let x = cx.val(&mut p, &ty)?;
            let (ws, wd) = (sw(&ty)?, sw(&dty)?);
            for (i, x) in x.into_iter().enumerate() {
                code.push(Op::Flt(k, ws, wd, dst + i as u32, [x].into()));
            }
        }
        "bitcast" => {
            let ty = p.ty(nm)?;
            let x = cx.val(&mut p, &ty)?;
            let (ws, wd) = (sw(&ty)?, sw(&dty)?);
            code.push(Op::Rebits(dst, wd, dty.slots() as u32, ws, x.into()));
        }
        "select" => {
            let ct = p.ty(nm)?;
            let c = cx.val(&mut p, &ct)?;
            p.expect(',')?;
            let ty = p.ty(nm)?;
            let a = cx.val(&mut p, &ty)?;
            p.expect(',')?;
            p.ty(nm)?;
            let b = cx.val(&mut p, &ty)?;
            let mut fl = vec![];
            ty.flat(0, &mut fl);
            for k in 0..a.len() {
                let cc = if c.len() == 1 { c[0] } else { c[k] };
                code.push(Op::Select(dst + k as u32, cc, a[k], b[k], fl[k].1 as u8));
            }
        }
        "load" => {
            let ty = p.ty(nm)?;
            p.expect(',')?;
            let pt = p.ty(nm)?;
            let a = cx.one(&mut p, &pt)?;
            let mut fl = vec![];
            ty.flat(0, &mut fl);
            if let Ty::Vec(_, e) = &ty {
                if matches!(**e, Ty::Int(w) if w % 8 != 0) {
                    return Err("sub-byte vector load".into());
                }
            }
            for (k, (off, w)) in fl.into_iter().enumerate() {
                code.push(Op::Load(dst + k as u32, a, off as u32, w as u8));
            }
        }
        "store" => {
            let ty = p.ty(nm)?;
            let v = cx.val(&mut p, &ty)?;
            p.expect(',')?;
            let pt = p.ty(nm)?;
            let a = cx.one(&mut p, &pt)?;
            if ty.has_big() {
                return Err("wide store".into());
            }
            if let Ty::Vec(_, e) = &ty {
                if let Ty::Int(w) = **e {
                    if w % 8 != 0 {
                        // sub-byte lanes are stored packed
                        let bits = w as usize * v.len();
                        if bits % 8 != 0 {
                            return Err("sub-byte vector store".into());
                        }
                        let (t, n) = (cx.nregs, (bits / 8) as u32);
                        cx.nregs += n;
                        code.push(Op::Rebits(t, 8, n, w as u8, v.into()));
                        for k in 0..n {
                            code.push(Op::Store(Opnd::R(t + k), a, k, 8));
                        }
                        return Ok(());
                    }
                }
            }
            let mut fl = vec![];
            ty.flat(0, &mut fl);
            for (v, (off, w)) in v.into_iter().zip(fl) {
                code.push(Op::Store(v, a, off as u32, w as u8));
            }
        }
        "alloca" => {
            let ty = p.ty(nm)?;
            let mut n = 1;
            let mut al = ty.align();
            while p.eat(',') {
                if p.eat_word("align") {
                    al = al.max(p.int()? as u64);
                } else {
                    let t = p.ty(nm)?;
                    match cx.one(&mut p, &t)? {
                        Opnd::C(v) => n = v,
                        _ => return Err("vla".into()),
                    }
                }
            }
            code.push(Op::Alloca(dst, (ty.size() * n) as u32, al as u32));
        }
        "getelementptr" => {
            if p.eat_word("inrange") {
                p.skip_group()?;
            }
            let mut cur = p.ty(nm)?;
            p.expect(',')?;
            let bt = p.ty(nm)?;
            let base = cx.one(&mut p, &bt)?;
            let mut k = 0i64;
            let mut idx = vec![];
            let mut first = true;
            while p.eat(',') {
                let save = p.i;
                let it = match p.ty(nm) {
                    Ok(t) => t,
                    Err(_) => {
                        p.i = save;
                        break;
                    }
                };
                let w = sw(&it)?;
                let ix = cx.one(&mut p, &it)?;
                let scale;
                if first {
                    scale = cur.size() as i64;
                    first = false;
                } else {
                    match &cur {
                        Ty::Struct(..) => {
                            let Opnd::C(i) = ix else {
                                return Err("struct gep".into());
                            };
                            k += cur.field_off(i as usize) as i64;
                            cur = sub_ty(&cur, i as usize);
                            continue;
                        }
                        _ => {
                            cur = sub_ty(&cur, 0);
                            scale = cur.size() as i64;
                        }
                    }
                }
                match ix {
                    Opnd::C(v) => k = k.wrapping_add(crate::expr::sval(v, w).wrapping_mul(scale)),
                    r => idx.push((r, scale, w)),
                }
            }
            code.push(Op::Gep(dst, base, k, idx.into()));
        }
        "br" => {
            if let Some(T::Word(w)) = p.peek() {
                if w == "label" {
                    let l = label(&mut p)?;
                    code.push(Op::Br(Box::new(mk_edge(cx, &l)?)));
                    labs.push(l);
                    return Ok(());
                }
            }
            let ty = p.ty(nm)?;
            let c = cx.one(&mut p, &ty)?;
            p.expect(',')?;
            let a = label(&mut p)?;
            p.expect(',')?;
            let b = label(&mut p)?;
            code.push(Op::CondBr(c, Box::new((mk_edge(cx, &a)?, mk_edge(cx, &b)?))));
            labs.push(a);
            labs.push(b);
        }
        "switch" => {
            let ty = p.ty(nm)?;
            let w = sw(&ty)?;
            let c = cx.one(&mut p, &ty)?;
            p.expect(',')?;
            let d = label(&mut p)?;
            p.expect('[')?;
            let de = mk_edge(cx, &d)?;
            labs.push(d);
            let mut cases = vec![];
            while !p.eat(']') {
                let t = p.ty(nm)?;
                let Opnd::C(v) = cx.one(&mut p, &t)? else {
                    return Err("case".into());
                };
                p.expect(',')?;
                let l = label(&mut p)?;
                cases.push((v, mk_edge(cx, &l)?));
                labs.push(l);
            }
            code.push(Op::Switch(c, w, Box::new((cases, de))));
        }
        "ret" => {
            let ty = p.ty(nm)?;
            let v = if ty == Ty::Void { vec![] } else { cx.val(&mut p, &ty)? };
            code.push(Op::Ret(v.into()));
        }
        "unreachable" => code.push(Op::Unreachable),
        "extractvalue" => {
            let ty = p.ty(nm)?;
            let v = cx.val(&mut p, &ty)?;
            let mut cur = ty;
            let mut off = 0;
            while p.eat(',') {
                match p.peek() {
                    Some(T::Int(i)) => {
                        off += slot_off(&cur, *i as usize);
                        cur = sub_ty(&cur, *i as usize);
                        p.i += 1;
                    }
                    _ => break,
                }
            }
            for k in 0..cur.slots() {
                code.push(Op::Mov(dst + k as u32, v[off + k]));
            }
        }
        "insertvalue" => {
            let ty = p.ty(nm)?;
            let mut v = cx.val(&mut p, &ty)?;
            p.expect(',')?;
            let et = p.ty(nm)?;
            let e = cx.val(&mut p, &et)?;
            let mut cur = ty;
            let mut off = 0;
            while p.eat(',') {
                match p.peek() {
                    Some(T::Int(i)) => {
                        off += slot_off(&cur, *i as usize);
                        cur = sub_ty(&cur, *i as usize);
                        p.i += 1;
                    }
                    _ => break,
                }
            }
            for (k, x) in e.into_iter().enumerate() {
                v[off + k] = x;
            }
            for (k, x) in v.into_iter().enumerate() {
                code.push(Op::Mov(dst + k as u32, x));
            }
        }
        "extractelement" | "insertelement" => {
            let ty = p.ty(nm)?;
            let mut v = cx.val(&mut p, &ty)?;
            p.expect(',')?;
            let t2 = p.ty(nm)?;
            let a = cx.one(&mut p, &t2)?;
            if op == "extractelement" {
                let Opnd::C(i) = a else { return Err("dyn extractelement".into()) };
                code.push(Op::Mov(dst, v[i as usize]));
            } else {
                p.expect(',')?;
                let t3 = p.ty(nm)?;
                let Opnd::C(i) = cx.one(&mut p, &t3)? else {
                    return Err("dyn insertelement".into());
                };
                v[i as usize] = a;
                for (k, x) in v.into_iter().enumerate() {
                    code.push(Op::Mov(dst + k as u32, x));
                }
            }
        }
        "shufflevector" => {
            let ty = p.ty(nm)?;
            let mut v = cx.val(&mut p, &ty)?;
            p.expect(',')?;
            let t2 = p.ty(nm)?;
            v.extend(cx.val(&mut p, &t2)?);
            p.expect(',')?;
            let mt = p.ty(nm)?;
            let m = cx.val(&mut p, &mt)?;
            for (k, x) in m.into_iter().enumerate() {
                let Opnd::C(i) = x else { return Err("shuffle mask".into()) };
                code.push(Op::Mov(dst + k as u32, v[i as usize]));
            }
        }
        "call" | "invoke" => {
            let rty = call_head(&mut p, ld)?;
            let callee = match p.next()? {
                T::Global(g) => {
                    if g.starts_with("llvm.") {
                        if let Some(k) = fintrinsic(g) {
                            let mut args = vec![];
                            let mut ws = 64;
                            p.expect('(')?;
                            while !p.eat(')') {
                                let ty = p.ty(nm)?;
                                p.skip_attrs()?;
                                ws = sw(&ty)?;
                                args.push(cx.one(&mut p, &ty)?);
                                p.eat(',');
                            }
                            code.push(Op::Flt(k, ws, sw(&rty)?, dst, args.into()));
                            return Ok(());
                        }
                        match intrinsic(g) {
                            Some(None) => return Ok(()),
                            Some(Some(k)) => {
                                let mut args = vec![];
                                let mut w = 64;
                                p.expect('(')?;
                                let mut firstarg = true;
                                while !p.eat(')') {
                                    let ty = p.ty(nm)?;
                                    p.skip_attrs()?;
                                    args.push(cx.val(&mut p, &ty)?);
                                    if firstarg {
                                        w = sw(&ty)?;
                                        firstarg = false;
                                    }
                                    p.eat(',');
                                }
                                let lanes = args.first().map(|a| a.len()).unwrap_or(1);
                                if lanes > 1 {
                                    if rty.slots() != lanes {
                                        return Err(format!("vector intrinsic {g}"));
                                    }
                                    for l in 0..lanes {
                                        let a: Vec<Opnd> =
                                            args.iter().map(|a| if a.len() == lanes { a[l] } else { a[0] }).collect();
                                        code.push(Op::Intr(k, w, dst + l as u32, a.into()));
                                    }
                                } else {
                                    let a: Vec<Opnd> = args.into_iter().map(|a| a[0]).collect();
                                    code.push(Op::Intr(k, w, dst, a.into()));
                                }
                                return Ok(());
                            }
                            None => return Err(format!("intrinsic {g}")),
                        }
                    }
                    let f = ld
                        .fmap
                        .get(g)
                        .or_else(|| ld.aliases.get(g).and_then(|a| ld.fmap.get(a)))
                        .ok_or(format!("callee {g}"))?;
                    Callee::Func(*f)
                }
                T::Local(n) => Callee::Ptr(Opnd::R(cx.regs.get(n).ok_or("callee reg")?.0)),
                T::Word(w) if w == "asm" => return Err("inline asm".into()),
                x => return Err(format!("callee {x:?}")),
            };
            let mut args = vec![];
            p.expect('(')?;
            while !p.eat(')') {
                let ty = p.ty(nm)?;
                p.skip_attrs()?;
                args.extend(cx.val(&mut p, &ty)?);
                p.eat(',');
            }
            if rty.has_big() {
                return Err("wide call result".into());
            }
            code.push(Op::Call(callee, dst, rty.slots() as u32, args.into()));
            if op == "invoke" {
                // to label %ok unwind label %bad
                while !p.eat_word("to") {
                    p.next()?;
                }
                let l = label(&mut p)?;
                code.push(Op::Br(Box::new(mk_edge(cx, &l)?)));
                labs.push(l);
            }
        }
        "fence" => {}
        _ => return Err(format!("opcode {op}")),
    }
    let _ = funcs;
    Ok(())
}
