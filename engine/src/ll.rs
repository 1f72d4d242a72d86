//! Parser for the subset of textual LLVM IR that rustc produces, compiled to a compact register form.
use crate::expr::Op;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other(String),
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.bits() as u64 / 8).next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let s = (*w as u64 + 7) / 8;
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("field of scalar"),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..))
    }
    pub fn is_vec(&self) -> bool {
        matches!(self, Ty::Vec(..))
    }
}

#[derive(Clone, Debug)]
pub enum Cst {
    C(u64),
    W(u128),
    Agg(Vec<Cst>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(u64),
    K(Box<Cst>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bit,
    NoOp,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Neg,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ind(Opnd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: Op, w: u32, lanes: u32, a: Opnd, b: Opnd, d: u32 },
    FBin { op: FOp, w: u32, a: Opnd, b: Opnd, d: u32 },
    FCmp { pred: String, w: u32, a: Opnd, b: Opnd, d: u32 },
    Icmp { p: Pred, w: u32, lanes: u32, a: Opnd, b: Opnd, d: u32 },
    Cast { k: CastK, from: Ty, to: Ty, a: Opnd, d: u32 },
    Load { ty: Ty, p: Opnd, d: u32 },
    Store { ty: Ty, v: Opnd, p: Opnd },
    Gep { base: Opnd, off: u64, idx: Vec<(Opnd, u32, u64)>, d: u32 },
    Alloca { size: u64, n: Opnd, d: u32 },
    Select { ty: Ty, c: Opnd, cvec: bool, a: Opnd, b: Opnd, d: u32 },
    Call { f: Callee, args: Vec<(Ty, Opnd)>, ret: Ty, d: Option<u32>, normal: Option<u32> },
    Br(u32),
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { w: u32, v: Opnd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Opnd)>),
    Unreachable,
    Extract { a: Opnd, path: Vec<usize>, d: u32 },
    Insert { a: Opnd, v: Opnd, path: Vec<usize>, d: u32 },
    ExtElem { a: Opnd, i: Opnd, d: u32 },
    InsElem { a: Opnd, v: Opnd, i: Opnd, d: u32 },
    Shuffle { n1: usize, a: Opnd, b: Opnd, mask: Vec<i64>, d: u32 },
    Copy { a: Opnd, d: u32 },
    Rmw { op: String, w: u32, p: Opnd, v: Opnd, d: u32 },
    CmpXchg { w: u32, p: Opnd, c: Opnd, n: Opnd, d: u32 },
    Nop,
    Landing,
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub ins: Vec<I>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
    pub err: Option<String>,
}

pub struct Global {
    pub name: String,
    pub data: Vec<u8>,
    pub constant: bool,
}

pub struct Program {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gslot0: u64,
    pub next_slot: u64,
}

pub const SLOT_BITS: u32 = 26;

// ------------------------------------------------------------ tokens
#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    Loc(String),
    Glob(String),
    Num(String),
    Str(Vec<u8>),
    P(char),
    Meta(String),
    Attr(String),
    Dots,
}

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
    peeked: Option<Option<T>>,
}

fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Self {
        Lex { s: s.as_bytes(), i: 0, peeked: None }
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut v = vec![];
        while self.i < self.s.len() && self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    v.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                v.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            return String::from_utf8_lossy(&self.quoted()).into_owned();
        }
        let st = self.i;
        while self.i < self.s.len() && idc(self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn raw(&mut self) -> Option<T> {
        while self.i < self.s.len() && (self.s[self.i] as char).is_whitespace() {
            self.i += 1;
        }
        if self.i >= self.s.len() {
            return None;
        }
        let c = self.s[self.i];
        Some(match c {
            b';' => {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
                return self.raw();
            }
            b'%' => {
                self.i += 1;
                T::Loc(self.name())
            }
            b'@' => {
                self.i += 1;
                T::Glob(self.name())
            }
            b'!' => {
                self.i += 1;
                T::Meta(self.name())
            }
            b'#' => {
                self.i += 1;
                T::Attr(self.name())
            }
            b'"' => T::Str(self.quoted()),
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 1;
                T::Str(self.quoted())
            }
            b'.' if self.s[self.i..].starts_with(b"...") => {
                self.i += 3;
                T::Dots
            }
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len()
                    && (self.s[self.i].is_ascii_alphanumeric()
                        || self.s[self.i] == b'.'
                        || (self.s[self.i] == b'+' && self.s[self.i - 1] == b'e')
                        || (self.s[self.i] == b'-' && self.s[self.i - 1] == b'e'))
                {
                    self.i += 1;
                }
                T::Num(String::from_utf8_lossy(&self.s[st..self.i]).into_owned())
            }
            c if idc(c) => T::Id(self.name()),
            c => {
                self.i += 1;
                T::P(c as char)
            }
        })
    }
    fn peek(&mut self) -> Option<&T> {
        if self.peeked.is_none() {
            let t = self.raw();
            self.peeked = Some(t);
        }
        self.peeked.as_ref().unwrap().as_ref()
    }
    fn next(&mut self) -> Option<T> {
        if let Some(t) = self.peeked.take() {
            return t;
        }
        self.raw()
    }
    fn is_p(&mut self, c: char) -> bool {
        matches!(self.peek(), Some(T::P(x)) if *x == c)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            let ctx = String::from_utf8_lossy(&self.s[..self.s.len().min(200)]).into_owned();
            Err(format!("expected '{}' got {:?} in: {}", c, self.peek(), ctx))
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if matches!(self.peek(), Some(T::Id(x)) if x == s) {
            self.next();
            true
        } else {
            false
        }
    }
    fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Some(T::P('(')) => d += 1,
                Some(T::P(')')) => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                None => return,
                _ => {}
            }
        }
    }
}

type R<X> = Result<X, String>;

struct Ctx {
    gaddr: HashMap<String, u64>,
    fidx: HashMap<String, u32>,
    types: HashMap<String, Ty>,
}

fn ty(l: &mut Lex, cx: &Ctx) -> R<Ty> {
    let t = match l.next() {
        Some(T::Id(s)) => {
            if s == "void" {
                Ty::Void
            } else if s == "ptr" {
                // addrspace(..)
                if l.eat_id("addrspace") {
                    l.skip_balanced();
                }
                Ty::Ptr
            } else if s == "float" {
                Ty::F32
            } else if s == "double" {
                Ty::F64
            } else if s.starts_with('i') && s[1..].chars().all(|c| c.is_ascii_digit()) && s.len() > 1 {
                Ty::Int(s[1..].parse().unwrap())
            } else {
                Ty::Other(s)
            }
        }
        Some(T::P('[')) => {
            let n = num(l)? as u64;
            if !l.eat_id("x") {
                return Err("arr x".into());
            }
            let t = ty(l, cx)?;
            l.want(']')?;
            Ty::Arr(n, Box::new(t))
        }
        Some(T::P('{')) => {
            let mut f = vec![];
            while !l.eat_p('}') {
                f.push(ty(l, cx)?);
                l.eat_p(',');
            }
            Ty::Struct(f, false)
        }
        Some(T::P('<')) => {
            if l.is_p('{') {
                l.next();
                let mut f = vec![];
                while !l.eat_p('}') {
                    f.push(ty(l, cx)?);
                    l.eat_p(',');
                }
                l.want('>')?;
                Ty::Struct(f, true)
            } else {
                let n = num(l)? as u64;
                if !l.eat_id("x") {
                    return Err("vec x".into());
                }
                let t = ty(l, cx)?;
                l.want('>')?;
                Ty::Vec(n, Box::new(t))
            }
        }
        Some(T::Loc(n)) => cx.types.get(&n).cloned().ok_or_else(|| format!("unknown type %{}", n))?,
        x => return Err(format!("type? {:?}", x)),
    };
    Ok(t)
}

fn num(l: &mut Lex) -> R<i128> {
    match l.next() {
        Some(T::Num(s)) => s.parse::<i128>().or_else(|_| s.parse::<u128>().map(|x| x as i128)).map_err(|e| format!("{} {}", s, e)),
        x => Err(format!("number? {:?}", x)),
    }
}

fn zero(t: &Ty) -> Cst {
    match t {
        t if t.is_agg() => Cst::Agg((0..t.nfields()).map(|i| zero(&t.field(i))).collect()),
        Ty::Int(w) if *w > 64 => Cst::W(0),
        _ => Cst::C(0),
    }
}

fn mkint(w: u32, v: i128) -> Cst {
    if w > 64 {
        Cst::W((v as u128) & crate::expr::mask(w))
    } else {
        Cst::C(((v as u128) & crate::expr::mask(w)) as u64)
    }
}

fn fcst(s: &str, t: &Ty) -> R<Cst> {
    let bits = if let Some(h) = s.strip_prefix("0x") {
        let b = u64::from_str_radix(h, 16).map_err(|e| format!("{}: {}", s, e))?;
        f64::from_bits(b)
    } else {
        s.parse::<f64>().map_err(|e| format!("{}: {}", s, e))?
    };
    Ok(if *t == Ty::F32 { Cst::C((bits as f32).to_bits() as u64) } else { Cst::C(bits.to_bits()) })
}

fn constant(l: &mut Lex, t: &Ty, cx: &Ctx) -> R<Cst> {
    Ok(match l.next() {
        Some(T::Num(s)) => match t {
            Ty::Int(w) => {
                let v = s.parse::<i128>().or_else(|_| s.parse::<u128>().map(|x| x as i128)).map_err(|e| format!("{} {}", s, e))?;
                mkint(*w, v)
            }
            Ty::F32 | Ty::F64 => fcst(&s, t)?,
            _ => return Err(format!("num const for {:?}", t)),
        },
        Some(T::Id(s)) => match s.as_str() {
            "true" => Cst::C(1),
            "false" => Cst::C(0),
            "null" | "undef" | "poison" | "zeroinitializer" | "none" => zero(t),
            "splat" => {
                l.want('(')?;
                let et = ty(l, cx)?;
                let c = constant(l, &et, cx)?;
                l.want(')')?;
                Cst::Agg(vec![c; t.nfields()])
            }
            "getelementptr" => {
                while let Some(T::Id(_)) = l.peek() {
                    let id = match l.next() { Some(T::Id(x)) => x, _ => unreachable!() };
                    if id == "inrange" {
                        l.skip_balanced();
                    }
                }
                l.want('(')?;
                let bt = ty(l, cx)?;
                l.want(',')?;
                let pt = ty(l, cx)?;
                let base = cval(constant(l, &pt, cx)?)?;
                let mut off = 0u64;
                let mut cur = bt.clone();
                let mut first = true;
                while l.eat_p(',') {
                    let it = ty(l, cx)?;
                    let iv = constant(l, &it, cx)?;
                    let iv = cval(iv)?;
                    let iv = crate::expr::sext(iv as u128, it.bits()) as i64;
                    if first {
                        off = off.wrapping_add((iv as u64).wrapping_mul(bt.size()));
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                off = off.wrapping_add(cur.field_off(iv as usize));
                                cur = cur.field(iv as usize);
                            }
                            _ => {
                                let e = cur.field(0);
                                off = off.wrapping_add((iv as u64).wrapping_mul(e.size()));
                                cur = e;
                            }
                        }
                    }
                }
                l.want(')')?;
                Cst::C(base.wrapping_add(off))
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                while let Some(T::Id(_)) = l.peek() {
                    l.next();
                }
                l.want('(')?;
                let ft = ty(l, cx)?;
                let c = constant(l, &ft, cx)?;
                if !l.eat_id("to") {
                    return Err("cast to".into());
                }
                let tt = ty(l, cx)?;
                l.want(')')?;
                match (c, &tt) {
                    (Cst::C(v), tt) => mkint(tt.bits(), v as i128),
                    (c, _) => c,
                }
            }
            "add" | "sub" | "mul" | "xor" => {
                while let Some(T::Id(_)) = l.peek() {
                    l.next();
                }
                l.want('(')?;
                let t1 = ty(l, cx)?;
                let a = cval(constant(l, &t1, cx)?)?;
                l.want(',')?;
                let t2 = ty(l, cx)?;
                let b = cval(constant(l, &t2, cx)?)?;
                l.want(')')?;
                let r = match s.as_str() {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    _ => a ^ b,
                };
                mkint(t1.bits(), r as i128)
            }
            _ => return Err(format!("const id {}", s)),
        },
        Some(T::Glob(n)) => {
            if let Some(a) = cx.gaddr.get(&n) {
                Cst::C(*a)
            } else if let Some(f) = cx.fidx.get(&n) {
                Cst::C((*f as u64 + 1) << SLOT_BITS)
            } else {
                return Err(format!("unknown global @{}", n));
            }
        }
        Some(T::Str(b)) => Cst::Agg(b.into_iter().map(|x| Cst::C(x as u64)).collect()),
        Some(T::P('[')) => {
            let mut v = vec![];
            while !l.eat_p(']') {
                let et = ty(l, cx)?;
                v.push(constant(l, &et, cx)?);
                l.eat_p(',');
            }
            Cst::Agg(v)
        }
        Some(T::P('{')) => {
            let mut v = vec![];
            while !l.eat_p('}') {
                let et = ty(l, cx)?;
                v.push(constant(l, &et, cx)?);
                l.eat_p(',');
            }
            Cst::Agg(v)
        }
        Some(T::P('<')) => {
            let packed = l.eat_p('{');
            let mut v = vec![];
            loop {
                if packed && l.eat_p('}') {
                    l.want('>')?;
                    break;
                }
                if !packed && l.eat_p('>') {
                    break;
                }
                let et = ty(l, cx)?;
                v.push(constant(l, &et, cx)?);
                l.eat_p(',');
            }
            Cst::Agg(v)
        }
        x => return Err(format!("constant? {:?}", x)),
    })
}

fn cval(c: Cst) -> R<u64> {
    match c {
        Cst::C(v) => Ok(v),
        Cst::W(v) => Ok(v as u64),
        _ => Err("scalar const expected".into()),
    }
}

pub fn write_cst(t: &Ty, c: &Cst, out: &mut [u8]) {
    match (t, c) {
        (_, Cst::Agg(v)) => {
            for (i, x) in v.iter().enumerate() {
                let o = t.field_off(i) as usize;
                let ft = t.field(i);
                let n = ft.size() as usize;
                write_cst(&ft, x, &mut out[o..o + n]);
            }
        }
        (_, Cst::C(v)) => {
            let n = t.store_size() as usize;
            for i in 0..n.min(8) {
                out[i] = (v >> (8 * i)) as u8;
            }
        }
        (_, Cst::W(v)) => {
            let n = t.store_size() as usize;
            for i in 0..n {
                out[i] = (v >> (8 * i)) as u8;
            }
        }
    }
}

const LINKAGE: &[&str] = &[
    "private", "internal", "external", "weak", "weak_odr", "linkonce", "linkonce_odr", "available_externally", "extern_weak", "common",
    "appending", "hidden", "protected", "default", "dso_local", "dso_preemptable", "unnamed_addr", "local_unnamed_addr",
    "externally_initialized", "fastcc", "coldcc", "ccc", "cc", "tailcc", "noundef", "signext", "zeroext", "inreg", "noalias", "nonnull", "range",
    "dereferenceable", "dereferenceable_or_null", "align", "preserve_mostcc", "preserve_allcc", "nofpclass",
    "allocptr", "initializes", "captures", "noext", "immarg", "returned", "writeonly", "readonly", "readnone", "nocapture",
    "noalias", "nofree", "nest", "swiftself", "writable", "dead_on_unwind", "dead_on_return", "allocalign", "alignstack",
];

/// Skip linkage, calling convention and attribute keywords.
fn skip_kw(l: &mut Lex) {
    loop {
        match l.peek() {
            Some(T::Id(s)) if LINKAGE.contains(&s.as_str()) => {
                let s = s.clone();
                l.next();
                if l.is_p('(') {
                    l.skip_balanced();
                } else if s == "align" || s == "cc" {
                    if let Some(T::Num(_)) = l.peek() {
                        l.next();
                    }
                }
            }
            Some(T::Id(s)) if s == "sret" || s == "byval" || s == "elementtype" || s == "inalloca" || s == "byref" || s == "preallocated" => {
                l.next();
                if l.is_p('(') {
                    l.skip_balanced();
                }
            }
            Some(T::Str(_)) => {
                l.next();
                if l.eat_p('=') {
                    l.next();
                }
            }
            Some(T::Attr(_)) => {
                l.next();
            }
            _ => return,
        }
    }
}

pub fn parse(text: &str) -> R<Program> {
    let mut cx = Ctx { gaddr: HashMap::new(), fidx: HashMap::new(), types: HashMap::new() };
    let mut glines: Vec<(&str, &str)> = vec![];
    let mut alines: Vec<(String, &str)> = vec![];
    let mut funcs: Vec<Func> = vec![];
    // (func idx, header, body)
    let mut bodies: Vec<(usize, &str, Vec<&str>)> = vec![];
    let mut it = text.lines();
    while let Some(line) = it.next() {
        if line.starts_with('@') {
            let mut l = Lex::new(line);
            let n = match l.next() {
                Some(T::Glob(n)) => n,
                _ => continue,
            };
            let _ = n;
            let p = line.find(" = ").ok_or("global =")?;
            let rest = &line[p + 3..];
            let mut l2 = Lex::new(rest);
            skip_kw(&mut l2);
            if l2.eat_id("thread_local") {
                if l2.is_p('(') {
                    l2.skip_balanced();
                }
                skip_kw(&mut l2);
            }
            if l2.eat_id("alias") {
                alines.push((n, rest));
            } else {
                glines.push((&line[..p], rest));
            }
        } else if line.starts_with("define ") || line.starts_with("declare ") {
            let at = line.find('@').ok_or("fn @")?;
            let mut l = Lex::new(&line[at..]);
            let name = match l.next() {
                Some(T::Glob(n)) => n,
                _ => return Err("fn name".into()),
            };
            let idx = funcs.len();
            cx.fidx.insert(name.clone(), idx as u32);
            let defined = line.starts_with("define ");
            funcs.push(Func { name, params: vec![], ret: Ty::Void, nregs: 0, blocks: vec![], defined, err: None });
            let mut body = vec![];
            if defined {
                for b in it.by_ref() {
                    if b == "}" {
                        break;
                    }
                    body.push(b);
                }
            }
            bodies.push((idx, line, body));
        } else if line.starts_with('%') && line.contains(" = type ") {
            let p = line.find(" = type ").unwrap();
            let mut l = Lex::new(line);
            if let Some(T::Loc(n)) = l.next() {
                let mut l2 = Lex::new(&line[p + 8..]);
                if let Ok(t) = ty(&mut l2, &cx) {
                    cx.types.insert(n, t);
                }
            }
        }
    }
    let gslot0 = funcs.len() as u64 + 1;
    let mut globals = vec![];
    for (i, (n, _)) in glines.iter().enumerate() {
        let mut l = Lex::new(n);
        if let Some(T::Glob(n)) = l.next() {
            cx.gaddr.insert(n.clone(), (gslot0 + i as u64) << SLOT_BITS);
            globals.push(Global { name: n, data: vec![], constant: false });
        } else {
            return Err("global name".into());
        }
    }
    for (n, rest) in &alines {
        let mut l = Lex::new(rest);
        skip_kw(&mut l);
        if l.eat_id("thread_local") {
            if l.is_p('(') {
                l.skip_balanced();
            }
            skip_kw(&mut l);
        }
        l.eat_id("alias");
        let _t = ty(&mut l, &cx)?;
        l.want(',')?;
        let pt = ty(&mut l, &cx)?;
        if let Some(T::Glob(g)) = l.peek() {
            if let Some(f) = cx.fidx.get(g) {
                let f = *f;
                cx.fidx.insert(n.clone(), f);
                continue;
            }
        }
        let c = cval(constant(&mut l, &pt, &cx)?)?;
        cx.gaddr.insert(n.clone(), c);
    }
    for (i, (_, rest)) in glines.iter().enumerate() {
        let mut l = Lex::new(rest);
        skip_kw(&mut l);
        if l.eat_id("thread_local") {
            if l.is_p('(') {
                l.skip_balanced();
            }
            skip_kw(&mut l);
        }
        let constant_ = if l.eat_id("constant") {
            true
        } else if l.eat_id("global") {
            false
        } else {
            return Err(format!("global kind: {}", &rest[..rest.len().min(200)]));
        };
        let t = ty(&mut l, &cx)?;
        let mut data = vec![0u8; t.size() as usize];
        let has_init = !matches!(l.peek(), None | Some(T::P(',')) | Some(T::Meta(_)));
        if has_init {
            let c = constant(&mut l, &t, &cx).map_err(|e| format!("global {}: {}", globals[i].name, e))?;
            write_cst(&t, &c, &mut data);
        } else if data.len() < 8 {
            data.resize(8, 0);
        }
        globals[i].data = data;
        globals[i].constant = constant_;
    }
    for (idx, header, body) in bodies {
        if let Err(e) = parse_func(&mut funcs[idx], header, &body, &cx) {
            funcs[idx].err = Some(e);
        }
    }
    let n = globals.len() as u64;
    Ok(Program { funcs, fidx: cx.fidx, globals, gslot0, next_slot: gslot0 + n })
}

struct FCtx<'a> {
    cx: &'a Ctx,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl<'a> FCtx<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn op(&mut self, l: &mut Lex, t: &Ty) -> R<Opnd> {
        if let Some(T::Loc(_)) = l.peek() {
            if let Some(T::Loc(n)) = l.next() {
                return Ok(Opnd::R(self.reg(&n)));
            }
        }
        Ok(match constant(l, t, self.cx)? {
            Cst::C(v) => Opnd::C(v),
            c => Opnd::K(Box::new(c)),
        })
    }
    fn tyop(&mut self, l: &mut Lex) -> R<(Ty, Opnd)> {
        let t = ty(l, self.cx)?;
        skip_kw(l);
        let o = self.op(l, &t)?;
        Ok((t, o))
    }
    fn label(&mut self, l: &mut Lex) -> R<u32> {
        if !l.eat_id("label") {
            return Err("label".into());
        }
        match l.next() {
            Some(T::Loc(n)) => self.blocks.get(&n).copied().ok_or_else(|| format!("block {}", n)),
            x => Err(format!("label {:?}", x)),
        }
    }
}

fn parse_func(f: &mut Func, header: &str, body: &[&str], cx: &Ctx) -> R<()> {
    let mut l = Lex::new(header);
    l.next(); // define/declare
    skip_kw(&mut l);
    f.ret = ty(&mut l, cx)?;
    match l.next() {
        Some(T::Glob(_)) => {}
        x => return Err(format!("header {:?}: {}", x, header)),
    }
    let mut fc = FCtx { cx, regs: HashMap::new(), blocks: HashMap::new() };
    l.want('(')?;
    let mut n = 0;
    while !l.eat_p(')') {
        if l.peek() == Some(&T::Dots) {
            l.next();
            continue;
        }
        let t = ty(&mut l, cx)?;
        skip_kw(&mut l);
        let name = if let Some(T::Loc(_)) = l.peek() {
            match l.next() {
                Some(T::Loc(n)) => n,
                _ => unreachable!(),
            }
        } else {
            format!("{}", n)
        };
        n += 1;
        let r = fc.reg(&name);
        f.params.push((t, r));
        l.eat_p(',');
    }
    if !f.defined {
        return Ok(());
    }
    // entry block's implicit label: next unnamed number = count of unnamed params
    let mut labels: Vec<(String, usize)> = vec![];
    let unnamed = f.params.len();
    let first_is_label = body.first().map_or(false, |b| is_label(b).is_some());
    if !first_is_label {
        labels.push((format!("{}", unnamed), 0));
    }
    for (i, b) in body.iter().enumerate() {
        if let Some(n) = is_label(b) {
            labels.push((n, i + 1));
        }
    }
    for (i, (n, _)) in labels.iter().enumerate() {
        fc.blocks.insert(n.clone(), i as u32);
    }
    let mut cur: Block = Block::default();
    let mut i = 0;
    let mut started = !first_is_label;
    while i < body.len() {
        let line = body[i];
        if is_label(line).is_some() {
            if started {
                f.blocks.push(std::mem::take(&mut cur));
            }
            started = true;
            i += 1;
            continue;
        }
        let t = line.trim();
        if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") {
            i += 1;
            continue;
        }
        // join multi-line instructions (switch, invoke, landingpad)
        let mut full = line.to_string();
        if t.starts_with("switch ") && !t.contains(']') {
            loop {
                i += 1;
                full.push('\n');
                full.push_str(body[i]);
                if body[i].trim().starts_with(']') {
                    break;
                }
            }
        } else if (t.contains("invoke ") && !t.contains(" unwind label")) && i + 1 < body.len() {
            i += 1;
            full.push(' ');
            full.push_str(body[i]);
        } else if t.contains(" landingpad ") {
            while i + 1 < body.len() {
                let nx = body[i + 1].trim();
                if nx.starts_with("cleanup") || nx.starts_with("catch ") || nx.starts_with("filter ") {
                    i += 1;
                } else {
                    break;
                }
            }
        }
        instr(&full, &mut fc, &mut cur).map_err(|e| format!("{} :: {}", e, full.trim()))?;
        i += 1;
    }
    f.blocks.push(cur);
    f.nregs = fc.regs.len() as u32;
    Ok(())
}

fn is_label(s: &str) -> Option<String> {
    if s.starts_with(' ') || s.is_empty() {
        return None;
    }
    let mut l = Lex::new(s);
    let n = if s.starts_with('"') {
        match l.next() {
            Some(T::Str(b)) => String::from_utf8_lossy(&b).into_owned(),
            _ => return None,
        }
    } else {
        l.name()
    };
    if l.s.get(l.i) == Some(&b':') {
        Some(n)
    } else {
        None
    }
}

fn binop(s: &str) -> Option<Op> {
    Some(match s {
        "add" => Op::Add,
        "sub" => Op::Sub,
        "mul" => Op::Mul,
        "udiv" => Op::UDiv,
        "sdiv" => Op::SDiv,
        "urem" => Op::URem,
        "srem" => Op::SRem,
        "and" => Op::And,
        "or" => Op::Or,
        "xor" => Op::Xor,
        "shl" => Op::Shl,
        "lshr" => Op::LShr,
        "ashr" => Op::AShr,
        _ => return None,
    })
}

const FLAGS: &[&str] = &[
    "nuw", "nsw", "exact", "disjoint", "inbounds", "nusw", "nneg", "samesign", "volatile", "atomic", "weak", "nnan", "ninf", "nsz", "arcp",
    "contract", "afn", "reassoc", "fast", "inalloca", "tail", "musttail", "notail",
];
fn skip_flags(l: &mut Lex) {
    while let Some(T::Id(s)) = l.peek() {
        if FLAGS.contains(&s.as_str()) {
            l.next();
        } else if s == "inrange" {
            l.next();
            l.skip_balanced();
        } else {
            break;
        }
    }
}

fn lanes(t: &Ty) -> (u32, u32) {
    match t {
        Ty::Vec(n, e) => (e.bits(), *n as u32),
        t => (t.bits(), 0),
    }
}

fn instr(line: &str, fc: &mut FCtx, cur: &mut Block) -> R<()> {
    let mut l = Lex::new(line);
    let mut d: Option<u32> = None;
    if let Some(T::Loc(_)) = l.peek() {
        if let Some(T::Loc(n)) = l.next() {
            d = Some(fc.reg(&n));
            l.want('=')?;
        }
    }
    let cx = fc.cx;
    skip_flags(&mut l);
    let opc = match l.next() {
        Some(T::Id(s)) => s,
        x => return Err(format!("opcode {:?}", x)),
    };
    if let Some(op) = binop(&opc) {
        skip_flags(&mut l);
        let (t, a) = fc.tyop(&mut l)?;
        l.want(',')?;
        let b = fc.op(&mut l, &t)?;
        let (w, n) = lanes(&t);
        cur.ins.push(I::Bin { op, w, lanes: n, a, b, d: d.unwrap() });
        return Ok(());
    }
    match opc.as_str() {
        "icmp" => {
            skip_flags(&mut l);
            let p = match l.next() {
                Some(T::Id(s)) => match s.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => return Err("pred".into()),
                },
                _ => return Err("pred".into()),
            };
            let (t, a) = fc.tyop(&mut l)?;
            l.want(',')?;
            let b = fc.op(&mut l, &t)?;
            let (w, n) = lanes(&t);
            cur.ins.push(I::Icmp { p, w, lanes: n, a, b, d: d.unwrap() });
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            skip_flags(&mut l);
            let (t, a) = fc.tyop(&mut l)?;
            l.want(',')?;
            let b = fc.op(&mut l, &t)?;
            let op = match opc.as_str() {
                "fadd" => FOp::Add,
                "fsub" => FOp::Sub,
                "fmul" => FOp::Mul,
                "fdiv" => FOp::Div,
                _ => FOp::Rem,
            };
            cur.ins.push(I::FBin { op, w: t.bits(), a, b, d: d.unwrap() });
        }
        "fneg" => {
            skip_flags(&mut l);
            let (t, a) = fc.tyop(&mut l)?;
            cur.ins.push(I::FBin { op: FOp::Neg, w: t.bits(), a, b: Opnd::C(0), d: d.unwrap() });
        }
        "fcmp" => {
            skip_flags(&mut l);
            let pred = match l.next() {
                Some(T::Id(s)) => s,
                _ => return Err("fpred".into()),
            };
            let (t, a) = fc.tyop(&mut l)?;
            l.want(',')?;
            let b = fc.op(&mut l, &t)?;
            cur.ins.push(I::FCmp { pred, w: t.bits(), a, b, d: d.unwrap() });
        }
        "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "addrspacecast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc"
        | "fpext" => {
            skip_flags(&mut l);
            let (from, a) = fc.tyop(&mut l)?;
            if !l.eat_id("to") {
                return Err("cast to".into());
            }
            let to = ty(&mut l, cx)?;
            let k = match opc.as_str() {
                "trunc" => CastK::Trunc,
                "zext" => CastK::ZExt,
                "sext" => CastK::SExt,
                "bitcast" => CastK::Bit,
                "fptoui" => CastK::FpToUi,
                "fptosi" => CastK::FpToSi,
                "uitofp" => CastK::UiToFp,
                "sitofp" => CastK::SiToFp,
                "fptrunc" => CastK::FpTrunc,
                "fpext" => CastK::FpExt,
                _ => {
                    let (fb, tb) = (from.bits(), to.bits());
                    if fb == tb {
                        CastK::NoOp
                    } else if fb > tb {
                        CastK::Trunc
                    } else {
                        CastK::ZExt
                    }
                }
            };
            cur.ins.push(I::Cast { k, from, to, a, d: d.unwrap() });
        }
        "load" => {
            skip_flags(&mut l);
            let t = ty(&mut l, cx)?;
            l.want(',')?;
            let (_, p) = fc.tyop(&mut l)?;
            cur.ins.push(I::Load { ty: t, p, d: d.unwrap() });
        }
        "store" => {
            skip_flags(&mut l);
            let (t, v) = fc.tyop(&mut l)?;
            l.want(',')?;
            let (_, p) = fc.tyop(&mut l)?;
            cur.ins.push(I::Store { ty: t, v, p });
        }
        "getelementptr" => {
            skip_flags(&mut l);
            let bt = ty(&mut l, cx)?;
            l.want(',')?;
            let (_, base) = fc.tyop(&mut l)?;
            let mut off = 0u64;
            let mut idx = vec![];
            let mut curt = bt.clone();
            let mut first = true;
            while l.eat_p(',') {
                if let Some(T::Meta(_)) = l.peek() {
                    break;
                }
                let (it, iv) = fc.tyop(&mut l)?;
                if it.is_vec() {
                    return Err("vector gep".into());
                }
                let (sz, nt) = if first {
                    (bt.size(), bt.clone())
                } else {
                    match &curt {
                        Ty::Struct(..) => {
                            if let Opnd::C(k) = iv {
                                off = off.wrapping_add(curt.field_off(k as usize));
                                curt = curt.field(k as usize);
                                continue;
                            }
                            return Err("struct gep".into());
                        }
                        _ => {
                            let e = curt.field(0);
                            (e.size(), e)
                        }
                    }
                };
                first = false;
                curt = nt;
                match iv {
                    Opnd::C(k) => {
                        let k = crate::expr::sext(k as u128, it.bits()) as i64 as u64;
                        off = off.wrapping_add(k.wrapping_mul(sz));
                    }
                    o => idx.push((o, it.bits(), sz)),
                }
            }
            cur.ins.push(I::Gep { base, off, idx, d: d.unwrap() });
        }
        "alloca" => {
            skip_flags(&mut l);
            let t = ty(&mut l, cx)?;
            let mut n = Opnd::C(1);
            if l.eat_p(',') {
                if let Some(T::Id(s)) = l.peek() {
                    if s != "align" && s != "addrspace" {
                        n = fc.tyop(&mut l)?.1;
                    }
                }
            }
            cur.ins.push(I::Alloca { size: t.size(), n, d: d.unwrap() });
        }
        "select" => {
            skip_flags(&mut l);
            let (ct, c) = fc.tyop(&mut l)?;
            l.want(',')?;
            let (t, a) = fc.tyop(&mut l)?;
            l.want(',')?;
            let (_, b) = fc.tyop(&mut l)?;
            cur.ins.push(I::Select { ty: t, c, cvec: ct.is_vec(), a, b, d: d.unwrap() });
        }
        "phi" => {
            skip_flags(&mut l);
            let t = ty(&mut l, cx)?;
            let mut v = vec![];
            loop {
                l.want('[')?;
                let o = fc.op(&mut l, &t)?;
                l.want(',')?;
                match l.next() {
                    Some(T::Loc(n)) => {
                        let b = *fc.blocks.get(&n).ok_or_else(|| format!("phi block {}", n))?;
                        v.push((b, o));
                    }
                    x => return Err(format!("phi {:?}", x)),
                }
                l.want(']')?;
                if !l.eat_p(',') {
                    break;
                }
                if !l.is_p('[') {
                    break;
                }
            }
            cur.phis.push((d.unwrap(), v));
        }
        "call" | "invoke" => {
            skip_flags(&mut l);
            skip_kw(&mut l);
            let mut ret = ty(&mut l, cx)?;
            // function-type form: ret (args...) callee
            if l.is_p('(') {
                l.skip_balanced();
            }
            skip_kw(&mut l);
            let f = match l.peek().cloned() {
                Some(T::Glob(n)) => {
                    l.next();
                    match cx.fidx.get(&n) {
                        Some(i) => Callee::Func(*i),
                        None => match cx.gaddr.get(&n) {
                            Some(a) => Callee::Ind(Opnd::C(*a)),
                            None => return Err(format!("callee {}", n)),
                        },
                    }
                }
                Some(T::Loc(n)) => {
                    l.next();
                    Callee::Ind(Opnd::R(fc.reg(&n)))
                }
                Some(T::Id(s)) if s == "asm" => {
                    l.next();
                    while !l.is_p('(') {
                        if l.next().is_none() {
                            return Err("asm".into());
                        }
                    }
                    Callee::Asm
                }
                _ => {
                    let c = constant(&mut l, &Ty::Ptr, cx)?;
                    Callee::Ind(Opnd::C(cval(c)?))
                }
            };
            l.want('(')?;
            let mut args = vec![];
            while !l.eat_p(')') {
                let t = ty(&mut l, cx)?;
                if let Ty::Other(ref s) = t {
                    if s == "metadata" {
                        // skip to next comma or paren
                        let mut dep = 0;
                        loop {
                            match l.peek() {
                                Some(T::P('(')) => dep += 1,
                                Some(T::P(')')) if dep == 0 => break,
                                Some(T::P(')')) => dep -= 1,
                                Some(T::P(',')) if dep == 0 => break,
                                None => return Err("metadata arg".into()),
                                _ => {}
                            }
                            l.next();
                        }
                        l.eat_p(',');
                        continue;
                    }
                }
                skip_kw(&mut l);
                let o = fc.op(&mut l, &t)?;
                args.push((t, o));
                l.eat_p(',');
            }
            let mut normal = None;
            if opc == "invoke" {
                // attributes until "to label"
                loop {
                    if l.eat_id("to") {
                        break;
                    }
                    if l.is_p('[') {
                        return Err("operand bundle on invoke".into());
                    }
                    if l.next().is_none() {
                        return Err("invoke to".into());
                    }
                }
                normal = Some(fc.label(&mut l)?);
            }
            if let Ty::Other(_) = ret {
                ret = Ty::Void;
            }
            cur.ins.push(I::Call { f, args, ret, d, normal });
        }
        "br" => {
            if let Some(T::Id(s)) = l.peek() {
                if s == "label" {
                    let b = fc.label(&mut l)?;
                    cur.ins.push(I::Br(b));
                    return Ok(());
                }
            }
            let (_, c) = fc.tyop(&mut l)?;
            l.want(',')?;
            let t = fc.label(&mut l)?;
            l.want(',')?;
            let f = fc.label(&mut l)?;
            cur.ins.push(I::CondBr { c, t, f });
        }
        "switch" => {
            let (t, v) = fc.tyop(&mut l)?;
            l.want(',')?;
            let def = fc.label(&mut l)?;
            l.want('[')?;
            let mut cases = vec![];
            while !l.eat_p(']') {
                let ct = ty(&mut l, cx)?;
                let c = match constant(&mut l, &ct, cx)? {
                    Cst::C(v) => v as u128,
                    Cst::W(v) => v,
                    _ => return Err("case".into()),
                };
                l.want(',')?;
                let b = fc.label(&mut l)?;
                cases.push((c, b));
            }
            cur.ins.push(I::Switch { w: t.bits(), v, def, cases });
        }
        "ret" => {
            let t = ty(&mut l, cx)?;
            if t == Ty::Void {
                cur.ins.push(I::Ret(None));
            } else {
                let o = fc.op(&mut l, &t)?;
                cur.ins.push(I::Ret(Some((t, o))));
            }
        }
        "unreachable" => cur.ins.push(I::Unreachable),
        "extractvalue" => {
            let (_, a) = fc.tyop(&mut l)?;
            let mut path = vec![];
            while l.eat_p(',') {
                if let Some(T::Num(_)) = l.peek() {
                    path.push(num(&mut l)? as usize);
                } else {
                    break;
                }
            }
            cur.ins.push(I::Extract { a, path, d: d.unwrap() });
        }
        "insertvalue" => {
            let (_, a) = fc.tyop(&mut l)?;
            l.want(',')?;
            let (_, v) = fc.tyop(&mut l)?;
            let mut path = vec![];
            while l.eat_p(',') {
                if let Some(T::Num(_)) = l.peek() {
                    path.push(num(&mut l)? as usize);
                } else {
                    break;
                }
            }
            cur.ins.push(I::Insert { a, v, path, d: d.unwrap() });
        }
        "extractelement" => {
            let (_, a) = fc.tyop(&mut l)?;
            l.want(',')?;
            let (_, i) = fc.tyop(&mut l)?;
            cur.ins.push(I::ExtElem { a, i, d: d.unwrap() });
        }
        "insertelement" => {
            let (_, a) = fc.tyop(&mut l)?;
            l.want(',')?;
            let (_, v) = fc.tyop(&mut l)?;
            l.want(',')?;
            let (_, i) = fc.tyop(&mut l)?;
            cur.ins.push(I::InsElem { a, v, i, d: d.unwrap() });
        }
        "shufflevector" => {
            let (t, a) = fc.tyop(&mut l)?;
            l.want(',')?;
            let (_, b) = fc.tyop(&mut l)?;
            l.want(',')?;
            let mt = ty(&mut l, cx)?;
            let c = constant(&mut l, &mt, cx)?;
            let mask = match c {
                Cst::Agg(v) => v.into_iter().map(|x| cval(x).map(|v| v as u32 as i32 as i64)).collect::<R<Vec<_>>>()?,
                _ => return Err("shuffle mask".into()),
            };
            cur.ins.push(I::Shuffle { n1: t.nfields(), a, b, mask, d: d.unwrap() });
        }
        "freeze" => {
            let (_, a) = fc.tyop(&mut l)?;
            cur.ins.push(I::Copy { a, d: d.unwrap() });
        }
        "fence" => cur.ins.push(I::Nop),
        "atomicrmw" => {
            skip_flags(&mut l);
            let op = match l.next() {
                Some(T::Id(s)) => s,
                _ => return Err("rmw".into()),
            };
            let (_, p) = fc.tyop(&mut l)?;
            l.want(',')?;
            let (t, v) = fc.tyop(&mut l)?;
            cur.ins.push(I::Rmw { op, w: t.bits(), p, v, d: d.unwrap() });
        }
        "cmpxchg" => {
            skip_flags(&mut l);
            let (_, p) = fc.tyop(&mut l)?;
            l.want(',')?;
            let (t, c) = fc.tyop(&mut l)?;
            l.want(',')?;
            let (_, n) = fc.tyop(&mut l)?;
            cur.ins.push(I::CmpXchg { w: t.bits(), p, c, n, d: d.unwrap() });
        }
        "landingpad" | "resume" | "cleanuppad" | "catchpad" => cur.ins.push(I::Landing),
        _ => return Err(format!("unknown instruction {}", opc)),
    }
    Ok(())
}
