//! Symbolic executor for the compiled program: every path condition is decided by the SMT solver.
use crate::expr::*;
use crate::ll::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    E(Id),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<Id>, // empty, or one entry per byte (0 = concrete)
}

#[derive(Clone)]
pub struct Frame {
    f: u32,
    bb: u32,
    ip: u32,
    prev: u32,
    regs: Vec<Val>,
    allocas: Vec<u32>,
    ret: Option<u32>,
    normal: Option<u32>,
}

#[derive(Clone, Copy, Debug)]
pub enum Ev {
    Implied,
    Add,
    Eq,
    Neq(u64),
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    pub pc: Vec<Id>,
    pub model: Vec<u8>,
    events: Vec<Ev>,
    replay: Option<Rc<Vec<Ev>>>,
    force: Option<u64>,
    nvars: u32,
    obs: Vec<Id>,
    known: Rc<HashMap<Id, u64>>,
    expect_panic: bool,
    steps: u64,
    tag: u64,
    pub live: i64,
}

pub struct Job {
    pub events: Vec<Ev>,
    pub model: Vec<u8>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Done,
    Assumed,
    Panic(String),
    ExpectedPanic,
    Fail(String),    // assertion certainly false on this path
    Error(String),   // engine limitation: the run is inconclusive
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BI {
    None,
    Panic,
    Any,
    Assume,
    Assert,
    Cover,
    Observe,
    ExpectPanic,
    Conc,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    Free,
    CRealloc,
    MemAlign,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    Nop,
    Zero,
    RandKeys,
    HashWrite,
    HashFinish,
    Ident,
    Expect,
    IsConst,
    Arith,
    Summary,
    Abort,
}

pub struct Shared {
    pub prog: Program,
    pub bi: Vec<BI>,
    pub sums: Vec<OnceLock<Option<Arc<Vec<(u32, Vec<u8>)>>>>>,
    pub sum_lock: Mutex<()>,
    pub lock_free: bool,
    pub base: Vec<Arc<Vec<u8>>>,
    pub threads: usize,
}

fn has(n: &str, p: &str) -> bool {
    n.contains(p)
}

pub fn classify(f: &Func) -> BI {
    let n = f.name.as_str();
    match n {
        "vp_any" => return BI::Any,
        "vp_assume" => return BI::Assume,
        "vp_assert" => return BI::Assert,
        "vp_cover" => return BI::Cover,
        "vp_observe" => return BI::Observe,
        "vp_expect_panic" => return BI::ExpectPanic,
        "vp_concretize" => return BI::Conc,
        "malloc" => return BI::Malloc,
        "calloc" => return BI::Calloc,
        "free" => return BI::Free,
        "realloc" => return BI::CRealloc,
        "posix_memalign" => return BI::MemAlign,
        "bcmp" => return BI::Bcmp,
        "memcmp" => return BI::Memcmp,
        "strlen" => return BI::Strlen,
        "memcpy" | "memmove" => return BI::Memcpy,
        "memset" => return BI::Memset,
        "abort" | "llvm.trap" => return BI::Abort,
        "__cxa_thread_atexit_impl" => return BI::Zero,
        _ => {}
    }
    if n.starts_with("llvm.") {
        if n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") {
            return BI::Memcpy;
        }
        if n.starts_with("llvm.memset") {
            return BI::Memset;
        }
        if n.starts_with("llvm.expect") || n.starts_with("llvm.threadlocal") || n.starts_with("llvm.launder") || n.starts_with("llvm.ptrmask.none") {
            return BI::Ident;
        }
        if n.starts_with("llvm.is.constant") {
            return BI::IsConst;
        }
        if n.starts_with("llvm.assume")
            || n.starts_with("llvm.lifetime")
            || n.starts_with("llvm.experimental.noalias")
            || n.starts_with("llvm.dbg")
            || n.starts_with("llvm.prefetch")
            || n.starts_with("llvm.x86.sse2.pause")
        {
            return BI::Nop;
        }
        return BI::Arith;
    }
    if has(n, "4core9panicking") || has(n, "3std9panicking") || n == "rust_begin_unwind" || has(n, "17rust_begin_unwind") || has(n, "18handle_alloc_error") || has(n, "5alloc7raw_vec12handle_error") || has(n, "5alloc7raw_vec17capacity_overflow")
    {
        // closures and generic helpers of the panic machinery itself are never entered
        if !has(n, "panic_count") || has(n, "4core9panicking") {
            return BI::Panic;
        }
    }
    if has(n, "7___rustc") {
        if n.ends_with("12___rust_alloc") {
            return BI::Alloc;
        }
        if n.ends_with("19___rust_alloc_zeroed") {
            return BI::AllocZ;
        }
        if n.ends_with("14___rust_dealloc") {
            return BI::Dealloc;
        }
        if n.ends_with("14___rust_realloc") {
            return BI::Realloc;
        }
    }
    if has(n, "19hashmap_random_keys") {
        return BI::RandKeys;
    }
    if has(n, "13DefaultHasher") && has(n, "4hash6Hasher") {
        if has(n, "6Hasher6finish") {
            return BI::HashFinish;
        }
        if has(n, "6Hasher5write") || has(n, "6Hasher8write_") || has(n, "6Hasher9write_") || has(n, "6Hasher10write_") || has(n, "6Hasher11write_") || has(n, "6Hasher12write_") {
            return BI::HashWrite;
        }
    }
    if f.defined {
        let i32s = f.params.iter().filter(|(t, _)| *t == Ty::Int(32)).count();
        let one = (f.params.len() == 1 && i32s == 1 && matches!(f.ret, Ty::Int(w) if w <= 64))
            || (f.params.len() == 2 && i32s == 1 && f.params[0].0 == Ty::Ptr && f.ret == Ty::Void);
        if one
            && (has(n, "12unicode_data")
                || has(n, "13word_category")
                || has(n, "14emoji_category")
                || has(n, "8is_emoji")
                || has(n, "13unicode_width6tables")
                || (has(n, "4core4char7methodsc") && has(n, "is_")))
        {
            return BI::Summary;
        }
    }
    BI::None
}

impl Shared {
    pub fn new(prog: Program, threads: usize) -> Self {
        let bi = prog.funcs.iter().map(classify).collect();
        let sums = prog.funcs.iter().map(|_| OnceLock::new()).collect();
        let base = prog.globals.iter().map(|g| Arc::new(g.data.clone())).collect();
        Shared { prog, bi, sums, sum_lock: Mutex::new(()), lock_free: false, base, threads }
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub assumed: u64,
    pub expected_panics: u64,
    pub forks: u64,
    pub instrs: u64,
    pub asserts: u64,
    pub asserts_solver: u64,
    pub concretized: u64,
    pub max_events: u64,
    pub max_steps: u64,
    pub summaries_used: u64,
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub input: Vec<u8>,
    pub stack: Vec<String>,
}

pub struct Sample {
    pub input: Vec<u8>,
    pub obs: Vec<u64>,
    pub end: String,
}

pub struct Machine {
    pub sh: &'static Shared,
    pub ar: Arena,
    pub stack: Vec<State>,
    pub stats: Stats,
    pub viols: Vec<Violation>,
    pub viol_keys: HashSet<String>,
    pub samples: Vec<Sample>,
    pub covers: HashMap<String, u64>,
    pub used: Vec<bool>,
    pub max_steps: u64,
    sum_memo: HashMap<(u32, Id), Vec<Id>>,
    leaf_memo: HashMap<(u32, u32), Vec<u8>>,
    aux: Option<Box<Machine>>,
    pub fork_at: HashMap<(u32, u32), u64>,
    init: Option<Vec<Option<Rc<Obj>>>>,
    pub sample_cap: usize,
    pub trace: bool,
}

type X<T> = Result<T, End>;

fn err<T>(s: impl Into<String>) -> X<T> {
    Err(End::Error(s.into()))
}

const OFFM: u64 = (1 << SLOT_BITS) - 1;

fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

impl Machine {
    pub fn new(sh: &'static Shared, timeout_ms: u32) -> Self {
        Machine {
            sh,
            ar: Arena::new(timeout_ms),
            stack: vec![],
            stats: Stats::default(),
            viols: vec![],
            viol_keys: HashSet::new(),
            samples: vec![],
            covers: HashMap::new(),
            used: vec![false; sh.prog.funcs.len()],
            max_steps: 50_000_000,
            sum_memo: HashMap::new(),
            leaf_memo: HashMap::new(),
            aux: None,
            fork_at: HashMap::new(),
            init: None,
            sample_cap: 40,
            trace: false,
        }
    }

    fn init_mem(&mut self) -> Vec<Option<Rc<Obj>>> {
        if self.init.is_none() {
            let p = &self.sh.prog;
            let mut mem: Vec<Option<Rc<Obj>>> = vec![None; p.gslot0 as usize];
            for g in &p.globals {
                mem.push(Some(Rc::new(Obj { data: g.data.clone(), sym: vec![] })));
            }
            self.init = Some(mem);
        }
        self.init.clone().unwrap()
    }

    pub fn start(&mut self, func: u32, args: Vec<Val>, job: Option<Job>) -> State {
        let mem = self.init_mem();
        let (replay, model) = match job {
            Some(j) => (Some(Rc::new(j.events)), j.model),
            None => (None, vec![]),
        };
        let mut st = State {
            frames: vec![],
            mem,
            free: vec![],
            pc: vec![],
            model,
            events: vec![],
            replay,
            force: None,
            nvars: 0,
            obs: vec![],
            known: Rc::new(HashMap::new()),
            expect_panic: false,
            steps: 0,
            tag: 0,
            live: 0,
        };
        let f = &self.sh.prog.funcs[func as usize];
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            regs[f.params[i].1 as usize] = a;
        }
        st.frames.push(Frame { f: func, bb: 0, ip: 0, prev: u32::MAX, regs, allocas: vec![], ret: None, normal: None });
        self.used[func as usize] = true;
        st
    }

    pub fn job_of(st: &State) -> Job {
        Job { events: st.events.clone(), model: st.model.clone() }
    }
    pub fn replaying(st: &State) -> bool {
        st.replay.is_some()
    }

    // ---------------------------------------------------------------- values
    fn norm(&self, e: Id) -> Val {
        if let Some(k) = self.ar.is_const(e) {
            if self.ar.w(e) <= 64 {
                return Val::C(k as u64);
            }
        }
        Val::E(e)
    }
    fn e(&mut self, v: &Val, w: u32) -> X<Id> {
        match v {
            Val::C(k) => Ok(self.ar.cst(w, *k as u128)),
            Val::E(e) => {
                if self.ar.w(*e) != w {
                    return err(format!("width mismatch {} vs {}", self.ar.w(*e), w));
                }
                Ok(*e)
            }
            Val::A(_) => err("scalar expected"),
        }
    }
    fn cst(&mut self, c: &Cst) -> Val {
        match c {
            Cst::C(v) => Val::C(*v),
            Cst::W(v) => Val::E(self.ar.cst(128, *v)),
            Cst::Agg(v) => Val::A(Rc::new(v.iter().map(|x| self.cst(x)).collect())),
        }
    }
    #[inline]
    fn opv(&mut self, st: &State, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opnd::C(k) => Val::C(*k),
            Opnd::K(c) => self.cst(c),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: Val) {
        st.frames.last_mut().unwrap().regs[d as usize] = v;
    }

    // ---------------------------------------------------------------- memory
    fn new_obj(&self, st: &mut State, size: u64) -> X<u64> {
        if size > OFFM / 2 {
            return err(format!("allocation of {} bytes", size));
        }
        let o = Some(Rc::new(Obj { data: vec![0; size as usize], sym: vec![] }));
        let s = if let Some(s) = st.free.pop() {
            st.mem[s as usize] = o;
            s as u64
        } else {
            st.mem.push(o);
            st.mem.len() as u64 - 1
        };
        Ok(s << SLOT_BITS)
    }
    fn free_obj(&self, st: &mut State, addr: u64) -> X<()> {
        let s = (addr >> SLOT_BITS) as usize;
        if addr & OFFM != 0 || s >= st.mem.len() || st.mem[s].is_none() || s < self.sh.prog.next_slot as usize {
            return Err(End::Panic(format!("memory fault: invalid free of {:#x}", addr)));
        }
        st.mem[s] = None;
        st.free.push(s as u32);
        Ok(())
    }
    #[inline]
    fn obj<'a>(&self, st: &'a State, addr: u64, n: u64) -> X<(&'a Obj, usize)> {
        let s = (addr >> SLOT_BITS) as usize;
        let off = addr & OFFM;
        match st.mem.get(s) {
            Some(Some(o)) if off + n <= o.data.len() as u64 => Ok((o, off as usize)),
            _ => Err(End::Panic(format!("memory fault: access of {} bytes at {:#x}", n, addr))),
        }
    }
    #[inline]
    fn obj_mut<'a>(&self, st: &'a mut State, addr: u64, n: u64) -> X<(&'a mut Obj, usize)> {
        let s = (addr >> SLOT_BITS) as usize;
        let off = addr & OFFM;
        match st.mem.get_mut(s) {
            Some(Some(o)) if off + n <= o.data.len() as u64 => Ok((Rc::make_mut(o), off as usize)),
            _ => Err(End::Panic(format!("memory fault: write of {} bytes at {:#x}", n, addr))),
        }
    }
    fn load_int(&mut self, st: &State, addr: u64, w: u32) -> X<Val> {
        let n = ((w + 7) / 8) as u64;
        let (o, off) = self.obj(st, addr, n)?;
        let n = n as usize;
        let symbolic = !o.sym.is_empty() && o.sym[off..off + n].iter().any(|x| *x != 0);
        if !symbolic {
            if w <= 64 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Ok(Val::C(u64::from_le_bytes(b) & m64(w)));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let v = u128::from_le_bytes(b);
            return Ok(Val::E(self.ar.cst(w, v)));
        }
        let ids: Vec<(Id, u8)> = (0..n).map(|i| (o.sym[off + i], o.data[off + i])).collect();
        let mut r: Option<Id> = None;
        for (id, b) in ids {
            let x = if id != 0 { id } else { self.ar.cst(8, b as u128) };
            r = Some(match r {
                None => x,
                Some(l) => self.ar.concat(x, l),
            });
        }
        let mut r = r.unwrap();
        if self.ar.w(r) > w {
            r = self.ar.trunc(r, w);
        }
        Ok(self.norm(r))
    }
    fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> X<Val> {
        match ty {
            Ty::Int(w) => self.load_int(st, addr, *w),
            Ty::Ptr | Ty::F64 => self.load_int(st, addr, 64),
            Ty::F32 => self.load_int(st, addr, 32),
            Ty::Vec(n, e) if e.bits() % 8 != 0 => {
                let _ = n;
                err("sub-byte vector load")
            }
            t if t.is_agg() => {
                let mut v = vec![];
                for i in 0..t.nfields() {
                    let ft = t.field(i);
                    v.push(self.load(st, addr + t.field_off(i), &ft)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            t => err(format!("load of {:?}", t)),
        }
    }
    fn store_int(&mut self, st: &mut State, addr: u64, w: u32, v: &Val) -> X<()> {
        let n = ((w + 7) / 8) as usize;
        match v {
            Val::C(k) => {
                let k = *k & m64(w);
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                let b = k.to_le_bytes();
                let m = n.min(8);
                o.data[off..off + m].copy_from_slice(&b[..m]);
                for i in m..n {
                    o.data[off + i] = 0;
                }
                if !o.sym.is_empty() {
                    o.sym[off..off + n].fill(0);
                }
            }
            Val::E(e) => {
                let e = if self.ar.w(*e) < 8 * n as u32 { self.ar.zext(*e, 8 * n as u32) } else { *e };
                let mut bs = [(0u32, 0u8); 16];
                for (i, b) in bs.iter_mut().enumerate().take(n) {
                    let x = self.ar.extract(e, 8 * i as u32 + 7, 8 * i as u32);
                    *b = match self.ar.is_const(x) {
                        Some(k) => (0, k as u8),
                        None => (x, 0),
                    };
                }
                let any = bs[..n].iter().any(|b| b.0 != 0);
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                if any && o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                for i in 0..n {
                    o.data[off + i] = bs[i].1;
                    if !o.sym.is_empty() {
                        o.sym[off + i] = bs[i].0;
                    }
                }
            }
            Val::A(_) => return err("store aggregate as int"),
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> X<()> {
        match ty {
            Ty::Int(w) => self.store_int(st, addr, *w, v),
            Ty::Ptr | Ty::F64 => self.store_int(st, addr, 64, v),
            Ty::F32 => self.store_int(st, addr, 32, v),
            t if t.is_agg() => {
                if let Val::A(vs) = v {
                    for (i, x) in vs.iter().enumerate() {
                        let ft = t.field(i);
                        self.store(st, addr + t.field_off(i), &ft, x)?;
                    }
                    Ok(())
                } else {
                    err("store agg")
                }
            }
            t => err(format!("store of {:?}", t)),
        }
    }
    fn byte(&self, o: &Obj, i: usize) -> (u8, Id) {
        (o.data[i], if o.sym.is_empty() { 0 } else { o.sym[i] })
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.obj(st, s, n)?;
        let n_ = n as usize;
        let data = o.data[off..off + n_].to_vec();
        let sym: Vec<Id> = if o.sym.is_empty() || o.sym[off..off + n_].iter().all(|x| *x == 0) { vec![] } else { o.sym[off..off + n_].to_vec() };
        let (t, to) = self.obj_mut(st, d, n)?;
        t.data[to..to + n_].copy_from_slice(&data);
        if !sym.is_empty() {
            if t.sym.is_empty() {
                t.sym = vec![0; t.data.len()];
            }
            t.sym[to..to + n_].copy_from_slice(&sym);
        } else if !t.sym.is_empty() {
            t.sym[to..to + n_].fill(0);
        }
        Ok(())
    }

    // ---------------------------------------------------------------- decisions
    fn next_replay(&self, st: &mut State) -> Option<Ev> {
        let r = st.replay.as_ref()?;
        let i = st.events.len();
        let e = r.get(i).copied();
        if e.is_none() {
            st.replay = None;
        }
        e
    }
    fn sat(&mut self, st: &State, c: Id) -> X<Option<Vec<u8>>> {
        match self.ar.check(&st.pc, c, &st.model) {
            Ok(m) => Ok(m),
            Err(e) => err(e),
        }
    }
    fn note_fork(&mut self, st: &State) {
        self.stats.forks += 1;
        let f = st.frames.last().unwrap();
        *self.fork_at.entry((f.f, f.bb)).or_insert(0) += 1;
    }
    /// Decide a symbolic condition; forks when both sides are feasible.
    fn branch(&mut self, st: &mut State, c: Id) -> X<bool> {
        if let Some(k) = self.ar.is_const(c) {
            return Ok(k == 1);
        }
        if let Some(f) = st.force.take() {
            Rc::make_mut(&mut st.known).insert(c, f);
            return Ok(f == 1);
        }
        if let Some(f) = st.known.get(&c) {
            return Ok(*f == 1);
        }
        let b = self.branch2(st, c)?;
        Rc::make_mut(&mut st.known).insert(c, b as u64);
        Ok(b)
    }
    fn branch2(&mut self, st: &mut State, c: Id) -> X<bool> {
        let b = self.ar.eval(c, &st.model) == 1;
        let nc = self.ar.not(c);
        let (cur, other) = if b { (c, nc) } else { (nc, c) };
        if let Some(ev) = self.next_replay(st) {
            if let Ev::Add = ev {
                st.pc.push(cur);
            }
            st.events.push(ev);
            return Ok(b);
        }
        match self.sat(st, other)? {
            None => {
                st.events.push(Ev::Implied);
            }
            Some(m) => {
                self.note_fork(st);
                let mut alt = st.clone();
                alt.pc.push(other);
                alt.model = m;
                alt.events.push(Ev::Add);
                alt.force = Some(!b as u64);
                self.stack.push(alt);
                st.pc.push(cur);
                st.events.push(Ev::Add);
            }
        }
        Ok(b)
    }
    fn concretize(&mut self, st: &mut State, v: &Val) -> X<u64> {
        let e = match v {
            Val::C(k) => return Ok(*k),
            Val::E(e) => *e,
            Val::A(_) => return err("concretize aggregate"),
        };
        let w = self.ar.w(e);
        if w > 64 {
            return err("concretize wide");
        }
        if let Some(k) = self.ar.is_const(e) {
            return Ok(k as u64);
        }
        if let Some(k) = st.known.get(&e) {
            return Ok(*k);
        }
        let k = self.concretize2(st, e, w)?;
        Rc::make_mut(&mut st.known).insert(e, k);
        Ok(k)
    }
    fn concretize2(&mut self, st: &mut State, e: Id, w: u32) -> X<u64> {
        let k = self.ar.eval(e, &st.model) as u64;
        let kc = self.ar.cst(w, k as u128);
        let eq = self.ar.bin(Op::Eq, e, kc);
        if self.ar.is_const(eq) == Some(1) {
            return Ok(k);
        }
        loop {
            match self.next_replay(st) {
                Some(Ev::Neq(v)) => {
                    let c = self.ar.cst(w, v as u128);
                    let x = self.ar.bin(Op::Eq, e, c);
                    let x = self.ar.not(x);
                    st.pc.push(x);
                    st.events.push(Ev::Neq(v));
                }
                Some(Ev::Eq) => {
                    st.pc.push(eq);
                    st.events.push(Ev::Eq);
                    return Ok(k);
                }
                Some(ev) => {
                    st.events.push(ev);
                    return Ok(k);
                }
                None => break,
            }
        }
        let ne = self.ar.not(eq);
        match self.sat(st, ne)? {
            None => {
                st.events.push(Ev::Implied);
            }
            Some(m) => {
                self.note_fork(st);
                self.stats.concretized += 1;
                let mut alt = st.clone();
                alt.pc.push(ne);
                alt.model = m;
                alt.events.push(Ev::Neq(k));
                self.stack.push(alt);
                st.pc.push(eq);
                st.events.push(Ev::Eq);
            }
        }
        Ok(k)
    }

    fn tz(&self, e: Id) -> u32 {
        let n = self.ar.nodes[e as usize];
        match n.op {
            Op::Const => (n.k.trailing_zeros()).min(64),
            Op::Add | Op::Sub => self.tz(n.a).min(self.tz(n.b)),
            Op::Concat => {
                let lw = self.ar.w(n.b);
                if self.ar.is_const(n.b) == Some(0) {
                    lw + self.tz(n.a)
                } else {
                    self.tz(n.b)
                }
            }
            Op::ZExt => self.tz(n.a),
            Op::Mul => (self.tz(n.a) + self.tz(n.b)).min(64),
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            _ => 0,
        }
    }
    /// Balanced decision tree over sorted runs (start, value); `e` selects the run.
    fn tree_runs(&mut self, e: Id, w: u32, runs: &[(u128, Id)]) -> Id {
        if runs.len() == 1 {
            return runs[0].1;
        }
        let m = runs.len() / 2;
        let k = self.ar.cst(w, runs[m].0);
        let c = self.ar.bin(Op::Ult, e, k);
        if self.ar.is_const(c) == Some(1) {
            return self.tree_runs(e, w, &runs[..m]);
        }
        if self.ar.is_const(c) == Some(0) {
            return self.tree_runs(e, w, &runs[m..]);
        }
        let a = self.tree_runs(e, w, &runs[..m]);
        let b = self.tree_runs(e, w, &runs[m..]);
        self.ar.ite(c, a, b)
    }
    fn load_sym(&mut self, st: &mut State, a: Id, ty: &Ty) -> X<Val> {
        let w = match ty {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => 0,
        };
        if w > 0 && w <= 64 {
            // few concrete targets
            let lv = self.ar.leaves[a as usize];
            if lv > 1 && lv <= 300 {
                let mut bad = false;
                let mut leafs: Vec<(u128, Id)> = vec![];
                let mut todo = vec![a];
                let mut seen = HashSet::new();
                while let Some(x) = todo.pop() {
                    if !seen.insert(x) {
                        continue;
                    }
                    let n = self.ar.nodes[x as usize];
                    if n.op == Op::Const {
                        match self.load(st, n.k as u64, ty) {
                            Ok(v) => {
                                let e = self.e(&v, w)?;
                                leafs.push((n.k, e));
                            }
                            Err(_) => bad = true,
                        }
                    } else {
                        todo.push(n.b);
                        todo.push(n.c);
                    }
                }
                if !bad {
                    let map: HashMap<u128, Id> = leafs.into_iter().collect();
                    let r = self.map_tree(a, &map, &mut HashMap::new());
                    return Ok(self.norm(r));
                }
            }
            let (lo, hi) = self.ar.range[a as usize];
            let n = ((w + 7) / 8) as u64;
            if lo >> SLOT_BITS == hi >> SLOT_BITS && hi - lo < 70_000 {
                let t = self.tz(a).min(4);
                let step = 1u64 << t;
                let lo_al = (lo as u64 + step - 1) / step * step;
                let mut runs: Vec<(u128, Id)> = vec![];
                let mut ok = self.obj(st, lo_al, n).is_ok();
                let mut p = lo_al;
                while ok && p <= hi as u64 {
                    if self.obj(st, p, n).is_err() {
                        // out-of-bounds addresses must be infeasible
                        let k = self.ar.cst(64, p as u128);
                        let inb = self.ar.bin(Op::Ult, a, k);
                        let oob = self.ar.not(inb);
                        if self.sat(st, oob)?.is_some() {
                            ok = false;
                        }
                        break;
                    }
                    let v = self.load(st, p, ty)?;
                    let v = self.e(&v, w)?;
                    if runs.last().map_or(true, |r| r.1 != v) {
                        runs.push((p as u128, v));
                        if runs.len() > 600 {
                            ok = false;
                        }
                    }
                    p += step;
                }
                if ok && !runs.is_empty() {
                    let r = self.tree_runs(a, 64, &runs);
                    return Ok(self.norm(r));
                }
            }
        }
        let k = self.concretize(st, &Val::E(a))?;
        self.load(st, k, ty)
    }
    fn map_tree(&mut self, e: Id, m: &HashMap<u128, Id>, memo: &mut HashMap<Id, Id>) -> Id {
        if let Some(k) = self.ar.is_const(e) {
            return m[&k];
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let n = self.ar.nodes[e as usize];
        let x = self.map_tree(n.b, m, memo);
        let y = self.map_tree(n.c, m, memo);
        let r = self.ar.ite(n.a, x, y);
        memo.insert(e, r);
        r
    }

    // ---------------------------------------------------------------- arithmetic
    fn bin(&mut self, op: Op, w: u32, a: &Val, b: &Val) -> X<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            if w <= 64 {
                let m = m64(w);
                let r = match op {
                    Op::Add => x.wrapping_add(y),
                    Op::Sub => x.wrapping_sub(y),
                    Op::Mul => x.wrapping_mul(y),
                    Op::And => x & y,
                    Op::Or => x | y,
                    Op::Xor => x ^ y,
                    Op::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    Op::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    Op::UDiv if y != 0 => x / y,
                    Op::URem if y != 0 => x % y,
                    _ => {
                        if y == 0 && matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                            return err("division by zero reached");
                        }
                        fold(op, w, x as u128, y as u128) as u64
                    }
                };
                return Ok(Val::C(r & m));
            }
        }
        let x = self.e(a, w)?;
        let y = self.e(b, w)?;
        let r = self.ar.bin(op, x, y);
        Ok(self.norm(r))
    }
    fn cmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> X<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx(x, w) > sx(y, w),
                Pred::Sge => sx(x, w) >= sx(y, w),
                Pred::Slt => sx(x, w) < sx(y, w),
                Pred::Sle => sx(x, w) <= sx(y, w),
            };
            return Ok(Val::C(r as u64));
        }
        let x = self.e(a, w)?;
        let y = self.e(b, w)?;
        let r = match p {
            Pred::Eq => self.ar.bin(Op::Eq, x, y),
            Pred::Ne => {
                let r = self.ar.bin(Op::Eq, x, y);
                self.ar.not(r)
            }
            Pred::Ugt => self.ar.bin(Op::Ult, y, x),
            Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Ult => self.ar.bin(Op::Ult, x, y),
            Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sge => self.ar.bin(Op::Sle, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sle => self.ar.bin(Op::Sle, x, y),
        };
        Ok(self.norm(r))
    }
    fn ite(&mut self, c: Id, a: &Val, b: &Val, t: &Ty) -> X<Val> {
        if t.is_agg() {
            if let (Val::A(x), Val::A(y)) = (a, b) {
                let mut v = vec![];
                for i in 0..x.len() {
                    let ft = t.field(i);
                    v.push(self.ite(c, &x[i], &y[i], &ft)?);
                }
                return Ok(Val::A(Rc::new(v)));
            }
            return err("select aggregate");
        }
        let w = t.bits();
        let x = self.e(a, w)?;
        let y = self.e(b, w)?;
        let r = self.ar.ite(c, x, y);
        Ok(self.norm(r))
    }
    fn flatten(&mut self, v: &Val, t: &Ty) -> X<Id> {
        if t.is_agg() {
            if let Val::A(vs) = v {
                let mut r: Option<Id> = None;
                for (i, x) in vs.iter().enumerate() {
                    let ft = t.field(i);
                    let e = self.flatten(x, &ft)?;
                    r = Some(match r {
                        None => e,
                        Some(l) => {
                            if self.ar.w(l) + self.ar.w(e) > 128 {
                                return err("bitcast wider than 128 bits");
                            }
                            self.ar.concat(e, l)
                        }
                    });
                }
                return r.ok_or(End::Error("flatten".into()));
            }
            return err("flatten");
        }
        self.e(v, t.bits())
    }
    fn unflatten(&mut self, e: Id, t: &Ty) -> X<Val> {
        if t.is_agg() {
            let ew = t.field(0).bits();
            let mut v = vec![];
            for i in 0..t.nfields() as u32 {
                let x = self.ar.extract(e, i * ew + ew - 1, i * ew);
                v.push(self.norm(x));
            }
            return Ok(Val::A(Rc::new(v)));
        }
        Ok(self.norm(e))
    }
    fn cast1(&mut self, k: CastK, fw: u32, tw: u32, a: &Val) -> X<Val> {
        if let Val::C(x) = a {
            let x = *x;
            if tw <= 64 {
                return Ok(match k {
                    CastK::Trunc => Val::C(x & m64(tw)),
                    CastK::ZExt | CastK::NoOp | CastK::Bit => Val::C(x),
                    CastK::SExt => Val::C(sx(x, fw) as u64 & m64(tw)),
                    CastK::UiToFp => Val::C(if tw == 32 { (x as f32).to_bits() as u64 } else { (x as f64).to_bits() }),
                    CastK::SiToFp => {
                        let s = sx(x, fw);
                        Val::C(if tw == 32 { (s as f32).to_bits() as u64 } else { (s as f64).to_bits() })
                    }
                    CastK::FpToUi => {
                        let f = if fw == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                        Val::C(f as u64 & m64(tw))
                    }
                    CastK::FpToSi => {
                        let f = if fw == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                        Val::C(f as i64 as u64 & m64(tw))
                    }
                    CastK::FpTrunc => Val::C((f64::from_bits(x) as f32).to_bits() as u64),
                    CastK::FpExt => Val::C((f32::from_bits(x as u32) as f64).to_bits()),
                });
            }
        }
        let e = self.e(a, fw)?;
        let r = match k {
            CastK::Trunc => self.ar.trunc(e, tw),
            CastK::ZExt => self.ar.zext(e, tw),
            CastK::SExt => self.ar.sext(e, tw),
            CastK::NoOp | CastK::Bit => e,
            _ => return err("symbolic floating point"),
        };
        Ok(self.norm(r))
    }
    fn lanes2(&mut self, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, &Val, &Val) -> X<Val>) -> X<Val> {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let mut v = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    v.push(f(self, &x[i], &y[i])?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => err("vector operand"),
        }
    }

    // ---------------------------------------------------------------- control
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last().unwrap();
        let blk = &self.sh.prog.funcs[fr.f as usize].blocks[to as usize];
        let cur = fr.bb;
        if !blk.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(blk.phis.len());
            for (d, inc) in &blk.phis {
                let o = &inc.iter().find(|(b, _)| *b == cur).expect("phi edge").1;
                let v = self.opv(st, o);
                vals.push((*d, v));
            }
            let fr = st.frames.last_mut().unwrap();
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.prev = cur;
        fr.bb = to;
        fr.ip = 0;
    }

    fn stack_names(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(14).map(|f| self.sh.prog.funcs[f.f as usize].name.clone()).collect()
    }

    /// The input of the path's current model.
    pub fn input_of(&self, st: &State) -> Vec<u8> {
        let mut input: Vec<u8> = st.model.to_vec();
        input.resize(st.nvars as usize, 0);
        input
    }
    pub fn where_(&self, st: &State) -> String {
        self.stack_names(st).into_iter().take(6).collect::<Vec<_>>().join(" < ")
    }
    fn report(&mut self, st: &State, kind: &str, msg: String, model: &[u8]) {
        let mut input: Vec<u8> = model.to_vec();
        input.resize(st.nvars as usize, 0);
        let stack = self.stack_names(st);
        let key = format!("{}|{}|{}", kind, msg, stack.iter().take(4).cloned().collect::<Vec<_>>().join(","));
        if self.viol_keys.insert(key) && self.viols.len() < 50 {
            self.viols.push(Violation { kind: kind.into(), msg, input, stack });
        }
    }

    /// Run one state until its path ends.
    pub fn run(&mut self, mut st: State) -> (End, State) {
        let r = loop {
            match self.step(&mut st) {
                Ok(()) => {}
                Err(e) => break e,
            }
            if st.frames.is_empty() {
                break End::Done;
            }
        };
        self.stats.instrs += st.steps;
        (r, st)
    }

    pub fn finish_path(&mut self, end: &End, st: &State) {
        self.stats.max_events = self.stats.max_events.max(st.events.len() as u64);
        self.stats.max_steps = self.stats.max_steps.max(st.steps);
        match end {
            End::Assumed => {
                self.stats.assumed += 1;
                return;
            }
            End::ExpectedPanic => {
                self.stats.paths += 1;
                self.stats.expected_panics += 1;
            }
            End::Done | End::Fail(_) => self.stats.paths += 1,
            End::Panic(m) => {
                self.stats.paths += 1;
                let md = st.model.clone();
                self.report(st, "panic", m.clone(), &md);
            }
            End::Error(_) => return,
        }
        if matches!(end, End::Done | End::ExpectedPanic) {
            // reservoir-like sampling of completed paths, deterministic
            let n = self.stats.paths;
            let take = self.samples.len() < self.sample_cap || n.is_power_of_two();
            if take {
                let obs: Vec<u64> = st.obs.iter().map(|o| self.ar.eval(*o, &st.model) as u64).collect();
                let mut input = st.model.clone();
                input.resize(st.nvars as usize, 0);
                let s = Sample { input, obs, end: format!("{:?}", end) };
                if self.samples.len() < self.sample_cap {
                    self.samples.push(s);
                } else {
                    let i = (n.trailing_zeros() as usize * 7) % self.sample_cap;
                    self.samples[i] = s;
                }
            }
        }
    }

    #[inline(never)]
    fn step(&mut self, st: &mut State) -> X<()> {
        // run until the frame stack changes or a decision is made; keeps the hot loop tight
        loop {
            let fr = st.frames.last().unwrap();
            let prog: &'static Program = &self.sh.prog;
            let blk = &prog.funcs[fr.f as usize].blocks[fr.bb as usize];
            let ins = match blk.ins.get(fr.ip as usize) {
                Some(i) => i,
                None => return err("fell off block"),
            };
            st.steps += 1;
            if st.steps > self.max_steps {
                return err("instruction limit on one path");
            }
            match ins {
                I::Bin { op, w, lanes, a, b, d } => {
                    let (x, y) = (self.opv(st, a), self.opv(st, b));
                    let r = if *lanes == 0 { self.bin(*op, *w, &x, &y)? } else { self.lanes2(&x, &y, &mut |s, p, q| s.bin(*op, *w, p, q))? };
                    self.set(st, *d, r);
                }
                I::Icmp { p, w, lanes, a, b, d } => {
                    let (x, y) = (self.opv(st, a), self.opv(st, b));
                    let r = if *lanes == 0 { self.cmp(*p, *w, &x, &y)? } else { self.lanes2(&x, &y, &mut |s, m, q| s.cmp(*p, *w, m, q))? };
                    self.set(st, *d, r);
                }
                I::FBin { op, w, a, b, d } => {
                    let (x, y) = (self.opv(st, a), self.opv(st, b));
                    let (x, y) = (self.concretize(st, &x)?, self.concretize(st, &y)?);
                    let r = if *w == 32 {
                        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (match op {
                            FOp::Add => x + y,
                            FOp::Sub => x - y,
                            FOp::Mul => x * y,
                            FOp::Div => x / y,
                            FOp::Rem => x % y,
                            FOp::Neg => -x,
                        })
                        .to_bits() as u64
                    } else {
                        let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                        (match op {
                            FOp::Add => x + y,
                            FOp::Sub => x - y,
                            FOp::Mul => x * y,
                            FOp::Div => x / y,
                            FOp::Rem => x % y,
                            FOp::Neg => -x,
                        })
                        .to_bits()
                    };
                    self.set(st, *d, Val::C(r));
                }
                I::FCmp { pred, w, a, b, d } => {
                    let (x, y) = (self.opv(st, a), self.opv(st, b));
                    let (x, y) = (self.concretize(st, &x)?, self.concretize(st, &y)?);
                    let (x, y) = if *w == 32 { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x), f64::from_bits(y)) };
                    let un = x.is_nan() || y.is_nan();
                    let r = match pred.as_str() {
                        "oeq" => x == y,
                        "one" => !un && x != y,
                        "olt" => x < y,
                        "ole" => x <= y,
                        "ogt" => x > y,
                        "oge" => x >= y,
                        "ord" => !un,
                        "uno" => un,
                        "ueq" => un || x == y,
                        "une" => x != y,
                        "ult" => un || x < y,
                        "ule" => un || x <= y,
                        "ugt" => un || x > y,
                        "uge" => un || x >= y,
                        "true" => true,
                        _ => false,
                    };
                    self.set(st, *d, Val::C(r as u64));
                }
                I::Cast { k, from, to, a, d } => {
                    let x = self.opv(st, a);
                    let r = if *k == CastK::Bit && (from.is_agg() || to.is_agg()) {
                        let e = self.flatten(&x, from)?;
                        self.unflatten(e, to)?
                    } else if from.is_agg() {
                        let (fw, tw) = (from.field(0).bits(), to.field(0).bits());
                        match &x {
                            Val::A(v) => {
                                let mut o = vec![];
                                for y in v.iter() {
                                    o.push(self.cast1(*k, fw, tw, y)?);
                                }
                                Val::A(Rc::new(o))
                            }
                            _ => return err("vector cast"),
                        }
                    } else {
                        let x = match k {
                            CastK::Trunc | CastK::ZExt | CastK::SExt | CastK::NoOp | CastK::Bit => x,
                            _ => Val::C(self.concretize(st, &x)?),
                        };
                        self.cast1(*k, from.bits(), to.bits(), &x)?
                    };
                    self.set(st, *d, r);
                }
                I::Load { ty, p, d } => {
                    let a = self.opv(st, p);
                    let r = match a {
                        Val::C(k) => self.load(st, k, ty)?,
                        Val::E(e) => self.load_sym(st, e, ty)?,
                        _ => return err("load ptr"),
                    };
                    self.set(st, *d, r);
                }
                I::Store { ty, v, p } => {
                    let a = self.opv(st, p);
                    let a = self.concretize(st, &a)?;
                    let v = self.opv(st, v);
                    self.store(st, a, ty, &v)?;
                }
                I::Gep { base, off, idx, d } => {
                    let mut b = self.opv(st, base);
                    let mut k = *off;
                    let mut symb: Option<Id> = None;
                    for (o, w, sz) in idx {
                        match self.opv(st, o) {
                            Val::C(i) => k = k.wrapping_add((sx(i, *w) as u64).wrapping_mul(*sz)),
                            Val::E(e) => {
                                let e = self.ar.sext(e, 64);
                                let s = self.ar.cst(64, *sz as u128);
                                let e = self.ar.bin(Op::Mul, e, s);
                                symb = Some(match symb {
                                    None => e,
                                    Some(x) => self.ar.bin(Op::Add, x, e),
                                });
                            }
                            _ => return err("gep index"),
                        }
                    }
                    if let Val::C(x) = b {
                        b = Val::C(x.wrapping_add(k));
                    } else if k != 0 {
                        b = self.bin(Op::Add, 64, &b, &Val::C(k))?;
                    }
                    if let Some(e) = symb {
                        b = self.bin(Op::Add, 64, &Val::E(e), &b)?;
                    }
                    self.set(st, *d, b);
                }
                I::Alloca { size, n, d } => {
                    let n = self.opv(st, n);
                    let n = self.concretize(st, &n)?;
                    let a = self.new_obj(st, size * n)?;
                    let fr = st.frames.last_mut().unwrap();
                    fr.allocas.push((a >> SLOT_BITS) as u32);
                    fr.regs[*d as usize] = Val::C(a);
                }
                I::Select { ty, c, cvec, a, b, d } => {
                    let cv = self.opv(st, c);
                    if *cvec {
                        let (x, y) = (self.opv(st, a), self.opv(st, b));
                        if let (Val::A(c), Val::A(x), Val::A(y)) = (cv, x, y) {
                            let ft = ty.field(0);
                            let mut v = vec![];
                            for i in 0..c.len() {
                                let r = match &c[i] {
                                    Val::C(1) => x[i].clone(),
                                    Val::C(_) => y[i].clone(),
                                    Val::E(e) => {
                                        let e = *e;
                                        self.ite(e, &x[i], &y[i], &ft)?
                                    }
                                    _ => return err("select"),
                                };
                                v.push(r);
                            }
                            self.set(st, *d, Val::A(Rc::new(v)));
                        } else {
                            return err("vector select");
                        }
                    } else {
                        let r = match cv {
                            Val::C(k) => {
                                if k & 1 == 1 {
                                    self.opv(st, a)
                                } else {
                                    self.opv(st, b)
                                }
                            }
                            Val::E(e) => {
                                let (x, y) = (self.opv(st, a), self.opv(st, b));
                                self.ite(e, &x, &y, ty)?
                            }
                            _ => return err("select cond"),
                        };
                        self.set(st, *d, r);
                    }
                }
                I::Call { f, args, ret, d, normal } => {
                    return self.call(st, f, args, ret, *d, *normal);
                }
                I::Br(t) => {
                    self.jump(st, *t);
                    continue;
                }
                I::CondBr { c, t, f } => {
                    let b = match self.opv(st, c) {
                        Val::C(k) => k & 1 == 1,
                        Val::E(e) => self.branch(st, e)?,
                        _ => return err("branch cond"),
                    };
                    self.jump(st, if b { *t } else { *f });
                    continue;
                }
                I::Switch { w, v, def, cases } => {
                    let t = match self.opv(st, v) {
                        Val::C(k) => cases.iter().find(|(c, _)| *c == k as u128).map_or(*def, |c| c.1),
                        Val::E(e) => self.switch(st, e, *w, *def, cases)?,
                        _ => return err("switch"),
                    };
                    self.jump(st, t);
                    continue;
                }
                I::Ret(v) => {
                    let r = match v {
                        None => None,
                        Some((_, o)) => Some(self.opv(st, o)),
                    };
                    let fr = st.frames.pop().unwrap();
                    for s in fr.allocas.iter().rev() {
                        st.mem[*s as usize] = None;
                        st.free.push(*s);
                    }
                    if st.frames.is_empty() {
                        if let Some(Val::C(k)) = r {
                            st.tag = k;
                        }
                        return Ok(());
                    }
                    if let (Some(d), Some(r)) = (fr.ret, r) {
                        self.set(st, d, r);
                    }
                    if let Some(n) = fr.normal {
                        self.jump(st, n);
                    } else {
                        st.frames.last_mut().unwrap().ip += 1;
                    }
                    continue;
                }
                I::Unreachable => {
                    let n = self.sh.prog.funcs[st.frames.last().unwrap().f as usize].name.clone();
                    return Err(End::Panic(format!("reached unreachable code in {}", n)));
                }
                I::Extract { a, path, d } => {
                    let mut v = self.opv(st, a);
                    for i in path {
                        v = match &v {
                            Val::A(x) => x[*i].clone(),
                            _ => return err("extractvalue"),
                        };
                    }
                    self.set(st, *d, v);
                }
                I::Insert { a, v, path, d } => {
                    let a = self.opv(st, a);
                    let v = self.opv(st, v);
                    fn ins(a: &Val, v: Val, p: &[usize]) -> X<Val> {
                        if p.is_empty() {
                            return Ok(v);
                        }
                        match a {
                            Val::A(x) => {
                                let mut y = (**x).clone();
                                y[p[0]] = ins(&x[p[0]], v, &p[1..])?;
                                Ok(Val::A(Rc::new(y)))
                            }
                            _ => err("insertvalue"),
                        }
                    }
                    let r = ins(&a, v, path)?;
                    self.set(st, *d, r);
                }
                I::ExtElem { a, i, d } => {
                    let i = self.opv(st, i);
                    let i = self.concretize(st, &i)? as usize;
                    let v = match self.opv(st, a) {
                        Val::A(x) => x[i].clone(),
                        _ => return err("extractelement"),
                    };
                    self.set(st, *d, v);
                }
                I::InsElem { a, v, i, d } => {
                    let i = self.opv(st, i);
                    let i = self.concretize(st, &i)? as usize;
                    let v = self.opv(st, v);
                    let r = match self.opv(st, a) {
                        Val::A(x) => {
                            let mut y = (*x).clone();
                            y[i] = v;
                            Val::A(Rc::new(y))
                        }
                        _ => return err("insertelement"),
                    };
                    self.set(st, *d, r);
                }
                I::Shuffle { n1, a, b, mask, d } => {
                    let (x, y) = (self.opv(st, a), self.opv(st, b));
                    if let (Val::A(x), Val::A(y)) = (x, y) {
                        let v = mask
                            .iter()
                            .map(|m| {
                                if *m < 0 {
                                    x[0].clone()
                                } else if (*m as usize) < *n1 {
                                    x[*m as usize].clone()
                                } else {
                                    y[*m as usize - n1].clone()
                                }
                            })
                            .collect();
                        self.set(st, *d, Val::A(Rc::new(v)));
                    } else {
                        return err("shuffle");
                    }
                }
                I::Copy { a, d } => {
                    let v = self.opv(st, a);
                    self.set(st, *d, v);
                }
                I::Rmw { op, w, p, v, d } => {
                    let p = self.opv(st, p);
                    let p = self.concretize(st, &p)?;
                    let v = self.opv(st, v);
                    let old = self.load_int(st, p, *w)?;
                    let new = match op.as_str() {
                        "xchg" => v,
                        "add" => self.bin(Op::Add, *w, &old, &v)?,
                        "sub" => self.bin(Op::Sub, *w, &old, &v)?,
                        "and" => self.bin(Op::And, *w, &old, &v)?,
                        "or" => self.bin(Op::Or, *w, &old, &v)?,
                        "xor" => self.bin(Op::Xor, *w, &old, &v)?,
                        o => return err(format!("atomicrmw {}", o)),
                    };
                    self.store_int(st, p, *w, &new)?;
                    self.set(st, *d, old);
                }
                I::CmpXchg { w, p, c, n, d } => {
                    let p = self.opv(st, p);
                    let p = self.concretize(st, &p)?;
                    let (c, n) = (self.opv(st, c), self.opv(st, n));
                    let old = self.load_int(st, p, *w)?;
                    let eq = self.cmp(Pred::Eq, *w, &old, &c)?;
                    let eq = match eq {
                        Val::C(k) => k,
                        _ => return err("symbolic cmpxchg"),
                    };
                    if eq == 1 {
                        self.store_int(st, p, *w, &n)?;
                    }
                    self.set(st, *d, Val::A(Rc::new(vec![old, Val::C(eq)])));
                }
                I::Nop => {}
                I::Landing => return err("landing pad reached"),
            }
            st.frames.last_mut().unwrap().ip += 1;
        }
    }

    fn switch(&mut self, st: &mut State, e: Id, w: u32, def: u32, cases: &[(u128, u32)]) -> X<u32> {
        if let Some(f) = st.force.take() {
            return Ok(f as u32);
        }
        // group by target
        let mut groups: Vec<(u32, Id)> = vec![];
        let mut any = self.ar.cst(1, 0);
        for (k, t) in cases {
            let kc = self.ar.cst(w, *k);
            let c = self.ar.bin(Op::Eq, e, kc);
            any = self.ar.bin(Op::Or, any, c);
            if let Some(g) = groups.iter_mut().find(|g| g.0 == *t) {
                g.1 = self.ar.bin(Op::Or, g.1, c);
            } else {
                groups.push((*t, c));
            }
        }
        let dc = self.ar.not(any);
        if let Some(g) = groups.iter_mut().find(|g| g.0 == def) {
            g.1 = self.ar.bin(Op::Or, g.1, dc);
        } else {
            groups.push((def, dc));
        }
        let cur = {
            let mut r = None;
            for (i, g) in groups.iter().enumerate() {
                if self.ar.eval(g.1, &st.model) == 1 {
                    r = Some(i);
                    break;
                }
            }
            r.ok_or_else(|| End::Error("switch: no target".into()))?
        };
        if let Some(ev) = self.next_replay(st) {
            if let Ev::Add = ev {
                st.pc.push(groups[cur].1);
            }
            st.events.push(ev);
            return Ok(groups[cur].0);
        }
        let mut forked = false;
        let base = st.clone();
        for (i, g) in groups.iter().enumerate() {
            if i == cur {
                continue;
            }
            if let Some(m) = self.sat(&base, g.1)? {
                self.note_fork(st);
                let mut alt = base.clone();
                alt.pc.push(g.1);
                alt.model = m;
                alt.events.push(Ev::Add);
                alt.force = Some(g.0 as u64);
                self.stack.push(alt);
                forked = true;
            }
        }
        if forked {
            st.pc.push(groups[cur].1);
            st.events.push(Ev::Add);
        } else {
            st.events.push(Ev::Implied);
        }
        Ok(groups[cur].0)
    }

    fn call(&mut self, st: &mut State, f: &'static Callee, args: &'static [(Ty, Opnd)], ret: &'static Ty, d: Option<u32>, normal: Option<u32>) -> X<()> {
        let fi = match f {
            Callee::Func(i) => *i,
            Callee::Ind(o) => {
                let a = self.opv(st, o);
                let a = self.concretize(st, &a)?;
                let s = a >> SLOT_BITS;
                if a & OFFM != 0 || s == 0 || s > self.sh.prog.funcs.len() as u64 {
                    return Err(End::Panic(format!("memory fault: call of {:#x}", a)));
                }
                (s - 1) as u32
            }
            Callee::Asm => {
                // empty asm used as an optimisation barrier
                let v = if let Some(dd) = d {
                    let v = if let Some((_, o)) = args.first() { self.opv(st, o) } else { Val::C(0) };
                    Some((dd, v))
                } else {
                    None
                };
                if let Some((dd, v)) = v {
                    self.set(st, dd, v);
                }
                st.frames.last_mut().unwrap().ip += 1;
                return Ok(());
            }
        };
        let bi = self.sh.bi[fi as usize];
        if bi != BI::None {
            let mut vals = Vec::with_capacity(args.len());
            for (_, o) in args {
                vals.push(self.opv(st, o));
            }
            let r = if bi == BI::Summary {
                // argument is the last parameter
                match vals.last() {
                    Some(Val::E(e)) => {
                        let e = *e;
                        match self.summary(st, fi, e, &vals)? {
                            Some(r) => Some(r),
                            None => None,
                        }
                    }
                    _ => None,
                }
            } else {
                Some(self.builtin(st, fi, bi, &vals, args, ret)?)
            };
            if let Some(r) = r {
                if let (Some(d), Some(v)) = (d, r) {
                    self.set(st, d, v);
                }
                if let Some(n) = normal {
                    self.jump(st, n);
                } else {
                    st.frames.last_mut().unwrap().ip += 1;
                }
                return Ok(());
            }
        }
        let fun = &self.sh.prog.funcs[fi as usize];
        if !fun.defined {
            return err(format!("call of external function {}", fun.name));
        }
        if let Some(e) = &fun.err {
            return err(format!("unsupported code in {}: {}", fun.name, e));
        }
        if st.frames.len() > 400 {
            return err("call depth");
        }
        self.used[fi as usize] = true;
        let mut regs = vec![Val::C(0); fun.nregs as usize];
        for (i, (_, o)) in args.iter().enumerate() {
            if i < fun.params.len() {
                regs[fun.params[i].1 as usize] = self.opv(st, o);
            }
        }
        st.frames.push(Frame { f: fi, bb: 0, ip: 0, prev: u32::MAX, regs, allocas: vec![], ret: d, normal });
        Ok(())
    }

    fn cstr(&mut self, st: &State, p: u64, n: u64) -> String {
        match self.obj(st, p, n) {
            Ok((o, off)) => String::from_utf8_lossy(&o.data[off..off + n as usize]).into_owned(),
            Err(_) => "?".into(),
        }
    }

    fn panic_loc(&mut self, st: &State, vals: &[Val]) -> String {
        // #[track_caller]: last argument is &Location { file: &str, line, col }
        if let Some(Val::C(a)) = vals.last() {
            if let (Ok(Val::C(p)), Ok(Val::C(n)), Ok(Val::C(line))) = (self.load_int(st, *a, 64), self.load_int(st, a + 8, 64), self.load_int(st, a + 16, 32)) {
                if n > 0 && n < 300 {
                    let f = self.cstr(st, p, n);
                    if f.contains(".rs") {
                        return format!("{}:{}", f.trim_end_matches('\0'), line);
                    }
                }
            }
        }
        "?".into()
    }

    fn builtin(&mut self, st: &mut State, fi: u32, bi: BI, v: &[Val], args: &[(Ty, Opnd)], ret: &Ty) -> X<Option<Val>> {
        macro_rules! c {
            ($i:expr) => {{
                let x = v[$i].clone();
                self.concretize(st, &x)?
            }};
        }
        Ok(match bi {
            BI::Panic => {
                if st.expect_panic {
                    return Err(End::ExpectedPanic);
                }
                let l = self.panic_loc(st, v);
                return Err(End::Panic(format!("panic at {}", l)));
            }
            BI::Abort => {
                if st.expect_panic {
                    return Err(End::ExpectedPanic);
                }
                return Err(End::Panic("abort".into()));
            }
            BI::Any => {
                let (p, n) = (c!(0), c!(1));
                let base = st.nvars;
                st.nvars += n as u32;
                if st.nvars as usize > NV * 64 {
                    return err("too many symbolic bytes");
                }
                if st.model.len() < st.nvars as usize {
                    st.model.resize(st.nvars as usize, 0);
                }
                for i in 0..n {
                    let x = self.ar.var(base + i as u32);
                    self.store_int(st, p + i, 8, &Val::E(x))?;
                }
                None
            }
            BI::Conc => Some(Val::C(c!(0))),
            BI::Assume => {
                match &v[0] {
                    Val::C(k) => {
                        if *k & 1 == 0 {
                            return Err(End::Assumed);
                        }
                    }
                    Val::E(e) => {
                        let e = *e;
                        let e = if self.ar.w(e) > 1 { self.ar.trunc(e, 1) } else { e };
                        if self.ar.is_const(e) == Some(0) {
                            return Err(End::Assumed);
                        }
                        if self.ar.is_const(e).is_none() {
                            if let Some(ev) = self.next_replay(st) {
                                st.events.push(ev);
                                st.pc.push(e);
                            } else {
                                if self.ar.eval(e, &st.model) != 1 {
                                    match self.sat(st, e)? {
                                        None => return Err(End::Assumed),
                                        Some(m) => st.model = m,
                                    }
                                }
                                st.pc.push(e);
                                st.events.push(Ev::Add);
                            }
                        }
                    }
                    _ => return err("assume"),
                }
                None
            }
            BI::Assert => {
                self.stats.asserts += 1;
                let (mp, mn) = (c!(1), c!(2));
                match &v[0] {
                    Val::C(k) => {
                        if *k & 1 == 0 {
                            let m = self.cstr(st, mp, mn);
                            let md = st.model.clone();
                            self.report(st, "assert", m.clone(), &md);
                            return Err(End::Fail(m));
                        }
                    }
                    Val::E(e) => {
                        let e = *e;
                        let e = if self.ar.w(e) > 1 { self.ar.trunc(e, 1) } else { e };
                        match self.ar.is_const(e) {
                            Some(1) => {}
                            Some(_) => {
                                let m = self.cstr(st, mp, mn);
                                let md = st.model.clone();
                                self.report(st, "assert", m.clone(), &md);
                                return Err(End::Fail(m));
                            }
                            None => {
                                if let Some(ev) = self.next_replay(st) {
                                    st.events.push(ev);
                                    if let Ev::Add = ev {
                                        st.pc.push(e);
                                    }
                                } else {
                                    self.stats.asserts_solver += 1;
                                    let ne = self.ar.not(e);
                                    match self.sat(st, ne)? {
                                        None => st.events.push(Ev::Implied),
                                        Some(bad) => {
                                            let m = self.cstr(st, mp, mn);
                                            self.report(st, "assert", m.clone(), &bad);
                                            if self.ar.eval(e, &st.model) != 1 {
                                                match self.sat(st, e)? {
                                                    None => return Err(End::Fail(m)),
                                                    Some(g) => st.model = g,
                                                }
                                            }
                                            st.pc.push(e);
                                            st.events.push(Ev::Add);
                                        }
                                    }
                                }
                            }
                        }
                    }
                    _ => return err("assert"),
                }
                None
            }
            BI::Cover => {
                let (p, n) = (c!(0), c!(1));
                let s = self.cstr(st, p, n);
                *self.covers.entry(s).or_insert(0) += 1;
                None
            }
            BI::Observe => {
                let e = self.e(&v[0], 64)?;
                st.obs.push(e);
                None
            }
            BI::ExpectPanic => {
                st.expect_panic = c!(0) & 1 == 1;
                None
            }
            BI::Alloc | BI::AllocZ => {
                let n = c!(0);
                Some(Val::C(self.new_obj(st, n)?))
            }
            BI::Dealloc | BI::Free => {
                let p = c!(0);
                if !(bi == BI::Free && p == 0) {
                    self.free_obj(st, p)?;
                }
                None
            }
            BI::Realloc | BI::CRealloc => {
                let p = c!(0);
                let n = if bi == BI::Realloc { c!(3) } else { c!(1) };
                let s = (p >> SLOT_BITS) as usize;
                if p & OFFM == 0 && s >= self.sh.prog.next_slot as usize && s < st.mem.len() {
                    if let Some(o) = &mut st.mem[s] {
                        let o = Rc::make_mut(o);
                        o.data.resize(n as usize, 0);
                        if !o.sym.is_empty() {
                            o.sym.resize(n as usize, 0);
                        }
                        return Ok(Some(Val::C(p)));
                    }
                }
                return Err(End::Panic("memory fault: invalid realloc".into()));
            }
            BI::Malloc => {
                let n = c!(0);
                Some(Val::C(self.new_obj(st, n)?))
            }
            BI::Calloc => {
                let n = c!(0) * c!(1);
                Some(Val::C(self.new_obj(st, n)?))
            }
            BI::MemAlign => {
                let (p, n) = (c!(0), c!(2));
                let a = self.new_obj(st, n)?;
                self.store_int(st, p, 64, &Val::C(a))?;
                Some(Val::C(0))
            }
            BI::Memcpy => {
                let (d, s, n) = (c!(0), c!(1), c!(2));
                self.memcpy(st, d, s, n)?;
                Some(Val::C(d))
            }
            BI::Memset => {
                let (d, n) = (c!(0), c!(2));
                if n > 0 {
                    match &v[1] {
                        Val::C(k) => {
                            let k = *k as u8;
                            let (o, off) = self.obj_mut(st, d, n)?;
                            let n = n as usize;
                            o.data[off..off + n].fill(k);
                            if !o.sym.is_empty() {
                                o.sym[off..off + n].fill(0);
                            }
                        }
                        _ => return err("symbolic memset"),
                    }
                }
                Some(Val::C(d))
            }
            BI::Bcmp | BI::Memcmp => {
                let (a, b, n) = (c!(0), c!(1), c!(2));
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let (oa, fa) = self.obj(st, a, n)?;
                let (ob, fb) = self.obj(st, b, n)?;
                let mut first = None; // first concrete difference
                let mut pairs = vec![];
                for i in 0..n as usize {
                    let (x, xe) = self.byte(oa, fa + i);
                    let (y, ye) = self.byte(ob, fb + i);
                    if xe == 0 && ye == 0 {
                        if x != y {
                            first = Some(if x < y { -1i32 } else { 1 });
                            break;
                        }
                    } else {
                        pairs.push((x, xe, y, ye));
                    }
                }
                if bi == BI::Bcmp && first.is_some() {
                    return Ok(Some(Val::C(1)));
                }
                let mut r = self.ar.cst(32, first.unwrap_or(0) as u32 as u128);
                for (x, xe, y, ye) in pairs.into_iter().rev() {
                    let x = if xe != 0 { xe } else { self.ar.cst(8, x as u128) };
                    let y = if ye != 0 { ye } else { self.ar.cst(8, y as u128) };
                    let eq = self.ar.bin(Op::Eq, x, y);
                    if bi == BI::Bcmp {
                        // keep it boolean: accumulate equality
                        let one = self.ar.cst(32, 1);
                        r = self.ar.ite(eq, r, one);
                    } else {
                        let lt = self.ar.bin(Op::Ult, x, y);
                        let m1 = self.ar.cst(32, u32::MAX as u128);
                        let p1 = self.ar.cst(32, 1);
                        let d = self.ar.ite(lt, m1, p1);
                        r = self.ar.ite(eq, r, d);
                    }
                }
                Some(self.norm(r))
            }
            BI::Strlen => {
                let p = c!(0);
                let mut n = 0;
                loop {
                    match self.load_int(st, p + n, 8)? {
                        Val::C(0) => break,
                        Val::C(_) => n += 1,
                        _ => return err("symbolic strlen"),
                    }
                }
                Some(Val::C(n))
            }
            BI::Nop => None,
            BI::Zero => Some(Val::C(0)),
            BI::RandKeys => Some(Val::A(Rc::new(vec![Val::C(0x0123_4567_89ab_cdef), Val::C(0x0f1e_2d3c_4b5a_6978)]))),
            BI::HashWrite => None,
            BI::HashFinish => Some(Val::C(0)),
            BI::Ident => Some(v[0].clone()),
            BI::Expect => Some(v[0].clone()),
            BI::IsConst => Some(Val::C(0)),
            BI::Arith => {
                let name: &'static str = &self.sh.prog.funcs[fi as usize].name;
                let rt = if let Ty::Struct(f, _) = ret { f[0].clone() } else { ret.clone() };
                if args.first().map_or(false, |a| a.0.is_vec()) && ret.is_vec() {
                    // lane-wise
                    let et = ret.field(0);
                    let n = ret.nfields();
                    let mut out = vec![];
                    for i in 0..n {
                        let mut la = vec![];
                        for x in v {
                            la.push(match x {
                                Val::A(y) => y[i].clone(),
                                o => o.clone(),
                            });
                        }
                        out.push(self.arith(name, &la, et.bits(), &et)?);
                    }
                    return Ok(Some(Val::A(Rc::new(out))));
                }
                let w = match args.first() {
                    Some((t, _)) => t.bits(),
                    None => 0,
                };
                let _ = rt;
                if args.first().map_or(false, |a| a.0.is_vec()) {
                    return Ok(Some(self.vec_reduce(name, &v[0], &args[0].0)?));
                }
                Some(match self.arith(name, v, w, ret) {
                    // no symbolic encoding: split into one path per operand value instead
                    Err(End::Error(_)) if v.iter().any(|x| !matches!(x, Val::C(_))) => {
                        let mut cv = vec![];
                        for x in v.iter() {
                            cv.push(Val::C(self.concretize(st, x)?));
                        }
                        self.arith(name, &cv, w, ret)?
                    }
                    r => r?,
                })
            }
            _ => return err(format!("builtin {:?}", bi)),
        })
    }

    fn vec_reduce(&mut self, name: &str, v: &Val, t: &Ty) -> X<Val> {
        let w = t.field(0).bits();
        let vs = match v {
            Val::A(x) => x.clone(),
            _ => return err("vector"),
        };
        if name.starts_with("llvm.x86.sse2.pmovmskb") {
            let mut r: Option<Id> = None;
            for x in vs.iter() {
                let e = self.e(x, w)?;
                let b = self.ar.extract(e, w - 1, w - 1);
                r = Some(match r {
                    None => b,
                    Some(l) => self.ar.concat(b, l),
                });
            }
            let r = self.ar.zext(r.unwrap(), 32);
            return Ok(self.norm(r));
        }
        let op = if name.contains("reduce.or") {
            Op::Or
        } else if name.contains("reduce.and") {
            Op::And
        } else if name.contains("reduce.add") {
            Op::Add
        } else if name.contains("reduce.xor") {
            Op::Xor
        } else {
            return err(format!("vector intrinsic {}", name));
        };
        let mut acc = vs[0].clone();
        for x in &vs[1..] {
            acc = self.bin(op, w, &acc, x)?;
        }
        Ok(acc)
    }

    fn arith(&mut self, name: &str, v: &[Val], w: u32, ret: &Ty) -> X<Val> {
        let n = &name[5..];
        // concrete fast path through u128
        let conc: Option<Vec<u128>> = v
            .iter()
            .map(|x| match x {
                Val::C(k) => Some(*k as u128),
                Val::E(e) => self.ar.is_const(*e),
                _ => None,
            })
            .collect();
        let m = mask(w);
        let mk = |s: &mut Self, w: u32, k: u128| if w <= 64 { Val::C((k & mask(w)) as u64) } else { Val::E(s.ar.cst(w, k)) };
        macro_rules! pair {
            ($k:expr, $o:expr) => {{
                let a = mk(self, w, $k);
                Val::A(Rc::new(vec![a, Val::C($o as u64)]))
            }};
        }
        if let Some(k) = conc {
            let (x, y) = (k[0], *k.get(1).unwrap_or(&0));
            let (sx_, sy_) = (sext(x, w), sext(y, w));
            let smax = (m >> 1) as i128;
            let smin = -smax - 1;
            let r = if n.starts_with("uadd.with") {
                match x.checked_add(y) {
                    Some(r) => return Ok(pair!(r & m, r > m)),
                    None => return Ok(pair!(x.wrapping_add(y), true)),
                }
            } else if n.starts_with("usub.with") {
                return Ok(pair!(x.wrapping_sub(y) & m, y > x));
            } else if n.starts_with("umul.with") {
                match x.checked_mul(y) {
                    Some(r) => return Ok(pair!(r & m, r > m)),
                    None => return Ok(pair!(x.wrapping_mul(y) & m, true)),
                }
            } else if n.starts_with("sadd.with") || n.starts_with("ssub.with") || n.starts_with("smul.with") {
                let r = if n.starts_with("sadd") {
                    sx_.checked_add(sy_)
                } else if n.starts_with("ssub") {
                    sx_.checked_sub(sy_)
                } else {
                    sx_.checked_mul(sy_)
                };
                match r {
                    Some(r) => return Ok(pair!(r as u128 & m, r > smax || r < smin)),
                    None => return Ok(pair!(0, true)),
                }
            } else if n.starts_with("uadd.sat") {
                x.saturating_add(y).min(m)
            } else if n.starts_with("usub.sat") {
                x.saturating_sub(y)
            } else if n.starts_with("sadd.sat") {
                sx_.saturating_add(sy_).clamp(smin, smax) as u128
            } else if n.starts_with("ssub.sat") {
                sx_.saturating_sub(sy_).clamp(smin, smax) as u128
            } else if n.starts_with("umax") {
                x.max(y)
            } else if n.starts_with("umin") {
                x.min(y)
            } else if n.starts_with("smax") {
                sx_.max(sy_) as u128
            } else if n.starts_with("smin") {
                sx_.min(sy_) as u128
            } else if n.starts_with("abs") {
                sx_.unsigned_abs()
            } else if n.starts_with("ctlz") {
                (x.leading_zeros() - (128 - w)) as u128
            } else if n.starts_with("cttz") {
                x.trailing_zeros().min(w) as u128
            } else if n.starts_with("ctpop") {
                x.count_ones() as u128
            } else if n.starts_with("bswap") {
                x.swap_bytes() >> (128 - w)
            } else if n.starts_with("bitreverse") {
                x.reverse_bits() >> (128 - w)
            } else if n.starts_with("ucmp") || n.starts_with("scmp") {
                let o = if n.starts_with("ucmp") { x.cmp(&y) } else { sx_.cmp(&sy_) };
                return Ok(Val::C(o as i8 as i64 as u64 & m64(ret.bits())));
            } else if n.starts_with("fshl") || n.starts_with("fshr") {
                let s = (k[2] % w as u128) as u32;
                if n.starts_with("fshl") {
                    if s == 0 {
                        x
                    } else {
                        (x << s) | (y >> (w - s))
                    }
                } else if s == 0 {
                    y
                } else {
                    (x << (w - s)) | (y >> s)
                }
            } else {
                return err(format!("intrinsic {}", name));
            };
            return Ok(mk(self, w, r & m));
        }
        // symbolic
        let x = self.e(&v[0], w)?;
        let r = if n.starts_with("ctlz") || n.starts_with("cttz") || n.starts_with("ctpop") {
            let mut r = self.ar.cst(w, if n.starts_with("ctpop") { 0 } else { w as u128 });
            for i in 0..w {
                let bit = if n.starts_with("ctlz") { i } else { w - 1 - i };
                let b = self.ar.extract(x, bit, bit);
                if n.starts_with("ctpop") {
                    let z = self.ar.zext(b, w);
                    r = self.ar.bin(Op::Add, r, z);
                } else {
                    let k = if n.starts_with("ctlz") { w - 1 - bit } else { bit };
                    let kc = self.ar.cst(w, k as u128);
                    r = self.ar.ite(b, kc, r);
                }
            }
            r
        } else if n.starts_with("bswap") {
            let mut r: Option<Id> = None;
            for i in 0..w / 8 {
                let hi = w - 1 - 8 * i;
                let b = self.ar.extract(x, hi, hi - 7);
                r = Some(match r {
                    None => b,
                    Some(l) => self.ar.concat(b, l),
                });
            }
            r.unwrap()
        } else if n.starts_with("abs") {
            let z = self.ar.cst(w, 0);
            let neg = self.ar.bin(Op::Slt, x, z);
            let mn = self.ar.bin(Op::Sub, z, x);
            self.ar.ite(neg, mn, x)
        } else {
            let y = self.e(&v[1], w)?;
            let pr = |s: &mut Self, a: Id, o: Id| {
                let (a, o) = (s.norm(a), s.norm(o));
                Val::A(Rc::new(vec![a, o]))
            };
            if n.starts_with("uadd.with") {
                let r = self.ar.bin(Op::Add, x, y);
                let o = self.ar.bin(Op::Ult, r, x);
                // interval refinement: no overflow if the ranges allow none
                let o = if self.ar.range[x as usize].1.checked_add(self.ar.range[y as usize].1).map_or(false, |s| s <= m) { self.ar.cst(1, 0) } else { o };
                return Ok(pr(self, r, o));
            } else if n.starts_with("usub.with") {
                let r = self.ar.bin(Op::Sub, x, y);
                let o = self.ar.bin(Op::Ult, x, y);
                return Ok(pr(self, r, o));
            } else if n.starts_with("umul.with") {
                let r = self.ar.bin(Op::Mul, x, y);
                let o = if self.ar.range[x as usize].1.checked_mul(self.ar.range[y as usize].1).map_or(false, |s| s <= m) {
                    self.ar.cst(1, 0)
                } else if 2 * w <= 128 {
                    let (xx, yy) = (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w));
                    let p = self.ar.bin(Op::Mul, xx, yy);
                    let h = self.ar.extract(p, 2 * w - 1, w);
                    let z = self.ar.cst(w, 0);
                    let q = self.ar.bin(Op::Eq, h, z);
                    self.ar.not(q)
                } else if let Some(k) = self.ar.is_const(y).filter(|k| *k != 0) {
                    let lim = self.ar.cst(w, m / k);
                    self.ar.bin(Op::Ult, lim, x)
                } else {
                    return err("wide umul.with.overflow");
                };
                return Ok(pr(self, r, o));
            } else if n.starts_with("sadd.with") || n.starts_with("ssub.with") {
                let op = if n.starts_with("sadd") { Op::Add } else { Op::Sub };
                let half = 1u128 << (w - 1);
                let (rx, ry) = (self.ar.range[x as usize].1, self.ar.range[y as usize].1);
                if rx < half && ry < half && (op == Op::Sub || rx + ry < half) {
                    let r = self.ar.bin(op, x, y);
                    let o = self.ar.cst(1, 0);
                    return Ok(pr(self, r, o));
                }
                if w >= 128 {
                    let r = self.ar.bin(op, x, y);
                    let a = self.ar.bin(Op::Xor, x, r);
                    let b = if op == Op::Add { self.ar.bin(Op::Xor, y, r) } else { self.ar.bin(Op::Xor, x, y) };
                    let c = self.ar.bin(Op::And, a, b);
                    let o = self.ar.extract(c, w - 1, w - 1);
                    return Ok(pr(self, r, o));
                }
                let (xx, yy) = (self.ar.sext(x, w + 1), self.ar.sext(y, w + 1));
                let p = self.ar.bin(op, xx, yy);
                let r = self.ar.bin(op, x, y);
                let rr = self.ar.sext(r, w + 1);
                let q = self.ar.bin(Op::Eq, p, rr);
                let o = self.ar.not(q);
                return Ok(pr(self, r, o));
            } else if n.starts_with("smul.with") && {
                let half = 1u128 << (w - 1);
                self.ar.range[x as usize].1.checked_mul(self.ar.range[y as usize].1).map_or(false, |p| p < half)
            } {
                let r = self.ar.bin(Op::Mul, x, y);
                let o = self.ar.cst(1, 0);
                return Ok(pr(self, r, o));
            } else if n.starts_with("smul.with") && 2 * w > 128 && self.ar.is_const(y).map_or(false, |k| k != 0 && k >> (w - 1) == 0) {
                let k = self.ar.is_const(y).unwrap() as i128;
                let (mx, mn) = ((m >> 1) as i128, -((m >> 1) as i128) - 1);
                let (hi, lo) = (self.ar.cst(w, (mx / k) as u128 & m), self.ar.cst(w, (mn / k) as u128 & m));
                let (a, b) = (self.ar.bin(Op::Slt, hi, x), self.ar.bin(Op::Slt, x, lo));
                let o = self.ar.bin(Op::Or, a, b);
                let r = self.ar.bin(Op::Mul, x, y);
                return Ok(pr(self, r, o));
            } else if n.starts_with("smul.with") && 2 * w <= 128 {
                let (xx, yy) = (self.ar.sext(x, 2 * w), self.ar.sext(y, 2 * w));
                let p = self.ar.bin(Op::Mul, xx, yy);
                let r = self.ar.bin(Op::Mul, x, y);
                let rr = self.ar.sext(r, 2 * w);
                let q = self.ar.bin(Op::Eq, p, rr);
                let o = self.ar.not(q);
                return Ok(pr(self, r, o));
            } else if n.starts_with("uadd.sat") {
                let r = self.ar.bin(Op::Add, x, y);
                let o = self.ar.bin(Op::Ult, r, x);
                let mx = self.ar.cst(w, m);
                self.ar.ite(o, mx, r)
            } else if n.starts_with("usub.sat") {
                let r = self.ar.bin(Op::Sub, x, y);
                let o = self.ar.bin(Op::Ult, x, y);
                let z = self.ar.cst(w, 0);
                self.ar.ite(o, z, r)
            } else if n.starts_with("umax") || n.starts_with("umin") || n.starts_with("smax") || n.starts_with("smin") {
                let c = if n.starts_with('u') { self.ar.bin(Op::Ult, x, y) } else { self.ar.bin(Op::Slt, x, y) };
                if n[1..].starts_with("max") {
                    self.ar.ite(c, y, x)
                } else {
                    self.ar.ite(c, x, y)
                }
            } else if n.starts_with("ucmp") || n.starts_with("scmp") {
                let op = if n.starts_with('u') { Op::Ult } else { Op::Slt };
                let rw = ret.bits();
                let lt = self.ar.bin(op, x, y);
                let gt = self.ar.bin(op, y, x);
                let (m1, z, p1) = (self.ar.cst(rw, mask(rw)), self.ar.cst(rw, 0), self.ar.cst(rw, 1));
                let t = self.ar.ite(gt, p1, z);
                self.ar.ite(lt, m1, t)
            } else if n.starts_with("fshl") || n.starts_with("fshr") {
                let s = self.e(&v[2], w)?;
                let s = match self.ar.is_const(s) {
                    Some(k) => (k % w as u128) as u32,
                    None => return err("symbolic funnel shift"),
                };
                if s == 0 {
                    if n.starts_with("fshl") {
                        x
                    } else {
                        y
                    }
                } else {
                    let s = if n.starts_with("fshl") { s } else { w - s };
                    let hi = self.ar.extract(x, w - 1 - s, 0);
                    let lo = self.ar.extract(y, w - 1, w - s);
                    self.ar.concat(hi, lo)
                }
            } else {
                return err(format!("symbolic intrinsic {}", name));
            }
        };
        Ok(self.norm(r))
    }

    // ---------------------------------------------------------------- character-table summaries
    /// Exact table of a one-argument function over all Unicode scalar values, obtained by running its own code.
    fn sum_table(&mut self, fi: u32) -> Option<Arc<Vec<(u32, Vec<u8>)>>> {
        let sh = self.sh;
        if let Some(t) = sh.sums[fi as usize].get() {
            return t.clone();
        }
        let _g = sh.sum_lock.lock().unwrap();
        if let Some(t) = sh.sums[fi as usize].get() {
            return t.clone();
        }
        let f = &sh.prog.funcs[fi as usize];
        let sret = f.params.len() == 2;
        let n = sh.threads as u32;
        let total = 0x110000u32;
        let chunk = (total + n - 1) / n;
        let parts: Vec<Option<Vec<(u32, Vec<u8>)>>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..n)
                .map(|t| {
                    sc.spawn(move || {
                        let mut m = Machine::new(sh, 1000);
                        let mut runs: Vec<(u32, Vec<u8>)> = vec![];
                        let mut st = Some(m.start(fi, vec![], None));
                        for cp in t * chunk..((t + 1) * chunk).min(total) {
                            if (0xD800..0xE000).contains(&cp) && !runs.is_empty() {
                                continue;
                            }
                            let cpx = if (0xD800..0xE000).contains(&cp) { 0xE000 } else { cp };
                            let out = m.conc_call(&mut st, fi, cpx, sret)?;
                            if runs.last().map_or(true, |r| r.1 != out) {
                                runs.push((cp, out));
                            }
                        }
                        Some(runs)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(None)).collect()
        });
        let mut all: Vec<(u32, Vec<u8>)> = vec![];
        let mut ok = true;
        for p in parts {
            match p {
                None => {
                    ok = false;
                    break;
                }
                Some(rs) => {
                    for r in rs {
                        if all.last().map_or(true, |x: &(u32, Vec<u8>)| x.1 != r.1) {
                            all.push(r);
                        }
                    }
                }
            }
        }
        let res = if ok { Some(Arc::new(all)) } else { None };
        let _ = sh.sums[fi as usize].set(res.clone());
        res
    }
    fn conc_call(&mut self, slot: &mut Option<State>, fi: u32, cp: u32, sret: bool) -> Option<Vec<u8>> {
        let mut st = slot.take()?;
        let f = &self.sh.prog.funcs[fi as usize];
        if f.err.is_some() {
            return None;
        }
        st.frames.clear();
        st.steps = 0;
        let mut args = vec![];
        let mut addr = 0;
        if sret {
            addr = self.new_obj(&mut st, 64).ok()?;
            args.push(Val::C(addr));
        }
        args.push(Val::C(cp as u64));
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            regs[f.params[i].1 as usize] = a;
        }
        st.frames.push(Frame { f: fi, bb: 0, ip: 0, prev: u32::MAX, regs, allocas: vec![], ret: None, normal: None });
        let (end, mut st) = self.run(st);
        if end != End::Done {
            return None;
        }
        let r = if sret {
            let v = self.obj(&st, addr, 64).ok()?.0.data.clone();
            self.free_obj(&mut st, addr).ok()?;
            v
        } else {
            st.tag.to_le_bytes().to_vec()
        };
        *slot = Some(st);
        Some(r)
    }
    /// The rows of that table for the constants an argument chooses between.
    fn leaf_table(&mut self, fi: u32, e: Id) -> Option<Arc<Vec<(u32, Vec<u8>)>>> {
        let mut ks = std::collections::BTreeSet::new();
        let mut todo = vec![e];
        let mut seen = HashSet::new();
        while let Some(x) = todo.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = self.ar.nodes[x as usize];
            if n.op == Op::Const {
                ks.insert(n.k as u32);
            } else {
                todo.push(n.b);
                todo.push(n.c);
            }
        }
        let sret = self.sh.prog.funcs[fi as usize].params.len() == 2;
        let mut rows = vec![];
        for k in ks {
            if (0xD800..0xE000).contains(&k) || k >= 0x110000 {
                return self.sum_table(fi);
            }
            if let Some(r) = self.leaf_memo.get(&(fi, k)) {
                rows.push((k, r.clone()));
                continue;
            }
            if self.aux.is_none() {
                self.aux = Some(Box::new(Machine::new(self.sh, 1000)));
            }
            let m = self.aux.as_mut().unwrap();
            let mut st = Some(m.start(fi, vec![], None));
            let out = m.conc_call(&mut st, fi, k, sret)?;
            self.leaf_memo.insert((fi, k), out.clone());
            rows.push((k, out));
        }
        Some(Arc::new(rows))
    }
    fn summary(&mut self, st: &mut State, fi: u32, e: Id, vals: &[Val]) -> X<Option<Option<Val>>> {
        let f = &self.sh.prog.funcs[fi as usize];
        let lv = self.ar.leaves[e as usize];
        let table = if lv > 1 && lv <= 300 {
            match self.leaf_table(fi, e) {
                Some(t) => t,
                None => return Ok(None),
            }
        } else {
            match self.sum_table(fi) {
                Some(t) => t,
                None => return Ok(None),
            }
        };
        self.stats.summaries_used += 1;
        self.used[fi as usize] = true;
        let sret = f.params.len() == 2;
        let w = self.ar.w(e);
        if sret {
            let addr = self.concretize(st, &vals[0])?;
            // how many bytes does the callee really write: object bound
            let s = (addr >> SLOT_BITS) as usize;
            let size = match st.mem.get(s) {
                Some(Some(o)) => (o.data.len() as u64 - (addr & OFFM)).min(64) as usize,
                _ => return err("summary sret"),
            };
            let size = size.min(12);
            let bytes = if let Some(b) = self.sum_memo.get(&(fi, e)) {
                b.clone()
            } else {
                let mut out = vec![];
                for i in 0..12 {
                    let t = self.sum_tree(e, w, &table, &|v: &Vec<u8>| v[i] as u128, 8);
                    out.push(t);
                }
                self.sum_memo.insert((fi, e), out.clone());
                out
            };
            for i in 0..size {
                let v = self.norm(bytes[i]);
                self.store_int(st, addr + i as u64, 8, &v)?;
            }
            return Ok(Some(None));
        }
        let rw = f.ret.bits();
        let r = if let Some(b) = self.sum_memo.get(&(fi, e)) {
            b[0]
        } else {
            let r = self.sum_tree(
                e,
                w,
                &table,
                &|v: &Vec<u8>| {
                    let mut b = [0u8; 8];
                    b.copy_from_slice(&v[..8]);
                    u64::from_le_bytes(b) as u128
                },
                rw,
            );
            self.sum_memo.insert((fi, e), vec![r]);
            r
        };
        let r = self.norm(r);
        Ok(Some(Some(r)))
    }
    fn sum_tree(&mut self, e: Id, w: u32, table: &[(u32, Vec<u8>)], get: &dyn Fn(&Vec<u8>) -> u128, rw: u32) -> Id {
        let lv = self.ar.leaves[e as usize];
        if lv > 1 && lv < 2000 {
            // argument is a choice between constants
            let mut map = HashMap::new();
            let mut todo = vec![e];
            let mut seen = HashSet::new();
            while let Some(x) = todo.pop() {
                if !seen.insert(x) {
                    continue;
                }
                let n = self.ar.nodes[x as usize];
                if n.op == Op::Const {
                    let i = match table.binary_search_by(|r| r.0.cmp(&(n.k as u32))) {
                        Ok(i) => i,
                        Err(i) => i - 1,
                    };
                    let v = get(&table[i].1);
                    let c = self.ar.cst(rw, v);
                    map.insert(n.k, c);
                } else {
                    todo.push(n.b);
                    todo.push(n.c);
                }
            }
            return self.map_tree(e, &map, &mut HashMap::new());
        }
        let (lo, hi) = self.ar.range[e as usize];
        let mut runs: Vec<(u128, Id)> = vec![];
        for (i, (s, v)) in table.iter().enumerate() {
            let end = table.get(i + 1).map_or(u32::MAX as u128, |r| r.0 as u128 - 1);
            if end < lo || *s as u128 > hi {
                continue;
            }
            let k = get(v);
            let c = self.ar.cst(rw, k);
            if runs.last().map_or(true, |r| r.1 != c) {
                runs.push((*s as u128, c));
            }
        }
        self.tree_runs(e, w, &runs)
    }
}
