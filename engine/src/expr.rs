//! Hash-consed bit-vector expressions with local simplification, plus the Z3 back end.
use crate::z3::*;
use std::collections::HashMap;
use std::time::Instant;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    None,
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract, // a, b = lo, width
    Concat,  // a = high, b = low
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u128,
}

pub const NV: usize = 6; // 384 byte variables
pub type VarSet = [u64; NV];

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub fn fold(op: Op, w: u32, x: u128, y: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                a.wrapping_div(b) as u128
            }
        }
        Op::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            if b == 0 {
                x
            } else {
                a.wrapping_rem(b) as u128
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = if y >= w as u128 { w - 1 } else { y as u32 };
            (sext(x, w) >> s) as u128
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128,
        Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
        _ => unreachable!(),
    };
    r & m
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub vars: Vec<VarSet>,
    pub range: Vec<(u128, u128)>,
    /// number of constant leaves if node is an ite tree over constants (0 = not such a tree)
    pub leaves: Vec<u32>,
    map: HashMap<Node, Id>,
    memo_v: Vec<u128>,
    memo_g: Vec<u32>,
    gen: u32,
    // z3
    ctx: P,
    solver: P,
    params: P,
    guards: HashMap<Id, P>,
    named: HashMap<Id, P>,
    asserted: std::collections::HashSet<Id>,
    seen: std::collections::HashSet<Id>,
    pub resets: u64,
    reset_next: bool,
    fresh: i32,
    canons: HashMap<Id, Id>,
    in_canon: bool,
    zbv: HashMap<Id, P>,
    zbool: HashMap<Id, P>,
    cache: HashMap<Vec<Id>, Option<Vec<(u32, u8)>>>,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_time: f64,
    pub max_query: f64,
    pub slow: f64,
}

extern "C" fn on_err(_c: P, e: std::os::raw::c_int) {
    eprintln!("z3 error {}", e);
    std::process::abort();
}

impl Arena {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = Z3_mk_string_symbol(ctx, b"timeout\0".as_ptr() as *const _);
            Z3_params_set_uint(ctx, p, k, timeout_ms);
            let mut a = Arena {
                nodes: vec![],
                vars: vec![],
                range: vec![],
                leaves: vec![],
                map: HashMap::new(),
                memo_v: vec![],
                memo_g: vec![],
                gen: 0,
                ctx,
                solver: std::ptr::null_mut(),
                params: p,
                guards: HashMap::new(),
                named: HashMap::new(),
                asserted: Default::default(),
                seen: Default::default(),
                resets: 0,
                reset_next: false,
                fresh: 1 << 24,
                canons: HashMap::new(),
                in_canon: false,
                zbv: HashMap::new(),
                zbool: HashMap::new(),
                cache: HashMap::new(),
                queries: 0,
                cache_hits: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                solver_time: 0.0,
                max_query: 0.0,
                slow: std::env::var("RSYM_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(1e9),
            };
            a.mk(Node { op: Op::None, w: 0, a: 0, b: 0, c: 0, k: 0 });
            a
        }
    }

    fn mk(&mut self, n: Node) -> Id {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let id = self.nodes.len() as Id;
        let w = n.w as u32;
        let m = mask(w);
        let mut vs = [0u64; NV];
        match n.op {
            Op::None | Op::Const => {}
            Op::Var => {
                let v = n.k as usize;
                if v >= NV * 64 {
                    panic!("too many symbolic bytes");
                }
                vs[v / 64] |= 1 << (v % 64);
            }
            _ => {
                for x in [n.a, n.b, n.c] {
                    if x != 0 && !(n.op == Op::Extract && x != n.a) {
                        for i in 0..NV {
                            vs[i] |= self.vars[x as usize][i];
                        }
                    }
                }
            }
        }
        let r = |x: Id| self.range[x as usize];
        let rg = match n.op {
            Op::Const => (n.k, n.k),
            Op::None => (0, 0),
            Op::Add => {
                let (x, y) = (r(n.a), r(n.b));
                match x.1.checked_add(y.1) {
                    Some(h) if h <= m => (x.0 + y.0, h),
                    _ => (0, m),
                }
            }
            Op::Sub => {
                let (x, y) = (r(n.a), r(n.b));
                if x.0 >= y.1 {
                    (x.0 - y.1, x.1 - y.0)
                } else {
                    (0, m)
                }
            }
            Op::Mul => {
                let (x, y) = (r(n.a), r(n.b));
                match x.1.checked_mul(y.1) {
                    Some(h) if h <= m => (x.0 * y.0, h),
                    _ => (0, m),
                }
            }
            Op::And => (0, r(n.a).1.min(r(n.b).1)),
            Op::Or | Op::Xor => {
                let h = r(n.a).1 | r(n.b).1;
                let bits = 128 - h.leading_zeros();
                let lo = if n.op == Op::Or { r(n.a).0.max(r(n.b).0) } else { 0 };
                (lo, mask(bits) & m)
            }
            Op::UDiv => {
                let (x, y) = (r(n.a), r(n.b));
                if y.0 > 0 {
                    (x.0 / y.1, x.1 / y.0)
                } else {
                    (0, m)
                }
            }
            Op::URem => {
                let y = r(n.b);
                if y.0 > 0 {
                    (0, r(n.a).1.min(y.1 - 1))
                } else {
                    (0, m)
                }
            }
            Op::LShr => (0, r(n.a).1),
            Op::Ite => {
                let (x, y) = (r(n.b), r(n.c));
                (x.0.min(y.0), x.1.max(y.1))
            }
            Op::ZExt => r(n.a),
            Op::Extract => {
                if n.b == 0 && r(n.a).1 <= m {
                    r(n.a)
                } else {
                    (0, (r(n.a).1 >> n.b).min(m))
                }
            }
            Op::Concat => {
                let lw = self.nodes[n.b as usize].w as u32;
                let (x, y) = (r(n.a), r(n.b));
                ((x.0 << lw) + y.0, (x.1 << lw) + y.1)
            }
            _ => (0, m),
        };
        let lv = match n.op {
            Op::Const => 1,
            Op::Ite => {
                let (x, y) = (self.leaves[n.b as usize], self.leaves[n.c as usize]);
                if x > 0 && y > 0 {
                    x.saturating_add(y)
                } else {
                    0
                }
            }
            _ => 0,
        };
        self.nodes.push(n);
        self.vars.push(vs);
        self.range.push(rg);
        self.leaves.push(lv);
        self.memo_v.push(0);
        self.memo_g.push(0);
        self.map.insert(n, id);
        id
    }

    pub fn w(&self, e: Id) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn cst(&mut self, w: u32, k: u128) -> Id {
        self.mk(Node { op: Op::Const, w: w as u8, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, i: u32) -> Id {
        self.mk(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 })
    }
    pub fn is_const(&self, e: Id) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn node(&self, e: Id) -> Node {
        self.nodes[e as usize]
    }

    /// Map a function over the constant leaves of an ite tree.
    fn map_leaves(&mut self, e: Id, f: &mut dyn FnMut(&mut Arena, u128) -> Id, memo: &mut HashMap<Id, Id>) -> Id {
        if let Some(k) = self.is_const(e) {
            return f(self, k);
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let n = self.node(e);
        let x = self.map_leaves(n.b, f, memo);
        let y = self.map_leaves(n.c, f, memo);
        let r = self.ite(n.a, x, y);
        memo.insert(e, r);
        r
    }
    fn tree(&self, e: Id) -> bool {
        let l = self.leaves[e as usize];
        l > 1 && l < 6000
    }

    pub fn bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ka, kb) = (self.is_const(a), self.is_const(b));
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        if let (Some(x), Some(y)) = (ka, kb) {
            let r = fold(op, w, x, y);
            return self.cst(rw, r);
        }
        // constants to the right for commutative ops
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if !self.in_canon && self.tree(a) && self.tree(b) && self.one_var(a).is_some() && self.vars[a as usize] == self.vars[b as usize] {
            let e = self.mk(Node { op, w: rw as u8, a, b, c: 0, k: 0 });
            return self.canon(e);
        }
        if comm && (ka.is_some() || (kb.is_none() && a > b)) {
            return self.bin2(op, b, a, w, rw);
        }
        self.bin2(op, a, b, w, rw)
    }

    /// e as (sum of coefficient * atom, constant) modulo 2^width; atoms are looked at through zero extensions.
    fn linear(&self, e: Id) -> Option<(Vec<(Id, u128)>, u128)> {
        let m = mask(self.w(e));
        let (mut t, mut k) = (std::collections::BTreeMap::new(), 0u128);
        let mut fuel = 400;
        self.linear_into(e, 1, m, &mut t, &mut k, &mut fuel)?;
        Some((t.into_iter().map(|(i, c)| (i, c & m)).filter(|x| x.1 != 0).collect(), k & m))
    }
    fn linear_into(&self, e: Id, c: u128, m: u128, t: &mut std::collections::BTreeMap<Id, u128>, k: &mut u128, fuel: &mut u32) -> Option<()> {
        *fuel = fuel.checked_sub(1)?;
        if let Some(v) = self.is_const(e) {
            *k = k.wrapping_add(c.wrapping_mul(v));
            return Some(());
        }
        let n = self.node(e);
        // inside a narrower value only what cannot wrap may be taken apart
        let full = mask(self.w(e)) == m;
        let hi = |x: Id| self.range[x as usize].1;
        match n.op {
            Op::ZExt => return self.linear_into(n.a, c, m, t, k, fuel),
            Op::Add if full || hi(n.a).checked_add(hi(n.b)).map_or(false, |s| s <= mask(self.w(e))) => {
                self.linear_into(n.a, c, m, t, k, fuel)?;
                return self.linear_into(n.b, c, m, t, k, fuel);
            }
            Op::Sub if full => {
                self.linear_into(n.a, c, m, t, k, fuel)?;
                return self.linear_into(n.b, c.wrapping_neg(), m, t, k, fuel);
            }
            Op::Mul => {
                if let Some(f) = self.is_const(n.b) {
                    if full || hi(n.a).checked_mul(f).map_or(false, |s| s <= mask(self.w(e))) {
                        return self.linear_into(n.a, c.wrapping_mul(f), m, t, k, fuel);
                    }
                }
            }
            Op::Shl => {
                if let Some(f) = self.is_const(n.b) {
                    if f < 100 && (full || hi(n.a).checked_mul(1 << f).map_or(false, |s| s <= mask(self.w(e)))) {
                        return self.linear_into(n.a, c.wrapping_mul(1 << f), m, t, k, fuel);
                    }
                }
            }
            _ => {}
        }
        let x = t.entry(e).or_insert(0);
        *x = x.wrapping_add(c);
        Some(())
    }

    fn bin2(&mut self, op: Op, a: Id, b: Id, w: u32, rw: u32) -> Id {
        let m = mask(w);
        let (ka, kb) = (self.is_const(a), self.is_const(b));
        // push into constant ite trees
        if let Some(y) = kb {
            if self.tree(a) {
                let mut f = |s: &mut Arena, k: u128| {
                    let r = fold(op, w, k, y);
                    s.cst(rw, r)
                };
                return self.map_leaves(a, &mut f, &mut HashMap::new());
            }
        }
        if let Some(x) = ka {
            if self.tree(b) {
                let mut f = |s: &mut Arena, k: u128| {
                    let r = fold(op, w, x, k);
                    s.cst(rw, r)
                };
                return self.map_leaves(b, &mut f, &mut HashMap::new());
            }
        }
        let (ra, rb) = (self.range[a as usize], self.range[b as usize]);
        match op {
            Op::Eq => {
                if a == b {
                    return self.cst(1, 1);
                }
                if ra.1 < rb.0 || rb.1 < ra.0 {
                    return self.cst(1, 0);
                }
                if let Some(k) = kb {
                    let n = self.node(a);
                    match n.op {
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            let c = self.cst(iw, k);
                            return self.bin(Op::Eq, n.a, c);
                        }
                        Op::Concat => {
                            let lw = self.w(n.b);
                            let hw = self.w(n.a);
                            let kh = self.cst(hw, k >> lw);
                            let kl = self.cst(lw, k);
                            let x = self.bin(Op::Eq, n.a, kh);
                            let y = self.bin(Op::Eq, n.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Add if self.is_const(n.b).is_some() => {
                            let k2 = self.is_const(n.b).unwrap();
                            let c = self.cst(w, k.wrapping_sub(k2));
                            return self.bin(Op::Eq, n.a, c);
                        }
                        Op::Xor if self.is_const(n.b).is_some() => {
                            let k2 = self.is_const(n.b).unwrap();
                            let c = self.cst(w, k ^ k2);
                            return self.bin(Op::Eq, n.a, c);
                        }
                        Op::Ite => {
                            // one constant branch
                            let (kx, ky) = (self.is_const(n.b), self.is_const(n.c));
                            if kx.is_some() || ky.is_some() {
                                let x = self.bin(Op::Eq, n.b, b);
                                let y = self.bin(Op::Eq, n.c, b);
                                return self.ite(n.a, x, y);
                            }
                        }
                        _ => {}
                    }
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                }
                if w == 1 {
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
                let (na, nb) = (self.node(a), self.node(b));
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
                if w >= 16 && kb.is_none() && self.vars[a as usize] == self.vars[b as usize] {
                    if let (Some(x), Some(y)) = (self.linear(a), self.linear(b)) {
                        if x.0 == y.0 {
                            return self.cst(1, (x.1.wrapping_sub(y.1) & m == 0) as u128);
                        }
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.cst(1, 0);
                }
                if ra.1 < rb.0 {
                    return self.cst(1, 1);
                }
                if ra.0 >= rb.1 {
                    return self.cst(1, 0);
                }
                if let Some(r) = self.narrow_cmp(op, a, b) {
                    return r;
                }
                // x + y < y is false when the sum cannot wrap
                let na = self.node(a);
                if na.op == Op::Add && (na.a == b || na.b == b) && self.range[na.a as usize].1.checked_add(self.range[na.b as usize].1).map_or(false, |t| t <= mask(w)) {
                    return self.cst(1, 0);
                }
                if w == 1 {
                    // !a & b
                    let x = self.not(a);
                    return self.bin(Op::And, x, b);
                }
                if kb == Some(1) {
                    let z = self.cst(w, 0);
                    return self.bin(Op::Eq, a, z);
                }
            }
            Op::Ule => {
                // canonicalise: a <= b  ==  !(b < a)
                let x = self.bin(Op::Ult, b, a);
                return self.not(x);
            }
            Op::Sle => {
                let x = self.bin(Op::Slt, b, a);
                return self.not(x);
            }
            Op::Slt => {
                if a == b {
                    return self.cst(1, 0);
                }
                // both non-negative -> unsigned
                let half = 1u128 << (w - 1);
                if ra.1 < half && rb.1 < half {
                    return self.bin(Op::Ult, a, b);
                }
                if ra.0 >= half && rb.1 < half {
                    return self.cst(1, 1);
                }
                if ra.1 < half && rb.0 >= half {
                    return self.cst(1, 0);
                }
            }
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    let n = self.node(a);
                    if n.op == Op::Add {
                        if let Some(k2) = self.is_const(n.b) {
                            let c = self.cst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, n.a, c);
                        }
                    }
                }
            }
            Op::Sub => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(k) = kb {
                    let c = self.cst(w, (!k).wrapping_add(1));
                    return self.bin(Op::Add, a, c);
                }
                let na = self.node(a);
                if na.op == Op::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let c = self.cst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, c);
                    }
                }
            }
            Op::UDiv => {
                if let Some(k) = kb {
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let c = self.cst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, c);
                    }
                    if ra.1 < k {
                        return self.cst(w, 0);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let c = self.cst(w, k - 1);
                        return self.bin(Op::And, a, c);
                    }
                    if k > 0 && ra.1 < k {
                        return a;
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    // contiguous mask -> concat(0, extract, 0)
                    let tz = k.trailing_zeros();
                    let run = k >> tz;
                    if run & (run + 1) == 0 {
                        let bits = 128 - run.leading_zeros();
                        let x = self.extract(a, tz + bits - 1, tz);
                        let x = if tz > 0 {
                            let z = self.cst(tz, 0);
                            self.concat(x, z)
                        } else {
                            x
                        };
                        return self.zext(x, w);
                    }
                }
                if w == 1 {
                    let (na, nb) = (self.not(a), self.not(b));
                    if na == b || nb == a {
                        return self.cst(1, 0);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return self.cst(1, 1);
                    }
                } else if let Some(r) = self.or_disjoint(a, b, w) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(w, 0);
                }
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    let n = self.node(a);
                    if n.op == Op::Xor {
                        if let Some(k2) = self.is_const(n.b) {
                            let c = self.cst(w, k ^ k2);
                            return self.bin(Op::Xor, n.a, c);
                        }
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        if op != Op::AShr {
                            return self.cst(w, 0);
                        }
                    } else {
                        let k = k as u32;
                        match op {
                            Op::Shl => {
                                let x = self.extract(a, w - 1 - k, 0);
                                let z = self.cst(k, 0);
                                return self.concat(x, z);
                            }
                            Op::LShr => {
                                let x = self.extract(a, w - 1, k);
                                return self.zext(x, w);
                            }
                            _ => {
                                if ra.1 < (1u128 << (w - 1)) {
                                    let x = self.extract(a, w - 1, k);
                                    return self.zext(x, w);
                                }
                            }
                        }
                    }
                }
                if ka == Some(0) {
                    return a;
                }
            }
            _ => {}
        }
        self.mk(Node { op, w: rw as u8, a, b, c: 0, k: 0 })
    }

    fn narrow_cmp(&mut self, op: Op, a: Id, b: Id) -> Option<Id> {
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == Op::ZExt {
            let iw = self.w(na.a);
            if nb.op == Op::ZExt && self.w(nb.a) == iw {
                return Some(self.bin(op, na.a, nb.a));
            }
            if nb.op == Op::Const && nb.k <= mask(iw) {
                let c = self.cst(iw, nb.k);
                return Some(self.bin(op, na.a, c));
            }
        }
        if nb.op == Op::ZExt {
            let iw = self.w(nb.a);
            if na.op == Op::Const && na.k <= mask(iw) {
                let c = self.cst(iw, na.k);
                return Some(self.bin(op, c, nb.a));
            }
        }
        if op != Op::Eq && op != Op::Ult {
            return None;
        }
        let w = na.w as u32;
        // x + c1 (no wrap) compared with a constant
        let add = |s: &Arena, n: &Node| -> Option<(Id, u128)> {
            if n.op != Op::Add {
                return None;
            }
            let (x, c) = if let Some(c) = s.is_const(n.b) { (n.a, c) } else { (n.b, s.is_const(n.a)?) };
            s.range[x as usize].1.checked_add(c).filter(|t| *t <= mask(w)).map(|_| (x, c))
        };
        // hi:low with a constant low part
        let cat = |s: &Arena, n: &Node| -> Option<(Id, u32, u128)> {
            if n.op != Op::Concat {
                return None;
            }
            s.is_const(n.b).map(|l| (n.a, s.w(n.b), l))
        };
        if nb.op == Op::Const {
            if let Some((x, c)) = add(self, &na) {
                if nb.k < c {
                    return Some(self.cst(1, 0));
                }
                let k = self.cst(w, nb.k - c);
                return Some(self.bin(op, x, k));
            }
            if let Some((x, lw, l)) = cat(self, &na) {
                let xw = self.w(x);
                if op == Op::Eq {
                    if nb.k & mask(lw) != l {
                        return Some(self.cst(1, 0));
                    }
                    let k = self.cst(xw, nb.k >> lw);
                    return Some(self.bin(op, x, k));
                }
                if nb.k <= l {
                    return Some(self.cst(1, 0));
                }
                let q = (nb.k - l - 1) >> lw; // x <= q
                if q >= mask(xw) {
                    return Some(self.cst(1, 1));
                }
                let k = self.cst(xw, q + 1);
                return Some(self.bin(op, x, k));
            }
        }
        if na.op == Op::Const {
            if let Some((x, c)) = add(self, &nb) {
                if na.k < c {
                    return Some(self.cst(1, (op == Op::Ult) as u128));
                }
                let k = self.cst(w, na.k - c);
                return Some(self.bin(op, k, x));
            }
            if op == Op::Ult {
                if let Some((x, lw, l)) = cat(self, &nb) {
                    if na.k < l {
                        return Some(self.cst(1, 1));
                    }
                    let xw = self.w(x);
                    let k = self.cst(xw, (na.k - l) >> lw);
                    return Some(self.bin(op, k, x));
                }
            }
        }
        None
    }

    /// Normal form of an expression over a single input byte: a condition becomes membership in a union of
    /// intervals, a value becomes a balanced choice between constants.
    pub fn canon(&mut self, e: Id) -> Id {
        if self.is_const(e).is_some() {
            return e;
        }
        let i = match self.one_var(e) {
            Some(i) => i,
            None => return e,
        };
        if let Some(&r) = self.canons.get(&e) {
            return r;
        }
        let mut model = vec![0u8; i + 1];
        let mut set = [false; 257];
        let mut vals = [0u128; 256];
        for v in 0..256 {
            model[i] = v as u8;
            vals[v] = self.eval(e, &model);
            set[v] = vals[v] == 1;
        }
        let w = self.w(e);
        self.in_canon = true;
        let r = if w == 1 { self.canon_set(i, &set) } else {
            let mut rs: Vec<(u128, Id)> = vec![];
            for v in 0..256usize {
                if v == 0 || vals[v] != vals[v - 1] {
                    let c = self.cst(w, vals[v]);
                    rs.push((v as u128, c));
                }
            }
            let x = self.var(i as u32);
            self.runs(x, &rs)
        };
        self.in_canon = false;
        self.canons.insert(e, r);
        self.canons.insert(r, r);
        r
    }
    fn canon_set(&mut self, i: usize, set: &[bool; 257]) -> Id {
        let x = self.var(i as u32);
        let mut r = self.cst(1, 0);
        let mut v = 0;
        while v < 256 {
            if !set[v] {
                v += 1;
                continue;
            }
            let lo = v;
            while v < 256 && set[v] {
                v += 1;
            }
            let mut c = if lo == v - 1 {
                let k = self.cst(8, lo as u128);
                self.bin(Op::Eq, x, k)
            } else {
                let mut c = self.cst(1, 1);
                if lo > 0 {
                    let k = self.cst(8, lo as u128 - 1);
                    c = self.bin(Op::Ult, k, x);
                }
                if v < 256 {
                    let k = self.cst(8, v as u128);
                    let d = self.bin(Op::Ult, x, k);
                    c = self.bin(Op::And, c, d);
                }
                c
            };
            if self.is_const(r) != Some(0) {
                c = self.bin(Op::Or, r, c);
            }
            r = c;
        }
        r
    }

    /// Split an expression in segments (expr, width) from low to high where zero constants are kept apart.
    fn segs(&self, e: Id, out: &mut Vec<(Id, u32)>) {
        let n = self.node(e);
        match n.op {
            Op::Concat => {
                self.segs(n.b, out);
                self.segs(n.a, out);
            }
            Op::ZExt => {
                self.segs(n.a, out);
                let extra = n.w as u32 - self.w(n.a);
                out.push((0, extra)); // id 0 = zero bits
            }
            Op::Const if n.k == 0 => out.push((0, n.w as u32)),
            _ => out.push((e, n.w as u32)),
        }
    }

    fn or_disjoint(&mut self, a: Id, b: Id, w: u32) -> Option<Id> {
        let (mut sa, mut sb) = (vec![], vec![]);
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        if sa.len() == 1 && sb.len() == 1 {
            return None;
        }
        // cut both into common pieces; constants are split bitwise
        let mut cuts: Vec<u32> = vec![];
        for s in [&sa, &sb] {
            let mut p = 0;
            for (e, l) in s.iter() {
                if *e != 0 {
                    if let Some(k) = self.is_const(*e) {
                        for i in 1..*l {
                            if (k >> i) & 1 != (k >> (i - 1)) & 1 {
                                cuts.push(p + i);
                            }
                        }
                    }
                }
                p += l;
                cuts.push(p);
            }
        }
        cuts.sort();
        cuts.dedup();
        let piece = |s: &Vec<(Id, u32)>, lo: u32| -> (Id, u32) {
            let mut p = 0;
            for (e, l) in s.iter() {
                if lo < p + l {
                    return (*e, lo - p);
                }
                p += l;
            }
            unreachable!()
        };
        let mut parts: Vec<Id> = vec![];
        let mut lo = 0;
        for hi in cuts {
            let len = hi - lo;
            let (ea, oa) = piece(&sa, lo);
            let (eb, ob) = piece(&sb, lo);
            let xa = if ea == 0 { self.cst(len, 0) } else { self.extract(ea, oa + len - 1, oa) };
            let xb = if eb == 0 { self.cst(len, 0) } else { self.extract(eb, ob + len - 1, ob) };
            let (ka, kb) = (self.is_const(xa), self.is_const(xb));
            let r = if ka == Some(0) {
                xb
            } else if kb == Some(0) {
                xa
            } else if ka == Some(mask(len)) {
                xa
            } else if kb == Some(mask(len)) {
                xb
            } else {
                return None;
            };
            parts.push(r);
            lo = hi;
        }
        let mut r = parts[0];
        for p in &parts[1..] {
            r = self.concat(*p, r);
        }
        debug_assert_eq!(self.w(r), w);
        Some(r)
    }

    pub fn not(&mut self, a: Id) -> Id {
        let n = self.node(a);
        if n.w == 1 {
            if let Some(k) = self.is_const(a) {
                return self.cst(1, 1 - k);
            }
            if n.op == Op::Xor && self.is_const(n.b) == Some(1) {
                return n.a;
            }
            if self.tree(a) {
                let mut f = |s: &mut Arena, k: u128| s.cst(1, 1 - k);
                return self.map_leaves(a, &mut f, &mut HashMap::new());
            }
        }
        let m = self.cst(n.w as u32, mask(n.w as u32));
        if n.w == 1 {
            return self.mk(Node { op: Op::Xor, w: 1, a, b: m, c: 0, k: 0 });
        }
        self.bin(Op::Xor, a, m)
    }

    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(k) = self.is_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.node(c);
        if nc.op == Op::Xor && nc.w == 1 && self.is_const(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                _ => {}
            }
            if self.leaves[a as usize] == 0 || self.leaves[b as usize] == 0 {
                match (self.is_const(a), self.is_const(b)) {
                    (Some(1), None) => return self.bin(Op::Or, c, b),
                    (Some(0), None) => {
                        let n = self.not(c);
                        return self.bin(Op::And, n, b);
                    }
                    (None, Some(0)) => return self.bin(Op::And, c, a),
                    (None, Some(1)) => {
                        let n = self.not(c);
                        return self.bin(Op::Or, n, a);
                    }
                    _ => {}
                }
            }
        }
        let na = self.node(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.node(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        let e = self.mk(Node { op: Op::Ite, w: w as u8, a: c, b: a, c: b, k: 0 });
        if !self.in_canon && self.leaves[e as usize] > 2 && self.one_var(e).is_some() {
            return self.canon(e);
        }
        e
    }
    fn one_var(&self, e: Id) -> Option<usize> {
        let vs = &self.vars[e as usize];
        let mut r = None;
        for j in 0..NV {
            match vs[j].count_ones() {
                0 => {}
                1 if r.is_none() => r = Some(j * 64 + vs[j].trailing_zeros() as usize),
                _ => return None,
            }
        }
        r
    }
    fn runs(&mut self, x: Id, runs: &[(u128, Id)]) -> Id {
        if runs.len() == 1 {
            return runs[0].1;
        }
        let m = runs.len() / 2;
        let k = self.cst(8, runs[m].0);
        let c = self.bin(Op::Ult, x, k);
        let a = self.runs(x, &runs[..m]);
        let b = self.runs(x, &runs[m..]);
        self.ite(c, a, b)
    }

    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let n = self.node(a);
        let iw = n.w as u32;
        if iw == w {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.cst(w, k);
        }
        if self.tree(a) {
            let mut f = |s: &mut Arena, k: u128| s.cst(w, k);
            return self.map_leaves(a, &mut f, &mut HashMap::new());
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Extract && n.b == 0 && self.range[n.a as usize].1 >> iw == 0 {
            let ow = self.w(n.a);
            return if ow <= w { self.zext(n.a, w) } else { self.extract(n.a, w - 1, 0) };
        }
        self.mk(Node { op: Op::ZExt, w: w as u8, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let iw = self.w(a);
        if iw == w {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.cst(w, sext(k, iw) as u128);
        }
        if self.tree(a) {
            let mut f = |s: &mut Arena, k: u128| s.cst(w, sext(k, iw) as u128);
            return self.map_leaves(a, &mut f, &mut HashMap::new());
        }
        if self.range[a as usize].1 < (1u128 << (iw - 1)) {
            return self.zext(a, w);
        }
        self.mk(Node { op: Op::SExt, w: w as u8, a, b: 0, c: 0, k: 0 })
    }
    pub fn trunc(&mut self, a: Id, w: u32) -> Id {
        self.extract(a, w - 1, 0)
    }
    pub fn extract(&mut self, a: Id, hi: u32, lo: u32) -> Id {
        let n = self.node(a);
        let iw = n.w as u32;
        let w = hi - lo + 1;
        debug_assert!(hi < iw);
        if w == iw {
            return a;
        }
        if let Some(k) = self.is_const(a) {
            return self.cst(w, k >> lo);
        }
        if self.tree(a) {
            let mut f = |s: &mut Arena, k: u128| s.cst(w, k >> lo);
            return self.map_leaves(a, &mut f, &mut HashMap::new());
        }
        match n.op {
            Op::Extract => return self.extract(n.a, hi + n.b, lo + n.b),
            Op::ZExt => {
                let ow = self.w(n.a);
                if lo >= ow {
                    return self.cst(w, 0);
                }
                if hi < ow {
                    return self.extract(n.a, hi, lo);
                }
                let x = self.extract(n.a, ow - 1, lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let ow = self.w(n.a);
                if hi < ow {
                    return self.extract(n.a, hi, lo);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if hi < lw {
                    return self.extract(n.b, hi, lo);
                }
                if lo >= lw {
                    return self.extract(n.a, hi - lw, lo - lw);
                }
                let x = self.extract(n.a, hi - lw, 0);
                let y = self.extract(n.b, lw - 1, lo);
                return self.concat(x, y);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        if self.range[a as usize].1 >> lo == 0 {
            return self.cst(w, 0);
        }
        self.mk(Node { op: Op::Extract, w: w as u8, a, b: lo, c: 0, k: 0 })
    }
    pub fn concat(&mut self, a: Id, b: Id) -> Id {
        let (na, nb) = (self.node(a), self.node(b));
        let w = na.w as u32 + nb.w as u32;
        match (self.is_const(a), self.is_const(b)) {
            (Some(x), Some(y)) => return self.cst(w, (x << nb.w) | y),
            (Some(0), None) => return self.zext(b, w),
            _ => {}
        }
        if !self.in_canon && w <= 64 && self.tree(a) && self.tree(b) && self.one_var(a).is_some() && self.vars[a as usize] == self.vars[b as usize] {
            let e = self.mk(Node { op: Op::Concat, w: w as u8, a, b, c: 0, k: 0 });
            return self.canon(e);
        }
        // right-assoc normal form: concat(concat(x,y),z) -> concat(x, concat(y,z))
        if na.op == Op::Concat {
            let y = self.concat(na.b, b);
            return self.concat(na.a, y);
        }
        if na.op == Op::ZExt {
            let y = self.concat(na.a, b);
            return self.zext(y, w);
        }
        // adjacent extracts of one expression
        let (ba, la) = if na.op == Op::Extract { (na.a, na.b) } else { (a, 0) };
        let head = |s: &Arena, e: Id, n: Node| -> (Id, u32, u32) {
            if n.op == Op::Extract {
                (n.a, n.b, n.w as u32)
            } else {
                (e, 0, s.w(e))
            }
        };
        // low part's top segment
        let (bb, lb, wb) = if nb.op == Op::Concat {
            let nn = self.node(nb.a);
            head(self, nb.a, nn)
        } else {
            head(self, b, nb)
        };
        if ba == bb && la == lb + wb {
            let x = self.extract(ba, la + na.w as u32 - 1, lb);
            if nb.op == Op::Concat {
                return self.concat(x, nb.b);
            }
            return x;
        }
        // sign-extension style: high half of zext
        if nb.op == Op::Concat {
            let nn = self.node(nb.a);
            if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(nb.a)) {
                let c = self.cst(na.w as u32 + nn.w as u32, (x << nn.w) | y);
                return self.concat(c, nb.b);
            }
        }
        self.mk(Node { op: Op::Concat, w: w as u8, a, b, c: 0, k: 0 })
    }

    // ---------- evaluation under a model ----------
    pub fn eval(&mut self, e: Id, model: &[u8]) -> u128 {
        self.gen += 1;
        self.ev(e, model)
    }
    fn ev(&mut self, e: Id, md: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return md.get(n.k as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if self.memo_g[e as usize] == self.gen {
            return self.memo_v[e as usize];
        }
        let w = n.w as u32;
        let r = match n.op {
            Op::Ite => {
                if self.ev(n.a, md) == 1 {
                    self.ev(n.b, md)
                } else {
                    self.ev(n.c, md)
                }
            }
            Op::ZExt => self.ev(n.a, md),
            Op::SExt => {
                let iw = self.w(n.a);
                sext(self.ev(n.a, md), iw) as u128 & mask(w)
            }
            Op::Extract => (self.ev(n.a, md) >> n.b) & mask(w),
            Op::Concat => {
                let lw = self.w(n.b);
                (self.ev(n.a, md) << lw) | self.ev(n.b, md)
            }
            op => {
                let iw = self.w(n.a);
                let x = self.ev(n.a, md);
                let y = self.ev(n.b, md);
                fold(op, iw, x, y)
            }
        };
        self.memo_g[e as usize] = self.gen;
        self.memo_v[e as usize] = r;
        r
    }

    pub fn show(&self, e: Id, d: u32) -> String {
        let n = self.node(e);
        match n.op {
            Op::Const => format!("{:#x}", n.k),
            Op::Var => format!("v{}", n.k),
            Op::Ite if self.leaves[e as usize] > 4 => format!("tree{}[{}:{}](v..{:?})", e, self.leaves[e as usize], n.w, self.vars[e as usize].iter().map(|x| x.count_ones()).sum::<u32>()),
            _ if d == 0 => format!("#{}", e),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.b, n.w),
            Op::ZExt | Op::SExt => format!("({:?}{} {})", n.op, n.w, self.show(n.a, d - 1)),
            Op::Ite => format!("(ite {} {} {})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }

    // ---------- z3 ----------
    fn keep(&self, p: P) -> P {
        unsafe { Z3_inc_ref(self.ctx, p) };
        p
    }
    fn fresh_solver(&mut self) {
        unsafe {
            if !self.solver.is_null() {
                Z3_solver_dec_ref(self.ctx, self.solver);
            }
            self.solver = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.solver);
            Z3_solver_set_params(self.ctx, self.solver, self.params);
        }
        self.guards.clear();
        self.asserted.clear();
        self.seen.clear();
        self.resets += 1;
    }
    /// A Boolean constant g with `g => e` asserted in the solver for good, so that a query is a set of assumptions
    /// and every expression is translated and bit-blasted once.
    fn guard(&mut self, e: Id) -> P {
        if let Some(&p) = self.guards.get(&e) {
            return p;
        }
        let z = self.zb(e);
        let g = unsafe {
            self.fresh += 1;
            let g = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, self.fresh), Z3_mk_bool_sort(self.ctx));
            self.keep(g);
            // definitions of the named tables this expression uses
            let mut todo = vec![e];
            while let Some(x) = todo.pop() {
                if !self.seen.insert(x) {
                    continue;
                }
                if let Some(&d) = self.named.get(&x) {
                    if self.asserted.insert(x) {
                        Z3_solver_assert(self.ctx, self.solver, d);
                    }
                }
                let n = self.node(x);
                match n.op {
                    Op::Const | Op::Var | Op::None => {}
                    Op::Ite => todo.extend([n.a, n.b, n.c]),
                    Op::ZExt | Op::SExt | Op::Extract => todo.push(n.a),
                    _ => todo.extend([n.a, n.b]),
                }
            }
            Z3_solver_assert(self.ctx, self.solver, Z3_mk_implies(self.ctx, g, z));
            g
        };
        self.guards.insert(e, g);
        g
    }
    fn num(&self, w: u32, k: u128) -> P {
        let s = format!("{}\0", k);
        unsafe { self.keep(Z3_mk_numeral(self.ctx, s.as_ptr() as *const _, Z3_mk_bv_sort(self.ctx, w))) }
    }
    fn zb(&mut self, e: Id) -> P {
        // as Bool (width 1 expressions)
        if let Some(&p) = self.zbool.get(&e) {
            return p;
        }
        let n = self.node(e);
        let c = self.ctx;
        let p = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq => {
                    let (x, y) = (self.zv(n.a), self.zv(n.b));
                    Z3_mk_eq(c, x, y)
                }
                Op::Ult => {
                    let (x, y) = (self.zv(n.a), self.zv(n.b));
                    Z3_mk_bvult(c, x, y)
                }
                Op::Slt => {
                    let (x, y) = (self.zv(n.a), self.zv(n.b));
                    Z3_mk_bvslt(c, x, y)
                }
                Op::Ule => {
                    let (x, y) = (self.zv(n.a), self.zv(n.b));
                    Z3_mk_bvule(c, x, y)
                }
                Op::Sle => {
                    let (x, y) = (self.zv(n.a), self.zv(n.b));
                    Z3_mk_bvsle(c, x, y)
                }
                Op::And => {
                    let v = [self.zb(n.a), self.zb(n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.zb(n.a), self.zb(n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    if self.is_const(n.b) == Some(1) {
                        let x = self.zb(n.a);
                        Z3_mk_not(c, x)
                    } else {
                        let (x, y) = (self.zb(n.a), self.zb(n.b));
                        Z3_mk_xor(c, x, y)
                    }
                }
                Op::Ite => {
                    let (x, y, z) = (self.zb(n.a), self.zb(n.b), self.zb(n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let x = self.zv(e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        self.keep(p);
        self.zbool.insert(e, p);
        p
    }
    fn zv(&mut self, e: Id) -> P {
        self.zvn(e, true)
    }
    fn zvn(&mut self, e: Id, name: bool) -> P {
        if let Some(&p) = self.zbv.get(&e) {
            return p;
        }
        let n = self.node(e);
        let c = self.ctx;
        let w = n.w as u32;
        let p = unsafe {
            match n.op {
                Op::Const => self.num(w, n.k),
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as i32), Z3_mk_bv_sort(c, 8)),
                Op::Ite => {
                    let tree = self.leaves[e as usize] >= 12;
                    let (x, y, z) = (self.zb(n.a), self.zvn(n.b, !tree), self.zvn(n.c, !tree));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::ZExt => {
                    let d = w - self.w(n.a);
                    let x = self.zv(n.a);
                    Z3_mk_zero_ext(c, d, x)
                }
                Op::SExt => {
                    let d = w - self.w(n.a);
                    let x = self.zv(n.a);
                    Z3_mk_sign_ext(c, d, x)
                }
                Op::Extract => {
                    let x = self.zv(n.a);
                    Z3_mk_extract(c, n.b + w - 1, n.b, x)
                }
                Op::Concat => {
                    let (x, y) = (self.zv(n.a), self.zv(n.b));
                    Z3_mk_concat(c, x, y)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.zb(e);
                    let (o, z) = (self.num(1, 1), self.num(1, 0));
                    Z3_mk_ite(c, b, o, z)
                }
                op => {
                    let (x, y) = (self.zv(n.a), self.zv(n.b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.keep(p);
        // name large table look-ups: v == table(c), asserted once
        let p = if name && n.op == Op::Ite && self.leaves[e as usize] >= 12 {
            unsafe {
                self.fresh += 1;
                let v = self.keep(Z3_mk_const(c, Z3_mk_int_symbol(c, self.fresh), Z3_mk_bv_sort(c, w)));
                let d = self.keep(Z3_mk_eq(c, v, p));
                self.named.insert(e, d);
                v
            }
        } else {
            p
        };
        self.zbv.insert(e, p);
        p
    }

    /// Is `pc /\ cond` satisfiable?  `base` satisfies `pc`.  Returns a full model if so.
    pub fn check(&mut self, pc: &[Id], cond: Id, base: &[u8]) -> Result<Option<Vec<u8>>, String> {
        let cond = self.canon(cond); // width 1: interval form
        if let Some(k) = self.is_const(cond) {
            return Ok(if k == 1 { Some(base.to_vec()) } else { None });
        }
        // constraint independence slicing
        let mut vs = self.vars[cond as usize];
        let mut used = vec![false; pc.len()];
        loop {
            let mut changed = false;
            for (i, &p) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let pv = &self.vars[p as usize];
                if (0..NV).any(|j| pv[j] & vs[j] != 0) {
                    used[i] = true;
                    for j in 0..NV {
                        if pv[j] & !vs[j] != 0 {
                            changed = true;
                        }
                        vs[j] |= pv[j];
                    }
                }
            }
            if !changed {
                break;
            }
        }
        let mut key: Vec<Id> = pc.iter().zip(&used).filter(|(_, u)| **u).map(|(p, _)| *p).collect::<Vec<_>>().into_iter().map(|p| self.canon(p)).collect();
        key.push(cond);
        key.sort();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return Ok(r.as_ref().map(|m| {
                let mut v = base.to_vec();
                for (i, b) in m {
                    if v.len() <= *i as usize {
                        v.resize(*i as usize + 1, 0);
                    }
                    v[*i as usize] = *b;
                }
                v
            }));
        }
        self.queries += 1;
        let t0 = Instant::now();
        if self.solver.is_null() || self.guards.len() > 4000 || self.reset_next {
            self.reset_next = false;
            self.fresh_solver();
        }
        let asts: Vec<P> = key.iter().map(|&e| self.guard(e)).collect();
        let res = unsafe {
            let r = Z3_solver_check_assumptions(self.ctx, self.solver, asts.len() as u32, asts.as_ptr());
            let out = if r == 1 {
                let m = Z3_solver_get_model(self.ctx, self.solver);
                Z3_model_inc_ref(self.ctx, m);
                let mut v = vec![];
                for i in 0..(NV * 64) as u32 {
                    if vs[i as usize / 64] >> (i % 64) & 1 == 1 {
                        let x = self.var(i);
                        let z = self.zv(x);
                        let mut o: P = std::ptr::null_mut();
                        let ok = Z3_model_eval(self.ctx, m, z, true, &mut o);
                        Z3_inc_ref(self.ctx, o);
                        let mut u = 0u64;
                        if !ok || !Z3_get_numeral_uint64(self.ctx, o, &mut u) {
                            Z3_model_dec_ref(self.ctx, m);
                            return Err("z3 model evaluation failed".into());
                        }
                        v.push((i, u as u8));
                    }
                }
                Z3_model_dec_ref(self.ctx, m);
                Some(Some(v))
            } else if r == -1 {
                Some(None)
            } else {
                None
            };
            out
        };
        let dt = t0.elapsed().as_secs_f64();
        self.solver_time += dt;
        if dt > 0.03 && self.guards.len() > 150 + key.len() {
            self.reset_next = true;
        }
        if dt > self.slow {
            eprintln!("slow query {:.2}s {:?}", dt, res.as_ref().map(|r| r.is_some()));
            for &e in &key {
                eprintln!("  {}", self.show(e, 14));
            }
        }
        if dt > self.max_query {
            self.max_query = dt;
        }
        match res {
            None => {
                self.unknown += 1;
                Err("solver returned unknown (timeout)".into())
            }
            Some(r) => {
                if r.is_some() {
                    self.sat += 1;
                } else {
                    self.unsat += 1;
                }
                self.cache.insert(key.clone(), r.clone());
                Ok(match r {
                    None => None,
                    Some(m) => {
                        let mut v = base.to_vec();
                        for (i, b) in m {
                            if v.len() <= i as usize {
                                v.resize(i as usize + 1, 0);
                            }
                            v[i as usize] = b;
                        }
                        // sanity: the model must satisfy every constraint of the query
                        for &e in &key {
                            if self.eval(e, &v) != 1 {
                                return Err("solver model does not satisfy the query under the engine's own semantics".into());
                            }
                        }
                        Some(v)
                    }
                })
            }
        }
    }
}
