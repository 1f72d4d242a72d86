//! Input generators and the reference model of a line (what was put in, nothing of the implementation).
use crate::rt::*;
use layered_nlp::x::{ToIdx, XDirection, XMatch};
use layered_nlp::*;

/// Marker put on every token of a generated line: its index.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct K(pub u16);
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct P(pub u8);
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Q(pub u8);
/// Zero sized and heap-owning attribute types.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Z;
#[derive(Debug, Clone, PartialEq)]
pub struct S(pub String);

/// Matches exactly the token range i..=j (forwards), using only the public matcher interface.
pub struct Span {
    pub i: usize,
    pub j: usize,
}
impl<'l> XMatch<'l> for Span {
    type Out = ();
    fn go<M: XDirection<'l>>(&self, d: &M, line: &'l LLLine) -> Vec<((), ToIdx)> {
        let v = d.attr::<K>(line);
        let (k, mut to) = match v.first() {
            Some((k, to)) => (k.0 as usize, *to),
            None => return Vec::new(),
        };
        if k != self.i {
            return Vec::new();
        }
        let mut at = self.i;
        while at < self.j {
            match d.after(at, line) {
                Some(n) => to = n.attr::<K>(line)[0].1,
                None => return Vec::new(),
            }
            at += 1;
        }
        vec![((), to)]
    }
}
/// The selection i..=j of a line whose tokens all carry `K`; `all` is the whole-line selection.
pub fn span(all: &LLSelection, i: usize, j: usize) -> LLSelection {
    let mut v = all.find_by(&Span { i, j });
    check(v.len() == 1, "a token range of the line can be selected by a matcher");
    v.pop().unwrap().0
}

/// The token range of a selection, read off its Debug output (two numbers).
pub fn rng(s: &LLSelection) -> (usize, usize) {
    let t = format!("{:?}", s);
    let (mut out, mut n, mut cur, mut inn) = ([0usize; 2], 0, 0usize, false);
    for b in t.bytes() {
        if b.is_ascii_digit() {
            cur = cur * 10 + (b - b'0') as usize;
            inn = true;
        } else if inn {
            if n < 2 {
                out[n] = cur;
            }
            n += 1;
            cur = 0;
            inn = false;
        }
    }
    check(n == 2, "a selection shows its two token indexes");
    (out[0], out[1])
}
pub fn obs_rng(r: (usize, usize)) {
    vp_observe((r.0 * 1000 + r.1) as u64);
}

pub const TEXTS: [&str; 6] = ["a", " ", "7", ",", "word", "é"];
/// Single-token input: one of TEXTS, or (code 6) a custom token of size 2.
pub fn tok(code: usize) -> InputToken {
    if code < TEXTS.len() {
        InputToken::text(TEXTS[code].to_string(), Vec::new())
    } else {
        InputToken::custom(2, Vec::new())
    }
}
/// Line of single-token inputs, each marked with K(index).
pub fn line_of(codes: &[usize]) -> LLLine {
    let v = codes
        .iter()
        .enumerate()
        .map(|(i, &c)| {
            let mut t = tok(c);
            t.add_attr(K(i as u16));
            t
        })
        .collect();
    create_line_from_input_tokens(v, |s| s.len())
}
/// Chosen contents (octal digits behind a leading 1), or 0 for the fixed ones.
static KINDS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// From here on `mixed` gives n tokens of arbitrary kinds: custom, blank, mark or word.
pub fn any_kinds(n: usize) {
    let mut c = 1usize;
    for _ in 0..n {
        c = c * 8 + [6usize, 1, 3, 4][pick(4)];
    }
    KINDS.store(c, std::sync::atomic::Ordering::Relaxed);
}
/// Fixed mixed content of n tokens: every third one is a custom token.
pub fn mixed(n: usize) -> Vec<usize> {
    let c = KINDS.load(std::sync::atomic::Ordering::Relaxed);
    if c != 0 {
        return (0..n).map(|i| (c >> (3 * i)) & 7).collect();
    }
    (0..n).map(|i| [0usize, 6, 3, 4, 1, 5, 2][i % 7]).collect()
}

/// One assignment: type (0 = P, 1 = Q), first token, last token, value.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Asg {
    pub ty: u8,
    pub i: usize,
    pub j: usize,
    pub v: u8,
}
/// Assignments of P/Q values to ranges, in order: the reference model of the attribute store.
#[derive(Clone, Default)]
pub struct Model {
    pub n: usize,
    pub asg: Vec<Asg>,
}
impl Model {
    /// Distinct ranges of a type in first-assignment order.
    pub fn ranges(&self, ty: u8) -> Vec<(usize, usize)> {
        let mut out: Vec<(usize, usize)> = Vec::new();
        for a in &self.asg {
            if a.ty == ty && !out.iter().any(|r| r.0 == a.i && r.1 == a.j) {
                out.push((a.i, a.j));
            }
        }
        out
    }
    pub fn values(&self, ty: u8, r: (usize, usize)) -> Vec<u8> {
        self.asg.iter().filter(|a| a.ty == ty && a.i == r.0 && a.j == r.1).map(|a| a.v).collect()
    }
    /// (other end, value) of the attributes starting (fwd) or ending (!fwd) at token t.
    pub fn at(&self, ty: u8, t: usize, fwd: bool) -> Vec<(usize, u8)> {
        let mut out = Vec::new();
        for r in self.ranges(ty) {
            let (near, far) = if fwd { r } else { (r.1, r.0) };
            if near == t {
                for v in self.values(ty, r) {
                    out.push((far, v));
                }
            }
        }
        out
    }
    /// Attributes on exactly token t.
    pub fn on(&self, ty: u8, t: usize) -> Vec<u8> {
        self.values(ty, (t, t))
    }
}
/// A symbolic token of an n-token line (of a long line: one of the edges and boundaries).
pub fn any_index(n: usize) -> usize {
    if n < 10 {
        pick(n as u8)
    } else if n < 100 {
        [0, 1, 9, 10, n - 2, n - 1][pick(6)]
    } else {
        [0, 255, 256, n - 1][pick(4)]
    }
}
/// A symbolic range of an n-token line.
pub fn any_range(n: usize) -> (usize, usize) {
    let i = any_index(n);
    let j = any_index(n);
    vp_assume(i <= j);
    (i, j)
}
pub fn any_asg(n: usize, types: u8, vals: u8) -> Asg {
    let (i, j) = any_range(n);
    let ty = if types > 1 { pick(types) as u8 } else { 0 };
    Asg { ty, i, j, v: choose(vals) }
}

/// Writes P or Q assignments through the ordinary resolver interface.
pub struct PutP<'a>(pub &'a [Asg]);
impl<'a> Resolver for PutP<'a> {
    type Attr = P;
    fn go(&self, all: LLSelection) -> Vec<LLCursorAssignment<P>> {
        self.0.iter().map(|a| span(&all, a.i, a.j).finish_with_attr(P(a.v))).collect()
    }
}
pub struct PutQ<'a>(pub &'a [Asg]);
impl<'a> Resolver for PutQ<'a> {
    type Attr = Q;
    fn go(&self, all: LLSelection) -> Vec<LLCursorAssignment<Q>> {
        self.0.iter().map(|a| span(&all, a.i, a.j).finish_with_attr(Q(a.v))).collect()
    }
}
/// Apply one assignment as its own layer.
pub fn put(line: LLLine, a: Asg) -> LLLine {
    if a.ty == 0 {
        line.run(&PutP(&[a]))
    } else {
        line.run(&PutQ(&[a]))
    }
}
/// A K-marked line of n mixed tokens carrying m symbolic assignments, each its own layer.
pub fn any_line(n: usize, m: usize, types: u8, vals: u8) -> (LLLine, Model) {
    let mut line = line_of(&mixed(n));
    let mut md = Model { n, asg: Vec::new() };
    for _ in 0..m {
        let a = any_asg(n, types, vals);
        line = put(line, a);
        md.asg.push(a);
    }
    (line, md)
}
/// As any_line, on top of k fixed assignments that put many values of both types and several lengths on every token.
pub fn dense_line(n: usize, k: usize, m: usize, types: u8, vals: u8) -> (LLLine, Model) {
    let mut md = Model { n, asg: Vec::new() };
    for q in 0..k {
        let i = (q * 5 + q / n) % n;
        let j = (i + [0, 0, 1, 0, 2, 0, 3][q % 7]).min(n - 1);
        md.asg.push(Asg { ty: if types > 1 { (q % 2) as u8 } else { 0 }, i, j, v: (q / 2) as u8 % vals });
    }
    let pick_ty = |ty: u8| -> Vec<Asg> { md.asg.iter().filter(|a| a.ty == ty).copied().collect() };
    let mut line = line_of(&mixed(n));
    if k > 0 {
        line = line.run(&PutP(&pick_ty(0)));
        if types > 1 {
            line = line.run(&PutQ(&pick_ty(1)));
        }
    }
    for _ in 0..m {
        let a = any_asg(n, types, vals);
        line = put(line, a);
        md.asg.push(a);
    }
    (line, md)
}
/// Text of token range i..=j of a line, from its tokens.
pub fn text_of(line: &LLLine, r: (usize, usize)) -> String {
    let mut t = String::new();
    for k in &line.ll_tokens()[r.0..=r.1] {
        if let LToken::Text(x, _) = k.get_token() {
            t.push_str(x);
        }
    }
    t
}
/// Run `f` on the whole-line selection inside a resolver pass (as users do), without assigning anything.
pub struct With<F: Fn(LLSelection)>(pub F);
impl<F: Fn(LLSelection)> Resolver for With<F> {
    type Attr = ();
    fn go(&self, s: LLSelection) -> Vec<LLCursorAssignment<()>> {
        (self.0)(s);
        Vec::new()
    }
}

// ---- texts
pub const ALPHA: [char; 20] = [
    'a', '1', ',', ' ', '.', '\'', 'é', '7', '$', '_', '-', '\u{2013}', '\u{301}', '\u{1F600}', '\n', ':', 'Z', '\u{200D}', '\u{4E16}', '\u{660}',
];
/// A symbolic character out of the first n of ALPHA (an ite-tree over a symbolic index).
pub fn any_alpha(n: u8) -> char {
    ALPHA[choose(n) as usize]
}
