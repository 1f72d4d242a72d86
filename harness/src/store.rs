//! C06..C08, C26: attribute store, layering, find, type-erased attributes.
use crate::gen::*;
use crate::rt::*;
use crate::tok::{check_query_p, check_query_q};
use layered_nlp::*;

// ---------- C06
fn store(n: usize, m: usize, types: u8) {
    let (line, md) = any_line(n, m, types, 3);
    check_query_p(&line, &md, "C06 query returns exactly the assigned P values by range");
    check_query_q(&line, &md, "C06 query returns exactly the assigned Q values by range");
    check(line.query::<Z>().is_empty() && line.query::<u8>().is_empty(), "C06 a type never assigned is never returned");
    if md.ranges(0).len() + md.ranges(1).len() < m {
        cover("several values on one range");
    }
    if md.ranges(0).len() == m {
        cover("all distinct");
    }
}
#[no_mangle]
pub extern "C" fn c06_two() {
    store(3, 2, 2);
}
#[no_mangle]
pub extern "C" fn c06_three() {
    store(3, 3, 2);
}
#[no_mangle]
pub extern "C" fn c06_three_p() {
    store(3, 3, 1);
}
#[no_mangle]
pub extern "C" fn c06_four_p() {
    store(3, 4, 1);
}
#[no_mangle]
pub extern "C" fn c06_wide() {
    store(7, 2, 1);
}
#[no_mangle]
pub extern "C" fn c06_far() {
    store(20, 2, 1);
}
#[no_mangle]
pub extern "C" fn c06_vast() {
    store(260, 1, 2);
}
/// Many values of two types on overlapping ranges.
#[no_mangle]
pub extern "C" fn c06_load() {
    let n = 6;
    let shift = pick(6);
    let mut md = Model { n, asg: Vec::new() };
    let mut line = line_of(&mixed(n));
    for k in 0..30usize {
        let i = (k * 5 + shift) % n;
        let j = i + (k * 7 + k / 4) % (n - i);
        let a = Asg { ty: (k % 2) as u8, i, j, v: any_u8() };
        line = put(line, a);
        md.asg.push(a);
    }
    check_query_p(&line, &md, "C06 thirty assignments, P");
    check_query_q(&line, &md, "C06 thirty assignments, Q");
}
/// Many distinct ranges of one type, some assigned again.
#[no_mangle]
pub extern "C" fn c06_ranges() {
    let n = 50;
    let mut md = Model { n, asg: Vec::new() };
    for t in 0..n {
        md.asg.push(Asg { ty: 0, i: t, j: t, v: any_u8() });
    }
    for t in 0..30 {
        md.asg.push(Asg { ty: 0, i: t, j: t + 10, v: any_u8() });
    }
    md.asg.push(Asg { v: any_u8(), ..any_asg(n, 1, 1) });
    for t in 0..30 {
        md.asg.push(Asg { ty: 0, i: t + 3, j: t + 3, v: any_u8() });
    }
    let line = line_of(&mixed(n)).run(&PutP(&md.asg));
    check_query_p(&line, &md, "C06 any number of ranges is kept, each once");
    let total: usize = md.asg.len();
    check(line.find(&x::attr::<P>()).len() == total, "C06 every value is found once");
}
/// A pass that returns many assignments.
#[no_mangle]
pub extern "C" fn c06_pass() {
    let n = 20;
    let m = [1usize, 16, 17, 33, 65, 100, 129, 257, 300][pick(9)];
    let extra = Asg { v: any_u8(), ..any_asg(n, 1, 1) };
    let mut md = Model { n, asg: Vec::new() };
    for q in 0..m {
        let i = (q * 7) % n;
        md.asg.push(Asg { ty: 0, i, j: (i + q / n).min(n - 1), v: if q % 50 == 49 { any_u8() } else { q as u8 } });
    }
    md.asg.push(extra);
    let line = line_of(&mixed(n)).run(&PutP(&md.asg));
    check_query_p(&line, &md, "C06 every assignment of a pass is kept");
    let line = line.run(&PutP(&[extra]));
    md.asg.push(extra);
    check_query_p(&line, &md, "C06 and a later one is added");
}
#[derive(Debug)]
struct G<const N: u8>(u8);
struct PutG<const N: u8>(usize, usize, u8);
impl<const N: u8> Resolver for PutG<N> {
    type Attr = G<N>;
    fn go(&self, all: LLSelection) -> Vec<LLCursorAssignment<G<N>>> {
        vec![span(&all, self.0, self.1).finish_with_attr(G(self.2))]
    }
}
macro_rules! gs { ($f:ident, $($n:literal),*) => { $($f!($n);)* } }
/// Many types on one range.
#[no_mangle]
pub extern "C" fn c06_types() {
    let n = 3;
    let r = any_range(n);
    let v: Vec<u8> = (0..20).map(|_| any_u8()).collect();
    let mut line = line_of(&mixed(n));
    macro_rules! one { ($n:literal) => { line = line.run(&PutG::<$n>(r.0, r.1, v[$n])); } }
    gs!(one, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19);
    macro_rules! two { ($n:literal) => {
        let q = line.query::<G<$n>>();
        check(q.len() == 1 && q[0].0 == r && q[0].2.len() == 1 && q[0].2[0].0 == v[$n], "C06 twenty types on one range");
        check(line.find(&x::attr::<G<$n>>()).len() == 1, "C06 each type is found once");
    } }
    gs!(two, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19);
    check(line.query::<K>().len() == n, "C06 the input attributes are still there");
    vp_observe(r.0 as u64);
}
/// All assignments made by one pass of one resolver.
#[no_mangle]
pub extern "C" fn c06_one_pass() {
    let n = 3;
    let mut md = Model { n, asg: Vec::new() };
    for _ in 0..3 {
        md.asg.push(any_asg(n, 1, 255));
    }
    let line = line_of(&mixed(n)).run(&PutP(&md.asg));
    check_query_p(&line, &md, "C06 one pass may assign any number of values to any ranges");
}
/// Many values on few ranges.
#[no_mangle]
pub extern "C" fn c06_many() {
    let n = 4;
    let rs = [(1usize, 2usize), (2, 2)];
    let mut md = Model { n, asg: Vec::new() };
    let mut line = line_of(&mixed(n));
    for _ in 0..7 {
        let r = rs[pick(2)];
        let a = Asg { ty: 0, i: r.0, j: r.1, v: any_u8() };
        md.asg.push(a);
        line = put(line, a);
    }
    check_query_p(&line, &md, "C06 any number of values on one range is kept in order");
}
struct Own(usize, usize, u8);
impl Resolver for Own {
    type Attr = S;
    fn go(&self, all: LLSelection) -> Vec<LLCursorAssignment<S>> {
        let mut s = String::from("v");
        s.push((b'a' + self.2) as char);
        vec![span(&all, self.0, self.1).finish_with_attr(S(s))]
    }
}
struct Zero(usize, usize);
impl Resolver for Zero {
    type Attr = Z;
    fn go(&self, all: LLSelection) -> Vec<LLCursorAssignment<Z>> {
        // through the FinishWith extension
        vec![(span(&all, self.0, self.1), 1u8), (span(&all, self.0, self.0), 2u8)].finish_with(|_| Z)
    }
}
/// Owned, zero-sized, and type-tagged values next to each other on the same ranges.
#[no_mangle]
pub extern "C" fn c06_kinds() {
    let n = 3;
    let (a, b, c) = (any_range(n), any_range(n), any_range(n));
    let (x, y) = (choose(20), choose(20));
    let line = line_of(&mixed(n)).run(&Own(a.0, a.1, x)).run(&Zero(b.0, b.1)).run(&Own(c.0, c.1, y));
    let q = line.query::<S>();
    let mk = |v: u8| {
        let mut s = String::from("v");
        s.push((b'a' + v) as char);
        s
    };
    if a == c {
        check(q.len() == 1 && q[0].0 == a && q[0].2.len() == 2, "C06 owned values on one range");
        check(q[0].2[0].0 == mk(x) && q[0].2[1].0 == mk(y), "C06 owned values in order");
        cover("same range");
    } else {
        check(q.len() == 2 && q[0].0 == a && q[1].0 == c, "C06 owned values on two ranges");
        check(q[0].2.len() == 1 && q[0].2[0].0 == mk(x) && q[1].2.len() == 1 && q[1].2[0].0 == mk(y), "C06 owned values intact");
    }
    for g in &q {
        check(g.1 == text_of(&line, g.0), "C06 query gives the text of the range");
    }
    let z = line.query::<Z>();
    check(z.len() == if b.0 == b.1 { 1 } else { 2 }, "C06 zero-sized values by range");
    check(z[0].0 == b && z[0].2.len() == if b.0 == b.1 { 2 } else { 1 }, "C06 zero-sized values are counted");
    vp_observe((q.len() * 10 + z.len()) as u64);
}

// ---------- C07
fn snapshot(line: &LLLine) -> Vec<(String, u8)> {
    line.ll_tokens()
        .iter()
        .map(|t| match t.get_token() {
            LToken::Text(s, TextTag::NATN) => (s.clone(), 1),
            LToken::Text(s, TextTag::PUNC) => (s.clone(), 2),
            LToken::Text(s, TextTag::SYMB) => (s.clone(), 3),
            LToken::Text(s, TextTag::SPACE) => (s.clone(), 4),
            LToken::Text(s, TextTag::WORD) => (s.clone(), 5),
            LToken::Value => (String::new(), 0),
        })
        .collect()
}
fn auto(line: &LLLine) -> (Vec<((usize, usize), usize, u8)>, Vec<((usize, usize), usize, char)>, Vec<((usize, usize), usize, u8)>, Vec<(usize, usize)>) {
    (
        line.query::<TextTag>()
            .iter()
            .map(|q| {
                (
                    q.0,
                    q.2.len(),
                    match q.2[0] {
                        TextTag::NATN => 1,
                        TextTag::PUNC => 2,
                        TextTag::SYMB => 3,
                        TextTag::SPACE => 4,
                        TextTag::WORD => 5,
                    },
                )
            })
            .collect(),
        line.query::<char>().iter().map(|q| (q.0, q.2.len(), *q.2[0])).collect(),
        line.query::<K>().iter().map(|q| (q.0, q.2.len(), q.2[0].0 as u8)).collect(),
        line.find(&x::attr::<K>()).iter().map(|f| f.range()).collect(),
    )
}
struct Sees<'a> {
    md: &'a Model,
    a: Asg,
}
impl<'a> Resolver for Sees<'a> {
    type Attr = P;
    fn go(&self, all: LLSelection) -> Vec<LLCursorAssignment<P>> {
        check(rng(&all) == (0, self.md.n - 1), "C07 a resolver is given the whole line");
        let mut want: Vec<((usize, usize), u8)> = Vec::new();
        for t in 0..self.md.n {
            for (j, v) in self.md.at(0, t, true) {
                want.push(((t, j), v));
            }
        }
        {
            let got = all.find_by(&x::attr::<P>());
            check(got.len() == want.len(), "C07 a resolver sees every earlier P attribute");
            for (g, w) in got.iter().zip(&want) {
                check(rng(&g.0) == w.0 && g.1 .0 == w.1, "C07 a resolver sees earlier P attributes as assigned");
            }
            let qs = all.find_by(&x::attr::<Q>()).len();
            check(qs == self.md.asg.iter().filter(|a| a.ty == 1).count(), "C07 a resolver sees every earlier Q attribute");
            check(all.find_by(&x::attr::<K>()).len() == self.md.n, "C07 a resolver sees the input attributes");
        }
        vec![span(&all, self.a.i, self.a.j).finish_with_attr(P(self.a.v))]
    }
}
fn layers(n: usize, m: usize) {
    let (line, mut md) = any_line(n, m, 2, 3);
    let (toks, au) = (snapshot(&line), auto(&line));
    let a = Asg { ty: 0, i: any_index(n), j: n - 1, v: any_u8() };
    let line = line.run(&Sees { md: &md, a });
    md.asg.push(a);
    check(snapshot(&line) == toks, "C07 a pass leaves the tokens alone");
    check(auto(&line) == au, "C07 a pass leaves the automatic and input attributes alone");
    check_query_p(&line, &md, "C07 a pass only adds its own assignments (P)");
    check_query_q(&line, &md, "C07 a pass only adds its own assignments (Q)");
    // a pass without assignments changes nothing
    let line = line.run(&With(|_| {}));
    check_query_p(&line, &md, "C07 a pass without assignments changes nothing");
    check(line.query::<()>().is_empty(), "C07 a pass without assignments adds no type");
}
#[no_mangle]
pub extern "C" fn c07_one() {
    layers(3, 1);
}
#[no_mangle]
pub extern "C" fn c07_two() {
    layers(3, 2);
}
#[no_mangle]
pub extern "C" fn c07_wide() {
    layers(6, 1);
}
#[no_mangle]
pub extern "C" fn c07_far() {
    layers(20, 1);
}
/// A line of one token of any kind is a line like any other.
#[no_mangle]
pub extern "C" fn c07_single() {
    let c = pick(7);
    let line = line_of(&[c]);
    let (toks, au) = (snapshot(&line), auto(&line));
    let mut md = Model { n: 1, asg: Vec::new() };
    let (a, b) = (Asg { ty: 0, i: 0, j: 0, v: any_u8() }, Asg { ty: 0, i: 0, j: 0, v: any_u8() });
    let line = line.run(&Sees { md: &md, a });
    md.asg.push(a);
    let line = line.run(&Sees { md: &md, a: b });
    md.asg.push(b);
    check(snapshot(&line) == toks && auto(&line) == au, "C07 a pass leaves a one-token line alone");
    check_query_p(&line, &md, "C07 a pass over one token adds its assignment");
}
struct Marks<const N: u8>(u8);
impl<const N: u8> Resolver for Marks<N> {
    type Attr = G<N>;
    fn go(&self, all: LLSelection) -> Vec<LLCursorAssignment<G<N>>> {
        all.find_by(&x::attr::<K>()).into_iter().map(|(s, _)| s.finish_with_attr(G(self.0))).collect()
    }
}
/// Many passes, each marking every token of a longer line: every layer stays.
#[no_mangle]
pub extern "C" fn c07_passes() {
    let n = [1usize, 2, 12, 33][pick(4)];
    let v: Vec<u8> = (0..12).map(|_| any_u8()).collect();
    let mut line = line_of(&mixed(n));
    let (toks, au) = (snapshot(&line), auto(&line));
    macro_rules! one { ($n:literal) => { line = line.run(&Marks::<$n>(v[$n])); } }
    gs!(one, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11);
    line = line.run(&Marks::<0>(v[1]));
    macro_rules! two { ($n:literal) => {
        let q = line.query::<G<$n>>();
        check(q.len() == n, "C07 every token keeps every layer");
        for (i, g) in q.iter().enumerate() {
            check(g.0 == (i, i) && g.2.len() == if $n == 0 { 2 } else { 1 } && g.2[0].0 == v[$n], "C07 every layer stays as it was assigned");
        }
    } }
    gs!(two, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11);
    check(snapshot(&line) == toks && auto(&line) == au, "C07 many passes leave the line alone");
}
/// Layers of different types commute.
#[no_mangle]
pub extern "C" fn c07_commute() {
    let n = 3;
    let (mut a, mut b) = (any_asg(n, 1, 3), any_asg(n, 1, 3));
    a.ty = 0;
    b.ty = 1;
    let l1 = put(put(line_of(&mixed(n)), a), b);
    let l2 = put(put(line_of(&mixed(n)), b), a);
    let md = Model { n, asg: vec![a, b] };
    for l in [&l1, &l2] {
        check_query_p(l, &md, "C07 layers of different types are independent (P)");
        check_query_q(l, &md, "C07 layers of different types are independent (Q)");
    }
}
struct Never;
impl Resolver for Never {
    type Attr = P;
    fn go(&self, _: LLSelection) -> Vec<LLCursorAssignment<P>> {
        check(false, "C07 an empty line is not offered to a resolver");
        Vec::new()
    }
}
#[no_mangle]
pub extern "C" fn c07_empty() {
    let line = create_line_from_input_tokens(Vec::new(), |s| s.len()).run(&Never).run(&Never);
    check(line.ll_tokens().is_empty() && line.query::<P>().is_empty() && line.query::<TextTag>().is_empty(), "C07 an empty line stays empty");
    check(line.find(&x::attr::<P>()).is_empty() && line.find(&x::token_text()).is_empty(), "C07 nothing is found in an empty line");
    check(LLSelection::from_line(std::rc::Rc::new(line)).is_none(), "C07 an empty line has no selection");
}

// ---------- C08
fn finds(n: usize, m: usize) {
    finds_on(0, n, m);
}
fn finds_on(k: usize, n: usize, m: usize) {
    // custom tokens of symbolic size between texts, so that positions are symbolic
    let mut pos: Vec<usize> = vec![0];
    let mut v = Vec::new();
    for i in 0..n {
        let mut t = if i % 2 == 0 {
            let s = any_size();
            let p = pos[i];
            pos.push(p + s);
            InputToken::custom(s, Vec::new())
        } else {
            let p = pos[i];
            pos.push(p + 2);
            InputToken::text("é".to_string(), Vec::new())
        };
        t.add_attr(K(i as u16));
        v.push(t);
    }
    let mut line = create_line_from_input_tokens(v, |s| s.len());
    let mut md = Model { n, asg: Vec::new() };
    for q in 0..k {
        let i = (q * 5 + q / n) % n;
        let a = Asg { ty: (q % 2) as u8, i, j: (i + [0, 0, 1, 0, 2][q % 5]).min(n - 1), v: (q / 2) as u8 % 3 };
        line = put(line, a);
        md.asg.push(a);
    }
    for _ in 0..m {
        let a = any_asg(n, 2, 3);
        line = put(line, a);
        md.asg.push(a);
    }
    let key = choose(3);
    let (mut all, mut eq): (Vec<((usize, usize), u8)>, Vec<(usize, usize)>) = (Vec::new(), Vec::new());
    let mut sq: Vec<((usize, usize), u8, u8)> = Vec::new();
    for t in 0..n {
        for (j, val) in md.at(0, t, true) {
            all.push(((pos[t], pos[j + 1]), val));
            if val == key {
                eq.push((pos[t], pos[j + 1]));
            }
            if j + 1 < n {
                for (l, w) in md.at(1, j + 1, true) {
                    sq.push(((pos[t], pos[l + 1]), val, w));
                }
            }
        }
    }
    let f = line.find(&x::attr::<P>());
    check(f.len() == all.len(), "C08 find returns every attribute once");
    for (g, w) in f.iter().zip(&all) {
        check(g.range() == w.0, "C08 find reports position ranges");
        check(g.attr().0 == w.1, "C08 find reports the value");
        vp_observe(g.range().0 as u64 * 7 + g.range().1 as u64);
    }
    let f = line.find(&x::attr_eq(&P(key)));
    check(f.len() == eq.len() && f.iter().zip(&eq).all(|(g, w)| g.range() == *w), "C08 find by value reports exactly the equal ones");
    let f = line.find(&x::seq((x::attr::<P>(), x::attr::<Q>())));
    check(f.len() == sq.len(), "C08 find reports every sequence");
    for (g, w) in f.iter().zip(&sq) {
        check(g.range() == w.0 && g.attr().0 .0 == w.1 && g.attr().1 .0 == w.2, "C08 a sequence spans from its first to its last position");
        cover("sequence");
    }
    let f = line.find(&x::token_text());
    check(f.len() == n / 2, "C08 find reports text tokens");
    for (i, g) in f.iter().enumerate() {
        check(g.range() == (pos[2 * i + 1], pos[2 * i + 2]) && *g.attr() == "é", "C08 text tokens with their positions");
    }
    // agreement with query
    let q = line.query::<P>();
    let total: usize = q.iter().map(|e| e.2.len()).sum();
    check(total == all.len(), "C08 find and query agree");
}
#[no_mangle]
pub extern "C" fn c08_two() {
    finds(3, 2);
}
#[no_mangle]
pub extern "C" fn c08_three() {
    finds(3, 3);
}
#[no_mangle]
pub extern "C" fn c08_wide() {
    finds(5, 2);
}

#[no_mangle]
pub extern "C" fn c08_far() {
    finds(20, 1);
}
#[no_mangle]
pub extern "C" fn c08_far2() {
    finds(12, 2);
}

#[no_mangle]
pub extern "C" fn c08_vast() {
    finds(260, 1);
}

#[no_mangle]
pub extern "C" fn c08_dense() {
    finds_on(30, 5, 1);
}

// ---------- C26
#[no_mangle]
pub extern "C" fn c26_extract() {
    let v = any_u8();
    let a = AnyAttribute::new(P(v));
    check(a.type_id() == std::any::TypeId::of::<P>(), "C26 a type-erased attribute knows its type");
    check(a.type_id() != std::any::TypeId::of::<Q>(), "C26 and no other");
    match a.extract::<Q>() {
        Ok(_) => check(false, "C26 extraction as another type fails"),
        Err(a) => {
            check(a.type_id() == std::any::TypeId::of::<P>(), "C26 a failed extraction hands the attribute back");
            match a.extract::<u8>() {
                Ok(_) => check(false, "C26 extraction as the inner type fails"),
                Err(a) => {
                    if any_bool() {
                        match a.extract::<P>() {
                            Ok(p) => check(p.0 == v, "C26 extraction returns the value"),
                            Err(_) => check(false, "C26 extraction as its own type succeeds"),
                        }
                        cover("extracted");
                    } else {
                        // handed back attributes are as good as new
                        let line = create_line_from_input_tokens(vec![InputToken::custom(1, vec![a])], |s| s.len());
                        let q = line.query::<P>();
                        check(q.len() == 1 && q[0].2.len() == 1 && q[0].2[0].0 == v, "C26 a handed-back attribute can still be used");
                        check(line.query::<Q>().is_empty(), "C26 under its own type only");
                        cover("used");
                    }
                }
            }
        }
    }
    vp_observe(v as u64);
}
#[no_mangle]
pub extern "C" fn c26_owned() {
    let v = any_u8();
    vp_assume(v < 128);
    let mut s = String::from("x");
    s.push(v as char);
    let a = AnyAttribute::new(S(s.clone()));
    match a.extract::<String>() {
        Ok(_) => check(false, "C26 extraction as another owned type fails"),
        Err(a) => match a.extract::<S>() {
            Ok(x) => check(x.0 == s, "C26 owned values survive"),
            Err(_) => check(false, "C26 extraction as its own type succeeds"),
        },
    }
    let z = AnyAttribute::new(Z);
    check(z.extract::<Z>().is_ok(), "C26 zero-sized values survive");
    let u = AnyAttribute::new(());
    match u.extract::<Z>() {
        Ok(_) => check(false, "C26 zero-sized types are told apart"),
        Err(u) => check(u.extract::<()>().is_ok(), "C26 zero-sized values survive a failed extraction"),
    }
}
/// Mixed lists of type-erased attributes keep each value with its type and order.
#[no_mangle]
pub extern "C" fn c26_mixed() {
    let mut attrs = Vec::new();
    let (mut ps, mut qs): (Vec<u8>, Vec<u8>) = (Vec::new(), Vec::new());
    for _ in 0..4 {
        let v = any_u8();
        if any_bool() {
            attrs.push(AnyAttribute::new(P(v)));
            ps.push(v);
        } else {
            attrs.push(AnyAttribute::new(Q(v)));
            qs.push(v);
        }
    }
    let line = create_line_from_input_tokens(vec![InputToken::text("ab".to_string(), attrs)], |s| s.len());
    let (p, q) = (line.query::<P>(), line.query::<Q>());
    check(p.len() == (!ps.is_empty()) as usize && q.len() == (!qs.is_empty()) as usize, "C26 types are kept apart");
    if !ps.is_empty() {
        check(p[0].2.len() == ps.len() && p[0].2.iter().zip(&ps).all(|(a, b)| a.0 == *b), "C26 values keep their order (P)");
    }
    if !qs.is_empty() {
        check(q[0].2.len() == qs.len() && q[0].2.iter().zip(&qs).all(|(a, b)| a.0 == *b), "C26 values keep their order (Q)");
    }
    vp_observe(ps.len() as u64);
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct T<const N: usize>(pub u8);
/// Many types on one input, each with values before and after the others.
#[no_mangle]
pub extern "C" fn c26_many() {
    let v: Vec<u8> = (0..24).map(|_| any_u8()).collect();
    let mut t = if pick(2) == 0 { InputToken::text("1,2".to_string(), vec![AnyAttribute::new(T::<0>(v[0]))]) } else { InputToken::custom(3, vec![AnyAttribute::new(T::<0>(v[0]))]) };
    macro_rules! add {
        ($($n:literal)*) => { $( t.add_attr(T::<$n>(v[$n])); )* };
    }
    add!(1 2 3 4 5 6 7 8 9 10 11);
    macro_rules! again {
        ($($n:literal)*) => { $( t.add_attr(T::<$n>(v[$n + 12])); )* };
    }
    again!(11 10 9 8 7 6 5 4 3 2 1 0);
    let line = create_line_from_input_tokens(vec![InputToken::text("a".to_string(), Vec::new()), t], |s| s.len());
    let r = (1, line.ll_tokens().len() - 1);
    macro_rules! see {
        ($($n:literal)*) => { $( {
            let q = line.query::<T<$n>>();
            check(q.len() == 1 && q[0].0 == r && q[0].2.len() == 2 && q[0].2[0].0 == v[$n] && q[0].2[1].0 == v[$n + 12], "C26 every value of every type is kept, in order");
        } )* };
    }
    see!(0 1 2 3 4 5 6 7 8 9 10 11);
}
/// A value is dropped exactly once, and not before its owner goes.
#[derive(Debug)]
pub struct Owned(std::sync::Arc<u8>);
#[no_mangle]
pub extern "C" fn c26_drops() {
    let v = any_u8();
    let c = std::sync::Arc::new(v);
    let count = |c: &std::sync::Arc<u8>| std::sync::Arc::strong_count(c);
    let a = AnyAttribute::new(Owned(c.clone()));
    check(count(&c) == 2, "C26 wrapping keeps the value");
    let a = match a.extract::<P>() {
        Ok(_) => unreachable!(),
        Err(a) => a,
    };
    check(count(&c) == 2, "C26 a failed extraction neither drops nor copies the value");
    match pick(3) {
        0 => drop(a),
        1 => match a.extract::<Owned>() {
            Ok(o) => {
                check(count(&c) == 2 && *o.0 == v, "C26 extraction moves the value out");
                drop(o);
            }
            Err(_) => check(false, "C26 extraction as its own type succeeds"),
        },
        _ => {
            let line = create_line_from_input_tokens(vec![InputToken::custom(1, vec![a])], |s| s.len());
            check(count(&c) == 2 && *line.query::<Owned>()[0].2[0].0 == v, "C26 a line keeps the value");
            drop(line);
        }
    }
    check(count(&c) == 1, "C26 the value is dropped exactly once");
}
// ---------- tokens of arbitrary kinds
#[no_mangle]
pub extern "C" fn c06_any_kinds() {
    any_kinds(3);
    store(3, 2, 1);
}
#[no_mangle]
pub extern "C" fn c07_kinds() {
    any_kinds(3);
    layers(3, 1);
}
/// A line that carries many values already, on every range and in several passes of both types, then one pass with two assignments.
fn crowded(n: usize, k: usize) {
    let (mut line, mut md) = dense_line(n, k, 0, 2, 3);
    for q in 0..3 {
        let a = Asg { ty: (q % 2) as u8, i: 0, j: n - 1, v: q };
        line = put(line, a);
        md.asg.push(a);
    }
    let (toks, au) = (snapshot(&line), auto(&line));
    let (mut a, mut b) = (any_asg(n, 1, 3), any_asg(n, 1, 3));
    (a.v, b.v) = (any_u8(), any_u8());
    let line = line.run(&PutP(&[a, b]));
    md.asg.push(a);
    md.asg.push(b);
    check(snapshot(&line) == toks && auto(&line) == au, "C07 a pass over a crowded line leaves the line alone");
    check_query_p(&line, &md, "C07 a pass over a crowded line adds exactly its assignments (P)");
    check_query_q(&line, &md, "C07 a pass over a crowded line adds exactly its assignments (Q)");
    let c = Asg { ty: 0, i: a.i, j: a.j, v: any_u8() };
    let line = line.run(&Sees { md: &md, a: c });
    md.asg.push(c);
    check_query_p(&line, &md, "C07 a repeated pass adds to the same range");
}
#[no_mangle]
pub extern "C" fn c07_again() {
    crowded(3, 0);
}
#[no_mangle]
pub extern "C" fn c07_dense() {
    crowded(3, 24);
}
#[no_mangle]
pub extern "C" fn c07_crowd() {
    crowded(4, 40);
}
