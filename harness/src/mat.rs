//! C09..C12: matchers.
use crate::gen::*;
use crate::rt::*;
use layered_nlp::x::{AnyOf2, AnyOf3};
use layered_nlp::*;

/// Expected match: far end, values.
type Far = Vec<(usize, [u8; 3])>;

fn ext(sel: (usize, usize), far: usize, fwd: bool) -> (usize, usize) {
    if fwd {
        (sel.0, far)
    } else {
        (far, sel.1)
    }
}
fn same(got: &[((usize, usize), [u8; 3])], sel: (usize, usize), want: &Far, fwd: bool, msg: &'static str) {
    check(got.len() == want.len(), msg);
    for (g, w) in got.iter().zip(want) {
        check(g.0 == ext(sel, w.0, fwd), msg);
        check(g.1 == w.1, msg);
        obs_rng(g.0);
    }
}
/// Run matcher m from the selection in the given direction.
macro_rules! go {
    ($sel:expr, $fwd:expr, $m:expr, $f:expr) => {{
        let v = if $fwd { $sel.match_forwards(&$m) } else { $sel.match_backwards(&$m) };
        let out: Vec<((usize, usize), [u8; 3])> = v.into_iter().map(|(s, o)| (rng(&s), $f(o))).collect();
        out
    }};
}
fn next(n: usize, sel: (usize, usize), fwd: bool) -> Option<usize> {
    if fwd {
        if sel.1 + 1 < n {
            Some(sel.1 + 1)
        } else {
            None
        }
    } else if sel.0 > 0 {
        Some(sel.0 - 1)
    } else {
        None
    }
}
fn step(n: usize, far: usize, fwd: bool) -> Option<usize> {
    if fwd {
        if far + 1 < n {
            Some(far + 1)
        } else {
            None
        }
    } else if far > 0 {
        Some(far - 1)
    } else {
        None
    }
}
fn m_attr(md: &Model, ty: u8, at: Option<usize>, fwd: bool) -> Vec<(usize, u8)> {
    match at {
        Some(t) => md.at(ty, t, fwd),
        None => Vec::new(),
    }
}

fn basic(n: usize, m: usize, fwd: bool) {
    basic_on(0, n, m, fwd);
}
fn basic_on(k: usize, n: usize, m: usize, fwd: bool) {
    let codes = mixed(n);
    let (line, md) = dense_line(n, k, m, 1, 3);
    let r = any_range(n);
    let (v, a, b) = (choose(3), choose(4), choose(4));
    line.run(&With(|all| {
        let sel = span(&all, r.0, r.1);
        let t = next(n, r, fwd);
        if t.is_none() {
            cover("at the edge");
        }
        let at = m_attr(&md, 0, t, fwd);
        let w: Far = at.iter().map(|x| (x.0, [x.1, 0, 0])).collect();
        same(&go!(sel, fwd, x::attr::<P>(), |o: &P| [o.0, 0, 0]), r, &w, fwd, "attr matches exactly the attributes that begin next to the selection");
        let w: Far = at.iter().filter(|x| x.1 == v).map(|x| (x.0, [0, 0, 0])).collect();
        same(&go!(sel, fwd, x::attr_eq(&P(v)), |_| [0, 0, 0]), r, &w, fwd, "attr_eq matches exactly the equal attributes");
        let w: Far = match t {
            Some(t) => md.on(0, t).into_iter().filter(|x| *x == a || *x == b).map(|x| (t, [x, 0, 0])).collect(),
            None => Vec::new(),
        };
        same(&go!(sel, fwd, x::token_has_any(&[P(a), P(b)]), |o: &P| [o.0, 0, 0]), r, &w, fwd, "token_has_any matches exactly the single-token attributes among the given");
        check(go!(sel, fwd, x::token_has_any(&[] as &[P]), |o: &P| [o.0, 0, 0]).is_empty(), "token_has_any of nothing matches nothing");
        let w: Far = match t {
            Some(t) if codes[t] < TEXTS.len() => vec![(t, [TEXTS[codes[t]].as_bytes()[0], TEXTS[codes[t]].len() as u8, 0])],
            _ => Vec::new(),
        };
        same(&go!(sel, fwd, x::token_text(), |s: &str| [s.as_bytes()[0], s.len() as u8, 0]), r, &w, fwd, "token_text matches exactly the adjacent text token");
        let w: Far = match t {
            Some(t) if codes[t] == 1 => vec![(t, [0, 0, 0])],
            _ => Vec::new(),
        };
        same(&go!(sel, fwd, x::whitespace(), |_| [0, 0, 0]), r, &w, fwd, "whitespace matches exactly an adjacent whitespace token");
        check(go!(sel, fwd, x::attr::<Z>(), |_| [0, 0, 0]).is_empty(), "a type nowhere assigned is nowhere matched");
        if !at.is_empty() {
            cover("matched");
        }
    }));
}
#[no_mangle]
pub extern "C" fn c09_fwd2() {
    basic(3, 2, true);
}
#[no_mangle]
pub extern "C" fn c09_fwd3() {
    basic(3, 3, true);
}
#[no_mangle]
pub extern "C" fn c09_fwd_wide() {
    basic(6, 1, true);
}
#[no_mangle]
pub extern "C" fn c10_bwd2() {
    basic(3, 2, false);
}
#[no_mangle]
pub extern "C" fn c10_bwd3() {
    basic(3, 3, false);
}
#[no_mangle]
pub extern "C" fn c10_bwd_wide() {
    basic(6, 1, false);
}
#[no_mangle]
pub extern "C" fn c09_far() {
    basic(20, 1, true);
}
#[no_mangle]
pub extern "C" fn c10_far() {
    basic(20, 1, false);
}
#[no_mangle]
pub extern "C" fn c09_vast() {
    basic(260, 1, true);
}
#[no_mangle]
pub extern "C" fn c10_vast() {
    basic(260, 1, false);
}
#[no_mangle]
pub extern "C" fn c09_fwd6() {
    basic(6, 2, true);
}
#[no_mangle]
pub extern "C" fn c10_bwd6() {
    basic(6, 2, false);
}
/// Tokens that carry no attribute at all (a custom token without attributes) match nothing, and never fail.
fn bare(fwd: bool) {
    let n = 3;
    let mut v = Vec::new();
    let mut codes = [0usize; 3];
    for c in codes.iter_mut() {
        *c = [0usize, 3, 6][pick(3)];
        v.push(tok(*c));
    }
    let ch = ['a', ',', 'z'][choose(3) as usize];
    let line = create_line_from_input_tokens(v, |s| s.len());
    line.run(&With(|all| {
        for (sel, _) in all.find_by(&x::token_text()) {
            let r = rng(&sel);
            check(r.0 == r.1 && codes[r.0] < 6, "text tokens are found");
            let t = next(n, r, fwd);
            let w: Far = match t {
                Some(t) if codes[t] < 6 && TEXTS[codes[t]].chars().next() == Some(ch) => vec![(t, [0, 0, 0])],
                _ => Vec::new(),
            };
            same(&go!(sel, fwd, x::token_has_any(&[ch]), |_| [0, 0, 0]), r, &w, fwd, "token_has_any over characters");
            same(&go!(sel, fwd, x::attr_eq(&ch), |_| [0, 0, 0]), r, &w, fwd, "attr_eq over characters");
            if let Some(t) = t {
                if codes[t] == 6 {
                    cover("bare token");
                    check(go!(sel, fwd, x::attr::<TextTag>(), |_| [0, 0, 0]).is_empty(), "a bare token has no tag");
                    check(go!(sel, fwd, x::token_text(), |_| [0, 0, 0]).is_empty(), "a bare token has no text");
                }
            }
        }
        let got: Vec<(usize, usize)> = all.find_by(&x::token_has_any(&[ch])).iter().map(|g| rng(&g.0)).collect();
        let want: Vec<(usize, usize)> = (0..n).filter(|t| codes[*t] < 6 && TEXTS[codes[*t]].chars().next() == Some(ch)).map(|t| (t, t)).collect();
        check(got == want, "token_has_any finds exactly the tokens with that character");
    }));
}
#[no_mangle]
pub extern "C" fn c09_bare() {
    bare(true);
}
#[no_mangle]
pub extern "C" fn c10_bare() {
    bare(false);
}
/// Mirror image: the matches forwards from the left of a range are the ones backwards from its right.
#[no_mangle]
pub extern "C" fn c10_mirror() {
    let n = 5;
    let mut line = line_of(&mixed(n));
    // one attribute strictly inside, so that both neighbours exist
    let i = 1 + pick(3);
    let j = 1 + pick(3);
    vp_assume(i <= j);
    let v = choose(3);
    let key = choose(3);
    line = put(line, Asg { ty: 0, i, j, v });
    line.run(&With(|all| {
        let l = span(&all, i - 1, i - 1);
        let rr = span(&all, j + 1, j + 1);
        let (f, b) = (l.match_forwards(&x::attr_eq(&P(key))), rr.match_backwards(&x::attr_eq(&P(key))));
        check(f.len() == b.len() && f.len() == (v == key) as usize, "C10 attr_eq mirrors");
        let (f, b) = (l.match_first_forwards(&x::attr::<P>()), rr.match_first_backwards(&x::attr::<P>()));
        check(f.is_some() && b.is_some(), "C10 attr mirrors");
        check(rng(&f.unwrap().0) == (i - 1, j) && rng(&b.unwrap().0) == (i, j + 1), "C10 both cover the attribute");
        let (f, b) = (l.match_forwards(&x::token_has_any(&[P(key)])), rr.match_backwards(&x::token_has_any(&[P(key)])));
        check(f.len() == b.len() && f.len() == (i == j && v == key) as usize, "C10 token_has_any mirrors");
        if i < j {
            cover("multi token");
        }
        vp_observe(f.len() as u64);
    }));
}

// ---------- C11 seq
fn seqs(n: usize, m: usize, fwd: bool, three: bool) {
    seqs_on(0, n, m, fwd, three);
}
fn seqs_on(k: usize, n: usize, m: usize, fwd: bool, three: bool) {
    let (line, md) = dense_line(n, k, m, 2, 2);
    let r = any_range(n);
    seqs_in(line, md, r, fwd, three);
}
fn seqs_in(line: LLLine, md: Model, r: (usize, usize), fwd: bool, three: bool) {
    let n = md.n;
    let v = choose(2);
    line.run(&With(|all| {
        let sel = span(&all, r.0, r.1);
        let t = next(n, r, fwd);
        let (mut w2, mut w2r): (Far, Far) = (Vec::new(), Vec::new());
        let mut w3: Far = Vec::new();
        for (e, a) in m_attr(&md, 0, t, fwd) {
            for (e2, b) in m_attr(&md, 1, step(n, e, fwd), fwd) {
                w2.push((e2, [a, b, 0]));
                for (e3, c) in m_attr(&md, 0, step(n, e2, fwd), fwd) {
                    if c == v {
                        w3.push((e3, [a, b, 0]));
                    }
                }
            }
        }
        for (e, a) in m_attr(&md, 1, t, fwd) {
            if a == v {
                for (e2, b) in m_attr(&md, 0, step(n, e, fwd), fwd) {
                    w2r.push((e2, [b, 0, 0]));
                }
            }
        }
        same(&go!(sel, fwd, x::seq((x::attr::<P>(), x::attr::<Q>())), |o: (&P, &Q)| [o.0 .0, o.1 .0, 0]), r, &w2, fwd, "C11 a sequence matches adjacent matches only, in order");
        same(&go!(sel, fwd, x::seq((x::attr_eq(&Q(v)), x::attr::<P>())), |o: ((), &P)| [o.1 .0, 0, 0]), r, &w2r, fwd, "C11 a sequence keeps each part's condition");
        if three {
            same(
                &go!(sel, fwd, x::seq((x::attr::<P>(), x::attr::<Q>(), x::attr_eq(&P(v)))), |o: (&P, &Q, ())| [o.0 .0, o.1 .0, 0]),
                r,
                &w3,
                fwd,
                "C11 a sequence of three matches adjacent matches only, in order",
            );
        }
        if !w2.is_empty() {
            cover("two in sequence");
        }
        if !w3.is_empty() {
            cover("three in sequence");
        }
    }));
}
#[no_mangle]
pub extern "C" fn c11_fwd2() {
    seqs(3, 2, true, false);
}
#[no_mangle]
pub extern "C" fn c11_bwd2() {
    seqs(3, 2, false, false);
}
/// Three layers at fixed adjacency-prone places: A|B|C with symbolic inner borders.
fn seq3(n: usize, fwd: bool) {
    let mut line = line_of(&mixed(n));
    let mut md = Model { n, asg: Vec::new() };
    // P, Q, P on symbolic ranges and an extra Q
    for ty in [0u8, 1, 0] {
        let (i, j) = any_range(n);
        let a = Asg { ty, i, j, v: choose(2) };
        line = put(line, a);
        md.asg.push(a);
    }
    let at = if fwd { 0 } else { n - 1 };
    let v = choose(2);
    line.run(&With(|all| {
        let r = (at, at);
        let sel = span(&all, at, at);
        let t = next(n, r, fwd);
        let mut w3: Far = Vec::new();
        for (e, a) in m_attr(&md, 0, t, fwd) {
            for (e2, b) in m_attr(&md, 1, step(n, e, fwd), fwd) {
                for (e3, c) in m_attr(&md, 0, step(n, e2, fwd), fwd) {
                    if c == v {
                        w3.push((e3, [a, b, 0]));
                    }
                }
            }
        }
        let pv = P(v);
        let s3 = x::seq((x::attr::<P>(), x::attr::<Q>(), x::attr_eq(&pv)));
        same(&go!(sel, fwd, s3, |o: (&P, &Q, ())| [o.0 .0, o.1 .0, 0]), r, &w3, fwd, "C11 a sequence of three matches adjacent matches only, in order");
        // nested pairs are the same thing
        let l = x::seq((x::seq((x::attr::<P>(), x::attr::<Q>())), x::attr_eq(&pv)));
        same(&go!(sel, fwd, l, |o: ((&P, &Q), ())| [o.0 .0 .0, o.0 .1 .0, 0]), r, &w3, fwd, "C11 sequences nest to the left");
        let l = x::seq((x::attr::<P>(), x::seq((x::attr::<Q>(), x::attr_eq(&pv)))));
        same(&go!(sel, fwd, l, |o: (&P, (&Q, ()))| [o.0 .0, o.1 .0 .0, 0]), r, &w3, fwd, "C11 sequences nest to the right");
        if !w3.is_empty() {
            cover("three in sequence");
        }
    }));
}
#[no_mangle]
pub extern "C" fn c11_three_fwd() {
    seq3(4, true);
}
#[no_mangle]
pub extern "C" fn c11_three_bwd() {
    seq3(4, false);
}
#[no_mangle]
pub extern "C" fn c11_fwd3() {
    seqs(4, 3, true, true);
}
#[no_mangle]
pub extern "C" fn c11_bwd3() {
    seqs(4, 3, false, true);
}

#[no_mangle]
pub extern "C" fn c11_far_fwd() {
    seqs(20, 2, true, false);
}
#[no_mangle]
pub extern "C" fn c11_far_bwd() {
    seqs(20, 2, false, false);
}

// ---------- C12 all / any_of
fn combos(n: usize, m: usize, fwd: bool) {
    combos_on(0, n, m, fwd);
}
fn combos_on(k: usize, n: usize, m: usize, fwd: bool) {
    let codes = mixed(n);
    let (line, md) = dense_line(n, k, m, 2, 2);
    // the neighbour of a fixed edge token
    let at = if fwd { pick(2) } else { n - 1 - pick(2) };
    let r = (at, at);
    let v = choose(2);
    line.run(&With(|all| {
        let sel = span(&all, at, at);
        let t = next(n, r, fwd);
        let (ps, qs) = (m_attr(&md, 0, t, fwd), m_attr(&md, 1, t, fwd));
        let texts: Vec<usize> = match t {
            Some(t) if codes[t] < TEXTS.len() => vec![t],
            _ => Vec::new(),
        };
        let (mut w2, mut w3, mut o2, mut o3): (Far, Far, Far, Far) = (Vec::new(), Vec::new(), Vec::new(), Vec::new());
        for (e, a) in &ps {
            for (e2, b) in &qs {
                if e == e2 {
                    w2.push((*e, [*a, *b, 0]));
                    for k in &texts {
                        if k == e {
                            w3.push((*e, [*a, *b, 9]));
                        }
                    }
                }
            }
        }
        same(&go!(sel, fwd, x::all((x::attr::<P>(), x::attr::<Q>())), |o: (&P, &Q)| [o.0 .0, o.1 .0, 0]), r, &w2, fwd, "C12 all matches exactly where both match the same range");
        same(
            &go!(sel, fwd, x::all((x::attr::<P>(), x::attr::<Q>(), x::token_text())), |o: (&P, &Q, &str)| [o.0 .0, o.1 .0, 9]),
            r,
            &w3,
            fwd,
            "C12 all of three matches exactly where all match the same range",
        );
        let pv: Vec<&(usize, u8)> = ps.iter().filter(|p| p.1 == v).collect();
        if !pv.is_empty() {
            for (e, _) in &pv {
                o2.push((*e, [1, 0, 0]));
            }
        } else {
            for (e, b) in &qs {
                o2.push((*e, [2, *b, 0]));
            }
        }
        same(
            &go!(sel, fwd, x::any_of((x::attr_eq(&P(v)), x::attr::<Q>())), |o: AnyOf2<(), &Q>| match o {
                AnyOf2::A(()) => [1, 0, 0],
                AnyOf2::B(q) => [2, q.0, 0],
            }),
            r,
            &o2,
            fwd,
            "C12 any_of gives the matches of its first alternative that matches",
        );
        if !pv.is_empty() {
            for (e, _) in &pv {
                o3.push((*e, [1, 0, 0]));
            }
        } else if !qs.is_empty() {
            for (e, b) in &qs {
                o3.push((*e, [2, *b, 0]));
            }
        } else {
            for k in &texts {
                o3.push((*k, [3, 0, 0]));
            }
        }
        same(
            &go!(sel, fwd, x::any_of((x::attr_eq(&P(v)), x::attr::<Q>(), x::token_text())), |o: AnyOf3<(), &Q, &str>| match o {
                AnyOf3::A(()) => [1, 0, 0],
                AnyOf3::B(q) => [2, q.0, 0],
                AnyOf3::C(_) => [3, 0, 0],
            }),
            r,
            &o3,
            fwd,
            "C12 any_of three gives the matches of its first alternative that matches",
        );
        // combinators nest
        let mut wn: Far = Vec::new();
        for (e, a) in &ps {
            for o in &o2 {
                if *e == o.0 {
                    wn.push((*e, [*a, o.1[0], o.1[1]]));
                }
            }
        }
        same(
            &go!(sel, fwd, x::all((x::attr::<P>(), x::any_of((x::attr_eq(&P(v)), x::attr::<Q>())))), |o: (&P, AnyOf2<(), &Q>)| match o.1 {
                AnyOf2::A(()) => [o.0 .0, 1, 0],
                AnyOf2::B(q) => [o.0 .0, 2, q.0],
            }),
            r,
            &wn,
            fwd,
            "C12 combinators nest",
        );
        if !w2.is_empty() {
            cover("both");
        }
        if !w3.is_empty() {
            cover("all three");
        }
        if o3.iter().any(|o| o.1[0] == 3) {
            cover("third alternative");
        }
    }));
}
#[no_mangle]
pub extern "C" fn c12_fwd2() {
    combos(3, 2, true);
}
#[no_mangle]
pub extern "C" fn c12_bwd2() {
    combos(3, 2, false);
}
#[no_mangle]
pub extern "C" fn c12_fwd3() {
    combos(3, 3, true);
}
#[no_mangle]
pub extern "C" fn c12_bwd3() {
    combos(3, 3, false);
}
/// Several values of each type on the ranges that start next to the selection.
#[no_mangle]
pub extern "C" fn c12_product() {
    let n = 3;
    let fwd = any_bool();
    let fwd = vp_concretize(fwd as u64) == 1;
    let mut line = line_of(&[0, 0, 0]);
    let mut md = Model { n, asg: Vec::new() };
    for k in 0..4 {
        // the long or the short range
        let (i, j) = if any_bool() { (1, 1) } else if fwd { (1, 2) } else { (0, 1) };
        let a = Asg { ty: (k % 2) as u8, i, j, v: choose(2) };
        line = put(line, a);
        md.asg.push(a);
    }
    product(line, md, fwd);
}
fn product(line: LLLine, md: Model, fwd: bool) {
    let at = if fwd { 0 } else { 2 };
    let r = (at, at);
    line.run(&With(|all| {
        let sel = span(&all, at, at);
        let (ps, qs) = (md.at(0, 1, fwd), md.at(1, 1, fwd));
        let (mut w2, mut w3): (Far, Far) = (Vec::new(), Vec::new());
        for (e, a) in &ps {
            for (e2, b) in &qs {
                if e == e2 {
                    w2.push((*e, [*a, *b, 0]));
                    for (e3, c) in &ps {
                        if e3 == e {
                            w3.push((*e, [*a, *b, *c]));
                        }
                    }
                }
            }
        }
        same(&go!(sel, fwd, x::all((x::attr::<P>(), x::attr::<Q>())), |o: (&P, &Q)| [o.0 .0, o.1 .0, 0]), r, &w2, fwd, "C12 all gives every combination on the same range");
        same(
            &go!(sel, fwd, x::all((x::attr::<P>(), x::attr::<Q>(), x::attr::<P>())), |o: (&P, &Q, &P)| [o.0 .0, o.1 .0, o.2 .0]),
            r,
            &w3,
            fwd,
            "C12 all of three gives every combination on the same range",
        );
        if w2.len() >= 4 {
            cover("four combinations");
        }
    }));
}

// ---------- lines dense with values
#[no_mangle]
pub extern "C" fn c09_dense() {
    basic_on(40, 5, 1, true);
}
#[no_mangle]
pub extern "C" fn c10_dense() {
    basic_on(40, 5, 1, false);
}
#[no_mangle]
pub extern "C" fn c11_dense_fwd() {
    seqs_on(40, 4, 1, true, true);
}
#[no_mangle]
pub extern "C" fn c11_dense_bwd() {
    seqs_on(40, 4, 1, false, true);
}
#[no_mangle]
pub extern "C" fn c12_dense_fwd() {
    combos_on(40, 4, 1, true);
}
#[no_mangle]
pub extern "C" fn c12_dense_bwd() {
    combos_on(40, 4, 1, false);
}
/// Long sets of wanted values.
#[no_mangle]
pub extern "C" fn c09_sets() {
    let n = 3;
    let fwd = pick(2) == 0;
    let len = [0usize, 1, 7, 8, 9, 16, 33, 65][pick(8)];
    let v = any_u8();
    let set: Vec<P> = (0..len).map(|i| P((i * 3) as u8)).collect();
    let line = put(line_of(&mixed(n)), Asg { ty: 0, i: 1, j: 1, v });
    line.run(&With(|all| {
        let sel = if fwd { span(&all, 0, 0) } else { span(&all, 2, 2) };
        let m = x::token_has_any(&set);
        let g = if fwd { sel.match_forwards(&m) } else { sel.match_backwards(&m) };
        let hit = v % 3 == 0 && ((v / 3) as usize) < len;
        check(g.len() == hit as usize, "C09 a value is matched exactly when it is among the wanted ones");
        if hit {
            check(g[0].1 .0 == v, "C09 the matched value");
            cover("hit");
        }
    }));
}
// ---------- tokens of arbitrary kinds
#[no_mangle]
pub extern "C" fn c09_kinds() {
    any_kinds(3);
    basic(3, 1, true);
}
#[no_mangle]
pub extern "C" fn c10_kinds() {
    any_kinds(3);
    basic(3, 1, false);
}
#[no_mangle]
pub extern "C" fn c11_kinds_fwd() {
    any_kinds(3);
    seqs(3, 2, true, false);
}
#[no_mangle]
pub extern "C" fn c11_kinds_bwd() {
    any_kinds(3);
    seqs(3, 2, false, false);
}
#[no_mangle]
pub extern "C" fn c12_kinds_fwd() {
    any_kinds(3);
    combos(3, 1, true);
}
#[no_mangle]
pub extern "C" fn c12_kinds_bwd() {
    any_kinds(3);
    combos(3, 1, false);
}
// ---------- many values at one place
/// a values of one type and b of the other next to each other: every continuation is reported.
fn fan(fwd: bool) {
    let (a, b, c) = [(1usize, 40usize, 1usize), (40, 1, 1), (9, 9, 2), (1, 1, 40), (20, 20, 0)][pick(5)];
    let n = 4;
    let mut md = Model { n, asg: Vec::new() };
    let t = |k: usize| if fwd { k } else { n - 1 - k };
    for q in 0..a {
        md.asg.push(Asg { ty: 0, i: t(1), j: t(1), v: q as u8 });
    }
    for q in 0..b {
        md.asg.push(Asg { ty: 1, i: t(2), j: t(2), v: q as u8 });
    }
    for q in 0..c {
        md.asg.push(Asg { ty: 0, i: t(3), j: t(3), v: (q % 2) as u8 });
    }
    md.asg.push(any_asg(n, 2, 2));
    let of = |ty: u8| -> Vec<Asg> { md.asg.iter().filter(|a| a.ty == ty).copied().collect() };
    let line = line_of(&mixed(n)).run(&PutP(&of(0))).run(&PutQ(&of(1)));
    seqs_in(line, md, (t(0), t(0)), fwd, true);
}
#[no_mangle]
pub extern "C" fn c11_fan_fwd() {
    fan(true);
}
#[no_mangle]
pub extern "C" fn c11_fan_bwd() {
    fan(false);
}
/// Up to 40 values of each type on the same and on different ranges.
#[no_mangle]
pub extern "C" fn c12_fan() {
    let fwd = pick(2) == 0;
    let (a, b) = [(1usize, 40usize), (40, 1), (5, 17), (17, 5), (8, 8)][pick(5)];
    let long = if fwd { (1, 2) } else { (0, 1) };
    let split = pick(3);
    let mut md = Model { n: 3, asg: Vec::new() };
    for (ty, k) in [(0u8, a), (1u8, b)] {
        for q in 0..k {
            let (i, j) = if q % 3 < split { long } else { (1, 1) };
            md.asg.push(Asg { ty, i, j, v: q as u8 });
        }
    }
    md.asg.push(any_asg(3, 2, 2));
    let of = |ty: u8| -> Vec<Asg> { md.asg.iter().filter(|a| a.ty == ty).copied().collect() };
    let line = line_of(&[0, 6, 4]).run(&PutP(&of(0))).run(&PutQ(&of(1)));
    product(line, md, fwd);
}
