//! C13..C18: selections.
use crate::gen::*;
use crate::rt::*;
use layered_nlp::*;
use std::rc::Rc;

type R = (usize, usize);

/// A selection is a non-empty token range of its line, and looking for tokens in it sees exactly that range.
fn valid(s: &LLSelection, n: usize) -> R {
    let r = rng(s);
    check(r.0 <= r.1, "C13 a selection is never empty");
    check(r.1 < n, "C13 a selection lies within its line");
    r
}
fn deep_valid(s: &LLSelection, n: usize) {
    let r = valid(s, n);
    let f = s.find_by(&x::attr::<K>());
    check(f.len() == r.1 - r.0 + 1, "C13 a selection shows exactly its tokens");
    for (i, g) in f.iter().enumerate() {
        check(g.1 .0 as usize == r.0 + i && rng(&g.0) == (r.0 + i, r.0 + i), "C13 a selection shows exactly its tokens, in order");
    }
}

// ---------- C13
/// Apply one operation chosen by `op` and pick one of the results.
fn op(s: &LLSelection, other: &LLSelection, op: usize, n: usize) -> Option<LLSelection> {
    let m = x::attr::<P>();
    let all: Vec<LLSelection> = match op {
        0 => s.find_by(&m).into_iter().map(|r| r.0).collect(),
        1 => s.find_first_by(&m).into_iter().map(|r| r.0).collect(),
        2 => s.find_by_forwards_and_backwards(&m).into_iter().map(|r| r.0).collect(),
        3 => s.match_forwards(&m).into_iter().map(|r| r.0).collect(),
        4 => s.match_backwards(&m).into_iter().map(|r| r.0).collect(),
        5 => s.match_first_forwards(&m).into_iter().map(|r| r.0).collect(),
        6 => s.match_first_backwards(&m).into_iter().map(|r| r.0).collect(),
        7 => s.after().into_iter().collect(),
        8 => s.split_by(&m),
        9 => {
            let [a, b] = s.split_with(other);
            a.into_iter().chain(b).collect()
        }
        10 => s.trim(&m).into_iter().collect(),
        11 => s.trim_start(&m).into_iter().collect(),
        12 => s.trim_end(&m).into_iter().collect(),
        13 => s.trim(&x::whitespace()).into_iter().collect(),
        14 => s.split_by(&x::token_text()),
        _ => s.match_forwards(&x::token_text()).into_iter().map(|r| r.0).collect(),
    };
    for x in &all {
        valid(x, n);
    }
    if all.is_empty() {
        None
    } else {
        Some(all[pick(all.len() as u8)].clone())
    }
}
fn ops(n: usize, m: usize, steps: usize) {
    let (line, _) = any_line(n, m, 1, 1);
    let start = any_range(n);
    let kinds: Vec<usize> = (0..steps).map(|_| pick(16)).collect();
    line.run(&With(|all| {
        check(valid(&all, n) == (0, n - 1), "C13 the first selection is the whole line");
        let other = span(&all, start.0, start.1);
        let mut s = span(&all, start.0, start.1);
        for k in &kinds {
            match op(&s, &other, *k, n) {
                Some(x) => {
                    deep_valid(&x, n);
                    obs_rng(rng(&x));
                    s = x;
                }
                None => return,
            }
        }
        cover("whole sequence of operations");
    }));
}
#[no_mangle]
pub extern "C" fn c13_ops2() {
    ops(3, 1, 2);
}
#[no_mangle]
pub extern "C" fn c13_ops2m() {
    ops(3, 2, 2);
}
#[no_mangle]
pub extern "C" fn c13_ops3() {
    ops(3, 1, 3);
}
#[no_mangle]
pub extern "C" fn c13_ops3m() {
    ops(3, 2, 3);
}
#[no_mangle]
pub extern "C" fn c13_wide() {
    ops(5, 1, 2);
}
/// Selections compare by line and range.
#[no_mangle]
pub extern "C" fn c13_eq() {
    let n = 3;
    let (a, b) = (any_range(n), any_range(n));
    let other = line_of(&mixed(n));
    line_of(&mixed(n)).run(&With(|all| {
        let (x, y) = (span(&all, a.0, a.1), span(&all, b.0, b.1));
        check((x == y) == (a == b), "C13 selections of one line are equal exactly when their ranges are");
        check(x.clone() == x && rng(&x.clone()) == a, "C13 a clone is equal");
    }));
    let (l1, l2) = (Rc::new(line_of(&mixed(n))), Rc::new(other));
    let (s1, s2) = (LLSelection::from_line(l1.clone()).unwrap(), LLSelection::from_line(l2).unwrap());
    check(s1 != s2, "C13 selections of different lines are different");
    check(s1 == LLSelection::from_line(l1).unwrap(), "C13 whole-line selections of one line are equal");
    check(rng(&s1) == (0, n - 1), "C13 from_line selects the whole line");
}

// ---------- C14 find_by
fn finds(n: usize, m: usize, types: u8) {
    finds_on(0, n, m, types);
}
fn finds_on(k: usize, n: usize, m: usize, types: u8) {
    let codes = mixed(n);
    let (line, md) = dense_line(n, k, m, types, 2);
    let r = any_range(n);
    let v = choose(2);
    line.run(&With(|all| {
        let sel = span(&all, r.0, r.1);
        let (mut w, mut weq, mut wseq, mut wboth): (Vec<(R, u8)>, Vec<R>, Vec<(R, u8, u8)>, Vec<(R, u8)>) = Default::default();
        let mut wtext: Vec<R> = Vec::new();
        for t in r.0..=r.1 {
            for (e, a) in md.at(0, t, true) {
                w.push(((t, e), a));
                wboth.push(((t, e), a));
                if a == v {
                    weq.push((t, e));
                }
                if e + 1 < n {
                    for (e2, b) in md.at(1, e + 1, true) {
                        wseq.push(((t, e2), a, b));
                    }
                }
                if e > r.1 {
                    cover("a match that starts inside and reaches outside");
                }
            }
            for (e, a) in md.at(0, t, false) {
                wboth.push(((e, t), a));
            }
            if codes[t] < TEXTS.len() {
                wtext.push((t, t));
            }
        }
        let f = sel.find_by(&x::attr::<P>());
        check(f.len() == w.len(), "C14 find_by reports every match that starts in the selection once");
        for (g, w) in f.iter().zip(&w) {
            check(rng(&g.0) == w.0 && g.1 .0 == w.1, "C14 find_by reports each match's range and value in order");
            obs_rng(w.0);
        }
        match sel.find_first_by(&x::attr::<P>()) {
            Some((s, p)) => check(!w.is_empty() && rng(&s) == w[0].0 && p.0 == w[0].1, "C14 find_first_by is the first match"),
            None => check(w.is_empty(), "C14 find_first_by is the first match"),
        }
        let pv = P(v);
        let f = sel.find_by(&x::attr_eq(&pv));
        check(f.len() == weq.len() && f.iter().zip(&weq).all(|(g, w)| rng(&g.0) == *w), "C14 find_by value");
        match sel.find_first_by(&x::attr_eq(&pv)) {
            Some((s, ())) => check(!weq.is_empty() && rng(&s) == weq[0], "C14 find_first_by value is the first match"),
            None => check(weq.is_empty(), "C14 find_first_by value is the first match"),
        }
        let f = sel.find_by(&x::seq((x::attr::<P>(), x::attr::<Q>())));
        check(f.len() == wseq.len(), "C14 find_by sequence");
        for (g, w) in f.iter().zip(&wseq) {
            check(rng(&g.0) == w.0 && g.1 .0 .0 == w.1 && g.1 .1 .0 == w.2, "C14 find_by sequence in order");
            cover("sequence");
        }
        let f = sel.find_by(&x::token_text());
        check(f.len() == wtext.len() && f.iter().zip(&wtext).all(|(g, w)| rng(&g.0) == *w && g.1 == TEXTS[codes[w.0]]), "C14 find_by text");
        let f = sel.find_by_forwards_and_backwards(&x::attr::<P>());
        check(f.len() == wboth.len(), "C14 both directions report every match that starts or ends in the selection");
        for (g, w) in f.iter().zip(&wboth) {
            check(rng(&g.0) == w.0 && g.1 .0 == w.1, "C14 both directions, token by token");
        }
        // a resolver's whole-line search agrees with LLLine::find by count
        let f = all.find_by(&x::attr::<P>());
        check(f.len() == md.asg.iter().filter(|a| a.ty == 0).count(), "C14 the whole line shows every assignment");
    }));
}
#[no_mangle]
pub extern "C" fn c14_two() {
    finds(3, 2, 2);
}
#[no_mangle]
pub extern "C" fn c14_three() {
    finds(3, 3, 2);
}
#[no_mangle]
pub extern "C" fn c14_three_p() {
    finds(4, 3, 1);
}
#[no_mangle]
pub extern "C" fn c14_wide() {
    finds(6, 1, 1);
}

#[no_mangle]
pub extern "C" fn c14_far() {
    finds(20, 1, 1);
}
#[no_mangle]
pub extern "C" fn c14_vast() {
    finds(260, 1, 1);
}

// ---------- C15 extension and after
fn extend(n: usize, m: usize) {
    extend_on(0, n, m);
}
fn extend_on(k: usize, n: usize, m: usize) {
    let (line, md) = dense_line(n, k, m, 1, 3);
    let r = any_range(n);
    let v = choose(3);
    line.run(&With(|all| {
        let sel = span(&all, r.0, r.1);
        let pv = P(v);
        for fwd in [true, false] {
            let near = if fwd {
                if r.1 + 1 < n {
                    Some(r.1 + 1)
                } else {
                    None
                }
            } else {
                r.0.checked_sub(1)
            };
            let at: Vec<(usize, u8)> = near.map(|t| md.at(0, t, fwd)).unwrap_or_default();
            let w: Vec<(R, u8)> = at.iter().map(|x| (if fwd { (r.0, x.0) } else { (x.0, r.1) }, x.1)).collect();
            let g: Vec<(R, u8)> = if fwd { sel.match_forwards(&x::attr::<P>()) } else { sel.match_backwards(&x::attr::<P>()) }
                .into_iter()
                .map(|(s, p)| (rng(&s), p.0))
                .collect();
            check(g == w, "C15 every neighbouring match extends the selection to cover both");
            let g1 = if fwd { sel.match_first_forwards(&x::attr::<P>()) } else { sel.match_first_backwards(&x::attr::<P>()) };
            check(g1.map(|(s, p)| (rng(&s), p.0)) == w.first().copied(), "C15 match_first is the first of the matches");
            let we: Vec<R> = w.iter().filter(|x| x.1 == v).map(|x| x.0).collect();
            let g: Vec<R> = if fwd { sel.match_forwards(&x::attr_eq(&pv)) } else { sel.match_backwards(&x::attr_eq(&pv)) }
                .into_iter()
                .map(|(s, _)| rng(&s))
                .collect();
            check(g == we, "C15 only matching neighbours extend the selection");
            let g1 = if fwd { sel.match_first_forwards(&x::attr_eq(&pv)) } else { sel.match_first_backwards(&x::attr_eq(&pv)) };
            check(g1.map(|(s, _)| rng(&s)) == we.first().copied(), "C15 match_first skips what does not match");
            if w.len() > 1 {
                cover("several");
            }
        }
        match sel.after() {
            Some(a) => {
                check(r.1 + 1 < n && rng(&a) == (r.1 + 1, n - 1), "C15 after is the rest of the line");
                cover("after");
            }
            None => check(r.1 + 1 == n, "C15 there is nothing after only at the end of the line"),
        }
        check(rng(&sel) == r, "C15 matching leaves the selection itself alone");
        obs_rng(r);
    }));
}
#[no_mangle]
pub extern "C" fn c15_two() {
    extend(3, 2);
}
#[no_mangle]
pub extern "C" fn c15_three() {
    extend(3, 3);
}
#[no_mangle]
pub extern "C" fn c15_wide() {
    extend(6, 1);
}
#[no_mangle]
pub extern "C" fn c15_far() {
    extend(20, 1);
}
#[no_mangle]
pub extern "C" fn c15_vast() {
    extend(260, 1);
}
#[no_mangle]
pub extern "C" fn c15_far2() {
    extend(12, 2);
}
/// Walking a line with after() visits every token once.
#[no_mangle]
pub extern "C" fn c15_walk() {
    let n = 1 + pick(6);
    line_of(&mixed(n)).run(&With(|all| {
        let mut s = span(&all, 0, 0);
        let mut k = 0;
        loop {
            check(rng(&s) == (k, k), "C15 walking visits token after token");
            match s.after() {
                Some(a) => {
                    check(rng(&a) == (k + 1, n - 1), "C15 after is the rest of the line");
                    s = span(&all, k + 1, k + 1);
                    k += 1;
                }
                None => break,
            }
            check(k < n, "C15 walking ends");
        }
        check(k == n - 1, "C15 walking reaches the last token");
    }));
}

// ---------- C16 split_by
/// Maximal runs of the selection's tokens not covered by the given matches.
fn runs(r: R, cover: &[R]) -> Vec<R> {
    let mut out: Vec<R> = Vec::new();
    let mut open: Option<usize> = None;
    for t in r.0..=r.1 {
        let c = cover.iter().any(|m| m.0 <= t && t <= m.1);
        match (c, open) {
            (false, None) => open = Some(t),
            (true, Some(s)) => {
                out.push((s, t - 1));
                open = None;
            }
            _ => {}
        }
    }
    if let Some(s) = open {
        out.push((s, r.1));
    }
    out
}
fn splits(n: usize, m: usize, types: u8) {
    splits_on(0, n, m, types);
}
fn splits_on(k: usize, n: usize, m: usize, types: u8) {
    let codes = mixed(n);
    let (line, md) = dense_line(n, k, m, types, 2);
    let r = any_range(n);
    let v = choose(2);
    line.run(&With(|all| {
        let sel = span(&all, r.0, r.1);
        let in_sel = |a: &&Asg| a.i >= r.0 && a.i <= r.1;
        let ms: Vec<R> = md.asg.iter().filter(|a| a.ty == 0).filter(in_sel).map(|a| (a.i, a.j)).collect();
        let w = runs(r, &ms);
        let g: Vec<R> = sel.split_by(&x::attr::<P>()).iter().map(rng).collect();
        check(g == w, "C16 split_by gives the maximal runs of unmatched tokens, in order");
        for p in &g {
            obs_rng(*p);
        }
        if w.is_empty() {
            cover("nothing left");
        }
        if w.len() > 1 {
            cover("several pieces");
        }
        let pv = P(v);
        let ms: Vec<R> = md.asg.iter().filter(|a| a.ty == 0 && a.v == v).filter(in_sel).map(|a| (a.i, a.j)).collect();
        let g: Vec<R> = sel.split_by(&x::attr_eq(&pv)).iter().map(rng).collect();
        check(g == runs(r, &ms), "C16 split_by a value");
        let ms: Vec<R> = (r.0..=r.1).filter(|t| codes[*t] < TEXTS.len()).map(|t| (t, t)).collect();
        let g: Vec<R> = sel.split_by(&x::token_text()).iter().map(rng).collect();
        check(g == runs(r, &ms), "C16 split_by text");
        // any_of: per token, the P matches if there are any, else the Q matches
        let mut ms: Vec<R> = Vec::new();
        for t in r.0..=r.1 {
            let (p, q) = (md.at(0, t, true), md.at(1, t, true));
            for (e, _) in if p.is_empty() { q } else { p } {
                ms.push((t, e));
            }
        }
        let g: Vec<R> = sel.split_by(&x::any_of((x::attr::<P>(), x::attr::<Q>()))).iter().map(rng).collect();
        check(g == runs(r, &ms), "C16 split_by alternatives");
        check(sel.split_by(&x::attr::<Z>()) == vec![sel.clone()], "C16 splitting by what does not occur gives the selection itself");
    }));
}
#[no_mangle]
pub extern "C" fn c16_two() {
    splits(4, 2, 1);
}
#[no_mangle]
pub extern "C" fn c16_three() {
    splits(4, 3, 1);
}
#[no_mangle]
pub extern "C" fn c16_types() {
    splits(3, 3, 2);
}
#[no_mangle]
pub extern "C" fn c16_wide() {
    splits(7, 1, 1);
}
#[no_mangle]
pub extern "C" fn c16_far() {
    splits(20, 1, 1);
}
#[no_mangle]
pub extern "C" fn c16_far2() {
    splits(12, 2, 1);
}
/// Single-token matches at symbolic places of a longer line (the delimiter-separated list).
fn list(n: usize) {
    let bits: Vec<bool> = (0..n).map(|_| any_bool()).collect();
    let codes: Vec<usize> = bits.iter().map(|b| if *b { 3 } else { 0 }).collect();
    let r = any_range(n);
    line_of(&codes).run(&With(|all| {
        let sel = span(&all, r.0, r.1);
        let ms: Vec<R> = (0..n).filter(|t| bits[*t]).map(|t| (t, t)).collect();
        let w = runs(r, &ms);
        let g: Vec<R> = sel.split_by(&x::attr_eq(&TextTag::PUNC)).iter().map(rng).collect();
        check(g == w, "C16 splitting a list by its separators");
        let g: Vec<R> = sel.split_by(&x::token_has_any(&[',', ';'])).iter().map(rng).collect();
        check(g == w, "C16 splitting a list by separator characters");
        if w.len() >= 3 {
            cover("three pieces");
        }
    }));
}
#[no_mangle]
pub extern "C" fn c16_list() {
    list(6);
}
#[no_mangle]
pub extern "C" fn c16_list8() {
    list(8);
}

// ---------- C17 split_with
fn cut(n: usize) {
    let (a, b) = (any_range(n), any_range(n));
    line_of(&mixed(n)).run(&With(|all| {
        let (s, o) = (span(&all, a.0, a.1), span(&all, b.0, b.1));
        let [l, r] = s.split_with(&o);
        let lo: Vec<usize> = (a.0..=a.1).filter(|t| *t < b.0).collect();
        let hi: Vec<usize> = (a.0..=a.1).filter(|t| *t > b.1).collect();
        let w = |v: &Vec<usize>| if v.is_empty() { None } else { Some((v[0], v[v.len() - 1])) };
        check(l.as_ref().map(rng) == w(&lo), "C17 the left part is what lies before the other selection");
        check(r.as_ref().map(rng) == w(&hi), "C17 the right part is what lies after the other selection");
        if l.is_some() && r.is_some() {
            cover("both parts");
        }
        if l.is_none() && r.is_none() {
            cover("no part");
        }
        for p in l.iter().chain(r.iter()) {
            deep_valid(p, n);
            obs_rng(rng(p));
        }
        check(rng(&s) == a && rng(&o) == b, "C17 the arguments stay as they are");
    }));
}
#[no_mangle]
pub extern "C" fn c17_cut() {
    cut(4);
}
#[no_mangle]
pub extern "C" fn c17_cut6() {
    cut(6);
}
#[no_mangle]
pub extern "C" fn c17_cut9() {
    cut(9);
}
#[no_mangle]
pub extern "C" fn c17_far() {
    cut(20);
}
#[no_mangle]
pub extern "C" fn c17_vast() {
    cut(260);
}
/// Selections of two lines are never mixed, however alike the lines are.
#[no_mangle]
pub extern "C" fn c17_other_line() {
    let (i, j) = (pick(3), pick(3));
    let (n, m) = (i + 1, j + 1);
    let s1 = LLSelection::from_line(Rc::new(line_of(&mixed(n)))).unwrap();
    let s2 = LLSelection::from_line(Rc::new(line_of(&mixed(m)))).unwrap();
    vp_expect_panic(true);
    let _ = s1.split_with(&s2);
    vp_expect_panic(false);
    check(false, "C17 selections of different lines are refused");
}

// ---------- C18 trim
fn trims(n: usize, m: usize) {
    trims_on(0, n, m);
}
fn trims_on(k: usize, n: usize, m: usize) {
    let (line, md) = dense_line(n, k, m, 1, 2);
    let r = any_range(n);
    let v = choose(2);
    let byv = any_bool();
    line.run(&With(|all| {
        let sel = span(&all, r.0, r.1);
        let pv = P(v);
        let ok = |x: &u8| !byv || *x == v;
        // first match at each edge
        let s = md.at(0, r.0, true).into_iter().find(|x| ok(&x.1)).map(|x| x.0 + 1).unwrap_or(r.0);
        let e1 = md.at(0, r.1, false).into_iter().find(|x| ok(&x.1)).map(|x| x.0).unwrap_or(r.1 + 1); // exclusive end
        let w = |s: usize, e1: usize| if s < e1 && e1 > r.0 { Some((s, e1 - 1)) } else { None };
        let (a, b, c) = if byv {
            let m = x::attr_eq(&pv);
            (sel.trim_start(&m), sel.trim_end(&m), sel.trim(&m))
        } else {
            let m = x::attr::<P>();
            (sel.trim_start(&m), sel.trim_end(&m), sel.trim(&m))
        };
        let full = r.1 + 1;
        check(a.as_ref().map(rng) == w(s, full), "C18 trim_start drops the first match at the start");
        check(b.as_ref().map(rng) == w(r.0, e1), "C18 trim_end drops the first match at the end");
        check(c.as_ref().map(rng) == w(s, e1), "C18 trim drops the first match at both ends");
        for x in a.iter().chain(b.iter()).chain(c.iter()) {
            deep_valid(x, n);
            obs_rng(rng(x));
        }
        if c.is_none() {
            cover("nothing left");
        }
        if s > r.0 && e1 < full && c.is_some() {
            cover("trimmed at both ends");
        }
        check(sel.trim(&x::attr::<Z>()).as_ref() == Some(&sel), "C18 without matches nothing is trimmed");
    }));
}
#[no_mangle]
pub extern "C" fn c18_two() {
    trims(3, 2);
}
#[no_mangle]
pub extern "C" fn c18_two4() {
    trims(4, 2);
}
#[no_mangle]
pub extern "C" fn c18_three() {
    trims(4, 3);
}
#[no_mangle]
pub extern "C" fn c18_wide() {
    trims(6, 2);
}
#[no_mangle]
pub extern "C" fn c18_far() {
    trims(20, 1);
}
#[no_mangle]
pub extern "C" fn c18_far2() {
    trims(12, 2);
}
/// Whitespace trimming over every text layout.
fn blanks(n: usize) {
    let bits: Vec<bool> = (0..n).map(|_| any_bool()).collect();
    let codes: Vec<usize> = bits.iter().map(|b| if *b { 1 } else { 0 }).collect();
    let r = any_range(n);
    line_of(&codes).run(&With(|all| {
        let sel = span(&all, r.0, r.1);
        let s = r.0 + bits[r.0] as usize;
        let e1 = r.1 + 1 - bits[r.1] as usize;
        let w = |s: usize, e1: usize| if s < e1 { Some((s, e1 - 1)) } else { None };
        check(sel.trim_start(&x::whitespace()).as_ref().map(rng) == w(s, r.1 + 1), "C18 leading whitespace is dropped");
        check(sel.trim_end(&x::whitespace()).as_ref().map(rng) == w(r.0, e1), "C18 trailing whitespace is dropped");
        check(sel.trim(&x::whitespace()).as_ref().map(rng) == w(s, e1), "C18 whitespace is dropped at both ends");
        if s >= e1 {
            cover("only whitespace");
        }
    }));
}
#[no_mangle]
pub extern "C" fn c18_blanks() {
    blanks(5);
}

// ---------- every operation with every kind of matcher (C14, C15, C16, C18)
/// Far ends of the matches of matcher `kind` next to token t, from the model alone.
fn far(md: &Model, codes: &[usize], kind: usize, v: u8, t: usize, fwd: bool) -> Vec<usize> {
    let n = md.n;
    let step = |e: usize| if fwd { if e + 1 < n { Some(e + 1) } else { None } } else { e.checked_sub(1) };
    let ends = |v: Vec<(usize, u8)>| -> Vec<usize> { v.into_iter().map(|x| x.0).collect() };
    let text = |t: usize| if codes[t] < TEXTS.len() { vec![t] } else { Vec::new() };
    match kind {
        0 => md.on(0, t).into_iter().filter(|x| *x == v).map(|_| t).collect(),
        1 => {
            if codes[t] == 1 {
                vec![t]
            } else {
                Vec::new()
            }
        }
        2 => md.at(0, t, fwd).into_iter().filter_map(|(e, _)| step(e)).flat_map(|s| ends(md.at(1, s, fwd))).collect(),
        3 => md.at(0, t, fwd).into_iter().flat_map(|(e, _)| md.at(1, t, fwd).into_iter().filter(move |q| q.0 == e).map(move |_| e)).collect(),
        4 => {
            let p: Vec<usize> = md.at(0, t, fwd).into_iter().filter(|x| x.1 == v).map(|x| x.0).collect();
            if p.is_empty() {
                ends(md.at(1, t, fwd))
            } else {
                p
            }
        }
        5 => md.at(0, t, fwd).into_iter().filter_map(|(e, _)| step(e)).flat_map(|s| text(s)).collect(),
        _ => {
            // seq(text, any_of(P(v), Q))
            text(t).into_iter().filter_map(|e| step(e)).flat_map(|s| far(md, codes, 4, v, s, fwd)).collect()
        }
    }
}
macro_rules! with_matcher {
    ($kind:expr, $v:expr, $m:ident, $e:expr) => {{
        let pv = P($v);
        match $kind {
            0 => {
                let set = [P($v)];
                let $m = x::token_has_any(&set);
                $e
            }
            1 => {
                let $m = x::whitespace();
                $e
            }
            2 => {
                let $m = x::seq((x::attr::<P>(), x::attr::<Q>()));
                $e
            }
            3 => {
                let $m = x::all((x::attr::<P>(), x::attr::<Q>()));
                $e
            }
            4 => {
                let $m = x::any_of((x::attr_eq(&pv), x::attr::<Q>()));
                $e
            }
            5 => {
                let $m = x::seq((x::attr::<P>(), x::token_text()));
                $e
            }
            _ => {
                let $m = x::seq((x::token_text(), x::any_of((x::attr_eq(&pv), x::attr::<Q>()))));
                $e
            }
        }
    }};
}
fn grid(what: usize, n: usize, m: usize) {
    let codes: Vec<usize> = [0usize, 1, 6, 1, 0][..n].to_vec();
    let kind = pick(7);
    let mut line = line_of(&codes);
    let mut md = Model { n, asg: Vec::new() };
    for _ in 0..m {
        let a = any_asg(n, 2, 2);
        line = put(line, a);
        md.asg.push(a);
    }
    let r = any_range(n);
    let v = choose(2);
    line.run(&With(|all| {
        let sel = span(&all, r.0, r.1);
        let f = |t: usize, fwd: bool| -> Vec<R> { far(&md, &codes, kind, v, t, fwd).into_iter().map(|e| if fwd { (t, e) } else { (e, t) }).collect() };
        match what {
            14 => {
                let mut w: Vec<R> = Vec::new();
                let mut wb: Vec<R> = Vec::new();
                for t in r.0..=r.1 {
                    w.extend(f(t, true));
                    wb.extend(f(t, true));
                    wb.extend(f(t, false));
                }
                let g: Vec<R> = with_matcher!(kind, v, m, sel.find_by(&m).iter().map(|g| rng(&g.0)).collect());
                check(g == w, "C14 find_by with any matcher reports every match that starts in the selection once");
                let g: Option<R> = with_matcher!(kind, v, m, sel.find_first_by(&m).map(|g| rng(&g.0)));
                check(g == w.first().copied(), "C14 find_first_by with any matcher is the first match");
                let g: Vec<R> = with_matcher!(kind, v, m, sel.find_by_forwards_and_backwards(&m).iter().map(|g| rng(&g.0)).collect());
                check(g == wb, "C14 both directions with any matcher");
                if !w.is_empty() {
                    cover("found");
                }
            }
            15 => {
                let w: Vec<R> = if r.1 + 1 < n { f(r.1 + 1, true).into_iter().map(|x| (r.0, x.1)).collect() } else { Vec::new() };
                let wb: Vec<R> = if r.0 > 0 { f(r.0 - 1, false).into_iter().map(|x| (x.0, r.1)).collect() } else { Vec::new() };
                let g: Vec<R> = with_matcher!(kind, v, m, sel.match_forwards(&m).iter().map(|g| rng(&g.0)).collect());
                check(g == w, "C15 matching forwards with any matcher extends the selection to cover both");
                let g: Option<R> = with_matcher!(kind, v, m, sel.match_first_forwards(&m).map(|g| rng(&g.0)));
                check(g == w.first().copied(), "C15 the first match forwards with any matcher");
                let g: Vec<R> = with_matcher!(kind, v, m, sel.match_backwards(&m).iter().map(|g| rng(&g.0)).collect());
                check(g == wb, "C15 matching backwards with any matcher extends the selection to cover both");
                let g: Option<R> = with_matcher!(kind, v, m, sel.match_first_backwards(&m).map(|g| rng(&g.0)));
                check(g == wb.first().copied(), "C15 the first match backwards with any matcher");
                if !w.is_empty() {
                    cover("found");
                }
            }
            16 => {
                let mut w: Vec<R> = Vec::new();
                for t in r.0..=r.1 {
                    w.extend(f(t, true));
                }
                let g: Vec<R> = with_matcher!(kind, v, m, sel.split_by(&m).iter().map(rng).collect());
                check(g == runs(r, &w), "C16 splitting by any matcher gives the maximal unmatched runs");
                if !w.is_empty() {
                    cover("found");
                }
            }
            _ => {
                let s = f(r.0, true).first().map(|x| x.1 + 1).unwrap_or(r.0);
                let e1 = f(r.1, false).first().map(|x| x.0).unwrap_or(r.1 + 1);
                let w = |s: usize, e1: usize| if s < e1 && e1 > r.0 && s <= r.1 { Some((s, e1 - 1)) } else { None };
                let g: Option<R> = with_matcher!(kind, v, m, sel.trim_start(&m).as_ref().map(rng));
                check(g == w(s, r.1 + 1), "C18 trim_start with any matcher drops the first match at the start");
                let g: Option<R> = with_matcher!(kind, v, m, sel.trim_end(&m).as_ref().map(rng));
                check(g == w(r.0, e1), "C18 trim_end with any matcher drops the first match at the end");
                let g: Option<R> = with_matcher!(kind, v, m, sel.trim(&m).as_ref().map(rng));
                check(g == w(s, e1), "C18 trim with any matcher drops the first match at both ends");
                if s > r.0 {
                    cover("found");
                }
            }
        }
    }));
}
#[no_mangle]
pub extern "C" fn c14_grid() {
    grid(14, 4, 2);
}
#[no_mangle]
pub extern "C" fn c15_grid() {
    grid(15, 4, 2);
}
#[no_mangle]
pub extern "C" fn c16_grid() {
    grid(16, 4, 2);
}
#[no_mangle]
pub extern "C" fn c18_grid() {
    grid(18, 4, 2);
}
#[no_mangle]
pub extern "C" fn c14_grid3() {
    grid(14, 3, 3);
}
#[no_mangle]
pub extern "C" fn c15_grid3() {
    grid(15, 3, 3);
}
#[no_mangle]
pub extern "C" fn c16_grid3() {
    grid(16, 3, 3);
}
#[no_mangle]
pub extern "C" fn c18_grid3() {
    grid(18, 3, 3);
}

// ---------- many results
/// A value on every token of a longer line and twelve values next to one token, found, extended, split and trimmed.
fn many(what: usize) {
    let n = [1usize, 2, 9, 33, 70][pick(5)];
    let mut md = Model { n, asg: Vec::new() };
    for t in 0..n {
        md.asg.push(Asg { ty: 0, i: t, j: t, v: any_u8() });
    }
    let hot = [0, n / 2, n - 1][pick(3)];
    for k in 0..12usize {
        let (i, j) = if what == 15 { (hot.saturating_sub(k % 5), (hot + k % 7).min(n - 1)) } else { (hot, hot) };
        md.asg.push(Asg { ty: 0, i, j, v: any_u8() });
    }
    let line = line_of(&mixed(n)).run(&PutP(&md.asg));
    let r = (if n > 1 { pick(2) } else { 0 }, n - 1);
    line.run(&With(|all| {
        let sel = span(&all, r.0, r.1);
        if what == 14 {
            let mut w: Vec<(R, u8)> = Vec::new();
            let mut wb: Vec<(R, u8)> = Vec::new();
            for t in r.0..=r.1 {
                for fwd in [true, false] {
                    for (e, a) in md.at(0, t, fwd) {
                        if fwd {
                            w.push(((t, e), a));
                        }
                        wb.push((if fwd { (t, e) } else { (e, t) }, a));
                    }
                }
            }
            let g = sel.find_by(&x::attr::<P>());
            check(g.len() == w.len(), "C14 any number of matches is reported");
            for (g, w) in g.iter().zip(&w) {
                check(rng(&g.0) == w.0 && g.1 .0 == w.1, "C14 many matches, each with its range and value");
            }
            let g = sel.find_by_forwards_and_backwards(&x::attr::<P>());
            check(g.len() == wb.len(), "C14 any number of matches in both directions is reported");
            for (g, w) in g.iter().zip(&wb) {
                check(rng(&g.0) == w.0 && g.1 .0 == w.1, "C14 many matches in both directions");
            }
        } else {
            for fwd in [true, false] {
                let from = if fwd { hot.checked_sub(1) } else { Some(hot + 1).filter(|x| *x < n) };
                if let Some(from) = from {
                    let s = span(&all, from, from);
                    let w: Vec<(usize, u8)> = md.at(0, hot, fwd);
                    let g = if fwd { s.match_forwards(&x::attr::<P>()) } else { s.match_backwards(&x::attr::<P>()) };
                    check(g.len() == w.len(), "C15 any number of neighbouring matches is reported");
                    for (g, w) in g.iter().zip(&w) {
                        check(rng(&g.0) == if fwd { (from, w.0) } else { (w.0, from) } && g.1 .0 == w.1, "C15 many neighbouring matches, each with its own extent");
                    }
                }
            }
        }
    }));
    vp_observe(n as u64);
}
#[no_mangle]
pub extern "C" fn c14_many() {
    many(14);
}
#[no_mangle]
pub extern "C" fn c15_many() {
    many(15);
}
/// A long list: every separator found, whatever their number.
#[no_mangle]
pub extern "C" fn c16_many() {
    let n = 70;
    let p = [2usize, 3, 7][pick(3)];
    let (a, b) = (any_bool(), any_bool());
    let codes: Vec<usize> = (0..n).map(|i| if i % p == 0 || (a && i == 31) || (b && i == 64) { 3 } else { 0 }).collect();
    let r = ([0, 1, 30][pick(3)], [40, 68, 69][pick(3)]);
    line_of(&codes).run(&With(|all| {
        let ms: Vec<R> = (0..n).filter(|t| codes[*t] == 3).map(|t| (t, t)).collect();
        let g: Vec<R> = span(&all, r.0, r.1).split_by(&x::attr_eq(&',')).iter().map(rng).collect();
        check(g == runs(r, &ms), "C16 a long list is split at every separator");
        vp_observe(g.len() as u64);
    }));
}

// ---------- lines dense with values
#[no_mangle]
pub extern "C" fn c14_dense() {
    finds_on(40, 4, 1, 2);
}
#[no_mangle]
pub extern "C" fn c15_dense() {
    extend_on(40, 5, 1);
}
#[no_mangle]
pub extern "C" fn c16_dense() {
    splits_on(3, 6, 1, 2);
}
#[no_mangle]
pub extern "C" fn c18_dense() {
    trims_on(25, 5, 1);
}

// ---------- C21 finishing
/// Runs `f` on the whole-line selection and assigns what it returns.
pub struct Ret<F>(pub F);
impl<F: Fn(LLSelection) -> Vec<LLCursorAssignment<Q>>> Resolver for Ret<F> {
    type Attr = Q;
    fn go(&self, s: LLSelection) -> Vec<LLCursorAssignment<Q>> {
        (self.0)(s)
    }
}
/// What the line holds of Q, in the order of assignment (ranges grouped), equals `want`.
fn finished(line: &LLLine, want: &[(R, u8)]) {
    let mut md = Model { n: line.ll_tokens().len(), asg: Vec::new() };
    for (r, v) in want {
        md.asg.push(Asg { ty: 1, i: r.0, j: r.1, v: *v });
    }
    let q = line.query::<Q>();
    let rs = md.ranges(1);
    check(q.len() == rs.len(), "C21 exactly the selections that were finished hold a value");
    for (g, r) in q.iter().zip(&rs) {
        check(g.0 == *r, "C21 a value lies on exactly the selection it was finished on");
        let vs = md.values(1, *r);
        check(g.2.len() == vs.len(), "C21 one value per finished selection");
        for (a, b) in g.2.iter().zip(&vs) {
            check(a.0 == *b, "C21 the value is the one given, in order");
        }
    }
}
/// A selection that came out of a chain of operations is where its value lands, and is what the next pass finds.
fn finish_chain(n: usize, m: usize, steps: usize) {
    let (line, _) = any_line(n, m, 1, 1);
    let start = any_range(n);
    let kinds: Vec<usize> = (0..steps).map(|_| pick(16)).collect();
    let v = any_u8();
    let at: std::cell::Cell<Option<R>> = std::cell::Cell::new(None);
    let line = line.run(&Ret(|all: LLSelection| {
        let other = span(&all, start.0, start.1);
        let mut s = other.clone();
        for k in &kinds {
            match op(&s, &other, *k, n) {
                Some(x) => s = x,
                None => return Vec::new(),
            }
        }
        at.set(Some(rng(&s)));
        vec![s.finish_with_attr(Q(v))]
    }));
    match at.get() {
        None => finished(&line, &[]),
        Some(r) => {
            cover("finished");
            finished(&line, &[(r, v)]);
            line.run(&With(|all| {
                let f = all.find_by(&x::attr::<Q>());
                check(f.len() == 1 && rng(&f[0].0) == r && f[0].1 .0 == v, "C21 the next pass finds the value on the selection");
                if r.0 > 0 {
                    let left = span(&all, 0, r.0 - 1);
                    let g = left.match_forwards(&x::attr::<Q>());
                    check(g.len() == 1 && rng(&g[0].0) == (0, r.1), "C21 the value begins where the selection began");
                }
                if r.1 + 1 < n {
                    let right = span(&all, r.1 + 1, n - 1);
                    let g = right.match_backwards(&x::attr::<Q>());
                    check(g.len() == 1 && rng(&g[0].0) == (r.0, n - 1), "C21 the value ends where the selection ended");
                }
            }));
        }
    }
}
#[no_mangle]
pub extern "C" fn c21_chain1() {
    finish_chain(4, 1, 1);
}
#[no_mangle]
pub extern "C" fn c21_chain2() {
    finish_chain(3, 1, 2);
}
#[no_mangle]
pub extern "C" fn c21_chain2m() {
    finish_chain(3, 2, 2);
}
#[no_mangle]
pub extern "C" fn c21_far() {
    finish_chain(20, 1, 1);
}
/// Lists of matches from every search, finished as a whole.
fn finish_all(k: usize, n: usize, m: usize) {
    let (line, _) = dense_line(n, k, m, 1, 3);
    let sel = any_range(n);
    let how = pick(8);
    let want: std::cell::RefCell<Vec<(R, u8)>> = Default::default();
    let line = line.run(&Ret(|all: LLSelection| {
        let s = span(&all, sel.0, sel.1);
        let p = x::attr::<P>();
        let note = |v: Vec<(LLSelection, &P)>| {
            for (s, p) in &v {
                want.borrow_mut().push((rng(s), p.0.wrapping_mul(3).wrapping_add(1)));
            }
        };
        let f = |p: &P| Q(p.0.wrapping_mul(3).wrapping_add(1));
        match how {
            0 => {
                note(s.find_by(&p));
                s.find_by(&p).finish_with(f)
            }
            1 => {
                note(s.match_forwards(&p));
                s.match_forwards(&p).finish_with(f)
            }
            2 => {
                note(s.match_backwards(&p));
                s.match_backwards(&p).finish_with(f)
            }
            3 => {
                note(s.find_by_forwards_and_backwards(&p));
                s.find_by_forwards_and_backwards(&p).finish_with(f)
            }
            4 => {
                note(s.find_first_by(&p).into_iter().collect());
                s.find_first_by(&p).finish_with(f)
            }
            5 => {
                note(s.match_first_forwards(&p).into_iter().collect());
                s.match_first_forwards(&p).finish_with(f)
            }
            6 => {
                note(s.find_by(&p).into_iter().rev().collect());
                s.find_by(&p).into_iter().rev().finish_with(f)
            }
            _ => {
                // every match twice, with different values
                let v = s.find_by(&p);
                for (s, p) in &v {
                    want.borrow_mut().push((rng(s), p.0));
                    want.borrow_mut().push((rng(s), p.0.wrapping_add(100)));
                }
                v.into_iter().flat_map(|(s, p)| vec![(s.clone(), p.0), (s, p.0.wrapping_add(100))]).finish_with(Q)
            }
        }
    }));
    let want = want.into_inner();
    if want.len() > 1 {
        cover("several");
    }
    finished(&line, &want);
}
#[no_mangle]
pub extern "C" fn c21_lists() {
    finish_all(0, 4, 2);
}
#[no_mangle]
pub extern "C" fn c21_lists3() {
    finish_all(0, 3, 3);
}
#[no_mangle]
pub extern "C" fn c21_dense() {
    finish_all(40, 5, 1);
}
#[no_mangle]
pub extern "C" fn c21_lists_far() {
    finish_all(60, 20, 1);
}
/// Many matches finished together.
#[no_mangle]
pub extern "C" fn c21_vast() {
    let n = [1usize, 33, 65, 129, 257, 300][pick(6)];
    let at = any_index(n.max(10)).min(n - 1);
    let line = line_of(&mixed(n));
    let how = pick(2);
    let line = line.run(&Ret(|all: LLSelection| {
        let v = all.find_by(&x::attr::<K>());
        if how == 0 {
            v.finish_with(|k| Q(k.0 as u8))
        } else {
            v.into_iter().skip(at).finish_with(|k| Q(k.0 as u8))
        }
    }));
    let want: Vec<(R, u8)> = (if how == 0 { 0 } else { at }..n).map(|t| ((t, t), t as u8)).collect();
    finished(&line, &want);
}
/// One match on a long line: found, found first, extended to, split at, trimmed off, wherever it is.
fn lone(n: usize, at: R) {
    let line = line_of(&mixed(n)).run(&PutP(&[Asg { ty: 0, i: at.0, j: at.1, v: 5 }]));
    line.run(&With(|all| {
        let p = x::attr::<P>();
        let f = all.find_by(&p);
        check(f.len() == 1 && rng(&f[0].0) == at, "C14 the only match of a long line is found");
        let f = all.find_first_by(&p);
        check(f.is_some() && rng(&f.unwrap().0) == at, "C14 the only match of a long line is the first");
        let f = all.find_by_forwards_and_backwards(&p);
        check(f.len() == 2 && rng(&f[0].0) == at && rng(&f[1].0) == at, "C14 the only match of a long line is found from both sides");
    }));
}
#[no_mangle]
pub extern "C" fn c14_lone() {
    let n = [2usize, 33, 65, 70, 129, 257, 300][pick(7)];
    let i = [0, 1, n / 2, n - 2, n - 1][pick(5)];
    let j = [0, 1, n / 2, n - 2, n - 1][pick(5)];
    vp_assume(i <= j);
    lone(n, (i, j));
}
/// Splitting long lines: a few matches far apart, long matches, nested ones.
#[no_mangle]
pub extern "C" fn c16_vast() {
    let n = [40usize, 129, 257][pick(3)];
    let at = [0, n / 2, n - 2, n - 1];
    let (a, b) = ((at[pick(4)], at[pick(4)]), (at[pick(4)], at[pick(4)]));
    vp_assume(a.0 <= a.1 && b.0 <= b.1);
    let asg = [Asg { ty: 0, i: a.0, j: a.1, v: 1 }, Asg { ty: 0, i: b.0, j: b.1, v: 2 }, Asg { ty: 0, i: n / 3, j: n / 3, v: 3 }];
    let line = line_of(&mixed(n)).run(&PutP(&asg));
    let mut covered = vec![false; n];
    for q in &asg {
        for t in q.i..=q.j {
            covered[t] = true;
        }
    }
    let mut want: Vec<R> = Vec::new();
    for t in 0..n {
        if !covered[t] {
            if t > 0 && !covered[t - 1] {
                let k = want.len();
                want[k - 1].1 = t;
            } else {
                want.push((t, t));
            }
        }
    }
    line.run(&With(|all| {
        let s = all.split_by(&x::attr::<P>());
        check(s.len() == want.len(), "C16 a long line splits into its unmatched runs");
        for (g, w) in s.iter().zip(&want) {
            check(rng(g) == *w, "C16 a long line splits into exactly its unmatched runs");
        }
    }));
}
/// Trimming long matches off long selections.
#[no_mangle]
pub extern "C" fn c18_vast() {
    let n = [40usize, 129, 257][pick(3)];
    let at = [0, 9, n / 2, n - 1];
    let (a, s) = ((at[pick(4)], at[pick(4)]), (at[pick(4)], at[pick(4)]));
    vp_assume(a.0 <= a.1 && s.0 <= s.1);
    let line = line_of(&mixed(n)).run(&PutP(&[Asg { ty: 0, i: a.0, j: a.1, v: 1 }]));
    line.run(&With(|all| {
        let p = x::attr::<P>();
        let sel = span(&all, s.0, s.1);
        let start = if a.0 == s.0 { a.1 + 1 } else { s.0 };
        let end1 = if a.1 == s.1 { a.0 } else { s.1 + 1 };
        let want = |from: usize, to1: usize| -> Option<R> {
            if from < to1 && from <= s.1 && to1 > s.0 {
                Some((from, to1 - 1))
            } else {
                None
            }
        };
        check(sel.trim_start(&p).map(|x| rng(&x)) == want(start, s.1 + 1), "C18 a long match is trimmed off the start");
        check(sel.trim_end(&p).map(|x| rng(&x)) == want(s.0, end1), "C18 a long match is trimmed off the end");
        check(sel.trim(&p).map(|x| rng(&x)) == want(start, end1), "C18 a long match is trimmed off both ends");
    }));
}
// ---------- tokens of arbitrary kinds
#[no_mangle]
pub extern "C" fn c13_kinds() {
    any_kinds(3);
    ops(3, 1, 1);
}
#[no_mangle]
pub extern "C" fn c14_kinds() {
    any_kinds(3);
    finds(3, 1, 1);
}
#[no_mangle]
pub extern "C" fn c15_kinds() {
    any_kinds(3);
    extend(3, 1);
}
#[no_mangle]
pub extern "C" fn c16_kinds() {
    any_kinds(3);
    splits(3, 1, 1);
}
#[no_mangle]
pub extern "C" fn c17_kinds() {
    any_kinds(3);
    cut(3);
}
#[no_mangle]
pub extern "C" fn c18_kinds() {
    any_kinds(3);
    trims(3, 1);
}
#[no_mangle]
pub extern "C" fn c21_kinds() {
    any_kinds(3);
    finish_chain(3, 1, 1);
}
