//! C19..C24: the resolvers shipped with the library.
use crate::gen::*;
use crate::rt::*;
use layered_amount::{Amount, AmountResolver};
use layered_clauses::{Clause, ClauseKeyword, ClauseKeywordResolver, ClauseResolver};
use layered_nlp::*;
use layered_part_of_speech::{POSTagResolver, Tag};
use std::collections::HashMap;
use wiktionary_part_of_speech_extract::ENGLISH_TAG_LOOKUP;

type R = (usize, usize);

fn texts_line(v: &[&str]) -> LLLine {
    create_line_from_input_tokens(v.iter().map(|s| InputToken::text(s.to_string(), Vec::new())).collect(), |s| s.len())
}
/// Text of every token ("" and false for a custom token).
fn toks(line: &LLLine) -> Vec<(String, bool)> {
    line.ll_tokens()
        .iter()
        .map(|t| match t.get_token() {
            LToken::Text(s, _) => (s.clone(), true),
            LToken::Value => (String::new(), false),
        })
        .collect()
}

// ---------- C19 text match
const WORDS: [&str; 9] = ["Ab", "ab", "aB", "é", "É", "x", "AB", "ΑΣ", "ας"];
const KEYS: [&str; 5] = ["Ab", "É", "aB", "ας", "zz"];
fn sorted(mut v: Vec<u8>) -> Vec<u8> {
    // insertion sort without branching on the values
    for i in 1..v.len() {
        for j in (0..i).rev() {
            let (a, b) = (v[j].min(v[j + 1]), v[j].max(v[j + 1]));
            v[j] = a;
            v[j + 1] = b;
        }
    }
    v
}
fn text_match(n: usize, kind: usize) {
    let mut ws: Vec<&str> = Vec::new();
    for _ in 0..n {
        ws.push(WORDS[pick(9)]);
    }
    let custom_at = pick(2) == 1;
    let vals: Vec<u8> = (0..8).map(|_| any_u8()).collect();
    // values per key: Ab -> 2, É -> 1, aB -> 1, ας -> 1, zz -> 0
    let per: [Vec<u8>; 5] = [vec![vals[0], vals[1]], vec![vals[2]], vec![vals[3]], vec![vals[4]], Vec::new()];
    let mut ins: Vec<InputToken> = ws.iter().map(|s| InputToken::text(s.to_string(), Vec::new())).collect();
    if custom_at {
        ins.insert(0, InputToken::custom(1, Vec::new()));
    }
    let line = create_line_from_input_tokens(ins, |s| s.len());
    let map = || -> HashMap<String, Vec<P>> { KEYS.iter().zip(&per).map(|(k, v)| (k.to_string(), v.iter().map(|x| P(*x)).collect())).collect() };
    let line = match kind {
        0 => line.run(&TextMatchAssignResolver::new(map())),
        1 => line.run(&TextMatchAssignResolver::new_case_insensitive(map())),
        _ => line.run(&TextMatchAssignResolver::new_case_insensitive_str_arr([
            ("Ab", P(vals[0])),
            ("É", P(vals[2])),
            ("aB", P(vals[3])),
            ("ας", P(vals[4])),
        ])),
    };
    let mut want: Vec<(R, Vec<u8>, String)> = Vec::new();
    for (i, (t, is)) in toks(&line).into_iter().enumerate() {
        if !is {
            continue;
        }
        let mut vs: Vec<u8> = Vec::new();
        for (k, key) in KEYS.iter().enumerate() {
            let hit = if kind == 0 { *key == t } else { key.to_lowercase() == t.to_lowercase() };
            if hit {
                let mut v = per[k].clone();
                if kind == 2 {
                    v.truncate(1);
                }
                vs.extend(v);
            }
        }
        if !vs.is_empty() {
            want.push(((i, i), vs, t));
        }
    }
    let got = line.query::<P>();
    check(got.len() == want.len(), "C19 exactly the tokens equal to a key get values");
    for (g, w) in got.iter().zip(&want) {
        check(g.0 == w.0 && g.1 == w.2, "C19 the values go to the matching token");
        let gv: Vec<u8> = g.2.iter().map(|p| p.0).collect();
        check(gv.len() == w.1.len(), "C19 every value of every matching key is assigned once");
        if kind == 0 || kind == 2 {
            check(gv == w.1, "C19 values come in the given order");
        } else {
            // keys that differ only by case come from a hash map, so their order is open
            check(sorted(gv) == sorted(w.1.clone()), "C19 all values of all matching keys are assigned");
        }
        if w.1.len() > 2 {
            cover("colliding keys");
        }
        vp_observe(g.0 .0 as u64);
    }
}
#[no_mangle]
pub extern "C" fn c19_exact() {
    text_match(2, 0);
}
#[no_mangle]
pub extern "C" fn c19_nocase() {
    text_match(2, 1);
}
#[no_mangle]
pub extern "C" fn c19_arr() {
    text_match(2, 2);
}
#[no_mangle]
pub extern "C" fn c19_exact3() {
    text_match(3, 0);
}
#[no_mangle]
pub extern "C" fn c19_nocase3() {
    text_match(3, 1);
}
#[no_mangle]
pub extern "C" fn c19_arr3() {
    text_match(3, 2);
}
/// Symbolic key and symbolic text (all ASCII letters), one of each.
#[no_mangle]
pub extern "C" fn c19_letters() {
    let l = || {
        let b = choose(26);
        vp_concretize(b as u64) as u8 + if any_bool() { b'a' } else { b'A' }
    };
    let (a, b) = (l() as char, l() as char);
    let v = any_u8();
    let t = a.to_string();
    let mut m = HashMap::new();
    m.insert(b.to_string(), vec![P(v)]);
    let cs = any_bool();
    let line = texts_line(&[t.as_str()]);
    let (line, hit) = if cs {
        (line.run(&TextMatchAssignResolver::new(m)), a == b)
    } else {
        (line.run(&TextMatchAssignResolver::new_case_insensitive(m)), a.to_ascii_lowercase() == b.to_ascii_lowercase())
    };
    let q = line.query::<P>();
    check(q.len() == hit as usize, "C19 a letter matches exactly its key");
    if hit {
        check(q[0].2.len() == 1 && q[0].2[0].0 == v, "C19 and gets its value");
        cover("hit");
    }
}
/// Earlier layers and other token kinds do not matter; longer texts only match whole tokens.
#[no_mangle]
pub extern "C" fn c19_whole() {
    let v = any_u8();
    let mut m = HashMap::new();
    m.insert("new york".to_string(), vec![P(1)]);
    m.insert("12".to_string(), vec![P(v)]);
    m.insert(",".to_string(), vec![P(v), P(2)]);
    m.insert(" ".to_string(), vec![P(3)]);
    let (d, e) = (choose(10) + b'0', choose(10) + b'0');
    let mut t = String::from("new york, ");
    t.push(d as char);
    t.push(e as char);
    vp_concretize(d as u64);
    vp_concretize(e as u64);
    let line = texts_line(&[t.as_str()]).run(&TextMatchAssignResolver::new_case_insensitive(m));
    // tokens: new _ york , _ dd
    let q = line.query::<P>();
    let hit = d == b'1' && e == b'2';
    check(q.len() == 3 + hit as usize, "C19 only whole tokens match");
    check(q[0].0 == (1, 1) && q[1].0 == (3, 3) && q[2].0 == (4, 4), "C19 spaces and punctuation match too");
    check(q[1].2.len() == 2 && q[1].2[0].0 == v && q[1].2[1].0 == 2, "C19 values in order");
    if hit {
        check(q[3].0 == (5, 5) && q[3].2.len() == 1 && q[3].2[0].0 == v, "C19 numbers match by text");
        cover("number");
    }
}

/// Many keys, many values, many tokens.
#[no_mangle]
pub extern "C" fn c19_many() {
    let nocase = vp_concretize(any_bool() as u64) == 1;
    let v: Vec<u8> = (0..30).map(|_| any_u8()).collect();
    let mut m: HashMap<String, Vec<P>> = HashMap::new();
    let key = |i: usize| -> String { ["alpha", "Beta", "GAMMA", "delta7", "É", "x"][i % 6].chars().chain((0..i / 6).map(|_| 'q')).collect() };
    for i in 0..12 {
        m.insert(key(i), if i == 1 { v.iter().map(|x| P(*x)).collect() } else { vec![P(v[i])] });
    }
    let mut ws: Vec<String> = Vec::new();
    for k in 0..24usize {
        let w = key((k * 5 + 1) % 12);
        ws.push(match k % 3 {
            0 => w,
            1 => w.to_lowercase(),
            _ => w.to_uppercase(),
        });
    }
    let extra = pick(3);
    ws.insert(7, ["zeta", "BETA", "Beta"][extra].to_string());
    let line = create_line_from_input_tokens(ws.iter().map(|w| InputToken::text(w.clone(), Vec::new())).collect(), |s| s.len());
    let tk = toks(&line);
    let line = if nocase { line.run(&TextMatchAssignResolver::new_case_insensitive(m)) } else { line.run(&TextMatchAssignResolver::new(m)) };
    let q = line.query::<P>();
    let mut at = 0;
    for (t, (w, _)) in tk.iter().enumerate() {
        let hit = (0..12).find(|i| if nocase { key(*i).to_lowercase() == w.to_lowercase() } else { key(*i) == *w });
        if let Some(i) = hit {
            check(at < q.len() && q[at].0 == (t, t), "C19 every matching token of a long line gets its values");
            if i == 1 {
                check(q[at].2.len() == 30 && q[at].2.iter().zip(&v).all(|(a, b)| a.0 == *b), "C19 thirty values in order");
            } else {
                check(q[at].2.len() == 1 && q[at].2[0].0 == v[i], "C19 the key's value");
            }
            at += 1;
        }
    }
    check(at == q.len(), "C19 nothing else is assigned in a long line");
    vp_observe(at as u64);
}

/// Characters whose case mapping is unusual, alone and inside words: texts and keys compare in lower case.
#[no_mangle]
pub extern "C" fn c19_odd() {
    const C: [&str; 18] = ["ß", "ẞ", "ss", "İ", "i", "ı", "K", "k", "ſ", "s", "Σ", "σ", "ς", "ǅ", "ŉ", "ﬁ", "Ω", "'"];
    let (a, b) = (pick(18), pick(18));
    let inside = pick(2) == 1;
    let wrap = |c: &str| -> String {
        if inside {
            let mut t = String::from("Ta");
            t.push_str(c);
            t.push('e');
            t
        } else {
            c.to_string()
        }
    };
    let (text, key) = (wrap(C[a]), wrap(C[b]));
    let v = any_u8();
    for kind in 0..3 {
        let line = texts_line(&[text.as_str()]);
        let tk = toks(&line);
        let mut m = HashMap::new();
        m.insert(key.clone(), vec![P(v)]);
        let line = match kind {
            0 => line.run(&TextMatchAssignResolver::new(m)),
            1 => line.run(&TextMatchAssignResolver::new_case_insensitive(m)),
            _ => line.run(&TextMatchAssignResolver::new_case_insensitive_str_arr([(C[b], P(v))])),
        };
        let key: &str = if kind == 2 { C[b] } else { key.as_str() };
        let want: Vec<usize> = (0..tk.len()).filter(|i| if kind == 0 { tk[*i].0 == key } else { tk[*i].0.to_lowercase() == key.to_lowercase() }).collect();
        let q = line.query::<P>();
        check(q.len() == want.len(), "C19 unusual characters: exactly the tokens equal to the key in lower case");
        for (g, w) in q.iter().zip(&want) {
            check(g.0 == (*w, *w) && g.2.len() == 1 && g.2[0].0 == v, "C19 unusual characters: with the key's value");
            cover("matched");
        }
    }
}

/// Long words and keys that differ in one symbolic letter.
#[no_mangle]
pub extern "C" fn c19_long() {
    let n = [1usize, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 300][pick(13)];
    let at = pick(3);
    let v = any_u8();
    let word = |c: char| -> String {
        let mut t = "Ab".repeat(n / 2 + 1);
        match at {
            0 => t.push(c),
            1 => t.insert(0, c),
            _ => t.insert(n / 2, c),
        }
        t
    };
    let (c, d) = (['x', 'X', 'y', 'é', 'É'][pick(5)], ['x', 'X', 'é'][pick(3)]);
    let cs = pick(2) == 0;
    let (t, k) = (word(c), word(d));
    let mut m = HashMap::new();
    m.insert(k.clone(), vec![P(v), P(7)]);
    let line = texts_line(&["if", t.as_str(), " ", k.as_str()]);
    let (line, hit) = if cs { (line.run(&TextMatchAssignResolver::new(m)), t == k) } else { (line.run(&TextMatchAssignResolver::new_case_insensitive(m)), t.to_lowercase() == k.to_lowercase()) };
    let q = line.query::<P>();
    check(q.len() == 1 + hit as usize, "C19 a long word matches exactly its key");
    check(q[0].0 == if hit { (1, 1) } else { (3, 3) }, "C19 a long word matches on its token");
    for g in &q {
        check(g.2.len() == 2 && g.2[0].0 == v && g.2[1].0 == 7, "C19 and gets its values");
    }
}
/// Long lines: hits at the start, in the middle and at the end.
#[no_mangle]
pub extern "C" fn c19_vast() {
    let n = [1usize, 60, 129, 257, 300][pick(5)];
    let at = [0, n / 2, n - 1][pick(3)];
    let v = any_u8();
    let mut ws: Vec<&str> = (0..n).map(|i| ["w", " ", "7", ","][i % 4]).collect();
    ws[at] = "Key";
    let mut m = HashMap::new();
    m.insert("key".to_string(), vec![P(v)]);
    m.insert("7".to_string(), vec![P(1)]);
    let line = texts_line(&ws).run(&TextMatchAssignResolver::new_case_insensitive(m));
    let q = line.query::<P>();
    let want: Vec<usize> = (0..n).filter(|i| *i == at || ws[*i] == "7").collect();
    check(q.len() == want.len(), "C19 every hit of a long line");
    for (g, w) in q.iter().zip(&want) {
        check(g.0 == (*w, *w) && g.2.len() == 1 && g.2[0].0 == if *w == at { v } else { 1 }, "C19 every hit with its value");
    }
}

// ---------- C20 amounts
struct Want {
    r: R,
    mant: i128,
    scale: u32,
}
/// The amounts of a line per the documentation, from its tokens alone.
fn amounts(line: &LLLine, delims: &[char], dec: char) -> Vec<Want> {
    let t = line.ll_tokens();
    let n = t.len();
    let num = |i: usize| -> Option<&str> {
        match t[i].get_token() {
            LToken::Text(s, TextTag::NATN) => Some(s.as_str()),
            _ => None,
        }
    };
    let is = |i: usize, set: &[char]| -> bool {
        match t[i].get_token() {
            LToken::Text(s, _) => {
                let mut c = s.chars();
                match (c.next(), c.next()) {
                    (Some(c), None) => set.contains(&c),
                    _ => false,
                }
            }
            _ => false,
        }
    };
    let mut out = Vec::new();
    let mut i = 0;
    while i < n {
        let s = match num(i) {
            Some(s) => s,
            None => {
                i += 1;
                continue;
            }
        };
        let start = i;
        let (mut mant, mut scale) = (0i128, 0u32);
        let add = |mant: &mut i128, s: &str| {
            for b in s.bytes() {
                *mant = *mant * 10 + (b - b'0') as i128;
            }
        };
        add(&mut mant, s);
        let mut end = i;
        // groups
        while end + 2 < n && is(end + 1, delims) && num(end + 2).is_some() {
            add(&mut mant, num(end + 2).unwrap());
            end += 2;
        }
        // a fraction, unless a dangling delimiter follows
        if end + 2 < n && !is(end + 1, delims) && is(end + 1, &[dec]) && num(end + 2).is_some() {
            let f = num(end + 2).unwrap();
            add(&mut mant, f);
            scale = f.len() as u32;
            end += 2;
        }
        out.push(Want { r: (start, end), mant, scale });
        i = end + 1;
    }
    out
}
fn same_amounts(line: &LLLine, w: &[Want]) {
    let q = line.query::<Amount>();
    check(q.len() == w.len(), "C20 every number of the text gets one amount");
    for (g, w) in q.iter().zip(w) {
        check(g.0 == w.r, "C20 an amount covers its digits and inner separators and nothing else");
        check(g.2.len() == 1, "C20 one amount per number");
        let d = g.2[0].get_decimal();
        check(d.mantissa() == w.mant, "C20 an amount has the value of its digits");
        check(d.scale() == w.scale, "C20 an amount has the decimals of its fraction");
        obs_rng(g.0);
        vp_observe(d.mantissa() as u64);
    }
}
fn digit() -> char {
    (choose(10) + b'0') as char
}
/// A text of n pieces: groups of symbolic digits, separators, blanks, letters.
fn amount_text(n: usize, seps: &[char]) -> String {
    let mut s = String::new();
    for _ in 0..n {
        let k = pick(2 + seps.len() as u8);
        match k {
            0 => s.push(digit()),
            1 => s.push('a'),
            _ => s.push(seps[k - 2]),
        }
    }
    s
}
fn amounts_of(n: usize, cfg: usize) {
    let (r, delims, dec, seps): (AmountResolver, Vec<char>, char, Vec<char>) = match cfg {
        0 => (AmountResolver::english(), vec![',', '\''], '.', vec![',', '.', ' ', '\'']),
        1 => (AmountResolver::french(), vec![' ', '.', '\''], ',', vec![',', '.', ' ']),
        _ => (AmountResolver::new(vec!['_', '-'], ':'), vec!['_', '-'], ':', vec!['_', '-', ':', '.']),
    };
    let t = amount_text(n, &seps);
    let line = texts_line(&[t.as_str()]);
    let w = amounts(&line, &delims, dec);
    if w.len() > 1 {
        cover("several amounts");
    }
    if w.iter().any(|w| w.scale > 0) {
        cover("fraction");
    }
    if w.iter().any(|w| w.r.1 - w.r.0 >= 2 && w.scale == 0) {
        cover("grouped");
    }
    same_amounts(&line.run(&r), &w);
}
#[no_mangle]
pub extern "C" fn c20_en4() {
    amounts_of(4, 0);
}
#[no_mangle]
pub extern "C" fn c20_en5() {
    amounts_of(5, 0);
}
#[no_mangle]
pub extern "C" fn c20_en6() {
    amounts_of(6, 0);
}
#[no_mangle]
pub extern "C" fn c20_fr4() {
    amounts_of(4, 1);
}
#[no_mangle]
pub extern "C" fn c20_fr5() {
    amounts_of(5, 1);
}
#[no_mangle]
pub extern "C" fn c20_cu4() {
    amounts_of(4, 2);
}
#[no_mangle]
pub extern "C" fn c20_cu5() {
    amounts_of(5, 2);
}
#[no_mangle]
pub extern "C" fn c20_fr6() {
    amounts_of(6, 1);
}
/// Ordinary big amounts with every digit symbolic: d,ddd,ddd.dd
#[no_mangle]
pub extern "C" fn c20_big() {
    let groups = pick(4);
    let frac = pick(5);
    let fr = any_bool();
    let fr = vp_concretize(fr as u64) == 1;
    let (g, d) = if fr { (' ', ',') } else { (',', '.') };
    let mut t = String::from("a ");
    t.push(digit());
    for _ in 0..groups {
        t.push(g);
        for _ in 0..3 {
            t.push(digit());
        }
    }
    if frac > 0 {
        t.push(d);
        for _ in 0..frac {
            t.push(digit());
        }
    }
    t.push('!');
    let line = texts_line(&[t.as_str()]);
    let w = if fr { amounts(&line, &[' ', '.', '\''], ',') } else { amounts(&line, &[',', '\''], '.') };
    check(w.len() == 1 && w[0].scale == frac as u32, "C20 the text is one amount");
    let line = if fr { line.run(&AmountResolver::french()) } else { line.run(&AmountResolver::english()) };
    same_amounts(&line, &w);
    cover("big");
}
/// Numbers of every length up to and beyond what a Decimal can hold: never a failure, exact when representable.
#[no_mangle]
pub extern "C" fn c20_huge() {
    const LENS: [usize; 8] = [1, 9, 18, 19, 20, 28, 29, 31];
    let len = LENS[pick(8)];
    let lead = choose(10) + b'0';
    let mut t = String::new();
    t.push(lead as char);
    for i in 1..len {
        t.push((b'0' + ((i * 7) % 10) as u8) as char);
    }
    t.push_str(" 5");
    let line = texts_line(&[t.as_str()]);
    let w = amounts(&line, &[','], '.');
    let line = line.run(&AmountResolver::new(vec![','], '.'));
    let q = line.query::<Amount>();
    // 2^96 - 1 is the largest mantissa
    if w[0].mant < (1i128 << 96) {
        check(q.len() == 2 && q[0].0 == (0, 0) && q[0].2[0].get_decimal().mantissa() == w[0].mant && q[0].2[0].get_decimal().scale() == 0, "C20 a representable number has its value");
        cover("representable");
    } else {
        check(q.len() == 1, "C20 a number beyond the decimal range gets no amount");
        cover("beyond");
    }
    check(q[q.len() - 1].0 == (2, 2) && q[q.len() - 1].2[0].get_decimal().mantissa() == 5, "C20 later numbers are still found");
}
/// Numbers of every kind after each other: too large ones, grouped ones, with fraction, dangling marks.
fn rows_of_numbers(n: usize) {
    const T: [&str; 10] = ["99999999999999999999999999999999999", "1,000,000,000,000,000,000,000,000,000,000", "7", "1,250", "0.50", "3.", "4,", "x", "0.99999999999999999999", "12'000.5"];
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(T[pick(10)]);
        t.push(' ');
        t.push(digit());
        t.push_str([" ", "; ", ""][pick(3)]);
    }
    let line = texts_line(&[t.as_str()]);
    let w = amounts(&line, &[',', '\''], '.');
    let w: Vec<Want> = w.into_iter().filter(|w| w.mant < 1i128 << 96).collect();
    same_amounts(&line.run(&AmountResolver::english()), &w);
}
#[no_mangle]
pub extern "C" fn c20_rows() {
    rows_of_numbers(2);
}
#[no_mangle]
pub extern "C" fn c20_rows3() {
    rows_of_numbers(3);
}
/// Five delimiters at once, in any order.
#[no_mangle]
pub extern "C" fn c20_delims() {
    const C: [char; 6] = [',', ' ', '_', '\'', ':', '.'];
    let mut t = String::new();
    t.push(digit());
    for _ in 0..3 {
        t.push(C[pick(6)]);
        t.push(digit());
    }
    let k = pick(6);
    let delims: Vec<char> = (0..6).filter(|i| *i != k).map(|i| C[i]).collect();
    let line = texts_line(&[t.as_str()]);
    let w = amounts(&line, &delims, C[k]);
    same_amounts(&line.run(&AmountResolver::new(delims, C[k])), &w);
}
/// Groups and fractions of 1..5 digits each, every digit symbolic.
fn grouped(seps: usize, maxlen: u8) {
    let fr = vp_concretize(any_bool() as u64) == 1;
    let (g, d) = if fr { ('.', ',') } else { (',', '.') };
    let mut t = String::new();
    for i in 0..=seps {
        if i > 0 {
            t.push([g, d, '\''][pick(3)]);
        }
        for _ in 0..1 + pick(maxlen) {
            t.push(digit());
        }
    }
    let line = texts_line(&[t.as_str()]);
    let w = if fr { amounts(&line, &[' ', '.', '\''], ',') } else { amounts(&line, &[',', '\''], '.') };
    let line = if fr { line.run(&AmountResolver::french()) } else { line.run(&AmountResolver::english()) };
    same_amounts(&line, &w);
}
#[no_mangle]
pub extern "C" fn c20_groups() {
    grouped(1, 6);
}
#[no_mangle]
pub extern "C" fn c20_groups2() {
    grouped(2, 4);
}
#[no_mangle]
pub extern "C" fn c20_groups3() {
    grouped(3, 3);
}
/// Many numbers of every form in one text, digits symbolic.
#[no_mangle]
pub extern "C" fn c20_many() {
    let mut t = String::new();
    let shift = pick(4);
    for i in 0..12usize {
        match (i + shift) % 4 {
            0 => t.push(digit()),
            1 => {
                t.push(digit());
                t.push(',');
                t.push(digit());
                t.push_str("00");
            }
            2 => {
                t.push(digit());
                t.push('.');
                t.push('5');
            }
            _ => {
                t.push('x');
                t.push(' ');
                t.push(digit());
                t.push('.');
            }
        }
        t.push(' ');
    }
    let line = texts_line(&[t.as_str()]);
    let w = amounts(&line, &[',', '\''], '.');
    same_amounts(&line.run(&AmountResolver::english()), &w);
    check(w.len() == 12, "C20 twelve amounts");
}
/// Long numbers, up to the 28 digits a Decimal always holds: many groups, long fractions.  A few digits are symbolic.
fn long_number(groups: usize, glen: usize, frac: usize, step: usize) {
    let mut t = String::new();
    let mut k = 0usize;
    let mut put = |t: &mut String| {
        // every step-th digit is arbitrary
        t.push(if k % step == 0 { digit() } else { (b'0' + (k * 7 % 10) as u8) as char });
        k += 1;
    };
    put(&mut t);
    for _ in 0..groups {
        t.push(',');
        for _ in 0..glen {
            put(&mut t);
        }
    }
    if frac > 0 {
        t.push('.');
        for _ in 0..frac {
            put(&mut t);
        }
    }
    t.push_str(" 7");
    let line = texts_line(&[t.as_str()]);
    let w = amounts(&line, &[',', '\''], '.');
    check(w.len() == 2 && w[0].scale == frac as u32, "C20 the long number is one amount");
    same_amounts(&line.run(&AmountResolver::english()), &w);
}
#[no_mangle]
pub extern "C" fn c20_long_int() {
    long_number(pick(10), 3, 0, 9);
}
#[no_mangle]
pub extern "C" fn c20_long_groups() {
    long_number(pick(28), 1, 0, 14);
}
#[no_mangle]
pub extern "C" fn c20_long_frac() {
    const F: [usize; 8] = [1, 4, 9, 10, 18, 19, 20, 27];
    long_number(0, 1, F[pick(8)], 9);
}
#[no_mangle]
pub extern "C" fn c20_long_both() {
    let g = pick(9);
    let f = 1 + pick(12);
    vp_assume(1 + g * 3 + f <= 28);
    long_number(g, 3, f, 14);
}
/// Configuration reaches the result: delimiters and decimal are as given.
#[no_mangle]
pub extern "C" fn c20_config() {
    const C: [char; 5] = [',', '.', '\'', '_', ':'];
    let (a, b, sep, sep2) = (pick(5), pick(5), pick(5), pick(5));
    vp_assume(a != b);
    let (d1, d2, d3) = (digit(), digit(), digit());
    let mut t = String::new();
    t.push(d1);
    t.push(C[sep]);
    t.push(d2);
    t.push(C[sep2]);
    t.push(d3);
    let line = texts_line(&[t.as_str()]);
    let w = amounts(&line, &[C[a]], C[b]);
    same_amounts(&line.run(&AmountResolver::new(vec![C[a]], C[b])), &w);
}
/// The documentation's own examples.
fn doc(t: &str, fr: bool, mant: i128, scale: u32, msg: &'static str) {
    let line = texts_line(&[t]);
    let n = line.ll_tokens().len();
    let line = if fr { line.run(&AmountResolver::french()) } else { line.run(&AmountResolver::english()) };
    let q = line.query::<Amount>();
    check(q.len() == 1 && q[0].0 == (0, n - 1), msg);
    check(q[0].2.len() == 1 && q[0].2[0].get_decimal().mantissa() == mant && q[0].2[0].get_decimal().scale() == scale, msg);
}
#[no_mangle]
pub extern "C" fn c20_doc() {
    doc("1'000'240.00", false, 100024000, 2, "C20 documented example 1'000'240.00 (english)");
    doc("1,000,000", false, 1000000, 0, "C20 documented example 1,000,000 (english)");
    doc("1,00,00", false, 10000, 0, "C20 documented example 1,00,00 (english)");
    doc("1'000'240,00", true, 100024000, 2, "C20 documented example 1'000'240,00 (french)");
    doc("1 000 000", true, 1000000, 0, "C20 documented example 1 000 000 (french)");
    doc("1,00", true, 100, 2, "C20 documented example 1,00 (french)");
    doc("1.00,00", true, 10000, 2, "C20 documented example 1.00,00 (french)");
}
#[no_mangle]
pub extern "C" fn c20_doc_frac() {
    doc("1.00,00", false, 10000, 4, "C20 documented example 1.00,00 (english)");
}

// ---------- C22 clause keywords
fn kw(c: &ClauseKeyword) -> u8 {
    match c {
        ClauseKeyword::ConditionStart => 1,
        ClauseKeyword::Then => 2,
        ClauseKeyword::And => 3,
    }
}
fn same_kw(line: &LLLine, want: &[(R, u8)]) {
    let q = line.query::<ClauseKeyword>();
    check(q.len() == want.len(), "C22 exactly the keyword tokens get a keyword");
    for (g, w) in q.iter().zip(want) {
        check(g.0 == w.0 && g.2.len() == 1, "C22 a keyword goes on its token, once");
        check(kw(g.2[0]) == w.1, "C22 a keyword has the kind it is configured with");
        vp_observe(w.0 .0 as u64 * 10 + w.1 as u64);
    }
}
/// Two-letter words with symbolic letters against configured words.
#[no_mangle]
pub extern "C" fn c22_letters() {
    let l = || choose(26) + if any_bool() { b'a' } else { b'A' };
    let w: Vec<[u8; 2]> = vec![[l(), l()], [l(), l()]];
    let mut t = String::new();
    t.push(w[0][0] as char);
    t.push(w[0][1] as char);
    t.push(' ');
    t.push(w[1][0] as char);
    t.push(w[1][1] as char);
    let line = texts_line(&[t.as_str()]).run(&ClauseKeywordResolver::new(&["if", "so"], &["so", "an", "if"], &["th", "if", "an"]));
    let mut want: Vec<(R, u8)> = Vec::new();
    for (i, w) in w.iter().enumerate() {
        let k = [w[0] | 32, w[1] | 32];
        // condition starts win over "then" words, which win over "and" words
        let kind = if &k == b"if" || &k == b"so" {
            1
        } else if &k == b"th" || &k == b"an" {
            2
        } else {
            0
        };
        if kind > 0 {
            want.push(((2 * i, 2 * i), kind));
        }
    }
    if want.len() == 2 {
        cover("two keywords");
    }
    same_kw(&line, &want);
}
/// Whole tokens over a mixed word list, custom tokens, several inputs.
fn keywords(n: usize) {
    const T: [&str; 9] = ["If", "when", "THEN", "and", "iffy", "x", ",", "É", "an"];
    let codes: Vec<usize> = (0..n).map(|_| pick(10)).collect();
    let ins = codes.iter().map(|c| if *c < 9 { InputToken::text(T[*c].to_string(), Vec::new()) } else { InputToken::custom(1, Vec::new()) }).collect();
    let line = create_line_from_input_tokens(ins, |s| s.len()).run(&ClauseKeywordResolver::new(&["if", "when", "é"], &["and", ","], &["then"]));
    let want: Vec<(R, u8)> = codes.iter().enumerate().filter_map(|(i, c)| match c { 0 | 1 | 7 => Some(((i, i), 1)), 2 => Some(((i, i), 2)), 3 | 6 => Some(((i, i), 3)), _ => None }).collect();
    same_kw(&line, &want);
}
#[no_mangle]
pub extern "C" fn c22_words2() {
    keywords(2);
}
#[no_mangle]
pub extern "C" fn c22_words3() {
    keywords(3);
}
/// Empty lists never match; every list can be configured on its own.
#[no_mangle]
pub extern "C" fn c22_lists() {
    let (a, b, c) = (any_bool(), any_bool(), any_bool());
    let w: [&'static str; 1] = ["if"];
    let none: [&'static str; 0] = [];
    let pickl = |x: bool| -> &[&'static str] { if x { &w } else { &none } };
    let line = texts_line(&["IF"]).run(&ClauseKeywordResolver::new(pickl(a), pickl(b), pickl(c)));
    let want: Vec<(R, u8)> = if a {
        vec![((0, 0), 1)]
    } else if c {
        vec![((0, 0), 2)]
    } else if b {
        vec![((0, 0), 3)]
    } else {
        Vec::new()
    };
    same_kw(&line, &want);
}

/// Configured words in any case, words that only resemble a keyword, keywords that are no plain words.
#[no_mangle]
pub extern "C" fn c22_odd() {
    const T: [&str; 24] = [
        "if", "if's", "IF'S", "if-then", "iff", "i", "ifthen", "If", "É", "é", "e", "İf", "and/or", "&", "5", "ΌΤΑΝ", "ὅταν", "if_", "\u{131}f", "then.", "o'clock", "O'CLOCK", "1if", "if\u{301}",
    ];
    const CFG: [[&[&'static str]; 3]; 3] = [
        [&["If", "o'clock"], &["&", "AND"], &["THEN", "5"]],
        [&["if", "É", "όταν"], &["and"], &["If-Then", "i"]],
        [&["WHEN"], &["IF'S", "é"], &["If", "&"]],
    ];
    let (a, b, c) = (pick(24), pick(4), pick(3));
    let line = texts_line(&[T[a], " ", T[[7, 9, 13, 4][b]]]);
    let tk = toks(&line);
    let cfg = CFG[c];
    let line = line.run(&ClauseKeywordResolver::new(cfg[0], cfg[1], cfg[2]));
    let has = |l: &[&'static str], t: &str| l.iter().any(|w| w.to_lowercase() == t);
    let want: Vec<(R, u8)> = tk
        .iter()
        .enumerate()
        .filter_map(|(i, (t, _))| {
            let t = t.to_lowercase();
            if has(cfg[0], &t) {
                Some(((i, i), 1))
            } else if has(cfg[2], &t) {
                Some(((i, i), 2))
            } else if has(cfg[1], &t) {
                Some(((i, i), 3))
            } else {
                None
            }
        })
        .collect();
    same_kw(&line, &want);
    if want.len() == 2 {
        cover("two");
    }
}
/// Long word lists and long lines.
#[no_mangle]
pub extern "C" fn c22_many() {
    const A: [&'static str; 12] = ["aa", "ab", "ac", "ad", "ae", "af", "ag", "ah", "ai", "aj", "ak", "al"];
    const B: [&'static str; 12] = ["ba", "bb", "bc", "bd", "be", "bf", "bg", "bh", "bi", "bj", "bk", "bl"];
    const C: [&'static str; 12] = ["ca", "cb", "cc", "cd", "ce", "cf", "cg", "ch", "ci", "cj", "ck", "cl"];
    let mut v: Vec<&str> = Vec::new();
    let mut want: Vec<(R, u8)> = Vec::new();
    let special = pick(4);
    for i in 0..48usize {
        let k = if i == 30 { special } else { i % 4 };
        let w = i % 12;
        v.push(match k {
            0 => A[w],
            1 => B[w],
            2 => C[w],
            _ => "zz",
        });
        if k < 3 {
            want.push(((i, i), [1, 3, 2][k]));
        }
    }
    let line = texts_line(&v).run(&ClauseKeywordResolver::new(&A, &B, &C));
    same_kw(&line, &want);
}

/// Long words and long lines.
#[no_mangle]
pub extern "C" fn c22_long() {
    const W: [&str; 6] = ["notwithstandingly", "Provided_that_nothing_else_is_said_here", "counterrevolutionaries", "antidisestablishmentarianism", "ifififififififififififififififififififififififififififififififififififif", "so"];
    let (a, b, c) = (pick(6), pick(6), pick(6));
    let up = pick(2) == 1;
    let n = [1usize, 60, 260][pick(3)];
    let mut v: Vec<String> = (0..n).map(|i| ["w", " ", "7", ","][i % 4].to_string()).collect();
    v.push(if up { W[a].to_uppercase() } else { W[a].to_string() });
    v.push(format!("{}x", W[a]));
    let ws: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
    let line = texts_line(&ws).run(&ClauseKeywordResolver::new(&[W[b]], &[W[c], "W"], &[W[5], "7"]));
    let tk = toks(&line);
    let want: Vec<(R, u8)> = tk
        .iter()
        .enumerate()
        .filter_map(|(i, (t, _))| {
            let t = t.to_lowercase();
            if t == W[b].to_lowercase() {
                Some(((i, i), 1))
            } else if t == W[5] || t == "7" {
                Some(((i, i), 2))
            } else if t == W[c].to_lowercase() || t == "w" {
                Some(((i, i), 3))
            } else {
                None
            }
        })
        .collect();
    same_kw(&line, &want);
}
// ---------- C23 clauses
fn cl(c: &Clause) -> u8 {
    match c {
        Clause::LeadingEffect => 1,
        Clause::TrailingEffect => 2,
        Clause::Condition => 3,
        Clause::Independent => 4,
    }
}
/// `mark[t]`: (far end, 0 = other separator / 1.. = keyword kind) of the separators starting at t, `before[t]`: kind of the first keyword that ends at t.
fn same_clauses(line: &LLLine, n: usize, covered: &[bool], before: &[u8], blank: &[bool]) {
    let mut pieces: Vec<R> = Vec::new();
    let mut t = 0;
    while t < n {
        if covered[t] {
            t += 1;
            continue;
        }
        let s = t;
        while t < n && !covered[t] {
            t += 1;
        }
        pieces.push((s, t - 1));
    }
    let single = pieces.len() == 1;
    let mut found = false;
    let mut want: Vec<(R, u8)> = Vec::new();
    for p in &pieces {
        let (mut s, mut e1) = (p.0, p.1 + 1);
        if blank[p.0] {
            s += 1;
        }
        if blank[p.1] {
            e1 -= 1;
        }
        if s >= e1 {
            continue; // only whitespace
        }
        let k = if p.0 > 0 { before[p.0 - 1] } else { 0 };
        let c = if single {
            if k == 1 {
                3
            } else {
                4
            }
        } else if k == 1 {
            found = true;
            3
        } else if k == 2 {
            2
        } else if found {
            2
        } else {
            1
        };
        want.push(((s, e1 - 1), c));
    }
    let q = line.query::<Clause>();
    check(q.len() == want.len(), "C23 every piece of text between separators is one clause");
    for (g, w) in q.iter().zip(&want) {
        check(g.0 == w.0, "C23 a clause covers its text without the blanks around it");
        check(g.2.len() == 1 && cl(g.2[0]) == w.1, "C23 a clause has the kind its keyword and position give it");
        obs_rng(g.0);
        vp_observe(w.1 as u64);
    }
    if want.iter().any(|w| w.1 == 3) {
        cover("condition");
    }
    if want.iter().any(|w| w.1 == 2) {
        cover("trailing effect");
    }
    if want.len() >= 2 && want[0].1 == 1 {
        cover("leading effect");
    }
    if want.len() == 1 && want[0].1 == 4 {
        cover("independent");
    }
}
fn clauses(n: usize) {
    const T: [&str; 6] = ["w", " ", ",", "if", "then", "and"];
    let codes: Vec<usize> = (0..n).map(|_| pick(6)).collect();
    let v: Vec<&str> = codes.iter().map(|c| T[*c]).collect();
    let line = texts_line(&v).run(&ClauseKeywordResolver::new(&["if", "when"], &["and"], &["then"])).run(&ClauseResolver::default());
    let covered: Vec<bool> = codes.iter().map(|c| *c >= 2).collect();
    let before: Vec<u8> = codes.iter().map(|c| if *c >= 3 { (*c - 2) as u8 } else { 0 }).collect();
    let blank: Vec<bool> = codes.iter().map(|c| *c == 1).collect();
    same_clauses(&line, n, &covered, &before, &blank);
}
#[no_mangle]
pub extern "C" fn c23_four() {
    clauses(4);
}
#[no_mangle]
pub extern "C" fn c23_five() {
    clauses(5);
}
#[no_mangle]
pub extern "C" fn c23_six() {
    clauses(6);
}
/// Longer lines in which only words, blanks and one kind of keyword occur next to each other.
fn long_clauses(n: usize) {
    const T: [&str; 5] = ["w", ",", "if", "then", "and"];
    let mut codes: Vec<usize> = Vec::new();
    let mut v: Vec<&str> = Vec::new();
    for _ in 0..n {
        let c = 1 + pick(4);
        // "SEP word"
        codes.push(c);
        codes.push(0);
        v.push(T[c]);
        v.push("w");
    }
    let m = codes.len();
    let line = texts_line(&v).run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&ClauseResolver::default());
    let covered: Vec<bool> = codes.iter().map(|c| *c >= 1).collect();
    let before: Vec<u8> = codes.iter().map(|c| if *c >= 2 { (*c - 1) as u8 } else { 0 }).collect();
    same_clauses(&line, m, &covered, &before, &vec![false; m]);
}
#[no_mangle]
pub extern "C" fn c23_long() {
    long_clauses(4);
}
#[no_mangle]
pub extern "C" fn c23_long5() {
    long_clauses(5);
}
/// Many clauses: a long fixed sentence with a few symbolic separators.
#[no_mangle]
pub extern "C" fn c23_many() {
    const T: [&str; 6] = ["w", " ", ",", "if", "then", "and"];
    let mut codes: Vec<usize> = Vec::new();
    for i in 0..14usize {
        let sep = if i == 1 || i == 6 || i == 12 { 2 + pick(4) } else { [2, 5][i % 2] };
        codes.extend([0, 1, 0, sep, 1]);
    }
    let v: Vec<&str> = codes.iter().map(|c| T[*c]).collect();
    let line = texts_line(&v).run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&ClauseResolver::default());
    let covered: Vec<bool> = codes.iter().map(|c| *c >= 2).collect();
    let before: Vec<u8> = codes.iter().map(|c| if *c >= 3 { (*c - 2) as u8 } else { 0 }).collect();
    let blank: Vec<bool> = codes.iter().map(|c| *c == 1).collect();
    same_clauses(&line, codes.len(), &covered, &before, &blank);
}
/// Some dozen clauses, and clauses of some hundred words.
#[no_mangle]
pub extern "C" fn c23_vast() {
    const T: [&str; 6] = ["w", " ", ",", "if", "then", "and"];
    let (n, len) = [(1usize, 200usize), (9, 1), (17, 2), (33, 1), (40, 5), (66, 1), (130, 1)][pick(7)];
    let (x, y) = ([0, n / 2][pick(2)], 2 + pick(4));
    let mut codes: Vec<usize> = Vec::new();
    for i in 0..n {
        for _ in 0..len {
            codes.extend([0, 1]);
        }
        codes.push(0);
        codes.push(if i == x { y } else { [2, 5][i % 2] });
    }
    codes.push(0);
    let v: Vec<&str> = codes.iter().map(|c| T[*c]).collect();
    let line = texts_line(&v).run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&ClauseResolver::default());
    let covered: Vec<bool> = codes.iter().map(|c| *c >= 2).collect();
    let before: Vec<u8> = codes.iter().map(|c| if *c >= 3 { (*c - 2) as u8 } else { 0 }).collect();
    let blank: Vec<bool> = codes.iter().map(|c| *c == 1).collect();
    same_clauses(&line, codes.len(), &covered, &before, &blank);
}
/// Every punctuation mark separates; numbers and symbols are ordinary clause text.
#[no_mangle]
pub extern "C" fn c23_marks() {
    const T: [&str; 12] = ["w", " ", ",", "if", ".", ";", "7", "$", "'", ":", "\n", "、"];
    let codes: Vec<usize> = (0..4).map(|_| pick(12)).collect();
    let v: Vec<&str> = codes.iter().map(|c| T[*c]).collect();
    let line = texts_line(&v).run(&ClauseKeywordResolver::new(&["if"], &["and"], &["then"])).run(&ClauseResolver::default());
    let covered: Vec<bool> = codes.iter().map(|c| matches!(*c, 2 | 3 | 4 | 5 | 8 | 9)).collect();
    let before: Vec<u8> = codes.iter().map(|c| (*c == 3) as u8).collect();
    let blank: Vec<bool> = codes.iter().map(|c| *c == 1 || *c == 10).collect();
    same_clauses(&line, 4, &covered, &before, &blank);
}
/// Keywords put on any token ranges by another resolver, over words, blanks and custom tokens.
struct Kw<'a>(&'a [Asg]);
impl<'a> Resolver for Kw<'a> {
    type Attr = ClauseKeyword;
    fn go(&self, all: LLSelection) -> Vec<LLCursorAssignment<ClauseKeyword>> {
        self.0
            .iter()
            .map(|a| {
                span(&all, a.i, a.j).finish_with_attr(match a.v {
                    1 => ClauseKeyword::ConditionStart,
                    2 => ClauseKeyword::Then,
                    _ => ClauseKeyword::And,
                })
            })
            .collect()
    }
}
fn ranged(n: usize, m: usize) {
    let codes: Vec<usize> = [0usize, 1, 6, 0, 3, 0, 1][..n].to_vec();
    let mut md = Model { n, asg: Vec::new() };
    for _ in 0..m {
        let mut a = any_asg(n, 1, 3);
        a.v += 1;
        md.asg.push(a);
    }
    let line = line_of(&codes).run(&Kw(&md.asg)).run(&ClauseResolver::default());
    let mut covered = vec![false; n];
    for t in 0..n {
        let k = md.at(0, t, true);
        if k.is_empty() {
            if codes[t] == 3 {
                covered[t] = true;
            }
        } else {
            for (e, _) in k {
                for x in t..=e {
                    covered[x] = true;
                }
            }
        }
    }
    let before: Vec<u8> = (0..n).map(|t| md.at(0, t, false).first().map(|x| x.1).unwrap_or(0)).collect();
    let blank: Vec<bool> = codes.iter().map(|c| *c == 1).collect();
    same_clauses(&line, n, &covered, &before, &blank);
}
#[no_mangle]
pub extern "C" fn c23_ranges() {
    ranged(5, 2);
}
#[no_mangle]
pub extern "C" fn c23_ranges7() {
    ranged(7, 2);
}
#[no_mangle]
pub extern "C" fn c23_ranges3() {
    ranged(5, 3);
}

// ---------- C24 part of speech
fn tags_of(w: &str) -> Vec<Tag> {
    match ENGLISH_TAG_LOOKUP.get(w) {
        Some(s) => s.tags().collect(),
        None => vec![Tag::Noun],
    }
}
fn same_tags(line: &LLLine) {
    let mut want: Vec<(R, Vec<Tag>)> = Vec::new();
    for (i, t) in line.ll_tokens().iter().enumerate() {
        if let LToken::Text(s, TextTag::WORD) = t.get_token() {
            let v = tags_of(&s.to_lowercase());
            if !v.is_empty() {
                want.push(((i, i), v));
            }
        }
    }
    let q = line.query::<Tag>();
    check(q.len() == want.len(), "C24 exactly the words get tags");
    for (g, w) in q.iter().zip(&want) {
        check(g.0 == w.0, "C24 tags go on the word");
        check(g.2.len() == w.1.len() && g.2.iter().zip(&w.1).all(|(a, b)| **a == *b), "C24 a word gets the dictionary's tags, or Noun when it is unknown");
        vp_observe(g.2.len() as u64);
        if w.1.len() > 1 {
            cover("ambiguous word");
        }
    }
}
fn cased(w: &str, bits: &[bool]) -> String {
    w.chars().zip(bits).map(|(c, b)| if *b { c.to_ascii_uppercase() } else { c }).collect()
}
/// Any casing of known and unknown words.
#[no_mangle]
pub extern "C" fn c24_case() {
    const W: [&str; 6] = ["run", "the", "ran", "qxz", "paris", "don't"];
    let w = W[pick(6)];
    let bits: Vec<bool> = (0..5).map(|_| any_bool()).collect();
    let t = cased(w, &bits);
    let line = texts_line(&[t.as_str()]).run(&POSTagResolver::default());
    same_tags(&line);
    let q = line.query::<Tag>();
    let want = tags_of(w);
    check(q.len() == 1 && q[0].2.len() == want.len() && q[0].2.iter().zip(&want).all(|(a, b)| **a == *b), "C24 case does not matter");
}
/// Mixed lines: words, numbers, punctuation, blanks, custom tokens.
fn mixed_pos(n: usize) {
    const T: [&str; 7] = ["the", "Glass", "42", " ", ".", "qxzv", "été"];
    let codes: Vec<usize> = (0..n).map(|_| pick(8)).collect();
    let ins = codes.iter().map(|c| if *c < 7 { InputToken::text(T[*c].to_string(), Vec::new()) } else { InputToken::custom(1, Vec::new()) }).collect();
    let line = create_line_from_input_tokens(ins, |s| s.len()).run(&POSTagResolver::default());
    same_tags(&line);
}
#[no_mangle]
pub extern "C" fn c24_mixed2() {
    mixed_pos(2);
}
#[no_mangle]
pub extern "C" fn c24_mixed3() {
    mixed_pos(3);
}
/// Unusual words: apostrophes, hyphens, long, one letter, non-ASCII case, digits inside.
#[no_mangle]
pub extern "C" fn c24_odd() {
    const W: [&str; 26] = [
        "run's", "let's", "dogs'", "re-run", "e-mail", "naïve", "o'clock", "a–b", "x-", "b'", "don't", "DON'T", "well-known", "É", "ÉTÉ", "café", "CAFÉ", "Straße", "ΣΊΣΥΦΟΣ", "İ", "antidisestablishmentarianism", "ANTIDISESTABLISHMENTARIANISM",
        "pneumonoultramicroscopicsilicovolcanoconiosisxyz", "i", "3d", "O'Neil",
    ];
    let (a, b) = (pick(26), pick(6) * 5);
    let line = texts_line(&[W[a], " ", W[b]]).run(&POSTagResolver::default());
    same_tags(&line);
    cover("two words");
}
/// Words with many tags, long words, and their neighbours in the dictionary.
#[no_mangle]
pub extern "C" fn c24_known() {
    const W: [&str; 24] = [
        "down", "round", "right", "well", "fast", "like", "out", "up", "over", "no", "that", "as", "electroencephalographically", "electroencephalographicall", "electroencephalographic", "counterrevolutionary", "uncharacteristically",
        "immunoelectrophoretically", "psychophysiologically", "antidisestablishmentarian", "honorificabilitudinitatibus", "floccinaucinihilipilification", "I", "a",
    ];
    let a = pick(24);
    let (mut t, how) = (W[a].to_string(), pick(4));
    match how {
        0 => {}
        1 => t = t.to_uppercase(),
        2 => t.push('s'),
        _ => {
            t.pop();
            t.push('x');
        }
    }
    let line = texts_line(&["so", " ", t.as_str()]).run(&POSTagResolver::default());
    same_tags(&line);
    if tags_of(&t.to_lowercase()).len() > 4 {
        cover("more than four tags");
    }
}
#[no_mangle]
pub extern "C" fn c24_vast() {
    const W: [&str; 4] = ["Run", "qxz", "the", "7"];
    let n = [60usize, 130, 257][pick(3)];
    let k = pick(4);
    let v: Vec<&str> = (0..n).map(|i| if i + 1 == n { W[k] } else { W[i % 4] }).collect();
    same_tags(&texts_line(&v).run(&POSTagResolver::default()));
}
/// Many words.
#[no_mangle]
pub extern "C" fn c24_many() {
    const W: [&str; 4] = ["Run", "qxz", "the", "7"];
    let mut v: Vec<&str> = Vec::new();
    for i in 0..40usize {
        v.push(if i == 3 || i == 17 || i == 39 { W[pick(4)] } else { W[i % 4] });
        v.push(" ");
    }
    same_tags(&texts_line(&v).run(&POSTagResolver::default()));
}
/// Two-letter words of symbolic letters.
#[no_mangle]
pub extern "C" fn c24_letters() {
    let l = || choose(26) + if any_bool() { b'a' } else { b'A' };
    let mut t = String::new();
    t.push(l() as char);
    t.push(l() as char);
    let line = texts_line(&[t.as_str()]).run(&POSTagResolver::default());
    same_tags(&line);
}
#[no_mangle]
pub extern "C" fn c24_letter1() {
    let l = || choose(26) + if any_bool() { b'a' } else { b'A' };
    let mut t = String::new();
    t.push(l() as char);
    let line = texts_line(&[t.as_str()]).run(&POSTagResolver::default());
    same_tags(&line);
}

// ---------- C04: every shipped resolver and the display process any line
fn pipeline(ins: Vec<InputToken>) {
    let n = ins.len();
    let mut m = HashMap::new();
    m.insert("If".to_string(), vec![P(1)]);
    m.insert("é".to_string(), vec![P(1), P(2)]);
    let line = create_line_from_input_tokens(ins, |s| s.chars().count())
        .run(&POSTagResolver::default())
        .run(&AmountResolver::english())
        .run(&TextMatchAssignResolver::new_case_insensitive(m))
        .run(&ClauseKeywordResolver::new(&["if", "when"], &["and"], &["then"]))
        .run(&ClauseResolver::default())
        .run(&AmountResolver::french());
    let d = debug_line(&line).with::<Clause>().with::<Amount>().with::<Tag>().with::<P>().with::<TextTag>().with::<char>().to_string();
    check(d.lines().count() >= 1 || n == 0, "C04 the processed line can be displayed");
    vp_observe(line.query::<Clause>().len() as u64);
    vp_observe(line.query::<Amount>().len() as u64);
    vp_observe(line.ll_tokens().len() as u64);
}
fn pipe(n: usize) {
    const T: [&str; 11] = ["if", "THEN", ",", "1", "1.", "é", "\u{1F600}", " ", "3d,4", "\u{301}", "don't"];
    let ins = (0..n)
        .map(|_| match pick(12) {
            11 => InputToken::custom(1, Vec::new()),
            k => InputToken::text(T[k].to_string(), Vec::new()),
        })
        .collect();
    pipeline(ins);
}
/// Long lines through everything.
#[no_mangle]
pub extern "C" fn c04_pipe_long() {
    const T: [&str; 14] = ["if", " ", "THEN", ",", "1", " ", "1.", "é", "\u{1F600}", " ", "3d,4", "\u{301}", "don't", "99999999999999999999999999999999"];
    let n = [24usize, 50][pick(2)];
    let k = pick(14);
    let ins = (0..n).map(|i| if i % 17 == 16 { InputToken::custom(i, Vec::new()) } else { InputToken::text(T[if i == n / 2 || i + 1 == n { k } else { i % 14 }].to_string(), Vec::new()) }).collect();
    pipeline(ins);
}
#[no_mangle]
pub extern "C" fn c04_pipe2() {
    pipe(2);
}
#[no_mangle]
pub extern "C" fn c04_pipe3() {
    pipe(3);
}
#[no_mangle]
pub extern "C" fn c04_pipe_any() {
    // one arbitrary character between fixed ones
    let mut s = String::from(["", "1", "a", ", "][pick(4)]);
    s.push(any_alpha(20));
    s.push_str(["", "2", "if"][pick(3)]);
    pipeline(vec![InputToken::text(s, Vec::new())]);
}
