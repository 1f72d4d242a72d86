//! C01..C05: creating a line.
use crate::gen::*;
use crate::rt::*;
use layered_nlp::*;
use unicode_segmentation::UnicodeSegmentation;

pub enum In {
    T(String),
    C(usize),
}
/// Symbolic text of exactly n arbitrary Unicode scalar values.
fn full(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s.push(any_char());
    }
    s
}
/// Symbolic text of 1..=n characters over the first a characters of ALPHA.
fn alpha(n: usize, a: u8) -> String {
    let l = 1 + pick(n as u8);
    let mut s = String::new();
    for _ in 0..l {
        s.push(any_alpha(a));
    }
    s
}
fn build<F: Fn(&str) -> usize>(ins: &[In], f: F) -> LLLine {
    let v = ins
        .iter()
        .map(|i| match i {
            In::T(s) => InputToken::text(s.clone(), Vec::new()),
            In::C(n) => InputToken::custom(*n, vec![AnyAttribute::new(K(0))]),
        })
        .collect();
    create_line_from_input_tokens(v, f)
}

// ---------- C01: lossless, contiguous positions
fn lossless(ins: &[In]) {
    // a size function with symbolic results
    lossless_sized(ins, any_size(), any_size());
}
fn lossless_sized(ins: &[In], k: usize, m: usize) {
    let f = |s: &str| if s.len() == 1 { k } else { m + s.len() };
    let line = build(ins, f);
    let toks = line.ll_tokens();
    let texts = line.find(&x::token_text());
    let customs = line.find(&x::attr::<K>());
    let (mut at, mut pos, mut ti, mut ci) = (0usize, 0usize, 0usize, 0usize);
    for i in ins {
        match i {
            In::C(size) => {
                check(at < toks.len(), "C01 every input token is represented");
                check(matches!(toks[at].get_token(), LToken::Value), "C01 a custom input token is one opaque token");
                check(ci < customs.len(), "C01 a custom token keeps its attribute");
                check(customs[ci].range() == (pos, pos + size), "C01 a custom token occupies its given size right after its predecessor");
                pos += size;
                ci += 1;
                at += 1;
            }
            In::T(s) => {
                let mut rest: &str = s.as_str();
                while !rest.is_empty() {
                    check(at < toks.len(), "C01 the tokens of a text input cover all of it");
                    match toks[at].get_token() {
                        LToken::Text(t, _) => {
                            check(!t.is_empty(), "C01 no token is empty");
                            check(rest.starts_with(t.as_str()), "C01 token texts concatenate to the input text");
                            check(ti < texts.len(), "C01 every text token can be found");
                            let size = f(t);
                            check(texts[ti].range() == (pos, pos + size), "C01 token positions are contiguous and as the size function says");
                            check(*texts[ti].attr() == t.as_str(), "C01 token text is what a matcher sees");
                            pos += size;
                            rest = &rest[t.len()..];
                        }
                        LToken::Value => check(false, "C01 text input gives text tokens"),
                    }
                    ti += 1;
                    at += 1;
                }
            }
        }
    }
    check(at == toks.len(), "C01 no token beyond the input");
    check(ti == texts.len() && ci == customs.len(), "C01 nothing found beyond the input");
    vp_observe(toks.len() as u64);
    vp_observe(pos as u64);
}
fn one_of_inputs(a: u8) -> In {
    match pick(4) {
        0 => In::T(alpha(1, a)),
        1 => In::T(["1,5", "3d", "don't", "a  b"][pick(4)].to_string()),
        2 => In::C(any_size()),
        _ => {
            let mut s = String::from("9");
            s.push(any_alpha(a));
            s.push('4');
            In::T(s)
        }
    }
}
#[no_mangle]
pub extern "C" fn c01_full1() {
    lossless(&[In::T(full(1))]);
}
#[no_mangle]
pub extern "C" fn c01_full2() {
    lossless(&[In::T(full(2))]);
}
#[no_mangle]
pub extern "C" fn c01_full3() {
    lossless(&[In::T(full(3))]);
}
#[no_mangle]
pub extern "C" fn c01_alpha3() {
    lossless(&[In::T(alpha(3, 14))]);
}
#[no_mangle]
pub extern "C" fn c01_alpha5() {
    lossless(&[In::T(alpha(5, 14))]);
}
#[no_mangle]
pub extern "C" fn c01_multi2() {
    let v = [one_of_inputs(5), one_of_inputs(5)];
    cover("two inputs");
    lossless(&v);
}
#[no_mangle]
pub extern "C" fn c01_multi3() {
    let n = 1 + pick(3);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(one_of_inputs(4));
    }
    lossless(&v);
}
/// Long digit/letter runs with a symbolic tail: sizes beyond anything the tests use.
#[no_mangle]
pub extern "C" fn c01_long() {
    let n = [1usize, 31, 64, 127, 128, 129, 255, 256, 257][pick(9)];
    let mut s = String::new();
    let c = ['a', '5', ' ', 'é'][pick(4)];
    for _ in 0..n {
        s.push(c);
    }
    s.push(any_alpha(6));
    lossless(&[In::T(s), In::C(3), In::T("end".to_string())]);
}
/// Many inputs of every kind, sizes symbolic.
#[no_mangle]
pub extern "C" fn c01_many() {
    let shift = pick(5);
    let mut v = Vec::new();
    for i in 0..30usize {
        v.push(match (i + shift) % 5 {
            0 => In::C(any_size()),
            1 => In::T(["word", "3d", "1,2", "é", "don't"][i / 6].to_string()),
            2 => In::T(" ".to_string()),
            3 => In::C(0),
            _ => In::T(if i < 24 { "(".to_string() } else { alpha(1, 4) }),
        });
    }
    lossless(&v);
}
/// A text of n tokens of every kind.
fn long_text(n: usize) -> String {
    let mut s = String::new();
    for i in 0..n {
        s.push_str(["word", " ", "x", ",", " ", "7", " ", "don't", " ", "(", "é", "."][i % 12]);
    }
    s
}
/// Line of some hundred tokens, with an arbitrary character at the end.
#[no_mangle]
pub extern "C" fn c01_vast() {
    let mut s = long_text([60, 270, 600][pick(3)]);
    s.push(any_alpha(2));
    lossless_sized(&[In::T(s), In::C(any_size()), In::T("end".to_string())], any_size() >> 16, 5);
}
/// The plain-string constructor is the input-token one with byte lengths as sizes.
#[no_mangle]
pub extern "C" fn c01_string() {
    let t = alpha(3, 14);
    let line = create_line_from_string(&t);
    let f = line.find(&x::token_text());
    check(f.len() == line.ll_tokens().len(), "C01 a string gives text tokens only");
    let mut at = 0;
    for g in &f {
        check(g.range().0 == at && g.range().1 >= at, "C01 positions of a string's tokens are contiguous");
        at = g.range().1;
    }
    let mut all = String::new();
    for g in &f {
        all.push_str(*g.attr());
    }
    check(all == t, "C01 a string's tokens concatenate to it");
    #[allow(deprecated)]
    let old = create_tokens(vec![InputToken::text(t.clone(), Vec::new())], |s| s.len());
    let new = create_line_from_input_tokens(vec![InputToken::text(t, Vec::new())], |s| s.len());
    let (a, b) = (old.find(&x::token_text()), new.find(&x::token_text()));
    check(a.len() == b.len() && a.len() == f.len(), "C01 every constructor cuts alike");
    for (i, g) in a.iter().enumerate() {
        check(g.range() == b[i].range() && *g.attr() == *b[i].attr() && *g.attr() == *f[i].attr(), "C01 every constructor places alike");
    }
    vp_observe(at as u64);
}

// ---------- C02: segmentation and tags
fn listed_punct(c: char) -> bool {
    matches!(c, ',' | '.' | '!' | ';' | ':' | '?' | '\'' | '"')
}
fn word_tag(w: &str) -> TextTag {
    if w.chars().all(|c| c.is_whitespace()) {
        return TextTag::SPACE;
    }
    let mut cs = w.chars();
    let first = cs.next().unwrap();
    if listed_punct(first) && w.chars().count() == 1 {
        return TextTag::PUNC;
    }
    if first.is_alphabetic() && cs.all(|c| c.is_alphabetic() || c == '\'' || c == '-' || c == '\u{2013}') {
        return TextTag::WORD;
    }
    TextTag::SYMB
}
/// Unicode word segmentation (the trusted dependency), digit-led words split into digit runs, letter runs and single others.
fn reference(text: &str) -> Vec<(String, TextTag)> {
    let mut out: Vec<(String, TextTag)> = Vec::new();
    for w in text.split_word_bounds() {
        if !w.chars().next().unwrap().is_ascii_digit() {
            out.push((w.to_string(), word_tag(w)));
            continue;
        }
        let mut last = 0u8; // 0 none, 1 digit, 2 letter
        for c in w.chars() {
            let kind = if c.is_ascii_digit() {
                1
            } else if c.is_alphabetic() {
                2
            } else {
                3
            };
            if kind == last && kind != 3 {
                let n = out.len();
                out[n - 1].0.push(c);
            } else {
                out.push((c.to_string(), [TextTag::NATN, TextTag::WORD, TextTag::PUNC][kind as usize - 1].clone()));
            }
            last = kind;
        }
    }
    out
}
fn tag_no(t: &TextTag) -> u64 {
    match t {
        TextTag::NATN => 1,
        TextTag::PUNC => 2,
        TextTag::SYMB => 3,
        TextTag::SPACE => 4,
        TextTag::WORD => 5,
    }
}
fn tags(text: String) {
    let line = create_line_from_string(&text);
    let want = reference(&text);
    let got = line.ll_tokens();
    for (i, w) in want.iter().enumerate() {
        check(i < got.len(), "C02 as many tokens as words and number pieces");
        match got[i].get_token() {
            LToken::Text(t, tag) => {
                check(t.as_str() == w.0.as_str(), "C02 tokens are the Unicode words, digit-led ones split into digit runs, letter runs and separators");
                check(tag_no(tag) == tag_no(&w.1), "C02 the token's tag is the one its text calls for");
                vp_observe(tag_no(tag));
            }
            LToken::Value => check(false, "C02 text gives text tokens"),
        }
    }
    check(got.len() == want.len(), "C02 no further tokens");
    // the tag is also there as an attribute
    let q = line.query::<TextTag>();
    check(q.len() == want.len(), "C02 one tag attribute per token");
    for (i, (r, _, v)) in q.iter().enumerate() {
        check(*r == (i, i) && v.len() == 1 && tag_no(v[0]) == tag_no(&want[i].1), "C02 the tag attribute is the token's tag");
    }
    vp_observe(got.len() as u64);
}
#[no_mangle]
pub extern "C" fn c02_full1() {
    tags(full(1));
}
#[no_mangle]
pub extern "C" fn c02_full2() {
    tags(full(2));
}
#[no_mangle]
pub extern "C" fn c02_alpha3() {
    tags(alpha(3, 20));
}
#[no_mangle]
pub extern "C" fn c02_alpha4() {
    tags(alpha(4, 16));
}
#[no_mangle]
pub extern "C" fn c02_alpha5() {
    tags(alpha(5, 12));
}
#[no_mangle]
pub extern "C" fn c02_in_word() {
    // arbitrary character in the middle of a word, a number or a mix
    let (a, b) = [("ab", "c"), ("12", "3"), ("1", "b2"), ("a", "1"), ("don'", ""), ("$", "5"), (" ", " ")][pick(7)];
    let mut s = String::from(a);
    s.push(any_char());
    s.push_str(b);
    tags(s);
}

/// A digit-led text of five characters.
#[no_mangle]
pub extern "C" fn c02_digits() {
    let mut s = String::from("1");
    for _ in 0..4 {
        s.push(any_alpha(6));
    }
    tags(s);
}
/// Words held together by marks: letters and marks in turn, all symbolic.
fn joined(marks: usize, letters: u8, ms: u8) {
    const L: [char; 5] = ['a', 'é', '1', '世', '\u{5d0}'];
    const M: [char; 8] = ['\'', '.', '_', '\u{2019}', ':', '\u{b7}', '\u{301}', '-'];
    let mut s = String::from(["", "wor", "3", "$"][pick(4)]);
    for i in 0..=marks {
        if i > 0 {
            let k = choose(ms) as usize;
            s.push(M[k]);
        }
        let k = choose(letters) as usize;
        s.push(L[k]);
    }
    tags(s);
}
#[no_mangle]
pub extern "C" fn c02_joined2() {
    joined(2, 5, 8);
}
#[no_mangle]
pub extern "C" fn c02_joined4() {
    joined(4, 2, 3);
}
#[no_mangle]
pub extern "C" fn c02_joined3() {
    joined(3, 4, 5);
}
/// Long words with an arbitrary character in the middle.
#[no_mangle]
pub extern "C" fn c02_mid() {
    let n = [3usize, 5, 8, 20][pick(4)];
    let c = ['a', '5', 'é'][pick(3)];
    let mut s = String::new();
    for _ in 0..n {
        s.push(c);
    }
    s.push(any_char());
    for _ in 0..n {
        s.push(c);
    }
    tags(s);
}
#[no_mangle]
pub extern "C" fn c02_vast() {
    let mut s = long_text([60, 300, 600][pick(3)]);
    s.push(any_alpha(10));
    s.push_str("b's 5,6");
    tags(s);
}
/// Long words, numbers and blanks ended by a symbolic character.
#[no_mangle]
pub extern "C" fn c02_long() {
    let n = [2usize, 15, 16, 17, 31, 63, 64, 128, 255, 256, 257][pick(11)];
    let c = ['a', '5', ' ', 'é'][pick(4)];
    let mut s = String::new();
    for _ in 0..n {
        s.push(c);
    }
    s.push(any_alpha(10));
    s.push('b');
    tags(s);
}

// ---------- C03: automatic attributes
fn auto_attrs(ins: &[In]) {
    let v = ins
        .iter()
        .map(|i| match i {
            In::T(s) => InputToken::text(s.clone(), Vec::new()),
            In::C(n) => InputToken::custom(*n, Vec::new()),
        })
        .collect();
    let line = create_line_from_input_tokens(v, |s| s.len());
    let tq = line.query::<TextTag>();
    let cq = line.query::<char>();
    let (mut t, mut c) = (0usize, 0usize);
    for (i, tok) in line.ll_tokens().iter().enumerate() {
        match tok.get_token() {
            LToken::Value => {}
            LToken::Text(s, tag) => {
                check(t < tq.len(), "C03 every text token has a tag attribute");
                check(tq[t].0 == (i, i) && tq[t].1.as_str() == s.as_str(), "C03 the tag attribute is on the token itself");
                check(tq[t].2.len() == 1 && *tq[t].2[0] == *tag, "C03 exactly one tag attribute, equal to the token's tag");
                t += 1;
                let mut cs = s.chars();
                if let (Some(ch), None) = (cs.next(), cs.next()) {
                    check(c < cq.len(), "C03 a one-character token has a character attribute");
                    check(cq[c].0 == (i, i) && cq[c].1.as_str() == s.as_str(), "C03 the character attribute is on the token itself");
                    check(cq[c].2.len() == 1 && *cq[c].2[0] == ch, "C03 the character attribute is the token's character");
                    c += 1;
                    cover("one char");
                } else {
                    cover("several chars");
                }
            }
        }
    }
    check(t == tq.len(), "C03 tags only on text tokens");
    check(c == cq.len(), "C03 characters only on one-character tokens");
    check(line.query::<String>().is_empty() && line.query::<K>().is_empty(), "C03 nothing else is assigned");
    vp_observe((t * 100 + c) as u64);
}
#[no_mangle]
pub extern "C" fn c03_full1() {
    auto_attrs(&[In::T(full(1))]);
}
#[no_mangle]
pub extern "C" fn c03_full2() {
    auto_attrs(&[In::T(full(2))]);
}
#[no_mangle]
pub extern "C" fn c03_mix() {
    let n = 1 + pick(3);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(match pick(3) {
            0 => In::T(alpha(1, 8)),
            1 => In::T(alpha(2, 4)),
            _ => In::C(1),
        });
    }
    auto_attrs(&v);
}
#[no_mangle]
pub extern "C" fn c03_alpha4() {
    auto_attrs(&[In::C(0), In::T(alpha(4, 14)), In::C(2)]);
}
/// Long tokens of one repeated character with a symbolic end.
#[no_mangle]
pub extern "C" fn c03_long() {
    let n = [1usize, 2, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257][pick(13)];
    let mut s = String::new();
    let c = ['a', '5', ' ', 'é'][pick(4)];
    for _ in 0..n {
        s.push(c);
    }
    s.push(any_alpha(6));
    auto_attrs(&[In::T(s), In::C(3), In::T("e".to_string())]);
}
/// Many tokens.
#[no_mangle]
pub extern "C" fn c03_many() {
    let mut v = Vec::new();
    for i in 0..40usize {
        v.push(match i % 4 {
            0 => In::C(1),
            1 => In::T("word".to_string()),
            2 => In::T(if i < 30 { "x".to_string() } else { alpha(1, 6) }),
            _ => In::T(" ".to_string()),
        });
    }
    auto_attrs(&v);
}

#[no_mangle]
pub extern "C" fn c03_vast() {
    let mut s = long_text([60, 300, 600][pick(3)]);
    s.push(any_alpha(6));
    auto_attrs(&[In::T(s), In::C(1), In::T("end ".to_string()), In::T("x".to_string())]);
}
// ---------- C04: totality
fn total(s: String) {
    let line = create_line_from_string(&s);
    check(!line.ll_tokens().is_empty(), "C04 a non-empty text gives tokens");
    let line = line.run(&With(|sel| {
        let n = sel.find_by(&x::token_text()).len();
        check(n > 0, "C04 the line can be processed");
    }));
    vp_observe(line.ll_tokens().len() as u64);
}
#[no_mangle]
pub extern "C" fn c04_full1() {
    total(full(1));
}
#[no_mangle]
pub extern "C" fn c04_full2() {
    total(full(2));
}
#[no_mangle]
pub extern "C" fn c04_digit_any() {
    // a digit-led word continued by an arbitrary character
    let mut s = String::from(["1", "1,", "1a", "0."][pick(4)]);
    s.push(any_char());
    s.push_str(["", "2", "b"][pick(3)]);
    total(s);
}
#[no_mangle]
pub extern "C" fn c04_alpha4() {
    total(alpha(4, 20));
}
/// An arbitrary character inside, before and after words with apostrophes, hyphens and marks.
#[no_mangle]
pub extern "C" fn c04_in_word() {
    let mut s = String::from(["l'", "don'", "x-", "'", "a.", "\u{301}"][pick(6)]);
    s.push(any_char());
    s.push_str(["", "t"][pick(2)]);
    total(s);
}
/// Long lines, long words, long numbers, long runs of every kind.
#[no_mangle]
pub extern "C" fn c04_vast() {
    if pick(2) == 0 {
        let mut s = long_text([60, 270, 520][pick(3)]);
        s.push(any_alpha(4));
        total(s);
        return;
    }
    let n = [19, 20, 21, 39, 40, 64, 129, 257][pick(8)];
    let c = any_alpha(20);
    total((0..n).map(|_| c).collect());
}
/// Empty texts are refused, wherever they stand; an empty list is an empty line.
#[no_mangle]
pub extern "C" fn c04_empty() {
    let n = pick(4);
    let at = pick(4);
    let mut v = Vec::new();
    for i in 0..n {
        if i == at {
            v.push(InputToken::text(String::new(), if any_bool() { vec![AnyAttribute::new(K(1))] } else { Vec::new() }));
        } else if any_bool() {
            v.push(InputToken::text("ab".to_string(), Vec::new()));
        } else {
            v.push(InputToken::custom(0, Vec::new()));
        }
    }
    let bad = at < n;
    if bad {
        cover("empty text");
        vp_expect_panic(true);
        let line = create_line_from_input_tokens(v, |s| s.len());
        vp_expect_panic(false);
        vp_observe(line.ll_tokens().len() as u64);
        check(false, "C04 an empty text is refused");
    } else {
        let line = create_line_from_input_tokens(v, |s| s.len());
        check(line.ll_tokens().len() == n, "C04 other inputs are accepted");
        cover("accepted");
    }
}
#[no_mangle]
pub extern "C" fn c04_empty_str() {
    vp_expect_panic(true);
    let line = create_line_from_string("");
    vp_expect_panic(false);
    vp_observe(line.ll_tokens().len() as u64);
    check(false, "C04 an empty string is refused");
}

// ---------- C05: attributes of input tokens
const PIECES: [(&str, usize); 6] = [("ab", 1), ("1,2", 3), ("a b", 3), ("é", 1), ("3d", 2), ("x-y.", 4)];
fn input_attrs(nin: usize, natt: usize, tys: u8, kinds: u8) {
    let mut v = Vec::new();
    let mut md = Model::default();
    let mut at = 0usize;
    let mut pos: Vec<usize> = vec![0];
    let mut extra: Vec<(usize, usize, String)> = Vec::new(); // ranges given an S attribute
    for _ in 0..nin {
        let kind = pick(kinds);
        let (mut t, n, sizes): (InputToken, usize, &[usize]) = match kind {
            0 => (InputToken::text("ab".to_string(), Vec::new()), 1, &[2]),
            1 => (InputToken::text("1,2".to_string(), Vec::new()), 3, &[1, 1, 1]),
            2 => (InputToken::text("é b".to_string(), Vec::new()), 3, &[2, 1, 1]),
            3 => (InputToken::custom(5, Vec::new()), 1, &[5]),
            4 => (InputToken::text("a ".to_string(), Vec::new()), 2, &[1, 1]),
            5 => (InputToken::text(" b".to_string(), Vec::new()), 2, &[1, 1]),
            6 => (InputToken::text("3d.".to_string(), Vec::new()), 3, &[1, 1, 1]),
            7 => (InputToken::text(".".to_string(), Vec::new()), 1, &[1]),
            8 => (InputToken::text(" ".to_string(), Vec::new()), 1, &[1]),
            9 => (InputToken::text("1,2,3,4,5,6".to_string(), Vec::new()), 11, &[1; 11]),
            10 => (InputToken::text("-(a)-".to_string(), Vec::new()), 5, &[1; 5]),
            _ => (InputToken::custom(0, Vec::new()), 1, &[0]),
        };
        for _ in 0..natt {
            let ty = pick(tys + 2) as u8; // one more choice: no attribute, another: S
            let val = any_u8();
            if ty == 0 {
                t.add_attr(P(val));
                md.asg.push(Asg { ty: 0, i: at, j: at + n - 1, v: val });
            } else if ty == 1 && tys > 1 {
                t.add_attr(Q(val));
                md.asg.push(Asg { ty: 1, i: at, j: at + n - 1, v: val });
            } else if ty == tys {
                t.add_attr(S("s".to_string()));
                extra.push((at, at + n - 1, "s".to_string()));
            }
        }
        at += n;
        for s in sizes {
            let p = pos[pos.len() - 1];
            pos.push(p + s);
        }
        v.push(t);
    }
    let line = create_line_from_input_tokens(v, |s| s.len());
    check(line.ll_tokens().len() == at, "C05 inputs split as expected");
    check_query_p(&line, &md, "C05 P attributes cover exactly the pieces of their input token");
    check_query_q(&line, &md, "C05 Q attributes cover exactly the pieces of their input token");
    // the same through find: positions of the input token
    let f = line.find(&x::attr::<P>());
    let mut want: Vec<((usize, usize), u8)> = Vec::new();
    for t in 0..at {
        for (j, val) in md.at(0, t, true) {
            want.push(((pos[t], pos[j + 1]), val));
        }
    }
    check(f.len() == want.len(), "C05 find sees every input attribute");
    for (g, w) in f.iter().zip(&want) {
        check(g.range() == w.0 && g.attr().0 == w.1, "C05 find reports the input token's position range and value");
    }
    vp_observe(f.len() as u64);
    drop(f);
    // the same for matchers that look from either side
    let (mdr, posn) = (&md, at);
    let line = line.run(&With(|all| {
        let mut wb: Vec<((usize, usize), u8)> = Vec::new();
        let mut wq = 0;
        for t in 0..posn {
            for (j, v) in mdr.at(0, t, true) {
                wb.push(((t, j), v));
            }
            for (i, v) in mdr.at(0, t, false) {
                wb.push(((i, t), v));
            }
            wq += mdr.at(1, t, true).len() + mdr.at(1, t, false).len();
        }
        let g = all.find_by_forwards_and_backwards(&x::attr::<P>());
        check(g.len() == wb.len(), "C05 input attributes are matched from both sides");
        for (g, w) in g.iter().zip(&wb) {
            check(rng(&g.0) == w.0 && g.1 .0 == w.1, "C05 input attributes are matched on the pieces of their input");
        }
        check(all.find_by_forwards_and_backwards(&x::attr::<Q>()).len() == wq, "C05 input attributes of another type are matched from both sides");
    }));
    let q = line.query::<S>();
    let mut distinct: Vec<(usize, usize)> = Vec::new();
    for e in &extra {
        if !distinct.iter().any(|d| d.0 == e.0 && d.1 == e.1) {
            distinct.push((e.0, e.1));
        }
    }
    check(q.len() == distinct.len(), "C05 every owned attribute is there");
    for (g, d) in q.iter().zip(&distinct) {
        check(g.0 == *d && g.2.iter().all(|s| s.0 == "s"), "C05 owned attributes arrive intact");
        check(g.2.len() == extra.iter().filter(|e| (e.0, e.1) == *d).count(), "C05 every owned value arrives");
    }
    if md.asg.len() > 1 {
        cover("several attributes");
    }
    vp_observe(q.len() as u64);
}
pub fn check_query_p(line: &LLLine, md: &Model, msg: &'static str) {
    let q = line.query::<P>();
    let rs = md.ranges(0);
    check(q.len() == rs.len(), msg);
    for (g, r) in q.iter().zip(&rs) {
        check(g.0 == *r, msg);
        check(g.1 == text_of(line, *r), msg);
        let want = md.values(0, *r);
        check(g.2.len() == want.len(), msg);
        for (a, b) in g.2.iter().zip(&want) {
            check(a.0 == *b, msg);
        }
        vp_observe((g.2.len() * 100 + r.0 * 10 + r.1) as u64);
    }
}
pub fn check_query_q(line: &LLLine, md: &Model, msg: &'static str) {
    let q = line.query::<Q>();
    let rs = md.ranges(1);
    check(q.len() == rs.len(), msg);
    for (g, r) in q.iter().zip(&rs) {
        check(g.0 == *r, msg);
        check(g.1 == text_of(line, *r), msg);
        let want = md.values(1, *r);
        check(g.2.len() == want.len(), msg);
        for (a, b) in g.2.iter().zip(&want) {
            check(a.0 == *b, msg);
        }
        vp_observe((g.2.len() * 100 + r.0 * 10 + r.1) as u64);
    }
}
#[no_mangle]
pub extern "C" fn c05_two() {
    input_attrs(2, 2, 2, 4);
}
#[no_mangle]
pub extern "C" fn c05_three() {
    input_attrs(3, 1, 2, 4);
}
#[no_mangle]
pub extern "C" fn c05_four() {
    input_attrs(2, 3, 2, 4);
}
/// Every shape of input text: blanks, marks, many pieces, zero-sized custom tokens.
#[no_mangle]
pub extern "C" fn c05_shapes1() {
    input_attrs(1, 2, 2, 12);
}
#[no_mangle]
pub extern "C" fn c05_shapes2() {
    input_attrs(2, 1, 1, 12);
}
/// Many attributes of two types on one input.
#[no_mangle]
pub extern "C" fn c05_load() {
    let mut t = InputToken::text("3d, é".to_string(), Vec::new());
    let mut md = Model::default();
    let first = pick(2);
    for k in 0..20 {
        let v = any_u8();
        if (k + first) % 2 == 0 {
            t.add_attr(P(v));
        } else {
            t.add_attr(Q(v));
        }
        md.asg.push(Asg { ty: ((k + first) % 2) as u8, i: 1, j: 5, v });
    }
    let line = create_line_from_input_tokens(vec![InputToken::custom(1, vec![AnyAttribute::new(K(0))]), t, InputToken::custom(1, Vec::new())], |s| s.len());
    check(line.ll_tokens().len() == 7, "C05 inputs split as expected");
    check_query_p(&line, &md, "C05 twenty attributes on one input, P");
    check_query_q(&line, &md, "C05 twenty attributes on one input, Q");
    check(line.query::<K>().len() == 1 && line.query::<K>()[0].0 == (0, 0), "C05 no attribute reaches a neighbour");
}
/// An input that is cut into many pieces, between others.
#[no_mangle]
pub extern "C" fn c05_pieces() {
    let n = [1usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 129, 255, 256, 257, 300][pick(19)];
    let before = [0usize, 1, 10, 70, 270][pick(5)];
    let (v, w) = (any_u8(), any_u8());
    let mut t = InputToken::text("x,".repeat(n / 2) + if n % 2 == 1 { "x" } else { "" }, Vec::new());
    t.add_attr(P(v));
    t.add_attr(Q(w));
    t.add_attr(P(w));
    let mut ins = Vec::new();
    if before > 0 {
        ins.push(InputToken::text("(".repeat(before), vec![AnyAttribute::new(K(7))]));
    }
    ins.push(t);
    ins.push(InputToken::text("end".to_string(), vec![AnyAttribute::new(P(9))]));
    let line = create_line_from_input_tokens(ins, |s| s.len());
    let all = line.ll_tokens().len();
    check(all == before + n + 1, "C05 inputs split as expected");
    let md = Model { n: all, asg: vec![Asg { ty: 0, i: before, j: before + n - 1, v }, Asg { ty: 1, i: before, j: before + n - 1, v: w }, Asg { ty: 0, i: before, j: before + n - 1, v: w }, Asg { ty: 0, i: all - 1, j: all - 1, v: 9 }] };
    check_query_p(&line, &md, "C05 an attribute covers all pieces, P");
    check_query_q(&line, &md, "C05 an attribute covers all pieces, Q");
    let k = line.query::<K>();
    check(k.len() == (before > 0) as usize && k.iter().all(|k| k.0 == (0, before - 1)), "C05 a neighbour keeps its own attribute");
}
/// User attributes of the types the line uses itself (tag, character) add to the automatic ones.
#[no_mangle]
pub extern "C" fn c05_own_types() {
    let (text, n) = PIECES[pick(6)];
    let c = any_char();
    let mut t = InputToken::text(text.to_string(), Vec::new());
    let first = any_bool();
    if first {
        t.add_attr(TextTag::SYMB);
    }
    t.add_attr(c);
    if !first {
        t.add_attr(TextTag::SYMB);
    }
    let line = create_line_from_input_tokens(vec![InputToken::custom(1, Vec::new()), t], |s| s.len());
    let toks = line.ll_tokens();
    check(toks.len() == n + 1, "C05 inputs split as expected");
    let q = line.query::<TextTag>();
    check(q.len() == if n == 1 { 1 } else { n + 1 }, "C05 user tags join the automatic ones");
    for i in 0..n {
        if let LToken::Text(_, tag) = toks[i + 1].get_token() {
            check(q[i].0 == (i + 1, i + 1) && *q[i].2[0] == *tag, "C05 automatic tag stays first on its token");
        }
    }
    let last = &q[q.len() - 1];
    check(last.0 == (1, n) && *last.2[last.2.len() - 1] == TextTag::SYMB, "C05 the user's tag covers the input token");
    check(last.2.len() == if n == 1 { 2 } else { 1 }, "C05 user and automatic values side by side");
    let cq = line.query::<char>();
    let l = cq.iter().find(|e| e.0 == (1, n));
    check(l.is_some(), "C05 the user's character covers the input token");
    let l = l.unwrap();
    check(*l.2[l.2.len() - 1] == c, "C05 the user's character is unchanged");
    vp_observe(cq.len() as u64);
}
