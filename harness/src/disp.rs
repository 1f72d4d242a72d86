//! C25: the textual display of a line.
use crate::gen::*;
use crate::rt::*;
use layered_nlp::*;
use unicode_width::UnicodeWidthStr;

/// Attribute whose Debug output is one symbolic letter.
#[derive(Clone, Copy, PartialEq)]
pub struct D(pub u8);
impl std::fmt::Debug for D {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Write::write_char(f, (b'a' + self.0) as char)
    }
}
#[derive(Clone, Copy, PartialEq)]
pub struct E(pub u8);
impl std::fmt::Debug for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Write::write_char(f, (b'A' + self.0) as char)
    }
}
struct PutD(Asg);
impl Resolver for PutD {
    type Attr = D;
    fn go(&self, all: LLSelection) -> Vec<LLCursorAssignment<D>> {
        vec![span(&all, self.0.i, self.0.j).finish_with_attr(D(self.0.v))]
    }
}
struct PutE(Asg);
impl Resolver for PutE {
    type Attr = E;
    fn go(&self, all: LLSelection) -> Vec<LLCursorAssignment<E>> {
        vec![span(&all, self.0.i, self.0.j).finish_with_attr(E(self.0.v))]
    }
}

/// Reference rendering.
fn render(line: &LLLine, md: &Model, order: &[u8]) -> String {
    let mut s = String::new();
    let (mut from, mut to): (Vec<usize>, Vec<usize>) = (Vec::new(), Vec::new());
    for (i, t) in line.ll_tokens().iter().enumerate() {
        if i > 0 {
            s.push_str("  ");
        }
        from.push(UnicodeWidthStr::width(s.as_str()));
        match t.get_token() {
            LToken::Text(t, _) => s.push_str(t),
            LToken::Value => s.push_str("<>"),
        }
        to.push(UnicodeWidthStr::width(s.as_str()));
    }
    for ty in order {
        for r in md.ranges(*ty) {
            let vals = md.values(*ty, r);
            for v in vals.iter().rev() {
                s.push('\n');
                let (a, b) = (from[r.0], to[r.1]);
                for _ in 0..a {
                    s.push(' ');
                }
                s.push('╰');
                // the bracket spans the columns a..b
                if b > a + 1 {
                    for _ in 0..b - a - 2 {
                        s.push('─');
                    }
                    s.push('╯');
                }
                s.push((if *ty == 0 { b'a' } else { b'A' } + *v) as char);
            }
        }
    }
    s
}
fn assign(mut line: LLLine, n: usize, m: usize, types: u8) -> (LLLine, Model) {
    let mut md = Model { n, asg: Vec::new() };
    for _ in 0..m {
        let a = any_asg(n, types, 26);
        line = if a.ty == 0 { line.run(&PutD(a)) } else { line.run(&PutE(a)) };
        md.asg.push(a);
    }
    (line, md)
}
fn shows(line: LLLine, n: usize, m: usize, types: u8) {
    let (line, md) = assign(line, n, m, types);
    let d = debug_line(&line).with::<D>().to_string();
    check(d == render(&line, &md, &[0]), "C25 the display shows the tokens and one aligned row per value");
    vp_observe(d.len() as u64);
    if types > 1 {
        let mut l = LLLineDisplay::new(&line);
        l.include::<E>();
        l.include::<D>();
        check(l.to_string() == render(&line, &md, &[1, 0]), "C25 rows come in the order the types were included");
        check(LLLineDisplay::new(&line).with::<D>().with::<E>().to_string() == render(&line, &md, &[0, 1]), "C25 with and include are the same");
    }
    check(LLLineDisplay::new(&line).to_string() == render(&line, &md, &[]), "C25 without included types only the tokens are shown");
    check(LLLineDisplay::new(&line).with::<Z>().to_string() == render(&line, &md, &[]), "C25 a type without values adds nothing");
    if md.ranges(0).len() + md.ranges(1).len() < m {
        cover("several values on one range");
    }
}
#[no_mangle]
pub extern "C" fn c25_one() {
    shows(line_of(&mixed(6)), 6, 1, 1);
}
#[no_mangle]
pub extern "C" fn c25_two() {
    shows(line_of(&mixed(4)), 4, 2, 1);
}
#[no_mangle]
pub extern "C" fn c25_types() {
    shows(line_of(&mixed(3)), 3, 2, 2);
}
#[no_mangle]
pub extern "C" fn c25_three() {
    shows(line_of(&mixed(3)), 3, 3, 2);
}
/// Characters of every display width around the marked tokens.
fn widths(n: usize) {
    const W: [char; 7] = ['a', '世', '\u{301}', '\u{1F600}', ' ', '\u{200B}', 'é'];
    let v = (0..n)
        .map(|i| {
            let mut t = InputToken::text(W[pick(7)].to_string(), Vec::new());
            t.add_attr(K(i as u16));
            t
        })
        .collect();
    let line = create_line_from_input_tokens(v, |s| s.len());
    shows(line, n, 1, 1);
}
#[no_mangle]
pub extern "C" fn c25_widths2() {
    widths(2);
}
#[no_mangle]
pub extern "C" fn c25_widths3() {
    widths(3);
}
/// Longer words: bracket lengths.
#[no_mangle]
pub extern "C" fn c25_lengths() {
    let mut ins = Vec::new();
    let mut n = 0;
    for i in 0..3u8 {
        let len = 1 + pick(5);
        let mut w = String::new();
        for _ in 0..len {
            w.push((choose(26) + b'a') as char);
        }
        let mut t = InputToken::text(w, Vec::new());
        t.add_attr(K(i as u16));
        ins.push(t);
        n += 1;
    }
    let line = create_line_from_input_tokens(ins, |s| s.len());
    shows(line, n, 1, 1);
}
#[no_mangle]
pub extern "C" fn c25_empty() {
    let line = create_line_from_input_tokens(Vec::new(), |s| s.len());
    check(LLLineDisplay::new(&line).with::<D>().to_string().is_empty(), "C25 an empty line shows nothing");
}
/// Longer values, of any characters, and many rows.
#[derive(Clone, Debug, PartialEq)]
pub struct Note {
    text: String,
    n: Option<u8>,
}
struct Notes(Vec<(usize, usize, Note)>);
impl Resolver for Notes {
    type Attr = Note;
    fn go(&self, all: LLSelection) -> Vec<LLCursorAssignment<Note>> {
        self.0.iter().map(|x| span(&all, x.0, x.1).finish_with_attr(x.2.clone())).collect()
    }
}
fn rows(line: &LLLine, notes: &[(usize, usize, Note)]) {
    let d = LLLineDisplay::new(line).with::<Note>().to_string();
    let md = Model { n: 0, asg: notes.iter().enumerate().map(|(k, x)| Asg { ty: 0, i: x.0, j: x.1, v: k as u8 }).collect() };
    let mut s = LLLineDisplay::new(line).to_string();
    let (mut from, mut to): (Vec<usize>, Vec<usize>) = (Vec::new(), Vec::new());
    let mut at = 0;
    for (i, t) in line.ll_tokens().iter().enumerate() {
        if i > 0 {
            at += 2;
        }
        from.push(at);
        at += match t.get_token() {
            LToken::Text(t, _) => t.chars().count(),
            LToken::Value => 2,
        };
        to.push(at);
    }
    check(s.chars().count() == at, "C25 the first line shows the tokens");
    for r in md.ranges(0) {
        for v in md.values(0, r).iter().rev() {
            s.push('\n');
            for _ in 0..from[r.0] {
                s.push(' ');
            }
            s.push('╰');
            let w = to[r.1] - from[r.0];
            if w > 1 {
                for _ in 2..w {
                    s.push('─');
                }
                s.push('╯');
            }
            s.push_str(&format!("{:?}", notes[*v as usize].2));
        }
    }
    check(d == s, "C25 every value has its row, in full");
    vp_observe(d.len() as u64);
}
#[no_mangle]
pub extern "C" fn c25_values() {
    const V: [&str; 6] = ["", "two words", "世界", "a\nb", "\"quoted\"", "a value that is a good deal longer than the range it stands under"];
    let (i, j) = any_range(3);
    let note = |t: &str| Note { text: t.to_string(), n: if t.len() % 2 == 0 { None } else { Some(t.len() as u8) } };
    let v = vec![(i, j, note(V[pick(6)])), (1, 1, note(V[pick(6)]))];
    let line = line_of(&mixed(3)).run(&Notes(v.clone()));
    rows(&line, &v);
}
/// 40 tokens with a value each, 12 values on one range, and one more anywhere.
#[no_mangle]
pub extern "C" fn c25_many() {
    let n = 40;
    let mut v: Vec<(usize, usize, Note)> = (0..n).map(|t| (t, t, Note { text: "t".to_string(), n: Some(t as u8) })).collect();
    let (i, j) = any_range(n);
    v.push((i, j, Note { text: "x".to_string(), n: None }));
    for k in 0..12 {
        v.push((3, 20, Note { text: "y".to_string(), n: Some(k) }));
    }
    let line = line_of(&mixed(n)).run(&Notes(v.clone()));
    rows(&line, &v);
}
/// Columns and brackets beyond 255.
#[no_mangle]
pub extern "C" fn c25_vast() {
    let n = 60;
    let long = pick(2) == 1;
    let texts: Vec<String> = (0..n).map(|i| if long && i == 3 { "é".repeat(300) } else { "abcdef".to_string() }).collect();
    let ins = texts
        .iter()
        .enumerate()
        .map(|(i, t)| {
            let mut t = InputToken::text(t.clone(), Vec::new());
            t.add_attr(K(i as u16));
            t
        })
        .collect();
    let at = [0usize, 2, 3, 4, 31, 32, 33, 50, 59];
    let (i, j) = (at[pick(9)], at[pick(9)]);
    vp_assume(i <= j);
    let v: Vec<(usize, usize, Note)> = vec![(i, j, Note { text: "x".to_string(), n: None }), (j, j, Note { text: "y".to_string(), n: Some(1) })];
    let line = create_line_from_input_tokens(ins, |s| s.len()).run(&Notes(v.clone()));
    rows(&line, &v);
}
