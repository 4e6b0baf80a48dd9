//! C10: quoted and plain scalars denote the string YAML says.
use crate::model::*;
use crate::sym::*;
use yaml_subset::yaml::{parse_yaml_file, Yaml, YamlTypes};

/// Where a scalar stands: text before and after, and how to find it again.
struct Ctx { pre: &'static str, post: &'static str, get: fn(&Yaml) -> Option<&Yaml> }
fn val(y: &Yaml) -> Option<&Yaml> { entry(y, 0).map(|e| e.1) }
fn sub(y: &Yaml) -> Option<&Yaml> { val(y).and_then(val) }
fn first(y: &Yaml) -> Option<&Yaml> { item(y, 0) }
fn second(y: &Yaml) -> Option<&Yaml> { item(y, 1) }
fn flow(y: &Yaml) -> Option<&Yaml> { val(y).and_then(first) }
fn flow2(y: &Yaml) -> Option<&Yaml> { val(y).and_then(second) }
const VALUE: Ctx = Ctx { pre: "---\na: ", post: "\nb: c\n", get: val };
const LAST: Ctx = Ctx { pre: "---\na: ", post: "", get: val };
const SUB: Ctx = Ctx { pre: "---\na:\n  b: ", post: " # c\n  c: d\n", get: sub };
const ITEM: Ctx = Ctx { pre: "---\n- ", post: "\n- b\n", get: first };
const FLOW: Ctx = Ctx { pre: "---\na: [", post: ", b]\n", get: flow };
const FLOW2: Ctx = Ctx { pre: "---\na: [b, ", post: "]\n", get: flow2 };
const FLOWH: Ctx = Ctx { pre: "---\na: {b: ", post: " , c: d}\n", get: sub };
const NEXT: Ctx = Ctx { pre: "---\na:\n  ", post: "\nb: c\n", get: val };

fn read(c: &Ctx, text: &str, want: &str, plain: bool) {
    let t = [c.pre, text, c.post].concat();
    reach(0);
    out(&t);
    let d = match parse_yaml_file(&t) { Ok(d) => d, Err(_) => fail("a valid scalar was rejected") };
    let y = match top(&d).and_then(|y| (c.get)(y)) { Some(y) => y, None => fail("not where it was written") };
    check(matches!(y, Yaml::UnquotedString(_)) == plain, "another kind of scalar");
    match y.as_string() {
        Some(s) => { out("#"); out(&s); check(s == want, "another string") }
        None => fail("not a string"),
    }
}
/// What the text between the quotes denotes, if it is valid: escapes decoded, lines folded.
fn decode(t: &str, double: bool) -> Option<String> {
    let b = t.as_bytes();
    let mut s: Vec<u8> = Vec::new();
    let mut keep = 0; // blanks before this length aren't trimmed at a line break
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if double && c == b'"' { return None; }
        if double && c == b'\\' {
            if i + 1 == b.len() { return None; }
            match b[i + 1] {
                b'n' => s.push(b'\n'),
                b't' => s.push(b'\t'),
                b'r' => s.push(b'\r'),
                b'"' => s.push(b'"'),
                b'\\' => s.push(b'\\'),
                b'\n' => {
                    // a continued line: only blank lines count
                    i += 2;
                    let (j, n) = breaks(b, i);
                    for _ in 0..n { s.push(b'\n') }
                    keep = s.len();
                    i = j;
                    continue;
                }
                _ => return None,
            }
            keep = s.len();
            i += 2;
        } else if !double && c == b'\'' {
            if i + 1 == b.len() || b[i + 1] != b'\'' { return None; }
            s.push(b'\'');
            i += 2;
        } else if c == b'\n' {
            while s.len() > keep && (s[s.len() - 1] == b' ' || s[s.len() - 1] == b'\t') { s.pop(); }
            let (j, n) = breaks(b, i);
            if n == 1 { s.push(b' ') }
            for _ in 1..n { s.push(b'\n') }
            keep = s.len();
            i = j;
        } else {
            s.push(c);
            i += 1;
        }
    }
    Some(unsafe { String::from_utf8_unchecked(s) })
}
/// Line breaks from i on, blanks after each skipped: the position of the text after them, and their number.
fn breaks(b: &[u8], mut i: usize) -> (usize, usize) {
    let mut n = 0;
    loop {
        while i < b.len() && (b[i] == b' ' || b[i] == b'\t') { i += 1 }
        if i < b.len() && b[i] == b'\n' { n += 1; i += 1 } else { return (i, n); }
    }
}
fn quoted(c: &Ctx, q: &str, pre: &str, n: usize, post: &str) {
    let mut s = String::from(pre);
    let w = asciis(n);
    for b in w.bytes() { assume(b != b'\r') }
    s.push_str(&w);
    s.push_str(post);
    let want = match decode(&s, q == "\"") { Some(w) => w, None => return };
    read(c, &[q, &s, q].concat(), &want, false)
}
fn dq(c: &Ctx, n: usize) { quoted(c, "\"", "", n, "") }
fn sq(c: &Ctx, n: usize) { quoted(c, "'", "", n, "") }
/// A quoted scalar of lines.
fn lines(c: &Ctx, q: &str, n: usize) {
    let mut s = String::from("x");
    for _ in 0..n {
        s.push_str(["\n", "\n ", " \n", "\t\n  ", "\n\n", "y", if q == "'" { "''" } else { "\\\n" }, if q == "'" { "\\" } else { "\\t" }][pick(8) as usize]);
    }
    let want = decode(&s, q == "\"").unwrap();
    read(c, &[q, &s, q].concat(), &want, false)
}
/// A plain scalar: starts with something that can't be an indicator.
fn plain(c: &Ctx, pre: &str, n: usize, flow: bool) {
    let mut s = String::from(pre);
    for i in 0..n {
        let b = print();
        if i == 0 && pre.is_empty() {
            assume((b != b' ') & (b != b'-') & (b != b'?') & (b != b':') & (b != b',') & (b != b'[') & (b != b']') & (b != b'{') & (b != b'}') & (b != b'#') & (b != b'&')
                & (b != b'*') & (b != b'!') & (b != b'|') & (b != b'>') & (b != b'\'') & (b != b'"') & (b != b'%') & (b != b'@') & (b != b'`'));
        }
        if flow { assume((b != b',') & (b != b'[') & (b != b']') & (b != b'{') & (b != b'}') & (b != b'>') & (b != b'|') & (b != b'"')) }
        s.push(b as char);
    }
    let b = s.as_bytes();
    let mut ok = true;
    for i in 0..b.len() {
        let next = if i + 1 < b.len() { b[i + 1] } else { b' ' };
        ok &= !((b[i] == b':') & (next == b' '));
        ok &= !((b[i] == b' ') & (next == b'#'));
    }
    assume(ok);
    let mut e = b.len();
    while e > 0 && b[e - 1] == b' ' { e -= 1 }
    let want = s[..e].to_string();
    read(c, &s, &want, true)
}

const DEEP: Ctx = Ctx { pre: "---\nz: &n\n  - a: ", post: " # c\n    b: c\n", get: |y| val(y).and_then(first).and_then(val) };
const NAMED: Ctx = Ctx { pre: "---\na: &n ", post: "\nb: c\n", get: val };
const NESTED: Ctx = Ctx { pre: "---\n- - - ", post: "\n    - c\n- d", get: |y| first(y).and_then(first).and_then(first) };
const INNER: Ctx = Ctx { pre: "---\na: [ { b: [ ", post: " ] } ]\n", get: |y| val(y).and_then(first).and_then(val).and_then(first) };
const OVER: Ctx = Ctx { pre: "---\na: [\n  b,\n  ", post: "\n]\n", get: flow2 };
/// Outside ASCII.
fn wideq(c: &Ctx, q: &str, n: usize) {
    let s = mixed_lf(n);
    if let Some(want) = decode(&s, q == "\"") { read(c, &[q, &s, q].concat(), &want, false) }
}
/// Plain scalars with characters outside ASCII that aren't blanks.
fn widep(c: &Ctx, pre: &str, post: &str) {
    let w = wide(2 + pick(3));
    for x in w.chars() { assume(!x.is_whitespace()) }
    let s = [pre, &w, post].concat();
    read(c, &s, &s, true)
}
/// Blanks that aren't spaces: what they are doesn't change inside a scalar.
fn blanks(c: &Ctx) {
    let s = ["x", pick_str(&["\u{a0}", "\u{2003}", "\u{3000}", "\t", "  ", " \t ", "\u{85}", "\u{2028}"]), pick_str(&["y", "\u{e9}", "-", ".", "y  z"])].concat();
    read(c, &s, &s, true)
}
/// Runs of blank lines in a quoted scalar.
fn runs(c: &Ctx, q: &str) {
    let n = pick(9) as usize;
    let s = [["x", "x ", "", "x\\n"][pick(if q == "'" { 3 } else { 4 }) as usize], &"\n".repeat(n), ["y", "  y", "", "''"][pick(if q == "'" { 4 } else { 3 }) as usize]].concat();
    if let Some(want) = decode(&s, q == "\"") { read(c, &[q, &s, q].concat(), &want, false) }
}
/// Long lines of words, in one line or in more.
fn long(c: &Ctx, q: &str) {
    let mut s = String::from("x");
    for _ in 0..4 { s.push_str(&["w".repeat(30), " ww".repeat(10), "\n  v".to_string(), "  v".to_string()][pick(if q.is_empty() { 2 } else { 4 }) as usize]) }
    let want = if q.is_empty() { s.clone() } else { decode(&s, q == "\"").unwrap() };
    read(c, &[q, &s, q].concat(), &want, q.is_empty())
}
/// The key as it is written, in every place a key stands.
fn keyed(k: String) {
    let (pre, post, at): (&str, &str, fn(&Yaml) -> Option<&Yaml>) = match pick(9) {
        0 => ("---\n", ": b\n", |y| Some(y)),
        1 => ("---\na: b\nc:\n  ", ": b\n", |y| entry(y, 1).map(|e| e.1)),
        2 => ("---\n- ", ": b\n", first),
        3 => ("---\n- x: y\n  ", ": b\n", first),
        4 => ("---\na: {", ": b}\n", val),
        5 => ("---\na: [{c: d, ", " : b}]\n", |y| val(y).and_then(first)),
        6 => ("---\n- - ", ":\n    - b\n", |y| first(y).and_then(first)),
        7 => ("---\na:\n  ", ": # c\n    b: d\n", val),
        _ => ("---\n", ": &n b\nc: *n\n", |y| Some(y)),
    };
    let t = [pre, &k, post].concat();
    out(&t);
    reach(0);
    let d = match parse_yaml_file(&t) { Ok(d) => d, Err(_) => fail("a valid key was rejected") };
    let y = match top(&d).and_then(at) { Some(y) => y, None => fail("not where it was written") };
    let i = (pre.ends_with("y\n  ") || pre.ends_with("d, ")) as usize;
    match entry(y, i) { Some((l, _)) => check(l == k, "another key"), None => fail("no key") }
}
/// A key: letters, digits and "_", then also "-" and blanks, the last one no blank.
fn a_key(n: usize) -> String {
    let mut s = of_n("aZ09_", 1);
    for i in 0..n { s.push_str(&of_n(if i + 1 < n { "aZ09_- " } else { "aZ09_-" }, 1)) }
    s
}

harnesses! {
    h_c10_key { keyed(a_key(pick(5) as usize)) }
    h_c10_key_words { keyed(["a", &" ".repeat(1 + pick(4) as usize), "b", &" ".repeat(pick(3) as usize), "-"].concat()) }
    h_c10_key_wide { let b = byte(); assume((b >= 0x80) & (b <= 0xbf) & (b != 0x97) & (b != 0xb7)); let w = unsafe { String::from_utf8_unchecked(vec![0xc3, b]) }; keyed(["a", &w].concat()) }
    h_c10_dq_runs { runs(&[VALUE, ITEM, FLOW2, INNER, DEEP][pick(5) as usize], "\"") }
    h_c10_sq_runs { runs(&[VALUE, ITEM, FLOW2, INNER, DEEP][pick(5) as usize], "'") }
    h_c10_dq_long { long(&[VALUE, ITEM, FLOW][pick(3) as usize], "\"") }
    h_c10_sq_long { long(&[SUB, NESTED, FLOWH][pick(3) as usize], "'") }
    h_c10_plain_long { long(&[VALUE, NESTED, INNER][pick(3) as usize], "") }
    h_c10_blanks { blanks(&[VALUE, LAST, SUB, ITEM, NEXT, DEEP, NAMED, NESTED][pick(8) as usize]) }
    h_c10_blanks_flow { blanks(&[FLOW, FLOW2, FLOWH, INNER, OVER][pick(5) as usize]) }
    h_c10_dq_wide { wideq(&[VALUE, FLOW, DEEP][pick(3) as usize], "\"", 2) }
    h_c10_sq_wide { wideq(&[LAST, FLOWH, NESTED][pick(3) as usize], "'", 2) }
    h_c10_plain_wide { widep(&[VALUE, ITEM, NAMED][pick(3) as usize], "", "") }
    h_c10_plain_wide2 { widep(&[LAST, INNER, FLOW][pick(3) as usize], "x", "y") }
    h_c10_plain_wide3 { widep(&[SUB, OVER][pick(2) as usize], "x y", " z") }
    h_c10_dq_deep { dq(&DEEP, 3) }
    h_c10_dq_named { dq(&NAMED, 3) }
    h_c10_sq_nested { sq(&NESTED, 3) }
    h_c10_sq_inner { sq(&INNER, 3) }
    h_c10_plain_deep { plain(&DEEP, "", 3, false) }
    h_c10_plain_named { plain(&NAMED, "x", 3, false) }
    h_c10_plain_nested { plain(&NESTED, "x", 3, false) }
    h_c10_plain_inner { plain(&INNER, "x", 3, true) }
    h_c10_dq { dq(&VALUE, 4) }
    h_c10_dq_short { dq(&VALUE, pick(4) as usize) }
    h_c10_dq_last { dq(&LAST, 3) }
    h_c10_dq_sub { dq(&SUB, 3) }
    h_c10_dq_item { dq(&ITEM, 3) }
    h_c10_dq_flow { dq(&FLOW, 3) }
    h_c10_dq_flowh { dq(&FLOWH, 3) }
    h_c10_dq_next { dq(&NEXT, 3) }
    h_c10_sq { sq(&VALUE, 4) }
    h_c10_sq_short { sq(&VALUE, pick(4) as usize) }
    h_c10_sq_sub { sq(&SUB, 3) }
    h_c10_sq_item { sq(&ITEM, 3) }
    h_c10_sq_flow { sq(&FLOW2, 3) }
    h_c10_sq_flowh { sq(&FLOWH, 3) }
    h_c10_dq_lines { lines(&VALUE, "\"", 4) }
    h_c10_sq_lines { lines(&VALUE, "'", 4) }
    h_c10_dq_lines_item { lines(&ITEM, "\"", 3) }
    h_c10_sq_lines_flow { lines(&FLOW, "'", 3) }
    h_c10_plain { plain(&VALUE, "", 4, false) }
    h_c10_plain_short { plain(&VALUE, "", 1 + pick(3) as usize, false) }
    h_c10_plain_mid { plain(&LAST, "x", 4, false) }
    h_c10_plain_sub { plain(&SUB, "", 3, false) }
    h_c10_plain_item { plain(&ITEM, "", 3, false) }
    h_c10_plain_flow { plain(&FLOW, "", 3, true) }
    h_c10_plain_flow2 { plain(&FLOW2, "x", 3, true) }
    h_c10_plain_flowh { plain(&FLOWH, "", 3, true) }
}
deep! {
    t_c10_dq6 { dq(&VALUE, 6) }
    t_c10_sq6 { sq(&ITEM, 6) }
    t_c10_dq_lines6 { lines(&SUB, "\"", 6) }
    t_c10_sq_lines6 { lines(&FLOW, "'", 6) }
    t_c10_plain6 { plain(&VALUE, "", 6, false) }
}
