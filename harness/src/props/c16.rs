//! C16: a path text is read as the structure it spells, anything else is an error.
use crate::sym::*;
use yaml_subset::YamlPath;

#[derive(Clone, Copy, PartialEq)]
enum Kind { Root, Key, All, Index }
/// One step of a path: what it selects and its conditions.
struct Step { kind: Kind, name: String, index: usize, conds: Vec<(String, String)> }

fn blank(b: &[u8], mut i: usize) -> usize { while i < b.len() && b[i] == b' ' { i += 1 } i }
/// The trimmed text between two positions, unless it is empty.
fn word(s: &str, from: usize, to: usize) -> Option<String> {
    let b = s.as_bytes();
    let from = blank(b, from);
    let mut to = to;
    while to > from && b[to - 1] == b' ' { to -= 1 }
    if from < to { Some(s[from..to].to_string()) } else { None }
}
/// Conditions from i on: "|field=value", the field up to the next "=", the value up to the next "." or "|".
fn conds(s: &str, mut i: usize) -> Option<(Vec<(String, String)>, usize)> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    loop {
        i = blank(b, i);
        if i == b.len() || b[i] != b'|' { return Some((v, i)); }
        let mut e = i + 1;
        while e < b.len() && b[e] != b'=' { e += 1 }
        if e == b.len() { return None; }
        let mut f = e + 1;
        while f < b.len() && (b[f] != b'.') & (b[f] != b'|') { f += 1 }
        v.push((word(s, i + 1, e)?, word(s, e + 1, f)?));
        i = f;
    }
}
fn key(s: &str, i: usize) -> Option<(String, usize)> {
    let b = s.as_bytes();
    let mut e = i;
    while e < b.len() && (b[e] != b'.') & (b[e] != b'|') & (b[e] != b'[') & (b[e] != b']') { e += 1 }
    Some((word(s, i, e)?, e))
}
/// The steps a text spells, if it is a path.
fn steps(s: &str) -> Option<Vec<Step>> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    if blank(b, 0) == b.len() || b[blank(b, 0)] == b'|' {
        let (c, i) = conds(s, 0)?;
        if i < b.len() { return None; }
        return Some(vec![Step { kind: Kind::Root, name: String::new(), index: 0, conds: c }]);
    }
    let mut i = 0;
    let mut first = true;
    loop {
        if !first {
            i = blank(b, i);
            if i == b.len() { return Some(v); }
        }
        if first || b[i] == b'.' {
            let (name, e) = key(s, if first { i } else { i + 1 })?;
            let (c, e) = conds(s, e)?;
            v.push(Step { kind: Kind::Key, name, index: 0, conds: c });
            i = e;
        } else if b[i] == b'[' {
            i = blank(b, i + 1);
            let mut st = Step { kind: Kind::All, name: String::new(), index: 0, conds: Vec::new() };
            if i < b.len() && b[i] == b'*' { i += 1 } else {
                let from = i;
                st.kind = Kind::Index;
                while i < b.len() && (b[i] >= b'0') & (b[i] <= b'9') {
                    st.index = st.index.checked_mul(10)?.checked_add((b[i] - b'0') as usize)?;
                    i += 1;
                }
                if i == from { return None; }
            }
            i = blank(b, i);
            if i == b.len() || b[i] != b']' { return None; }
            let (c, e) = conds(s, i + 1)?;
            st.conds = c;
            v.push(st);
            i = e;
        } else { return None; }
        first = false;
    }
}
macro_rules! conditions {
    ($c:expr, $w:expr) => {{
        let (c, w) = ($c, &$w.conds);
        let mut ok = c.len() == w.len();
        if ok { for i in 0..c.len() { ok &= c[i].field == w[i].0 && c[i].value == w[i].1 } }
        ok
    }};
}
fn compare(mut p: &YamlPath, want: &[Step]) -> bool {
    let mut i = 0;
    loop {
        if i == want.len() { return false; }
        let w = &want[i];
        i += 1;
        let rest = match p {
            YamlPath::Root(c) => return w.kind == Kind::Root && conditions!(c, w) && i == want.len(),
            YamlPath::Key(k, c, rest) => { if !(w.kind == Kind::Key && *k == w.name && conditions!(c, w)) { return false; } rest }
            YamlPath::AllIndexes(c, rest) => { if !(w.kind == Kind::All && conditions!(c, w)) { return false; } rest }
            YamlPath::Indexes(n, c, rest) => { if !(w.kind == Kind::Index && n.len() == 1 && n[0] == w.index && conditions!(c, w)) { return false; } rest }
        };
        match rest { Some(r) => p = r, None => return i == want.len() }
    }
}

fn parse(s: &str) {
    out(s);
    reach(0);
    match (s.parse::<YamlPath>(), steps(s)) {
        (Ok(p), Some(w)) => { reach(1); check(compare(&p, &w), "read as another path") }
        (Ok(_), None) => fail("something that isn't a path was accepted"),
        (Err(_), Some(_)) => fail("a path was refused"),
        (Err(_), None) => reach(2),
    }
}
fn ctx(pre: &str, n: usize, post: &str) {
    let mut s = String::from(pre);
    s.push_str(&asciis(n));
    s.push_str(post);
    parse(&s)
}
/// Steps put together with `insert` are the path their text spells.
fn insert(n: u8) {
    let mut p = YamlPath::Root(Vec::new());
    let mut s = String::new();
    for i in 0..n {
        let (t, q) = match pick(if i == 0 { 2 } else { 4 }) {
            0 => ("k", "k".parse::<YamlPath>()),
            1 => ("l|f=v", "l|f=v".parse::<YamlPath>()),
            2 => ("[*]", Ok(YamlPath::AllIndexes(Vec::new(), None))),
            _ => ("[3]", Ok(YamlPath::Indexes(vec![3], Vec::new(), None))),
        };
        // the value of a condition ends at a key
        if s.ends_with('v') && t.starts_with('[') { return; }
        p.insert(q.unwrap());
        if i > 0 && !t.starts_with('[') { s.push('.') }
        s.push_str(t);
    }
    reach(0);
    out(&s);
    match s.parse::<YamlPath>() { Ok(q) => check(p == q, "another path"), Err(_) => fail("not a path") }
}

/// Many steps with many conditions.
fn many() {
    let mut s = String::from(["", "a", "a[*]", "a[2]", "a.b", "a[0][*]"][pick(6) as usize]);
    let n = pick(6);
    for i in 0..n { s.push_str(&["|", &ch(b'f' + i), "=", &of_n("vwx", 1)].concat()) }
    s.push_str(["", ".z", "[*]", ".z[7]|g=h|i=j|k=l", ".z.y.x.w.v.u", " "][pick(6) as usize]);
    parse(&s)
}
fn ch(b: u8) -> String { (b as char).to_string() }
fn wid(pre: &str, n: usize, post: &str) { parse(&[pre, &mixed(n), post].concat()) }
/// Many steps.
fn long() {
    let mut s = String::from("k");
    for _ in 0..5 { s.push_str(["[*]", "[12]", ".a b", "[ 0 ]", ".c|d=e", " . f"][pick(6) as usize]) }
    parse(&s)
}

harnesses! {
    h_c16_many { many() }
    h_c16_long_steps { long() }
    h_c16_wide { wid("", 2, "") }
    h_c16_wide_key { wid("a", 2, "b[0]") }
    h_c16_wide_cond { wid("a|", 2, "=c.d") }
    h_c16_wide_value { wid("a[1]|b=", 2, "|d=e") }
    h_c16_wide_index { wid("a[", 2, "]") }
    h_c16_three { ctx("a[1]|b=c|d=e|", 3, "=g") }
    h_c16_three_root { ctx("|b=c|d=e|f", 3, "g") }
    h_c16_two_index { ctx("a[1][2", 3, "].b") }
    h_c16_any { ctx("", 6, "") }
    h_c16_any4 { ctx("", pick(6) as usize, "") }
    h_c16_key { ctx("a", 4, "b") }
    h_c16_index { ctx("a[", 4, "]") }
    h_c16_number { ctx("a[1844674407370955161", 2, "].b") }
    h_c16_after { ctx("a[*]", 4, "b") }
    h_c16_cond { ctx("a|", 5, "=c") }
    h_c16_value { ctx("a|b=", 5, "") }
    h_c16_value2 { ctx("a|b=c", 3, "d.e") }
    h_c16_icond { ctx("a[2]|", 4, "") }
    h_c16_root { ctx("|", 5, "") }
    h_c16_long { ctx("part[*]|type=gap.item[3].", 4, "x[*]") }
    h_c16_conds { ctx("a|b=c|", 4, "|d=e") }
    h_c16_insert { insert(4) }
}
deep! {
    t_c16_any7 { ctx("", 7, "") }
    t_c16_cond6 { ctx("a|", 6, "=c") }
    t_c16_after6 { ctx("a[*]", 6, "b") }
    t_c16_insert6 { insert(6) }
}
