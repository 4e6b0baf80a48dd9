//! C09: block scalars.
use crate::model::*;
use crate::sym::*;
use yaml_subset::yaml::{parse_yaml_file, YamlTypes};

struct Line { extra: usize, text: String }

fn push_line(s: &mut String, n: usize, t: &str) {
    for _ in 0..n { s.push(' ') }
    s.push_str(t);
    s.push('\n');
}
fn literal(lines: &[String], chomp: u8) -> String {
    // lines: content lines, without indentation; empty ones are ""
    let mut s = String::new();
    for l in lines { s.push_str(l); s.push('\n') }
    chomped(s, chomp)
}
fn chomped(s: String, chomp: u8) -> String {
    let t = s.trim_end_matches('\n');
    match chomp {
        0 => if t.is_empty() { String::new() } else { format!("{}\n", t) },
        1 => t.to_string(),
        _ => s,
    }
}
/// YAML 1.2 folding.
fn folded(lines: &[String], chomp: u8) -> String {
    let mut s = String::new();
    let mut i = 0;
    let mut prev: Option<bool> = None; // was previous content line more indented
    let mut blanks = 0;
    while i < lines.len() {
        let l = &lines[i];
        if l.is_empty() { blanks += 1; i += 1; continue }
        let more = l.starts_with(' ');
        match prev {
            None => for _ in 0..blanks { s.push('\n') },
            Some(p) => {
                if p || more { for _ in 0..blanks + 1 { s.push('\n') } }
                else if blanks == 0 { s.push(' ') }
                else { for _ in 0..blanks { s.push('\n') } }
            }
        }
        s.push_str(l);
        prev = Some(more);
        blanks = 0;
        i += 1;
    }
    s.push('\n');
    for _ in 0..blanks { s.push('\n') }
    chomped(s, chomp)
}

fn block(style: &str, nlines: usize) {
    let (pre, base, depth) = match pick(3) { 0 => ("---\nk: ", 2, 0), 1 => ("---\np:\n  k: ", 4, 1), _ => ("---\n- ", 2, 2) };
    let chomp = pick(3);
    let mut s = String::from(pre);
    s.push_str(style);
    s.push_str(["", "-", "+"][chomp as usize]);
    let explicit = flag();
    if explicit { s.push('2') }
    s.push('\n');
    let mut lines: Vec<String> = Vec::new();
    let mut seen = false;
    for i in 0..nlines {
        let last = i == nlines - 1;
        if !last && flag() {
            // blank line, possibly with (at most the indentation) spaces
            let w = pick(3) as usize;
            push_line(&mut s, [0, 1, base][w], "");
            lines.push(String::new());
            continue;
        }
        let extra = if (explicit || seen) && flag() { 2 } else { 0 };
        seen = true;
        let c = print();
        assume(c != b' ');
        let mut t = String::new();
        t.push(c as char);
        t.push_str(&prints(1));
        push_line(&mut s, base + extra, &t);
        let mut l = String::new();
        for _ in 0..extra { l.push(' ') }
        l.push_str(&t);
        lines.push(l);
    }
    let trail = pick(3);
    for _ in 0..trail { s.push('\n'); lines.push(String::new()) }
    if depth == 2 { s.push_str("- z") } else if flag() { s.push_str("z: y") }
    let d = match parse_yaml_file(&s) { Ok(d) => d, Err(_) => { out(&s); fail("valid block scalar rejected") } };
    reach(0);
    out(&s);
    let y = top(&d).unwrap();
    let v = match depth { 0 => entry(y, 0).unwrap().1, 1 => entry(entry(y, 0).unwrap().1, 0).unwrap().1, _ => item(y, 0).unwrap() };
    let got = v.as_string().unwrap();
    let want = if style == "|" { literal(&lines, chomp) } else { folded(&lines, chomp) };
    out(&got); out("#"); out(&want);
    check(got == want, "wrong string");
}

/// Where a block scalar stands: the text before it, what follows, the indentation of its lines and how to find it.
struct At { pre: &'static str, post: &'static str, ind: usize, get: fn(&yaml_subset::yaml::Yaml) -> Option<&yaml_subset::yaml::Yaml> }
fn val(y: &yaml_subset::yaml::Yaml) -> Option<&yaml_subset::yaml::Yaml> { entry(y, 0).map(|e| e.1) }
fn second(y: &yaml_subset::yaml::Yaml) -> Option<&yaml_subset::yaml::Yaml> { entry(y, 1).map(|e| e.1) }
fn first(y: &yaml_subset::yaml::Yaml) -> Option<&yaml_subset::yaml::Yaml> { item(y, 0) }
const ATS: [At; 8] = [
    At { pre: "---\nk: ", post: "z: y\n", ind: 2, get: val },
    At { pre: "---\nj: x\nk: ", post: "", ind: 1, get: second },
    At { pre: "---\np:\n  k: ", post: "  z: y\n", ind: 5, get: |y| val(y).and_then(val) },
    At { pre: "---\n- ", post: "- z\n", ind: 2, get: first },
    At { pre: "---\n- - ", post: "  - z\n", ind: 4, get: |y| first(y).and_then(first) },
    At { pre: "---\np:\n- k: ", post: "  z: y\n", ind: 4, get: |y| val(y).and_then(first).and_then(val) },
    At { pre: "---\np: &n\n  - j: x\n    k: &m ", post: "# c\nz: y\n", ind: 7, get: |y| val(y).and_then(first).and_then(second) },
    At { pre: "---\n- j: # c\n    k: ", post: "  l: z\n- y\n", ind: 6, get: |y| first(y).and_then(val).and_then(val) },
];
fn placed(at: &At, style: &str, chomp: u8, lines: &[String]) {
    let mut s = String::from(at.pre);
    s.push_str(style);
    s.push_str(["", "-", "+"][chomp as usize]);
    s.push('\n');
    for l in lines { if l.is_empty() { s.push('\n') } else { push_line(&mut s, at.ind, l) } }
    s.push_str(at.post);
    if at.post.is_empty() && chomp == 1 { s.pop(); }
    out(&s);
    reach(0);
    let d = match parse_yaml_file(&s) { Ok(d) => d, Err(_) => fail("valid block scalar rejected") };
    let y = match top(&d).and_then(|y| (at.get)(y)) { Some(y) => y, None => fail("not where it was written") };
    let got = y.as_string().unwrap();
    let want = if style == "|" { literal(lines, chomp) } else { folded(lines, chomp) };
    out(&got); out("#"); out(&want);
    check(got == want, "wrong string");
}
/// Runs of blank lines before, between and after the lines.
fn runs(style: &str) {
    let (a, b, c) = match pick(3) { 0 => (pick(8), 1, 1), 1 => (0, pick(8), pick(2)), _ => (1, 0, pick(8)) };
    let more = pick(4);
    let mut v = Vec::new();
    for _ in 0..a { v.push(String::new()) }
    v.push(String::from("x"));
    for _ in 0..b { v.push(String::new()) }
    v.push(["", " ", "  ", "\t"][more as usize].to_string() + "y");
    if flag() { v.push(String::from("z")) }
    for _ in 0..c { v.push(String::new()) }
    placed(&ATS[pick(8) as usize], style, pick(3), &v)
}
/// Many lines.
fn many(style: &str, n: usize) {
    let mut v = vec![String::from("x")];
    for _ in 0..n { v.push(["", "y", " z", "- a", "# b", "k: v"][pick(6) as usize].to_string()) }
    v.push(String::from("w"));
    placed(&ATS[pick(8) as usize], style, pick(3), &v)
}
/// What is in a line doesn't matter.
fn content(style: &str, s: String) {
    for b in s.bytes() { assume((b != b'\n') & (b != b'\r')) }
    placed(&ATS[pick(8) as usize], style, pick(2) + 1, &[["x", &s].concat(), String::from("y")])
}

/// An explicit indentation in the first field or element of a compact collection.
fn compact(sibling: bool) {
    let (pre, base, next, get): (&str, usize, &str, fn(&yaml_subset::yaml::Yaml) -> Option<&yaml_subset::yaml::Yaml>) = match pick(5) {
        0 => ("---\n- a: ", 2, "  b: c\n", |y| first(y).and_then(val)),
        1 => ("---\n- - ", 2, "  - c\n", |y| first(y).and_then(first)),
        2 => ("---\n-   a: ", 4, "    b: c\n", |y| first(y).and_then(val)),
        3 => ("---\nk:\n  - a: ", 4, "    b: c\n", |y| val(y).and_then(first).and_then(val)),
        _ => ("---\nk:\n- - ", 2, "  - c\n", |y| val(y).and_then(first).and_then(first)),
    };
    let n = 1 + pick(3) as usize;
    let mut s = [pre, "|", &n.to_string(), "\n"].concat();
    let mut lines: Vec<String> = Vec::new();
    for _ in 0..1 + pick(2) {
        let l = [["", "  "][pick(2) as usize], &of_n("xyz#-", 2)].concat();
        push_line(&mut s, base + n, &l);
        lines.push(l);
    }
    if sibling { s.push_str(next) }
    if flag() { s.push_str(if pre.starts_with("---\nk") { "l: m\n" } else { "- d\n" }) }
    out(&s);
    reach(0);
    if sibling { known(1) }
    let d = match parse_yaml_file(&s) { Ok(d) => d, Err(_) => fail("valid block scalar rejected") };
    match top(&d).and_then(get) { Some(y) => check(y.as_string().unwrap() == literal(&lines, 0), "wrong string"), None => fail("not where it was written") }
}

harnesses! {
    h_c09_compact { compact(flag()) }
    h_c09_runs { runs("|") }
    h_c09_runs_folded { runs(">") }
    h_c09_many { many("|", 3) }
    h_c09_many_folded { many(">", 3) }
    h_c09_content { content("|", asciis(3)) }
    h_c09_content_folded { content(">", asciis(3)) }
    h_c09_wide { content("|", mixed(2)) }
    h_c09_wide_folded { content(">", mixed(2)) }
    h_c09_wide_first { placed(&ATS[pick(8) as usize], [">", "|"][pick(2) as usize], pick(3), &[wide(2 + pick(3)), String::new(), ["z", &wide(2)].concat()]) }
    h_c09_literal { block("|", 3) }
    h_c09_folded { block(">", 3) }
}
deep! {
    t_c09_literal4 { block("|", 4) }
    t_c09_folded4 { block(">", 4) }
    t_c09_many5 { many("|", 5) }
    t_c09_many5_folded { many(">", 5) }
    t_c09_content5 { content(["|", ">"][pick(2) as usize], asciis(5)) }
}
