//! C21: no comment is lost, and an edited document still says what it holds.
use crate::lay::*;
use crate::model::*;
use crate::menu::*;
use crate::sym::*;
use crate::tree::{al, ch, key, named, path, un, all, index, Step};
use yaml_subset::yaml::{parse_yaml_file, BlockChomping, Document, Pretty, Yaml, YamlInsert};

fn parse(t: &str, msg: &str) -> Document { match parse_yaml_file(t) { Ok(d) => d, Err(_) => fail(msg) } }
fn write(d: &Document) -> String { match d.format() { Ok(t) => t, Err(_) => fail("not written") } }
/// All comments in one: an edit may leave two on one line.
fn joined(v: &[String]) -> String { v.join(" #") }
fn data_of(d: &Document) -> V { match top(d) { Some(y) => data(y), None => fail("no value") } }

/// The text holds these comments: so does the document, written out or prettied.
fn keeps(t: &str, said: &[String]) {
    reach(0);
    out(t);
    let d = parse(t, "rejected");
    check(comments(&d) == said, "other comments");
    let w = data_of(&d);
    let p = d.pretty();
    check(comments(&p) == said, "other comments in pretty");
    let u = write(&p);
    let p = parse(&u, "the pretty text doesn't parse");
    check(comments(&p) == said, "other comments in the pretty text");
    check(data_of(&p) == w, "other data in the pretty text");
}
fn layout(n: N, gaps: u8, widths: u8, extra: u8, comment: u8) -> Option<Lay> { layout_as(n, gaps, widths, extra, comment, false, 1) }
/// With empty comments, with more comments between two things.
fn layout_as(n: N, gaps: u8, widths: u8, extra: u8, comment: u8, empty: bool, times: u8) -> Option<Lay> {
    if !matches!(n, N::Seq(_) | N::Map(_)) { return None; }
    let mut l = Lay::new(gaps, widths, extra, comment);
    l.empty = empty;
    l.run = times;
    l.block(&n, 0, false);
    Some(l)
}
fn kept(n: N, gaps: u8, widths: u8, extra: u8, comment: u8) {
    if let Some(l) = layout(n, gaps, widths, extra, comment) { keeps(&l.s, &l.said) }
}
/// The text of a comment is everything after the "#".
fn what(pre: &str, n: usize, post: &str, before: &[&str], after: &[&str]) {
    let c = asciis(n);
    for b in c.bytes() { assume((b != b'\n') & (b != b'\r')) }
    let t = [pre, "#", &c, post].concat();
    let said: Vec<String> = before.iter().map(|s| s.to_string()).chain([c]).chain(after.iter().map(|s| s.to_string())).collect();
    keeps(&t, &said)
}

/// A path that leads somewhere in this value.
fn where_to(mut y: &Yaml, n: u8) -> Vec<Step> {
    let mut st = Vec::new();
    for _ in 0..n {
        let c = len(y);
        if c == 0 { return st; }
        let i = pick(c as u8) as usize;
        if let Some((k, v)) = entry(y, i) {
            st.push(if pick(4) == 0 && st.len() + 1 == n as usize { key("z") } else { key(k) });
            y = v;
        } else if let Some(v) = item(y, i) {
            st.push(if i == 0 && flag() { all() } else { index(vec![i]) });
            y = v;
        }
    }
    st
}
fn chain(depth: u8) -> N {
    let s = N::S("s".to_string());
    if depth == 0 { return s; }
    let c = chain(depth - 1);
    match pick(3) { 0 => N::Seq(vec![c, s]), 1 => N::Map(vec![("k", c), ("l", s)]), _ => N::Map(vec![("k", c)]) }
}
fn edit(l: Option<Lay>, n: u8) {
    let l = match l { Some(l) => l, None => return };
    let mut d = parse(&l.s, "rejected");
    let st = where_to(match top(&d) { Some(y) => y, None => return }, n);
    if st.is_empty() { return; }
    let p = path(&st);
    let c = match pick(7) {
        0 => d.remove_from_hash(&p),
        1 => d.rename_field(&p, "new".to_string()),
        2 => d.to_object(&p, "new".to_string()),
        3 => d.insert_into_hash(&p, &al(Yaml::LiteralString(vec!["one".to_string(), " two".to_string()], BlockChomping::Clip)), true),
        4 => d.insert_into_hash(&p, &named("n", Yaml::Hash(vec![crate::tree::hc(" n"), crate::tree::el("x", un("y"))])), true),
        5 => d.insert_into_hash(&p, &al(Yaml::Array(Vec::new())), true),
        _ => d.move_to_subfield(&p, "new".to_string(), vec!["k".to_string(), "l".to_string()]),
    };
    if c == 0 { return; }
    reach(0);
    let t = write(&d);
    out(&t);
    let e = parse(&t, "the text of the edited document doesn't parse");
    check(data_of(&e) == data_of(&d), "the text of the edited document holds other data");
    check(joined(&comments(&e)) == joined(&comments(&d)), "the text of the edited document holds other comments");
    let u = write(&e);
    check(parse(&u, "nor does that one") == e, "the text of the edited document isn't stable");
}

fn kept_as(n: N, extra: u8, comment: u8, empty: bool, times: u8) { if let Some(l) = layout_as(n, 1, 1, extra, comment, empty, times) { keeps(&l.s, &l.said) } }
/// A document of lines, if it is one.
fn menu(t: String) {
    let d = match parse_yaml_file(&t) { Ok(d) => d, Err(_) => return };
    let said: Vec<String> = t.lines().filter_map(|l| l.find('#').map(|i| l[i + 1..].to_string())).collect();
    reach(0);
    out(&t);
    check(comments(&d) == said, "other comments");
    let w = data_of(&d);
    let p = d.pretty();
    check(comments(&p) == said, "other comments in pretty");
    let p = parse(&write(&p), "the pretty text doesn't parse");
    check(comments(&p) == said, "other comments in the pretty text");
    check(data_of(&p) == w, "other data in the pretty text");
}
/// The text of a comment outside ASCII.
fn wid(pre: &str, post: &str, after: &[&str]) {
    let c = mixed_lf(2);
    for b in c.bytes() { assume(b != b'\n') }
    keeps(&[pre, "#", &c, post].concat(), &[c].into_iter().chain(after.iter().map(|s| s.to_string())).collect::<Vec<_>>())
}
/// A run of comments at one place.
fn runs() {
    let (pre, l, post): (&str, &str, &str) = match pick(14) {
        0 => ("", "#", "\n---\na: b\n"),
        1 => ("---\n", "#", "\na: b\n"),
        2 => ("---\na:\n", "  #", "\n  b: c\n"),
        3 => ("---\na:\n  b: c\n", "  #", "\n  d: e\n"),
        4 => ("---\na:\n  b: c\n", "#", "\nd: e\n"),
        5 => ("---\n- a: b\n", "  #", "\n  c: d\n"),
        6 => ("---\n- a: b\n  c: d\n", "  #", "\n  e: f\n"),
        7 => ("---\n- a\n", "#", "\n- b\n"),
        8 => ("---\n- - a\n", "  #", "\n  - b\n"),
        9 => ("---\na:\n- b\n", "#", "\n- c\n"),
        10 => ("---\na: |\n  b\n", "#", "\nc: d\n"),
        11 => ("---\na: b\n", "#", "\n"),
        12 => ("---\n- a:\n", "    #", "\n    b: c\n"),
        _ => ("---\n- a:\n    - b\n", "  #", "\n  c: d\n"),
    };
    let n = 1 + pick(6);
    let mut t = String::from(pre);
    let mut said = Vec::new();
    for i in 0..n {
        let c = if flag() { String::new() } else { [" c", &ch(b'0' + i)].concat() };
        if i > 0 { t.push('\n') }
        t.push_str(l);
        t.push_str(&c);
        said.push(c);
    }
    t.push_str(post);
    keeps(&t, &said)
}

harnesses! {
    h_c21_noted { menu(noted()) }
    h_c21_runs { runs() }
    h_c21_menu { menu(crate::menu::lines(crate::menu::COMMENTS, 4)) }
    h_c21_broad { kept_as(broad(4), 2, 1, false, 1) }
    h_c21_broad_empty { kept_as(broad(3), 2, 1, true, 1) }
    h_c21_broad_more { kept_as(broad(3), 2, 0, false, 3) }
    h_c21_wide { wid("---\na: b ", "\n# c\nc: d\n", &[" c"]) }
    h_c21_wide_first { wid("", "\n# c\n---\na: b\n", &[" c"]) }
    h_c21_wide_item { wid("---\n- a: b\n  ", "\n  c: d # c", &[" c"]) }
    h_c21_inline { kept(tree(2, 0), 1, 1, 0, 2) }
    h_c21_inline2 { kept(tree(2, 2), 1, 1, 0, 1) }
    h_c21_between { kept(tree(2, 2), 1, 1, 2, 0) }
    h_c21_between3 { kept(tree(3, 0), 1, 1, 2, 1) }
    h_c21_leaves { kept(tree(2, 1), 1, 1, 6, 1) }
    h_c21_widths { kept(tree(2, 0), 2, 2, 2, 2) }
    h_c21_first { what("", 4, "\n---\na: 1\n", &[], &[]) }
    h_c21_second { what("# a\n", 4, "\n---\n# b\na: 1\n# c", &[" a"], &[" b", " c"]) }
    h_c21_before { what("---\n", 4, "\n# b\na: 1\n", &[], &[" b"]) }
    h_c21_value { what("---\na: 1 ", 4, "\nb: 2 # b\n", &[], &[" b"]) }
    h_c21_key { what("---\na: ", 4, "\n  # b\n  b: 2\n", &[], &[" b"]) }
    h_c21_item { what("---\n- ", 4, "\n  a: 1\n- 2\n", &[], &[]) }
    h_c21_item2 { what("---\n- 1 ", 4, "\n- 2 # b\n", &[], &[" b"]) }
    h_c21_flow { what("---\na: [1, 2] ", 4, "\nb: {}\n", &[], &[]) }
    h_c21_quoted { what("---\na: 'x' ", 4, "\nb: \"#\" # b", &[], &[" b"]) }
    h_c21_block { what("---\na: |\n  x # x\n", 4, "\nb: >\n  # y\n# b", &[], &[" b"]) }
    h_c21_last { what("---\na: &n\n  - 1\n  ", 4, "\n", &[], &[]) }
    h_c21_end { what("---\na: *n ", 4, "", &[], &[]) }
    h_c21_deep { what("---\na:\n  - b: 1\n    ", 4, "\n    c:\n    - 1 # b\n", &[], &[" b"]) }
    h_c21_edit { edit(layout(tree(2, 0), 1, 1, 0, 1), 1) }
    h_c21_edit2 { edit(layout(tree(2, 0), 1, 1, 2, 1), 2) }
    h_c21_edit_leaf { edit(layout(tree(1, 1), 1, 1, 6, 1), 1) }
    h_c21_edit_rich { edit(layout(tree(1, 2), 1, 1, 2, 1), 2) }
    h_c21_edit3 { edit(layout(chain(3), 1, 1, 2, 1), 3) }
}
deep! {
    t_c21_menu5 { menu(crate::menu::lines(crate::menu::COMMENTS, 5)) }
    t_c21_broad { kept_as(broad(6), 2, 1, false, 2) }
    t_c21_inline2 { kept(tree(3, 0), 1, 1, 0, 2) }
    t_c21_between { kept(tree(2, 2), 1, 1, 6, 0) }
    t_c21_widths { kept(tree(2, 0), 2, 2, 6, 2) }
    t_c21_edit_rich { edit(layout(tree(2, 2), 1, 1, 2, 2), 1) }
    t_c21_edit3 { edit(layout(tree(3, 0), 1, 1, 0, 1), 3) }
    t_c21_edit_rich2 { edit(layout(tree(2, 2), 1, 1, 2, 1), 2) }
    t_c21_leaves { kept(tree(2, 3), 1, 1, 6, 2) }
    t_c21_inline { kept(tree(3, 1), 1, 1, 0, 2) }
    t_c21_edit_leaf { edit(layout(tree(2, 1), 1, 1, 6, 1), 2) }
}
