//! C02: formatting a parsed document and parsing it again gives the same document.
use crate::menu::*;
use crate::sym::*;
use yaml_subset::yaml::parse_yaml_file;

fn rt(s: &str) {
    let d = match parse_yaml_file(s) {
        Ok(d) => d,
        Err(_) => return,
    };
    reach(0);
    out(s);
    out("\n=>\n");
    let t = d.format().unwrap();
    out(&t);
    match parse_yaml_file(&t) {
        Ok(e) => check(e == d, "different document"),
        Err(_) => fail("formatted text does not parse"),
    }
}
fn asc(n: usize) -> String {
    let s = asciis(n);
    for b in s.bytes() { assume(b != b'\r'); }
    s
}
fn ctx(pre: &str, n: usize, post: &str) {
    let mut s = String::from(pre);
    s.push_str(&asc(n));
    s.push_str(post);
    rt(&s)
}

fn wid(pre: &str, n: usize, post: &str) { rt(&[pre, &mixed_lf(n), post].concat()) }
#[allow(dead_code)]
fn runs(pre: &str, l: &str, post: &str) { rt(&[pre, &times(l, 7), post].concat()) }

harnesses! {
    h_c02_noted { rt(&noted()) }
    h_c02_nbsp_dash { ctx("---\n- b:\u{a0}", 4, "\n") }
    h_c02_dash { ctx("---\n- ", 4, "\n- d\n") }
    h_c02_blocks { rt(&lines(BLOCKS, 4)) }
    h_c02_comments { rt(&lines(COMMENTS, 4)) }
    h_c02_names { rt(&lines(NAMES, 4)) }
    h_c02_texts { rt(&lines(TEXTS, 4)) }
    h_c02_flows { rt(&lines(FLOWS, 4)) }
    h_c02_quotes { rt(&lines(QUOTES, 4)) }
    h_c02_runs_quoted { runs("---\na: \"b", "\n", "\n  c\"\n") }
    h_c02_runs_single { runs("---\na: 'b", "\n", "\n  c'\n") }
    h_c02_runs_literal { runs("---\na: |\n  b\n", "\n", "  c\n") }
    h_c02_runs_folded { runs("---\na: >+\n  b\n", "\n", "  c\n") }
    h_c02_runs_keep { runs("---\na: |+\n  b\n", "\n", "c: d\n") }
    h_c02_runs_lead { runs("---\n- >\n", "\n", "  b\n") }
    h_c02_runs_cmt { runs("---\na:\n  b: c\n", "  #\n", "  d: e\n") }
    h_c02_runs_cmt2 { runs("---\na:\n  b: c\n", "# f\n", "d: e\n") }
    h_c02_runs_cmt3 { runs("---\n- a: b\n", "  # f\n", "  d: e\n") }
    h_c02_runs_cmt4 { runs("---\n- a\n", "# f\n", "- b\n") }
    h_c02_runs_cmt5 { runs("---\n- ", "# f\n  ", "a: b\n") }
    h_c02_runs_item { runs("---\n", "- a\n", "- b: c\n") }
    h_c02_runs_seq { runs("---\n", "- ", "a: b\n") }
    h_c02_runs_flow { let n = pick(6) as usize; rt(&["---\na: ", &"[".repeat(n), "b", &", c]".repeat(n), "\n"].concat()) }
    h_c02_wide_value { wid("---\na: ", 2, "") }
    h_c02_wide_quoted { wid("---\na: \"", 2, "\"\n") }
    h_c02_wide_single { wid("---\na: '", 2, "'\n") }
    h_c02_wide_flow { wid("---\na: [", 2, "]\n") }
    h_c02_wide_literal { wid("---\na: |\n  ", 2, "\n") }
    h_c02_wide_literal2 { wid("---\na: |\n", 3, "b\n") }
    h_c02_wide_folded { wid("---\n- >\n  b\n  ", 2, "\n") }
    h_c02_wide_cmt { wid("---\n#", 2, "\na: b\n") }
    h_c02_wide_cmt2 { wid("---\na: b #", 2, "\n") }
    h_c02_wide_key { wid("---\n", 2, ": b\n") }
    h_c02_wide_name { wid("---\na: &", 2, "\n") }
    h_c02_start { ctx("", 3, "---\na: b") }
    h_c02_top { ctx("---\n", 4, "") }
    h_c02_top_flow { ctx("---\n[", 3, "]\n") }
    h_c02_top_cmt { ctx("---\n#", 5, "a: b\n") }
    h_c02_key { ctx("---\na:", 4, "") }
    h_c02_keyv { ctx("---\na:", 3, "b\n") }
    h_c02_value { ctx("---\na: ", 4, "") }
    h_c02_value2 { ctx("---\na: ", 3, "\nb: c\n") }
    h_c02_item { ctx("---\n- ", 4, "") }
    h_c02_item2 { ctx("---\n- ", 3, "\n- b\n") }
    h_c02_item3 { ctx("---\n-", 4, "b\n") }
    h_c02_lit1 { ctx("---\na: |", 3, "b\n") }
    h_c02_lit2 { ctx("---\na: |\n  b\n", 4, "\n") }
    h_c02_lit3 { ctx("---\na: |\n  b\n", 4, "c\nb: d") }
    h_c02_lit4 { ctx("---\na: |+\n", 4, "b\n") }
    h_c02_lit5 { ctx("---\nk:\n  a: |-\n   ", 4, "b\n") }
    h_c02_lit6 { ctx("---\n- a: |2\n    ", 4, "b\n") }
    h_c02_lit7 { ctx("---\n- - |2\n    ", 4, "b\n") }
    h_c02_lit8 { ctx("---\n- a: |\n", 4, "\n  b: c\n") }
    h_c02_lit9 { ctx("---\n- \n  a: |2\n    ", 3, "\n  b: c\n") }
    h_c02_lit10 { ctx("---\n- - |\n    b\n", 4, "- c\n") }
    h_c02_lit11 { ctx("---\na: |\n", 4, "\n  b\nc: d\n") }
    h_c02_lit12 { ctx("---\n- a:\n    b: |+2\n", 4, "\n      c\n  d: e\n") }
    h_c02_folded2 { ctx("---\na: >+\n  b", 4, "\n  c\nd: e\n") }
    h_c02_folded { ctx("---\na: >\n", 5, "\n") }
    h_c02_dq { ctx("---\na: \"", 4, "\"\n") }
    h_c02_sq { ctx("---\na: '", 4, "'\n") }
    h_c02_flow { ctx("---\na: [", 4, "]\n") }
    h_c02_flow2 { ctx("---\na: [b", 3, "c]\n") }
    h_c02_flowh { ctx("---\na: {b", 4, "}\n") }
    h_c02_flowh2 { ctx("---\na: {b: ", 3, "}\n") }
    h_c02_alias { ctx("---\na: &", 4, "\n") }
    h_c02_alias2 { ctx("---\na: &b", 4, "c: d\n") }
    h_c02_nest { ctx("---\na:\n  b:\n", 4, "c: d\n") }
    h_c02_nest2 { ctx("---\na:\n  b: c", 4, "d: e\n") }
    h_c02_arr { ctx("---\n- a: b\n", 4, "c: d\n") }
    h_c02_arr2 { ctx("---\n- - a\n", 4, "- b\n") }
    h_c02_arr3 { ctx("---\n- ", 4, "\n  a: b\n") }
    h_c02_arr4 { ctx("---\nk:\n", 4, "- b\n") }
    h_c02_cmt { ctx("---\na: b #", 3, "\nb: c\n") }
    h_c02_cmt2 { ctx("---\na:\n  b: c\n", 4, "#x\nb: c\n") }
    h_c02_end { ctx("---\na: b\n", 5, "") }
}
deep! {
    t_c02_blocks5 { rt(&lines(BLOCKS, 5)) }
    t_c02_comments5 { rt(&lines(COMMENTS, 5)) }
    t_c02_names5 { rt(&lines(NAMES, 5)) }
    t_c02_texts5 { rt(&lines(TEXTS, 5)) }
    t_c02_flows5 { rt(&lines(FLOWS, 5)) }
    t_c02_quotes5 { rt(&lines(QUOTES, 5)) }
    t_c02_top6 { ctx("---\n", 6, "") }
    t_c02_value6 { ctx("---\na: ", 5, "\nb: c\n") }
    t_c02_item6 { ctx("---\n- ", 6, "") }
    t_c02_arr5 { ctx("---\n- - - a\n", 6, "- b\n") }
    t_c02_flow6 { ctx("---\na: [", 6, "]\n") }
    t_c02_lit6 { ctx("---\na: |\n  b\n", 6, "\n") }
    t_c02_fold6 { ctx("---\nk:\n  a: >\n    b\n", 6, "\n") }
}
