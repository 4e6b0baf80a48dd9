//! C22: the text of a pretty document.
use crate::model::*;
use crate::menu::*;
use crate::sym::*;
use yaml_subset::yaml::{parse_yaml_file, Document, Pretty};

fn run(s: &str) {
    let d = match parse_yaml_file(s) {
        Ok(d) => d,
        Err(_) => return,
    };
    reach(0);
    out(s);
    let p: Document = d.pretty();
    let t = p.format().unwrap();
    out("\n=>\n");
    out(&t);
    let e = match parse_yaml_file(&t) {
        Ok(e) => e,
        Err(_) => fail("the pretty text does not parse"),
    };
    check(data(top(&e).unwrap()) == data(top(&p).unwrap()), "the pretty text says something else");
    check(e.pretty().format().unwrap() == t, "pretty again changes the text");
}
fn asc(n: usize) -> String {
    let s = asciis(n);
    for b in s.bytes() { assume(b != b'\r'); }
    s
}
fn ctx(pre: &str, n: usize, post: &str) {
    let mut s = String::from(pre);
    s.push_str(&asc(n));
    s.push_str(post);
    run(&s)
}
const L86: &str = "word word word word word word word word word word word word word word word word word w";

fn wid(pre: &str, n: usize, post: &str) { run(&[pre, &mixed_lf(n), post].concat()) }
fn runs(pre: &str, l: &str, post: &str) { run(&[pre, &times(l, 7), post].concat()) }
/// Arrays around the length at which they are written in one line.
fn widths(map: bool) {
    let mut s = String::from("---\n- ");
    let n = 84 + pick(8) as usize;
    let items = 1 + pick(3) as usize;
    let c = prints(1);
    for i in 0..items {
        s.push_str(if i > 0 { "  " } else { "" });
        s.push_str(if map { "- k: " } else { "- " });
        for _ in 0..(n - if map { 5 } else { 2 }) / items - 2 { s.push('w') }
        s.push_str(if i == 0 { &c } else { "v" });
        s.push('\n');
    }
    run(&s)
}
/// Long strings: words of any length around the place where lines are broken.
fn words(q: &str) {
    let mut s = String::new();
    for _ in 0..78 + pick(5) * 3 { s.push('w') }
    for _ in 0..2 {
        s.push_str([" ", "  ", "-"][pick(3) as usize]);
        for _ in 0..[1, 8, 90][pick(3) as usize] { s.push('v') }
    }
    s.push_str(&prints(1));
    s.push('z');
    run(&["---\na: ", q, &s, q, "\n"].concat())
}

harnesses! {
    h_c22_noted { run(&noted()) }
    h_c22_blocks { run(&lines(BLOCKS, 4)) }
    h_c22_comments { run(&lines(COMMENTS, 4)) }
    h_c22_names { run(&lines(NAMES, 4)) }
    h_c22_texts { run(&lines(TEXTS, 4)) }
    h_c22_flows { run(&lines(FLOWS, 4)) }
    h_c22_quotes { run(&lines(QUOTES, 4)) }
    h_c22_names3 { run(&after("- b: &m", NAMES, 3)) }
    h_c22_wide_value { wid("---\na: ", 2, "") }
    h_c22_wide_quoted { wid("---\na: \"", 2, "\"\n") }
    h_c22_wide_single { wid("---\na: '", 2, "'\n") }
    h_c22_wide_flow { wid("---\na: [", 2, "]\n") }
    h_c22_wide_literal { wid("---\na: |\n  ", 2, "\n") }
    h_c22_wide_long { run(&["---\na: '", L86, &mixed_lf(2), "'\n"].concat()) }
    h_c22_runs_quoted { runs("---\na: \"b", "\n", "\n  c\"\n") }
    h_c22_runs_single { runs("---\na: 'b", "\n", "\n  c'\n") }
    h_c22_runs_literal { runs("---\na: |\n  b\n", "\n", "  c\n") }
    h_c22_runs_folded { runs("---\na: >+\n  b\n", "\n", "  c\n") }
    h_c22_runs_keep { runs("---\na: |+\n  b\n", "\n", "c: d\n") }
    h_c22_runs_item { runs("---\n", "- a\n", "- b: c\n") }
    h_c22_runs_pairs { runs("---\n- - a\n", "  - b\n", "- c: d\n") }
    h_c22_runs_key { runs("---\na:\n", "- b: c\n", "d: e\n") }
    h_c22_runs_seq { runs("---\n", "- ", "a: b\n") }
    h_c22_runs_cmt { runs("---\na:\n  b: c\n", "  #\n", "  d: e\n") }
    h_c22_runs_cmt2 { runs("---\n- a: b\n", "  # f\n", "  d: e\n") }
    h_c22_arr_cmt { ctx("---\na:\n- b\n- c", 3, "\n- d\n") }
    h_c22_arr_cmt2 { ctx("---\na:\n- b\n", 4, "\n- c\n") }
    h_c22_arr_name { ctx("---\na:\n- b\n- &", 3, "\n- c\n") }
    h_c22_arr_alias { ctx("---\na:\n- b\n- *", 3, "\n- c\n") }
    h_c22_arr_key { ctx("---\na: &n\n- b\n- ", 3, "\n- c\n") }
    h_c22_widths { widths(false) }
    h_c22_widths_map { widths(true) }
    h_c22_words { words("'") }
    h_c22_words_dq { words("\"") }
    h_c22_words_plain { words("") }
    h_c22_value { ctx("---\na: ", 4, "\nb: c\n") }
    h_c22_item { ctx("---\n- ", 4, "\n- b\n") }
    h_c22_sq { ctx("---\na: '", 4, "'\n") }
    h_c22_dq { ctx("---\na: \"", 4, "\"\n") }
    h_c22_sqlong { ctx(&["---\na: '", L86].concat(), 3, "'\n") }
    h_c22_sqlong2 { ctx("---\na: '", 3, &[L86, "'\n"].concat()) }
    h_c22_dqlong { ctx(&["---\na: \"", L86].concat(), 3, " word\"\n") }
    h_c22_dqlong2 { ctx("---\na: \"", 3, &[L86, " word\"\n"].concat()) }
    h_c22_flow { ctx("---\na: [", 4, "]\n") }
    h_c22_flowh { ctx("---\na: {b: ", 4, "}\n") }
    h_c22_flowsq { ctx("---\na: ['", 3, "', c]\n") }
    h_c22_flowdq { ctx("---\na: {b: \"", 3, "\"}\n") }
    h_c22_nested { ctx("---\n- - a\n  - ", 3, "\n- b\n") }
    h_c22_nested2 { ctx("---\n- - 'a'\n  - '", 3, "'\n- b\n") }
}
deep! {
    t_c22_blocks5 { run(&lines(BLOCKS, 5)) }
    t_c22_comments5 { run(&lines(COMMENTS, 5)) }
    t_c22_names5 { run(&lines(NAMES, 5)) }
    t_c22_texts5 { run(&lines(TEXTS, 5)) }
    t_c22_flows5 { run(&lines(FLOWS, 5)) }
    t_c22_quotes5 { run(&lines(QUOTES, 5)) }
}
