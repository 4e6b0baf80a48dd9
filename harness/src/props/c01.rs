//! C01: parsing any text gives a document or an error located inside the text; never a panic.
use crate::menu::*;
use crate::sym::*;
use yaml_subset::yaml::parse_yaml_file;

fn total(s: &str) {
    out(s);
    reach(0);
    match parse_yaml_file(s) {
        Ok(_) => reach(1),
        Err(e) => {
            reach(2);
            let (l, c) = e.location();
            let mut lines = 1;
            for b in s.bytes() {
                if b == b'\n' {
                    lines += 1
                }
            }
            check(l >= 1 && l <= lines, "error line outside the text");
            check(c >= 1 && c <= s.len() + 1, "error column outside the text");
        }
    }
}
fn ctx(pre: &str, n: usize, post: &str) {
    let mut s = String::from(pre);
    s.push_str(&asciis(n));
    s.push_str(post);
    total(&s)
}

/// Showing the error doesn't panic either.
fn shown(pre: &str, n: usize, post: &str) {
    let s = [pre, &mixed_lf(n), post].concat();
    out(&s);
    reach(0);
    if let Err(e) = parse_yaml_file(&s) {
        let t = e.to_string();
        out(&t);
        check(!t.is_empty(), "an error without text")
    }
}
fn wid(pre: &str, n: usize, post: &str) { total(&[pre, &mixed(n), post].concat()) }
harnesses! {
    h_c01_shown { shown("", 2, "") }
    h_c01_shown_value { shown("---\na: [", 2, "\n") }
    h_c01_shown_item { shown("---\n- a\nb", 2, "c: |x\n") }
    h_c01_blocks { total(&lines(BLOCKS, 4)) }
    h_c01_comments { total(&lines(COMMENTS, 4)) }
    h_c01_names { total(&lines(NAMES, 4)) }
    h_c01_texts { total(&lines(TEXTS, 4)) }
    h_c01_flows { total(&lines(FLOWS, 4)) }
    h_c01_quotes { total(&lines(QUOTES, 4)) }
    h_c01_wide_start { wid("", 2, "") }
    h_c01_wide_before { wid("", 2, "---\na: b\n") }
    h_c01_wide_marker { wid("---", 2, "") }
    h_c01_wide_top { wid("---\n", 2, "") }
    h_c01_wide_value { wid("---\na: ", 2, "") }
    h_c01_wide_quoted { wid("---\na: \"", 3, "\"\n") }
    h_c01_wide_single { wid("---\na: '", 3, "'\n") }
    h_c01_wide_flow { wid("---\na: [", 2, "]\n") }
    h_c01_wide_flowh { wid("---\na: {", 2, ": b}\n") }
    h_c01_wide_literal { wid("---\na: |\n", 3, "\n") }
    h_c01_wide_literal2 { wid("---\na: |2\n", 3, "b\n") }
    h_c01_wide_head { wid("---\na: |", 2, "\n  b\n") }
    h_c01_wide_cmt { wid("---\n#", 2, "\na: b\n") }
    h_c01_wide_cmt2 { wid("---\na: b #", 2, "\n") }
    h_c01_wide_cmt3 { wid("#", 2, "\n---\na: b\n") }
    h_c01_wide_cmts { wid("#", 2, "\n# x\n---\n# y\na: b # z\n") }
    h_c01_wide_cmts2 { wid("#", 2, "\n") }
    h_c01_wide_cmts3 { wid("---\n#", 2, "\na: # x\n  # y\n  b: c # z\n# w") }
    h_c01_wide_far { wid("# one\n---\na:\n  - b: c\n    d: '", 2, "'\n  # x\n  - |\n    y\n  - [e, {f: \"g\"}]\n") }
    h_c01_wide_key { wid("---\n", 2, ": b\n") }
    h_c01_wide_item { wid("---\n- ", 2, "\n") }
    h_c01_wide_item2 { wid("---\n- a: ", 2, "\n  b: c\n") }
    h_c01_wide_name { wid("---\na: &", 2, "\n") }
    h_c01_wide_nest { wid("---\na:\n ", 2, "b: c\n") }
    h_c01_start { ctx("", 3, "") }
    h_c01_marker { ctx("---", 3, "") }
    h_c01_top { ctx("---\n", 4, "") }
    h_c01_value { ctx("---\na: ", 4, "") }
    h_c01_item { ctx("---\n- ", 4, "") }
    h_c01_literal { ctx("---\na: |", 4, "") }
    h_c01_literal2 { ctx("---\na: |\n  b\n", 4, "\n") }
    h_c01_folded { ctx("---\na: >\n", 5, "\n") }
    h_c01_dq { ctx("---\na: \"", 4, "\"\n") }
    h_c01_sq { ctx("---\na: '", 4, "'\n") }
    h_c01_flow { ctx("---\na: [", 4, "]\n") }
    h_c01_flowh { ctx("---\na: {b", 4, "}\n") }
    h_c01_alias { ctx("---\na: &", 4, "\n") }
    h_c01_lit_ind { ctx("---\na: |\n   b\n", 5, "") }
    h_c01_lit_ind2 { ctx("---\nk:\n  a: |2\n", 5, "\n") }
    h_c01_lit_mb { ctx("---\na: |3\n \u{2003}", 4, "\n") }
    h_c01_lit_mb2 { ctx("---\na: |\n \u{2003}x\n  ", 4, "\n") }
    h_c01_num { ctx("---\na: |\u{0663}", 4, "\n b\n") }
    h_c01_num2 { ctx("---\na: |1844674407370955161", 3, "\n") }
    h_c01_num3 { ctx("---\na: |-999", 3, "\n  b\n") }
    h_c01_nest { ctx("---\na:\n  b:\n", 5, "\n") }
    h_c01_arr { ctx("---\n- a: b\n", 5, "\n") }
    h_c01_arr2 { ctx("---\n- - a\n", 5, "\n") }
    h_c01_key { ctx("---\n", 3, ": b\n") }
    h_c01_cmt { ctx("---\na: b #", 4, "\nb: c\n") }
}
deep! {
    t_c01_blocks5 { total(&lines(BLOCKS, 5)) }
    t_c01_comments5 { total(&lines(COMMENTS, 5)) }
    t_c01_names5 { total(&lines(NAMES, 5)) }
    t_c01_texts5 { total(&lines(TEXTS, 5)) }
    t_c01_flows5 { total(&lines(FLOWS, 5)) }
    t_c01_quotes5 { total(&lines(QUOTES, 5)) }
    t_c01_start5 { ctx("", 5, "") }
    t_c01_top6 { ctx("---\n", 6, "") }
    t_c01_value6 { ctx("---\na: ", 6, "") }
    t_c01_item6 { ctx("---\n- ", 6, "") }
    t_c01_nest6 { ctx("---\na:\n  - b:\n", 6, "\n") }
    t_c01_flow6 { ctx("---\na: [", 6, "]\n") }
    t_c01_lit6 { ctx("---\na: |\n", 6, "\n") }
}
