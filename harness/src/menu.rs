//! Documents made of any lines of a list, in any order; every `x` in a line is a symbolic letter.
#![allow(dead_code)]
use crate::sym::*;

pub const BLOCKS: &[&str] = &["a: x", "b:", "  c: x", "  d:", "    - x", "- x", "  - x", "- - x", "- e: x", "- "];
pub const COMMENTS: &[&str] = &["a: x # c", "b:", "  c: x", "# d", "  # e", "    #", "#", "- x", "  - y # f", "- g: h"];
pub const NAMES: &[&str] = &["a: &n x", "b: &m", "  c: &n", "    d: x", "- &n x", "- &m", "  e: *n", "- *m", "  - &m x", "- f: &n"];
pub const TEXTS: &[&str] = &["a: |", "b: >-", "- |+", "  x", "    y", "", "  c: >", "d: x", "# e", "- f: |-"];
pub const FLOWS: &[&str] = &["a: [x, y]", "b: {c: x, d: [y]}", "- [x, [y], {}]", "- {e: y}", "  - []", "f:", "  g: [", "    x,", "  ]", "# h"];
pub const QUOTES: &[&str] = &["a: \"x", "  y\"", "b: 'x", "", "  y ''z'", "'", "- \"x\\", "  \\ny\"", "c: ''", "# d"];
pub const MENUS: [&[&str]; 6] = [BLOCKS, COMMENTS, NAMES, TEXTS, FLOWS, QUOTES];

pub fn line(l: &str) -> String {
    let mut v = Vec::with_capacity(l.len());
    for b in l.bytes() {
        if b == b'x' { let c = byte(); assume((c >= b'p') & (c <= b'w')); v.push(c) } else { v.push(b) }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// A document of `n` lines.
pub fn lines(menu: &[&str], n: u8) -> String {
    let mut s = String::from("---\n");
    for _ in 0..n { s.push_str(&line(pick_str(menu))); s.push('\n') }
    s
}
/// The same with the first line given.
pub fn after(first: &str, menu: &[&str], n: u8) -> String {
    let mut s = ["---\n", &line(first), "\n"].concat();
    for _ in 0..n { s.push_str(&line(pick_str(menu))); s.push('\n') }
    s
}
/// A run of up to `max` of the same line.
pub fn times(l: &str, max: u8) -> String {
    let mut s = String::new();
    for _ in 0..pick(max + 1) { s.push_str(l) }
    s
}

const LONG: &str = "'one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen'";
const LONG2: &str = "\"one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen  sixteen\"";
const VALUES: [&str; 14] = ["x", "'x'", "\"x\"", "\"x\\n\"", "\"x\\ny\"", "'x\n\n  y\n\n'", "'it''s'", "\" x\\\"\\\\\"", LONG, LONG2, "[x, 'y']", "{}", "*n", "\"\n\nx\""];
const PLACES: [&str; 16] = [
    "a: @ # c\n", "- @ # c\n", "- a: @ # c\n", "- - @ # c\n- d\n", "a:\n  b: @ # c\ne: f\n", "a:\n  - @ # c\n  - d\n", "a:\n  - b: @ # c\n    c: d\n",
    "- a: &n @ # c\n  b: @ # d\n- e\n", "- - - @ # c\n    - @\n", "a:\n- @ # c\nb: d\n", "- a: @\n  # c\n  b: @ # d\n", "- - @\n  # c\n  - @ # d\n# e\n- @\n",
    "a:\n  b:\n    c: @ # c\n# d\ne: @ # e\n", "- a:\n    - @ # c\n  b: @ #\n", "- &n\n  a: @ # c\n- &m\n  - @ # d\n", "a:\n    @ # c\nb: @\n",
];
/// Values with comments behind them, at every kind of place.
pub fn noted() -> String {
    let mut s = String::from("---\n");
    for b in pick_str(&PLACES).bytes() {
        if b == b'@' { s.push_str(&line(pick_str(&VALUES))) } else { s.push(b as char) }
    }
    s
}
