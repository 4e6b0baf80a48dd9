//! C11: the structure read is the one the indentation says.
use crate::lay::*;
use crate::menu::{lines, BLOCKS, COMMENTS};
use crate::model::*;
use crate::sym::*;
use yaml_subset::yaml::parse_yaml_file;

fn run(n: N, gaps: u8, widths: u8, extra: u8, comment: u8) { run_as(n, gaps, widths, extra, comment, false, 1) }
/// With empty comments, with more of what stands between two things.
fn run_as(n: N, gaps: u8, widths: u8, extra: u8, comment: u8, empty: bool, times: u8) {
    if !matches!(n, N::Seq(_) | N::Map(_)) { return; }
    let mut l = Lay::new(gaps, widths, extra, comment);
    l.empty = empty;
    l.run = times;
    l.block(&n, 0, false);
    if extra == 5 { l.s.pop(); }
    reach(0);
    out(&l.s);
    match parse_yaml_file(&l.s) {
        Ok(d) => check(data(top(&d).unwrap()) == model(&n), "read as another structure"),
        Err(_) => fail("rejected"),
    }
}

/// A key or dash without a value: nothing the parser reads is this, it has to reject the document.
fn none() -> V { V::S(String::from("\0")) }
fn full(v: &V) -> bool {
    match v {
        V::Seq(l) => l.iter().all(full),
        V::Map(l) => l.iter().all(|e| full(&e.1)),
        v => *v != none(),
    }
}
/// The structure of a document of lines, if it has one: block collections, plain scalars, comments.
struct Read { lines: Vec<(usize, String)>, at: usize }
impl Read {
    fn here(&self) -> Option<(usize, String)> { self.lines.get(self.at).cloned() }
    fn deeper(&mut self, ind: usize, seq: bool) -> Option<V> {
        let (i, t) = match self.here() { Some(h) => h, None => return Some(none()) };
        if i > ind || seq && i == ind && (t == "-" || t.starts_with("- ")) { self.block(i) } else { Some(none()) }
    }
    fn block(&mut self, ind: usize) -> Option<V> {
        let (_, t) = self.here()?;
        if t == "-" || t.starts_with("- ") {
            let mut v = Vec::new();
            while let Some((i, t)) = self.here() {
                if i != ind || !(t == "-" || t.starts_with("- ")) { break; }
                if t == "-" { self.at += 1; v.push(self.deeper(ind, false)?) }
                else { self.lines[self.at] = (ind + 2, t[2..].to_string()); v.push(self.block(ind + 2)?) }
            }
            return Some(V::Seq(v));
        }
        if !t.contains(':') { self.at += 1; return Some(V::S(t)); }
        let mut v: Vec<(String, V)> = Vec::new();
        while let Some((i, t)) = self.here() {
            if i != ind { break; }
            let c = t.find(':')?;
            let k = t[..c].to_string();
            if k.starts_with('-') || v.iter().any(|e| e.0 == k) { return None; }
            self.at += 1;
            v.push((k, if c + 1 == t.len() { self.deeper(ind, true)? } else { V::S(t[c + 2..].to_string()) }));
        }
        Some(V::Map(v))
    }
}
fn structure(s: &str) -> Option<V> {
    let mut lines = Vec::new();
    for l in s.lines().skip(1) {
        let l = match l.find('#') { Some(i) => &l[..i], None => l }.trim_end();
        let t = l.trim_start();
        if !t.is_empty() { lines.push((l.len() - t.len(), t.to_string())) }
    }
    let mut r = Read { at: 0, lines };
    let i = r.here()?.0;
    let v = r.block(i)?;
    if r.at < r.lines.len() || matches!(v, V::S(_)) { None } else { Some(v) }
}
fn menu(s: String) {
    let want = match structure(&s) { Some(w) => w, None => return };
    reach(0);
    out(&s);
    match parse_yaml_file(&s) {
        Ok(d) => check(data(top(&d).unwrap()) == want, "read as another structure"),
        Err(_) => check(!full(&want), "rejected"),
    }
}

harnesses! {
    h_c11_menu { menu(lines(BLOCKS, 5)) }
    h_c11_menu_comments { menu(lines(COMMENTS, 4)) }
    h_c11_broad { run(broad(7), 1, 1, 0, 0) }
    h_c11_broad_comment { run(broad(5), 1, 1, 2, 1) }
    h_c11_broad_empty { run_as(broad(4), 1, 1, 2, 1, true, 1 + pick(2)) }
    h_c11_broad_runs { run_as(broad(3), 1, 1, 2, 0, false, 2 + 3 * pick(2)) }
    h_c11_broad_blank { run_as(broad(3), 1, 1, 1, 0, false, 1 + 3 * pick(2)) }
    h_c11_broad_end { run(broad(3), 1, 1, 5, 0) }
    h_c11_plain { run(tree(3, 0), 1, 2, 0, 0) }
    h_c11_rich { run(tree(2, 2), 1, 2, 0, 0) }
    h_c11_widths { run(tree(2, 0), 2, 3, 0, 0) }
    h_c11_leaves { run(tree(2, 1), 1, 2, 0, 0) }
    h_c11_blank { run(tree(3, 0), 1, 1, 1, 0) }
    h_c11_blank2 { run(tree(2, 1), 1, 2, 4, 0) }
    h_c11_comment { run(tree(3, 0), 1, 1, 2, 0) }
    h_c11_comment0 { run(tree(2, 1), 1, 2, 3, 0) }
    h_c11_comment2 { run(tree(3, 0), 1, 1, 0, 1) }
    h_c11_end { run(tree(2, 2), 1, 1, 5, 0) }
    h_c11_mixed { run(tree(2, 1), 1, 2, 2, 1) }
}
deep! {
    t_c11_menu6 { menu(lines(BLOCKS, 6)) }
    t_c11_menu_comments5 { menu(lines(COMMENTS, 5)) }
    t_c11_broad_widths { run(broad(7), 2, 2, 0, 0) }
    t_c11_plain4 { run(tree(4, 0), 1, 2, 0, 0) }
    t_c11_widths3 { run(tree(3, 0), 2, 3, 0, 0) }
    t_c11_widths2 { run(tree(2, 2), 2, 3, 0, 0) }
    t_c11_leaves { run(tree(2, 3), 1, 1, pick(5), 0) }
    t_c11_rich3 { run(tree(3, 2), 1, 1, 0, 0) }
    t_c11_mixed3 { run(tree(3, 1), 1, 1, 2, 1) }
}
