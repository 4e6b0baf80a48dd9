//! Documents laid out in every way.
#![allow(dead_code)]
use crate::model::*;
use crate::sym::*;
use crate::tree::ch;

pub enum N { S(String), FlowSeq(String), FlowMap(String), Lit(String), Fold(String), Seq(Vec<N>), Map(Vec<(&'static str, N)>), Named(&'static str, Box<N>) }
pub fn chr() -> String {
    let b = byte();
    assume((b >= b'a') & (b <= b'z'));
    (b as char).to_string()
}
pub fn leaf(flow: u8) -> N {
    if flow & 1 == 0 { return N::S(chr()); }
    match pick(5) { 0 => N::S(chr()), 1 => N::FlowSeq(chr()), 2 => N::FlowMap(chr()), 3 => N::Lit(chr()), _ => N::Fold(chr()) }
}
pub fn tree(depth: u8, flow: u8) -> N {
    let k = if depth == 0 { 0 } else { pick(3) };
    if k == 0 { return leaf(flow); }
    let c = tree(depth - 1, flow);
    let s = || N::S("x".to_string());
    let seq = || N::Seq(vec![s(), s()]);
    let map = || N::Map(vec![("m", s()), ("n", s())]);
    let rich = flow & 2 != 0;
    if k == 1 {
        N::Seq(match pick(if rich { 7 } else { 3 }) { 0 => vec![c], 1 => vec![c, s()], 2 => vec![s(), c], 3 => vec![c, seq()], 4 => vec![seq(), c], 5 => vec![c, map()], _ => vec![map(), c] })
    } else {
        N::Map(match pick(if rich { 7 } else { 3 }) { 0 => vec![("k", c)], 1 => vec![("k", c), ("l", s())], 2 => vec![("j", s()), ("k", c)], 3 => vec![("k", c), ("l", seq())], 4 => vec![("j", seq()), ("k", c)], 5 => vec![("k", c), ("l", map())], _ => vec![("j", map()), ("k", c)] })
    }
}
pub const NAMES: [&str; 9] = ["a", "long name", "c", "d-e", "f", "g", "h", "i", "j"];
fn coll(seq: bool, v: Vec<N>) -> N { if seq { N::Seq(v) } else { N::Map(v.into_iter().enumerate().map(|(i, n)| (NAMES[i], n)).collect()) } }
pub fn name(n: N) -> N { N::Named("nm", Box::new(n)) }
/// Up to `max` things in a collection in a collection; one of them is another collection.
pub fn broad(max: u8) -> N {
    let n = 1 + pick(max) as usize;
    let at = pick(n as u8) as usize;
    let s = || N::S("x".to_string());
    let c = match pick(6) { 0 => N::S(chr()), 1 => coll(flag(), vec![s(), N::S(chr())]), 2 => coll(flag(), vec![coll(flag(), vec![s(), N::S(chr())]), s()]), 3 => leaf(1), 4 => name(coll(flag(), vec![s(), name(s())])), _ => name(N::S(chr())) };
    let mut v: Vec<N> = (0..n).map(|_| s()).collect();
    v[at] = c;
    let y = coll(flag(), v);
    match pick(6) { 0 => y, 1 => N::Seq(vec![y, s()]), 2 => N::Map(vec![("k", y), ("l", s())]), 3 => N::Seq(vec![N::Map(vec![("k", y), ("l", s())]), s()]), 4 => N::Seq(vec![name(y), s()]), _ => N::Map(vec![("j", s()), ("k", name(y))]) }
}
pub fn model(n: &N) -> V {
    match n {
        N::S(s) => V::S(s.clone()),
        N::FlowSeq(s) => V::Seq(vec![V::S(s.clone()), V::S("y".to_string())]),
        N::FlowMap(s) => V::Map(vec![("f".to_string(), V::S(s.clone()))]),
        N::Lit(s) => V::S([s.as_str(), "\n\n- z: #\n"].concat()),
        N::Fold(s) => V::S([s.as_str(), " - y:"].concat()),
        N::Named(n, v) => V::Named(n.to_string(), Box::new(model(v))),
        N::Seq(v) => V::Seq(v.iter().map(model).collect()),
        N::Map(v) => V::Map(v.iter().map(|(k, n)| (k.to_string(), model(n))).collect()),
    }
}
/// How a document is laid out; the picks are made anew at every use.
pub struct Lay { pub s: String, pub gaps: u8, pub widths: u8, pub extra: u8, pub comment: u8, pub said: Vec<String>, pub empty: bool, pub run: u8 }
impl Lay {
    pub fn new(gaps: u8, widths: u8, extra: u8, comment: u8) -> Lay { Lay { s: String::from("---\n"), gaps, widths, extra, comment, said: Vec::new(), empty: false, run: 1 } }
    /// A comment that can be told from the others.
    pub fn say(&mut self) {
        let c = if self.empty { String::new() } else { [" c", &ch(b'a' + self.said.len() as u8)].concat() };
        self.s.push('#');
        self.s.push_str(&c);
        self.said.push(c);
    }
    pub fn pad(&mut self, n: usize) { for _ in 0..n { self.s.push(' ') } }
    pub fn end(&mut self) {
        if self.comment == 1 || self.comment == 2 && flag() { self.s.push(' '); self.say() }
        self.s.push('\n');
    }
    pub fn between(&mut self, ind: usize) { for _ in 0..self.run { self.one(ind) } }
    fn one(&mut self, ind: usize) {
        match self.extra {
            1 => self.s.push('\n'),
            2 => { self.pad(ind); self.say(); self.s.push('\n') }
            3 => { self.say(); self.s.push('\n') }
            6 => if flag() { self.pad(ind); self.say(); self.s.push('\n') },
            4 => { self.s.push_str("\n \n"); }
            _ => {}
        }
    }
    pub fn scalar(&mut self, n: &N, ind: usize) -> bool {
        match n {
            N::Lit(s) => { self.s.push_str("|\n"); self.pad(ind + 2); self.s.push_str(s); self.s.push_str("\n\n"); self.pad(ind + 2); self.s.push_str("- z: #\n"); return true }
            N::Fold(s) => { self.s.push_str(">-\n"); self.pad(ind + 1); self.s.push_str(s); self.s.push('\n'); self.pad(ind + 1); self.s.push_str("- y:\n"); return true }
            N::S(s) => self.s.push_str(s),
            N::FlowSeq(s) => { self.s.push('['); self.s.push_str(s); self.s.push_str(", y]") }
            N::FlowMap(s) => { self.s.push_str("{ f: "); self.s.push_str(s); self.s.push('}') }
            _ => return false,
        }
        self.end();
        true
    }
    pub fn block(&mut self, n: &N, ind: usize, compact: bool) {
        match n {
            N::Seq(v) => for (i, c) in v.iter().enumerate() {
                if i > 0 { self.between(ind) }
                if i > 0 || !compact { self.pad(ind) }
                self.s.push('-');
                let (c, named) = match c { N::Named(n, c) => { self.s.push_str(" &"); self.s.push_str(n); (&**c, true) } c => (c, false) };
                let gap = 1 + pick(self.gaps) as usize;
                if matches!(c, N::Seq(_) | N::Map(_)) && (named || pick(2) == 1) {
                    self.pad(1);
                    self.end();
                    let w = 1 + pick(self.widths) as usize;
                    self.block(c, ind + w, false);
                } else {
                    self.pad(gap);
                    if !self.scalar(c, ind) { self.block(c, ind + 1 + gap, true) }
                }
            },
            N::Map(v) => for (i, (k, c)) in v.iter().enumerate() {
                if i > 0 { self.between(ind) }
                if i > 0 || !compact { self.pad(ind) }
                self.s.push_str(k);
                self.s.push(':');
                let c = match c { N::Named(n, c) => { self.s.push_str(" &"); self.s.push_str(n); &**c } c => c };
                if matches!(c, N::Seq(_) | N::Map(_)) {
                    self.end();
                    let w = pick(self.widths + matches!(c, N::Seq(_)) as u8) as usize;
                    self.block(c, ind + w + matches!(c, N::Map(_)) as usize, false);
                } else {
                    self.pad(1);
                    self.scalar(c, ind);
                }
            },
            _ => {}
        }
    }
}
