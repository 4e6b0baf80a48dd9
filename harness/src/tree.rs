//! Symbolic documents and paths, and an independent walk along a path.
#![allow(dead_code)]
use crate::sym::*;
use yaml_subset::yaml::{string::*, BlockChomping, AliasedYaml, ArrayData, HashData, HashElement, Yaml};
use yaml_subset::YamlPath;

pub fn ch(b: u8) -> String { (b as char).to_string() }
pub fn al(y: Yaml) -> AliasedYaml { AliasedYaml { alias: None, value: y } }
pub fn named(n: &str, y: Yaml) -> AliasedYaml { AliasedYaml { alias: Some(n.to_string()), value: y } }
pub fn un(s: &str) -> Yaml { Yaml::UnquotedString(s.to_string()) }
pub fn sq(s: &str) -> Yaml { Yaml::SingleQuotedString(vec![SingleQuotedStringPart::String(s.to_string())]) }
pub fn el(k: &str, y: Yaml) -> HashData { HashData::Element(HashElement { key: k.to_string(), value: al(y) }) }
pub fn it(y: Yaml) -> ArrayData { ArrayData::Element(al(y)) }
pub fn hc(s: &str) -> HashData { HashData::Comment(s.to_string()) }
pub fn hic(s: &str) -> HashData { HashData::InlineComment(s.to_string()) }
pub fn ac(s: &str) -> ArrayData { ArrayData::Comment(s.to_string()) }
pub fn aic(s: &str) -> ArrayData { ArrayData::InlineComment(s.to_string()) }

pub const KEYS: &str = "abc";
pub const VALS: &str = "xyz";
/// A key that isn't among the ones given.
pub fn fresh(not: &[u8]) -> u8 {
    let k = of(KEYS);
    for &n in not { assume(k != n) }
    k
}
pub fn scalar() -> Yaml {
    let v = ch(of(VALS));
    match pick(2) { 0 => un(&v), _ => sq(&v) }
}

/// Symbolic documents: keys, scalars, order, comments and shape vary.
pub fn hash(depth: u8) -> Yaml {
    let (k, l) = (of(KEYS), of(KEYS));
    assume(k != l);
    let mut v = vec![hc(" one"), el(&ch(k), value(depth - 1)), hic(" two"), el(&ch(l), scalar())];
    if flag() { v.swap(1, 3) }
    Yaml::Hash(v)
}
pub fn array(depth: u8) -> Yaml {
    let v = value(depth - 1);
    match pick(3) {
        0 => Yaml::Array(vec![ac(" one"), it(v), aic(" two"), ac(" three"), it(small())]),
        1 => Yaml::Array(vec![it(small()), ac(" two"), it(v)]),
        _ => Yaml::InlineArray(vec![un("x"), v]),
    }
}
pub fn small() -> Yaml { Yaml::Hash(vec![el(&ch(of(KEYS)), un(&ch(of(VALS))))]) }
pub fn value(depth: u8) -> Yaml {
    match if depth == 0 { pick(2) } else { 2 + pick(2) } {
        0 => scalar(),
        1 => Yaml::InlineHash(vec![("a".to_string(), un("x"))]),
        2 => hash(depth),
        _ => array(depth),
    }
}
/// A document with a hash where the path has a key and an array where it has an index; keys, order, comments and scalars vary.
pub fn along(st: &[Step]) -> Yaml {
    if st.is_empty() { return if flag() { scalar() } else { small() } }
    let v = along(&st[1..]);
    if st[0].kind == Kind::Key {
        let (k, l) = (of(KEYS), of(KEYS));
        assume(k != l);
        let mut w = vec![hc(" one"), el(&ch(k), v), hic(" two"), el(&ch(l), un(&ch(of(VALS))))];
        if flag() { w.swap(1, 3) }
        Yaml::Hash(w)
    } else {
        match pick(3) {
            0 => Yaml::Array(vec![ac(" one"), it(v), aic(" two"), it(small())]),
            1 => Yaml::Array(vec![it(small()), ac(" two"), it(v)]),
            _ => Yaml::InlineArray(vec![small(), v]),
        }
    }
}

/// A value in each style, with and without the given text.
pub fn styled(s: &str) -> Yaml {
    match pick(9) {
        0 => un(s),
        1 => sq(s),
        2 => Yaml::DoubleQuotedString(vec![DoubleQuotedStringPart::String(s.to_string())]),
        3 => Yaml::LiteralString(vec![s.to_string()], BlockChomping::Strip),
        4 => Yaml::FoldedString(vec![s.to_string()], BlockChomping::Strip),
        5 => Yaml::LiteralString(vec![s.to_string()], BlockChomping::Keep),
        6 => Yaml::InlineArray(vec![un(s)]),
        7 => Yaml::Hash(vec![el("a", un(s))]),
        _ => Yaml::Anchor(s.to_string()),
    }
}

/// The same document in other clothes: every value named, comments everywhere, more elements before
/// or after, the scalars in another style, everything in flow values.
pub fn dressed(y: Yaml) -> Yaml { dress(y, pick(12)) }
pub fn dress(y: Yaml, k: u8) -> Yaml {
    let name = |a: AliasedYaml| AliasedYaml { alias: if k == 1 || k == 4 { Some("n".to_string()) } else { a.alias }, value: dress(a.value, k) };
    let comments = k == 2 || k == 4;
    match y {
        Yaml::Hash(v) => {
            let mut o = Vec::new();
            if k == 5 { for c in ["f", "g", "h", "i", "j"] { o.push(el(c, un("w"))) } }
            for d in v {
                match d {
                    HashData::Element(e) => {
                        if comments { o.push(hc(" before")); o.push(hc("")) }
                        o.push(HashData::Element(HashElement { key: e.key, value: name(e.value) }));
                        if comments { o.push(hic(" after")) }
                    }
                    d => o.push(d),
                }
            }
            if comments { o.push(hc(" last")); o.push(hc(" of all")) }
            if k == 3 { for c in ["f", "g", "h", "i", "j"] { o.push(el(c, un("w"))) } }
            if k == 11 { return Yaml::InlineHash(o.into_iter().filter_map(|d| match d { HashData::Element(e) => Some((e.key, e.value.value)), _ => None }).collect()); }
            Yaml::Hash(o)
        }
        Yaml::Array(v) => {
            let mut o = Vec::new();
            if k == 5 { for c in ["u", "v", "w"] { o.push(it(un(c))) } }
            for d in v {
                match d {
                    ArrayData::Element(e) => {
                        if comments { o.push(ac(" before")); o.push(ac("")) }
                        o.push(ArrayData::Element(name(e)));
                        if comments { o.push(aic(" after")) }
                    }
                    d => o.push(d),
                }
            }
            if comments { o.push(ac(" last")); o.push(ac(" of all")) }
            if k == 3 { for c in ["u", "v", "w"] { o.push(it(un(c))) } }
            if k == 11 { return Yaml::InlineArray(o.into_iter().filter_map(|d| match d { ArrayData::Element(e) => Some(e.value), _ => None }).collect()); }
            Yaml::Array(o)
        }
        Yaml::InlineArray(v) => {
            let mut o: Vec<Yaml> = v.into_iter().map(|y| dress(y, k)).collect();
            if k == 3 { for c in ["u", "v", "w"] { o.push(un(c)) } }
            Yaml::InlineArray(o)
        }
        Yaml::InlineHash(v) => {
            let mut o: Vec<(String, Yaml)> = v.into_iter().map(|(n, y)| (n, dress(y, k))).collect();
            if k == 3 { for c in ["f", "g", "h"] { o.push((c.to_string(), un("w"))) } }
            Yaml::InlineHash(o)
        }
        Yaml::UnquotedString(s) => match k {
            6 => Yaml::Anchor(s),
            7 => Yaml::LiteralString(vec![s], BlockChomping::Strip),
            8 => Yaml::FoldedString(vec![s, "b".to_string()], BlockChomping::Keep),
            9 => Yaml::SingleQuotedString(vec![SingleQuotedStringPart::String(s), SingleQuotedStringPart::EscapedChar(SingleQuotedStringEscapedChar::SingleQuote)]),
            10 => Yaml::DoubleQuotedString(vec![DoubleQuotedStringPart::String(s)]),
            _ => Yaml::UnquotedString(s),
        },
        Yaml::SingleQuotedString(p) => match k {
            6 => Yaml::InlineHash(Vec::new()),
            7 => Yaml::Array(Vec::new()),
            8 => Yaml::Hash(Vec::new()),
            9 => Yaml::SingleQuotedString(Vec::new()),
            10 => Yaml::LiteralString(vec!["x".to_string(), String::new(), "y".to_string()], BlockChomping::Clip),
            _ => Yaml::SingleQuotedString(p),
        },
        y => y,
    }
}
/// Up to `n` conditions.
pub fn conditions(mut s: Step, n: u8) -> Step {
    for _ in 0..pick(n + 1) { let (f, v) = (ch(of(KEYS)), ch(of(VALS))); s = s.when(&f, &v) }
    s
}
/// A hash with every key there is.
pub fn full() -> Yaml {
    Yaml::Hash(vec![hc(" c"), el("a", un(&ch(of(VALS)))), el("b", sq(&ch(of(VALS)))), hic(" d"), el("c", un(&ch(of(VALS)))), el("d", small())])
}
/// Every kind of step, with many conditions, and a document it fits.
pub fn conditional() -> (Yaml, Vec<Step>) {
    let last = key(["a", "d", "e"][pick(3) as usize]);
    match pick(5) {
        0 => (full(), vec![conditions(root(), 3)]),
        1 => (full(), vec![conditions(last, 4)]),
        2 => (Yaml::Hash(vec![el("q", full())]), vec![key("q"), conditions(last, 3)]),
        3 => (Yaml::Array(vec![it(full()), ac(" c"), it(un("x"))]), vec![conditions(if flag() { all() } else { index(vec![0]) }, 3), last]),
        _ => (Yaml::InlineArray(vec![full()]), vec![conditions(if flag() { all() } else { index(vec![0]) }, 3)]),
    }
}

/// Keys and texts of conditions, alike in their first letters, case or in being numbers.
pub const WORDS: [&str; 10] = ["a", "ab", "b", "A", "a b", "a-", "\u{e9}", "a\u{e9}", "1", "01"];
fn word(i: u8) -> &'static str { WORDS[(i % 10) as usize] }
/// A hash with five of the words, each with the next one as text.
fn words_hash(i: u8) -> Yaml { Yaml::Hash((i..i + 5).map(|k| el(word(k), if k % 2 == 0 { un(word(k + 1)) } else { sq(word(k + 1)) })).collect()) }
/// A hash of words, the path a word with a condition on words.
pub fn worded() -> (Yaml, Vec<Step>) {
    let i = pick(10);
    let k = key(WORDS[pick(10) as usize]);
    match pick(5) {
        0 => (words_hash(i), vec![k]),
        1 => (Yaml::Hash(vec![el(word(i), words_hash(i)), hc(" c"), el(word(i + 1), words_hash(i + 1)), el(word(i + 2), words_hash(i + 3))]), vec![k, key(word(i + 2))]),
        2 => (words_hash(i), vec![key("a").when(&k.key, WORDS[pick(10) as usize])]),
        3 => (Yaml::Array(vec![it(words_hash(i)), it(words_hash(i + 1))]), vec![all().when(word(i + 1), word(pick(10))), k]),
        _ => (Yaml::Array(vec![it(words_hash(i)), it(words_hash(i + 1))]), vec![index(vec![1]).when(&k.key, word(pick(3) + i)), key("b")]),
    }
}
/// Many elements, with comments between, and indexes anywhere, repeated or too large.
pub fn crowd() -> (Yaml, Vec<Step>) {
    let (n, from) = (pick(16), pick(3));
    let flow = flag();
    let mut v = Vec::new();
    for i in 0..n {
        if from > 0 && i % 4 == from { v.push(ac(" c")); if from == 2 { v.push(ac("")) } }
        v.push(it(Yaml::Hash(vec![el("a", un(WORDS[i as usize % 10])), el("b", Yaml::Array(Vec::new()))])));
        if from > 0 && i % 3 == from { v.push(aic(" d")) }
    }
    let i = pick(18) as usize;
    let ix = match pick(4) { 0 => vec![i], 1 => vec![i, 0, 12], 2 => vec![11, i, i], _ => vec![2, 1, i] };
    let s = if flag() { all().when("a", word(i as u8)) } else { index(ix) };
    let y = if flow { Yaml::InlineArray(v.into_iter().filter_map(|d| match d { ArrayData::Element(e) => Some(e.value), _ => None }).collect()) } else { Yaml::Array(v) };
    if flag() { (y, vec![s, key("a")]) } else { (Yaml::Hash(vec![el("l", y)]), vec![key("l"), s, key("b")]) }
}
/// A hash with many fields, and a path with one of them, or none.
pub fn fields() -> (Yaml, Vec<Step>) {
    let mut v = Vec::new();
    for i in 0..14u8 {
        let k = ["k", WORDS[i as usize % 10], if i < 10 { "" } else { "x" }].concat();
        v.push(el(&k, Yaml::Hash(vec![el("a", un("x"))])));
        if i % 3 == 1 { v.push(hic(" c")) }
        if i % 4 == 1 { v.push(hc(" d")) }
    }
    let n = 1 + pick(v.len() as u8) as usize;
    v.truncate(n);
    let k = ["k", WORDS[pick(10) as usize], if flag() { "" } else { "x" }].concat();
    (Yaml::Hash(v), if flag() { vec![key(&k)] } else { vec![key(&k), key("a")] })
}
/// A long path, and the values along it: hashes, arrays and flow arrays in any order.
pub fn deep() -> (Yaml, Vec<Step>) {
    let n = 1 + pick(12);
    let (a, b) = (pick(5), pick(3));
    let mut y = Yaml::Hash(vec![el("z", un("x"))]);
    let mut st = vec![key("z")];
    for i in 0..n {
        y = match if i % 3 == b { a } else { i % 4 } {
            0 => { st.insert(0, key("k")); Yaml::Hash(vec![el("j", un("x")), hic(" c"), el("k", y)]) }
            1 => { st.insert(0, index(vec![0])); Yaml::Array(vec![ac(" c"), it(y), aic(" d")]) }
            2 => { st.insert(0, all()); Yaml::Array(vec![it(un("x")), it(y)]) }
            3 => { st.insert(0, index(vec![1])); Yaml::InlineArray(vec![un("x"), y]) }
            _ => { st.insert(0, key("j").when("k", "x")); Yaml::Hash(vec![el("k", un("x")), HashData::Element(HashElement { key: "j".to_string(), value: named("n", y) })]) }
        };
    }
    (y, st)
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Root, Key, All, Index }
#[derive(Clone)]
pub struct Step { pub kind: Kind, pub key: String, pub index: Vec<usize>, pub conds: Vec<(String, String)> }
pub fn key(k: &str) -> Step { Step { kind: Kind::Key, key: k.to_string(), index: Vec::new(), conds: Vec::new() } }
pub fn all() -> Step { Step { kind: Kind::All, ..key("") } }
pub fn index(i: Vec<usize>) -> Step { Step { kind: Kind::Index, index: i, ..key("") } }
pub fn root() -> Step { Step { kind: Kind::Root, ..key("") } }
impl Step {
    pub fn when(mut self, f: &str, v: &str) -> Step { self.conds.push((f.to_string(), v.to_string())); self }
    fn cond_text(&self) -> String { self.conds.iter().map(|(f, v)| ["|", f.as_str(), "=", v.as_str()].concat()).collect::<Vec<_>>().concat() }
    pub fn path(&self) -> YamlPath {
        match self.kind {
            Kind::Root => self.cond_text().parse().unwrap(),
            Kind::Key => [self.key.as_str(), &self.cond_text()].concat().parse().unwrap(),
            Kind::All => match self.conds.is_empty() {
                true => YamlPath::AllIndexes(Vec::new(), None),
                _ => tail(["q[*]", &self.cond_text()].concat().parse().unwrap()),
            },
            Kind::Index => match self.conds.is_empty() {
                true => YamlPath::Indexes(self.index.clone(), Vec::new(), None),
                _ => match tail(["q[0]", &self.cond_text()].concat().parse().unwrap()) {
                    YamlPath::Indexes(_, c, r) => YamlPath::Indexes(self.index.clone(), c, r),
                    _ => fail("path"),
                },
            },
        }
    }
}
fn tail(p: YamlPath) -> YamlPath { match p { YamlPath::Key(_, _, Some(r)) => *r, _ => fail("path") } }
pub fn path(steps: &[Step]) -> YamlPath {
    let mut p = YamlPath::Root(Vec::new());
    for s in steps { p.insert(s.path()) }
    p
}
/// A symbolic step: a key, all or some elements, with or without a condition.
pub fn step(conds: bool) -> Step {
    let s = match pick(4) {
        0 => key(&ch(of(KEYS))),
        1 => all(),
        2 => index(vec![pick(3) as usize]),
        _ => index(vec![1, 0]),
    };
    if conds && flag() { let (f, v) = (ch(of(KEYS)), ch(of(VALS))); s.when(&f, &v) } else { s }
}

pub fn steps(n: u8, conds: bool) -> Vec<Step> { (0..n).map(|_| step(conds)).collect() }

/// The string of a scalar in these documents.
pub fn text(y: &Yaml) -> Option<&str> {
    match y {
        Yaml::UnquotedString(s) => Some(s),
        Yaml::DoubleQuotedString(p) if p.len() == 1 => match p.first() { Some(DoubleQuotedStringPart::String(s)) => Some(s), _ => None },
        Yaml::LiteralString(l, BlockChomping::Strip) | Yaml::FoldedString(l, BlockChomping::Strip) if l.len() == 1 => Some(&l[0]),
        Yaml::SingleQuotedString(p) if p.len() == 1 => match p.first() { Some(SingleQuotedStringPart::String(s)) => Some(s), _ => None },
        _ => None,
    }
}
pub fn find<'a>(v: &'a [HashData], k: &str) -> Option<usize> {
    for i in 0..v.len() { if let HashData::Element(e) = &v[i] { if e.key == k { return Some(i); } } }
    None
}
pub fn get<'a>(y: &'a Yaml, k: &str) -> Option<&'a AliasedYaml> {
    match y {
        Yaml::Hash(v) => find(v, k).map(|i| match &v[i] { HashData::Element(e) => &e.value, _ => fail("find") }),
        _ => None,
    }
}
pub fn fits(y: &Yaml, s: &Step) -> bool {
    for (f, v) in &s.conds {
        match get(y, f) { Some(a) => if text(&a.value) != Some(v) { return false; }, None => return false }
    }
    true
}
/// Calls `at` with every value the path leads to: the hash and the last step if that is a key, else the value itself.
pub fn walk(y: &mut Yaml, st: &[Step], at: &mut dyn FnMut(&mut Yaml, Option<&Step>)) {
    if st.is_empty() { at(y, None); return; }
    let s = &st[0];
    match s.kind {
        Kind::Root => if fits(y, s) { at(y, None) },
        Kind::Key => if fits(y, s) {
            if st.len() == 1 { at(y, Some(s)); return; }
            if let Yaml::Hash(v) = y {
                if let Some(i) = find(v, &s.key) { if let HashData::Element(e) = &mut v[i] { walk(&mut e.value.value, &st[1..], at) } }
            }
        },
        _ => {
            let mut els: Vec<&mut Yaml> = Vec::new();
            match y {
                Yaml::InlineArray(v) => for e in v.iter_mut() { els.push(e) },
                Yaml::Array(v) => for e in v.iter_mut() { if let ArrayData::Element(a) = e { els.push(&mut a.value) } },
                _ => return,
            }
            let which: Vec<usize> = if s.kind == Kind::All { (0..els.len()).collect() } else { s.index.clone() };
            for i in which { if i < els.len() && fits(els[i], s) { walk(els[i], &st[1..], at) } }
        }
    }
}
