//! Independent readings of parsed documents: plain data, strings, comments.
#![allow(dead_code)]
use yaml_subset::yaml::*;

/// What a document says, whatever style it is written in.
#[derive(PartialEq, Clone, Debug)]
pub enum V {
    /// a string
    S(String),
    /// a plain scalar that isn't a string: null, boolean or number, as written
    P(String),
    Seq(Vec<V>),
    Map(Vec<(String, V)>),
    Ref(String),
    /// named value
    Named(String, Box<V>),
}

/// Plain scalars that aren't strings, with one pass over the bytes.
pub fn special(s: &str) -> bool {
    let b = s.as_bytes();
    if b.is_empty() {
        return false;
    }
    if s == "~" || s == "null" || s == "Null" || s == "NULL" || s == "true" || s == "false" {
        return true;
    }
    let b = if b[0] == b'-' || b[0] == b'+' { &b[1..] } else { b };
    if b.eq_ignore_ascii_case(b"inf") || b.eq_ignore_ascii_case(b"infinity") || b.eq_ignore_ascii_case(b"nan") {
        return true;
    }
    let mut i = 0;
    let mut digits = 0;
    while i < b.len() && (b[i] >= b'0') & (b[i] <= b'9') {
        i += 1;
        digits += 1;
    }
    if i < b.len() && b[i] == b'.' {
        i += 1;
        while i < b.len() && (b[i] >= b'0') & (b[i] <= b'9') {
            i += 1;
            digits += 1;
        }
    }
    if digits == 0 {
        return false;
    }
    if i < b.len() && (b[i] | 0x20 == b'e') {
        i += 1;
        if i < b.len() && ((b[i] == b'-') | (b[i] == b'+')) {
            i += 1;
        }
        let from = i;
        while i < b.len() && (b[i] >= b'0') & (b[i] <= b'9') {
            i += 1;
        }
        if i == from {
            return false;
        }
    }
    i == b.len()
}
fn named(a: &AliasedYaml) -> V {
    let v = data(&a.value);
    match &a.alias {
        Some(n) => V::Named(n.clone(), Box::new(v)),
        None => v,
    }
}
pub fn data(y: &Yaml) -> V {
    match y {
        Yaml::UnquotedString(s) => if special(s) { V::P(s.clone()) } else { V::S(s.clone()) },
        Yaml::Anchor(n) => V::Ref(n.clone()),
        Yaml::Hash(v) => V::Map(v.iter().filter_map(|d| if let HashData::Element(e) = d { Some((e.key.clone(), named(&e.value))) } else { None }).collect()),
        Yaml::InlineHash(v) => V::Map(v.iter().map(|(k, v)| (k.clone(), data(v))).collect()),
        Yaml::Array(v) => V::Seq(v.iter().filter_map(|d| if let ArrayData::Element(e) = d { Some(named(e)) } else { None }).collect()),
        Yaml::InlineArray(v) => V::Seq(v.iter().map(data).collect()),
        _ => V::S(y.as_string().unwrap()),
    }
}

pub fn top(d: &Document) -> Option<&Yaml> {
    for i in &d.items {
        if let DocumentData::Yaml(y) = i {
            return Some(y);
        }
    }
    None
}
/// The `i`-th entry of a block or flow hash.
pub fn entry(y: &Yaml, i: usize) -> Option<(&str, &Yaml)> {
    match y {
        Yaml::Hash(v) => {
            let mut n = 0;
            for d in v {
                if let HashData::Element(e) = d {
                    if n == i {
                        return Some((&e.key, &e.value.value));
                    }
                    n += 1;
                }
            }
            None
        }
        Yaml::InlineHash(v) => v.get(i).map(|(k, v)| (k.as_str(), v)),
        _ => None,
    }
}
pub fn item(y: &Yaml, i: usize) -> Option<&Yaml> {
    match y {
        Yaml::Array(v) => {
            let mut n = 0;
            for d in v {
                if let ArrayData::Element(e) = d {
                    if n == i {
                        return Some(&e.value);
                    }
                    n += 1;
                }
            }
            None
        }
        Yaml::InlineArray(v) => v.get(i),
        _ => None,
    }
}
pub fn len(y: &Yaml) -> usize {
    match y {
        Yaml::Hash(v) => v.iter().filter(|d| matches!(d, HashData::Element(_))).count(),
        Yaml::InlineHash(v) => v.len(),
        Yaml::Array(v) => v.iter().filter(|d| matches!(d, ArrayData::Element(_))).count(),
        Yaml::InlineArray(v) => v.len(),
        _ => 0,
    }
}
/// Every comment, in order.
pub fn comments(d: &Document) -> Vec<String> {
    let mut v = d.leading_comments.clone();
    for i in &d.items {
        match i { DocumentData::Comment(c) => v.push(c.clone()), DocumentData::Yaml(y) => remarks(y, &mut v) }
    }
    v
}
pub fn remarks(y: &Yaml, to: &mut Vec<String>) {
    match y {
        Yaml::Hash(v) => for d in v {
            match d { HashData::Element(e) => remarks(&e.value.value, to), HashData::Comment(c) | HashData::InlineComment(c) => to.push(c.clone()) }
        },
        Yaml::Array(v) => for d in v {
            match d { ArrayData::Element(e) => remarks(&e.value, to), ArrayData::Comment(c) | ArrayData::InlineComment(c) => to.push(c.clone()) }
        },
        _ => (),
    }
}
