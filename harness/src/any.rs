//! Untyped data, as serde gives it.
#![allow(dead_code)]
use serde::de::{Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};

#[derive(PartialEq, Clone)]
pub enum Any { Null, Bool(bool), Int(i64), Nat(u64), Float(u64), Text(String), Seq(Vec<Any>), Map(Vec<(String, Any)>) }
struct AnyVisitor;
impl<'de> Visitor<'de> for AnyVisitor {
    type Value = Any;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("anything") }
    fn visit_unit<E>(self) -> Result<Any, E> { Ok(Any::Null) }
    fn visit_none<E>(self) -> Result<Any, E> { Ok(Any::Null) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> { d.deserialize_any(AnyVisitor) }
    fn visit_bool<E>(self, b: bool) -> Result<Any, E> { Ok(Any::Bool(b)) }
    fn visit_i64<E>(self, v: i64) -> Result<Any, E> { Ok(Any::Int(v)) }
    fn visit_u64<E>(self, v: u64) -> Result<Any, E> { Ok(Any::Nat(v)) }
    fn visit_f64<E>(self, v: f64) -> Result<Any, E> { Ok(Any::Float(v.to_bits())) }
    fn visit_str<E>(self, s: &str) -> Result<Any, E> { Ok(Any::Text(s.to_string())) }
    fn visit_string<E>(self, s: String) -> Result<Any, E> { Ok(Any::Text(s)) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element()? { v.push(x) }
        Ok(Any::Seq(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
        let mut v = Vec::new();
        while let Some(k) = a.next_key::<String>()? { let x = a.next_value()?; v.push((k, x)) }
        Ok(Any::Map(v))
    }
}
impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Any, D::Error> { d.deserialize_any(AnyVisitor) }
}
impl serde::Serialize for Any {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{SerializeMap, SerializeSeq};
        match self {
            Any::Null => s.serialize_unit(),
            Any::Bool(b) => s.serialize_bool(*b),
            Any::Int(i) => s.serialize_i64(*i),
            Any::Nat(n) => s.serialize_u64(*n),
            Any::Float(f) => s.serialize_f64(f64::from_bits(*f)),
            Any::Text(t) => s.serialize_str(t),
            Any::Seq(v) => {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for e in v { q.serialize_element(e)? }
                q.end()
            }
            Any::Map(v) => {
                let mut m = s.serialize_map(Some(v.len()))?;
                for (k, e) in v { m.serialize_entry(k, e)? }
                m.end()
            }
        }
    }
}
use crate::sym::*;
pub fn text(s: &str) -> Any { Any::Text(s.to_string()) }
pub fn leaf(kinds: u8) -> Any {
    if kinds == 0 { return if flag() { Any::Null } else { text("x") }; }
    match pick(kinds) { 0 => Any::Text(asciis(1)), 1 => Any::Null, 2 => text("a b"), 3 => Any::Bool(flag()), 4 => Any::Int(-7), 5 => text(""), 6 => text("1"), _ => text("x\ny") }
}
fn both(seq: bool, v: Vec<Any>) -> Any {
    if seq { Any::Seq(v) } else { Any::Map(v.into_iter().enumerate().map(|(i, a)| (["k", "l", "m n", "o", "p", "q", "r"][i].to_string(), a)).collect()) }
}
/// Collections in collections; one thing in every collection goes on.
pub fn chain(depth: u8, kinds: u8) -> Any {
    if depth == 0 { return leaf(kinds); }
    let seq = flag();
    match pick(7) {
        0 => both(seq, vec![]),
        1 => both(seq, vec![chain(depth - 1, kinds)]),
        2 => both(seq, vec![chain(depth - 1, kinds), text("y")]),
        3 => both(seq, vec![text("y"), chain(depth - 1, kinds)]),
        4 => both(seq, vec![both(false, vec![]), chain(depth - 1, kinds), both(true, vec![])]),
        5 => both(seq, vec![both(true, vec![text("a")]), chain(depth - 1, kinds), both(false, vec![text("b"), Any::Null])]),
        _ => both(seq, vec![both(false, vec![both(true, vec![Any::Int(1), Any::Null])]), chain(depth - 1, kinds)]),
    }
}
/// Up to two things, each of any kind.
pub fn full(depth: u8, kinds: u8) -> Any {
    if depth == 0 || flag() { return leaf(kinds); }
    let seq = flag();
    match pick(3) { 0 => both(seq, vec![]), 1 => both(seq, vec![full(depth - 1, kinds)]), _ => both(seq, vec![full(depth - 1, kinds), full(depth - 1, kinds)]) }
}
/// Many things.
pub fn many(n: u8, kinds: u8) -> Any {
    let n = pick(n) as usize;
    let at = pick(3) as usize;
    let c = chain(1, kinds);
    let mut v: Vec<Any> = Vec::new();
    let e = [Any::Int(1), text("word"), both(false, vec![text("x")])][pick(3) as usize].clone();
    for i in 0..n { v.push(if i == at { c.clone() } else { e.clone() }) }
    let seq = flag() || n > 7;
    both(seq, v)
}
/// Strings of any length in collections.
pub fn wide_text() -> Any {
    let mut s = asciis(1);
    let long = 70 + pick(26) as usize;
    let w = ["w", "w ", "wv-"][pick(3) as usize];
    while s.len() < long { s.push_str(w) }
    s.push_str(&of_n(" w.:'", 1));
    match pick(4) { 0 => both(false, vec![text(&s)]), 1 => both(true, vec![text(&s)]), 2 => both(true, vec![both(true, vec![text(&s), text("v")])]), _ => both(true, vec![both(false, vec![text("v"), both(true, vec![text(&s)])])]) }
}
/// Two keys of the same or another name, whatever their order or case.
pub fn keys(n: usize) -> Any {
    let (k, l) = (of_n("abcABC_12", n), of_n("abcABC_12", n));
    assume(k != l);
    Any::Map(vec![(k, Any::Int(1)), (l, text("x"))])
}
