//! C07: structured values survive serialization, in memory and as text.
use crate::any::{chain, full, keys, many, wide_text, Any};
use crate::sym::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::BTreeMap;
use yaml_subset::yaml::{from_yaml, from_yaml_str, Document, DocumentData, Pretty, YamlSerializer, YamlTypes};

fn rt<T: Serialize + DeserializeOwned + PartialEq>(v: T) {
    let y = match v.serialize(YamlSerializer) { Ok(y) => y, Err(_) => fail("serialization failed") };
    reach(0);
    match pick(4) {
        0 => match from_yaml::<T>(y) {
            Ok(w) => check(w == v, "the value changed"),
            Err(_) => fail("deserialization failed"),
        },
        1 => match from_yaml::<T>(y.pretty()) {
            Ok(w) => check(w == v, "the value changed after pretty"),
            Err(_) => fail("deserialization failed after pretty"),
        },
        k => {
            // a document is a collection
            if y.as_string().is_some() { return; }
            let d = Document { leading_comments: Vec::new(), items: vec![DocumentData::Yaml(y)] };
            let d = if k == 2 { d.pretty() } else { d };
            let t = d.format().unwrap();
            out(&t);
            match from_yaml_str::<T>(&t) {
                Ok(w) => check(w == v, "the value read back is another"),
                Err(_) => fail("the text does not read back"),
            }
        }
    }
}
fn s() -> String {
    let n = pick(2) as usize;
    asciis(n)
}
fn i() -> i8 { byte() as i8 }
fn vec<T>(max: u8, f: impl Fn() -> T) -> Vec<T> {
    let n = pick(max + 1);
    let mut v = Vec::new();
    for _ in 0..n { v.push(f()) }
    v
}
fn opt<T>(f: impl FnOnce() -> T) -> Option<T> { if flag() { Some(f()) } else { None } }

/// Bytes, as types like serde_bytes' have them.
#[derive(PartialEq)]
struct Bytes(Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&self.0) }
}
struct BytesVisitor;
impl<'de> serde::de::Visitor<'de> for BytesVisitor {
    type Value = Bytes;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("bytes") }
    fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<Bytes, E> { Ok(Bytes(v.to_vec())) }
    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Bytes, A::Error> {
        let mut v = Vec::new();
        while let Some(b) = a.next_element()? { v.push(b) }
        Ok(Bytes(v))
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Bytes, D::Error> { if flag() { d.deserialize_bytes(BytesVisitor) } else { d.deserialize_byte_buf(BytesVisitor) } }
}

fn s2() -> String { String::from(["", "a", "b c", "1"][pick(4) as usize]) }
#[derive(Serialize, Deserialize, PartialEq)]
enum E { Unit, Other, New(String), Num(i8), Opt(Option<i8>), List(Vec<bool>), Pair(bool, String), Fields { a: String, b: Option<bool> }, Nest(Box<E>), Void(()), One(Point) }
#[derive(Serialize, Deserialize, PartialEq)]
struct Point { x: i8, y: bool }
fn e(depth: u8) -> E {
    match pick(if depth > 0 { 11 } else { 10 }) {
        0 => E::Unit,
        1 => E::Other,
        2 => E::New(s()),
        3 => E::Num(i()),
        4 => E::Opt(opt(i)),
        5 => E::List(vec(2, flag)),
        6 => E::Pair(flag(), s()),
        7 => E::Fields { a: s(), b: opt(flag) },
        8 => E::Void(()),
        9 => E::One(Point { x: i(), y: flag() }),
        _ => E::Nest(Box::new(e(depth - 1))),
    }
}
/// The variants, with plain contents.
fn e0(depth: u8) -> E {
    match pick(if depth > 0 { 11 } else { 10 }) {
        0 => E::Unit,
        1 => E::Other,
        2 => E::New(String::from("a")),
        3 => E::Num(1),
        4 => E::Opt(opt(|| 3)),
        5 => E::List(vec(3, || true)),
        6 => E::Pair(true, String::from("b: c")),
        7 => E::Fields { a: String::from("1"), b: None },
        8 => E::Void(()),
        9 => E::One(Point { x: -1, y: false }),
        _ => E::Nest(Box::new(e0(depth - 1))),
    }
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(tag = "kind")]
enum I { Unit, Fields { a: String, b: i8 }, Point(Point) }
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(tag = "t", content = "c")]
enum A { Unit, New(String), Pair(i8, bool), Fields { a: Vec<bool> } }
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(untagged)]
enum U { Num(i64), Text(String), Pair(bool, String), Fields { a: String, b: Vec<U> }, List(Vec<U>) }
#[derive(Serialize, Deserialize, PartialEq)]
struct Unit;
#[derive(Serialize, Deserialize, PartialEq)]
struct New(String);
#[derive(Serialize, Deserialize, PartialEq)]
struct Two(i8, Option<String>);
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "kebab-case")]
struct Big {
    long_name: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    maybe: Option<bool>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    list: Vec<Point>,
    #[serde(flatten)]
    rest: Point,
}
#[derive(Serialize, Deserialize, PartialEq)]
struct Deep { a: BTreeMap<String, Vec<Two>>, b: Option<Box<Deep>>, c: Vec<Vec<Vec<bool>>> }
#[derive(Serialize, Deserialize, PartialEq)]
struct W<X> { w: X, z: bool }
fn w<X>(x: X) -> W<X> { W { w: x, z: true } }
fn map<K: Ord, X>(kv: Vec<(K, X)>) -> BTreeMap<K, X> { kv.into_iter().collect() }
fn u(depth: u8) -> U {
    match pick(if depth > 0 { 5 } else { 3 }) {
        0 => U::Num(byte() as i64),
        1 => U::Text(s()),
        2 => U::Pair(flag(), s()),
        3 => U::Fields { a: String::from("x"), b: vec(1, || u(depth - 1)) },
        _ => U::List(vec(2, || u(0))),
    }
}

/// A document is a collection.
fn any_root(a: Any) -> Any { if matches!(a, Any::Seq(_) | Any::Map(_)) { a } else { Any::Seq(vec![a]) } }

harnesses! {
    h_c07_bytes { rt(Bytes(vec(3, byte))) }
    h_c07_bytes_in { rt(map(vec![(String::from("a"), (Bytes(vec(1, byte)), opt(|| Bytes(vec(2, || 7)))))])) }
    h_c07_any { rt(any_root(full(2, 0))) }
    h_c07_any_leaf { rt(any_root(full(1, 8))) }
    h_c07_any_chain { rt(any_root(chain(3, 0))) }
    h_c07_any_leaves { rt(any_root(chain(2, 8))) }
    h_c07_any_many { rt(any_root(many(14, 0))) }
    h_c07_any_long { rt(any_root(wide_text())) }
    h_c07_any_keys { rt(any_root(keys(1))) }
    h_c07_any_keys2 { rt(any_root(Any::Seq(vec![keys(2)]))) }
    h_c07_btree { let (k, l) = (of_n("abAB_1", 1), of_n("abAB_1", 2)); let mut m = BTreeMap::new(); m.insert(k, true); m.insert(l, false); rt(m) }
    h_c07_enum { rt(e(1)) }
    h_c07_enum_field { rt(w(e(0))) }
    h_c07_enum_vec { rt(vec![e(0), E::Unit]) }
    h_c07_enum_vec2 { rt(w(vec![e0(1), e0(0)])) }
    h_c07_enum_opt { rt(vec![opt(|| e0(1)), None]) }
    h_c07_enum_map { rt(map(vec![(String::from("k"), e0(1)), (String::from("l"), e0(0))])) }
    h_c07_enum_tuple { rt((e0(1), e0(0), true)) }
    h_c07_enum_vecs { rt(vec![vec(2, || e0(0)), vec![]]) }
    h_c07_enum_struct { rt(w(w(e0(1)))) }
    h_c07_enum_array { rt(vec![w(vec![e0(0)])]) }
    h_c07_enum_tuples { rt(vec![(e0(0), opt(|| w(vec(1, || e0(0)))))]) }
    h_c07_enum_first { rt((true, vec![(e0(1), true)])) }
    h_c07_enum_box { rt(E::Nest(Box::new(E::Nest(Box::new(e0(1)))))) }
    h_c07_structs { rt(vec(3, || w(vec(3, || Point { x: 1, y: true })))) }
    h_c07_structs2 { rt(map(vec![(String::from("a"), vec(3, || New(s2()))), (String::from("b"), vec(2, || New(s2())))])) }
    h_c07_vecs { rt(w(vec(3, || vec(2, || vec(1, || String::from("a")))))) }
    h_c07_opts { rt(vec(4, || opt(|| vec(1, || opt(|| true))))) }
    h_c07_tuple_many { rt(((1i8, s2(), vec(2, || true)), (s2(), vec(2, || Point { x: 2, y: false })), opt(|| (true, s2())))) }
    h_c07_maps_many { let n = pick(9); rt((0..n).map(|k| (k * 3, vec(1, || k))).collect::<BTreeMap<u8, Vec<u8>>>()) }
    h_c07_internal { rt(vec![match pick(3) { 0 => I::Unit, 1 => I::Fields { a: s(), b: i() }, _ => I::Point(Point { x: i(), y: flag() }) }]) }
    h_c07_adjacent { rt(w(match pick(4) { 0 => A::Unit, 1 => A::New(s()), 2 => A::Pair(i(), flag()), _ => A::Fields { a: vec(2, flag) } })) }
    h_c07_untagged { rt(u(1)) }
    h_c07_untagged_vec { rt(vec![u(0), U::Text(String::from("b"))]) }
    h_c07_units { rt((Unit, New(s()), Two(i(), opt(s)))) }
    h_c07_two { rt(w(Two(i(), opt(s)))) }
    h_c07_big { rt(Big { long_name: s(), maybe: opt(flag), list: vec(2, || Point { x: 1, y: flag() }), rest: Point { x: i(), y: true } }) }
    h_c07_big_vec { rt(vec![Big { long_name: String::from("n"), maybe: opt(flag), list: vec(1, || Point { x: 1, y: flag() }), rest: Point { x: 0, y: true } }, Big { long_name: s(), maybe: None, list: vec![], rest: Point { x: 0, y: true } }]) }
    h_c07_deep { rt(Deep { a: map(vec![(String::from("k"), vec(1, || Two(1, opt(s)))), (String::from("l"), vec![])]), b: opt(|| Box::new(Deep { a: map(vec![]), b: None, c: vec![] })), c: vec(2, || vec(2, || vec![])) }) }
    h_c07_deep2 { rt(Deep { a: map(vec![]), b: None, c: vec(1, || vec(2, || vec(2, flag))) }) }
    h_c07_deep3 { rt(Deep { a: map(vec![]), b: None, c: vec(2, || vec(1, || vec(1, flag))) }) }
    h_c07_keys_int { rt(map(vec![(byte(), true), (byte(), false)])) }
    h_c07_keys_bool { rt(map(vec![(flag(), s())])) }
    h_c07_keys_enum { #[derive(Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)] enum K { A, B } rt(map(vec![(K::A, s()), (K::B, String::new())])) }
    h_c07_maps { rt(map(vec![(String::from("a"), map(vec![(String::from("b"), vec(2, s))])), (String::from("c"), map(vec![]))])) }
    h_c07_tuples { rt(((i(), flag()), (s(),), vec![(true, vec(1, flag))], ())) }
    h_c07_array { rt(w([flag(), flag()])) }
}
deep! {
    t_c07_any3 { rt(any_root(chain(4, 2))) }
    t_c07_any_leaves3 { rt(any_root(chain(3, 8))) }
    t_c07_any_full { rt(any_root(full(2, 8))) }
    t_c07_any_many { rt(any_root(many(30, 8))) }
}
