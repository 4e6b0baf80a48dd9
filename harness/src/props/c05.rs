//! C05: values survive serialization to text and back.
use crate::any::{chain, full, keys, many, wide_text, Any};
use crate::sym::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::BTreeMap;
use yaml_subset::yaml::{from_yaml_str, Document, DocumentData, Pretty, YamlSerializer};

fn rt<T: Serialize + DeserializeOwned + PartialEq>(v: T) {
    let y = match v.serialize(YamlSerializer) { Ok(y) => y, Err(_) => fail("serialization failed") };
    let d = Document { leading_comments: Vec::new(), items: vec![DocumentData::Yaml(y)] };
    let d = if flag() { d.pretty() } else { d };
    let t = d.format().unwrap();
    reach(0);
    out(&t);
    match from_yaml_str::<T>(&t) {
        Ok(w) => check(w == v, "the value changed"),
        Err(_) => fail("the text does not read back"),
    }
}
fn any(max: usize) -> String {
    let n = pick(max as u8 + 1) as usize;
    asciis(n)
}
#[derive(Serialize, Deserialize, PartialEq)]
struct S { a: String, b: i64, c: Option<String> }
#[derive(Serialize, Deserialize, PartialEq)]
struct T { s: S, v: Vec<S>, z: bool }
#[derive(Serialize, Deserialize, PartialEq)]
struct W<X> { w: X, z: i64 }
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(untagged)]
enum U { Unit(()), Bool(bool), Int(i64), Float(f64), Text(String), List(Vec<U>) }
fn w<X>(x: X) -> W<X> { W { w: x, z: 1 } }

/// A document is a collection.
fn any_root(a: Any) -> Any { if matches!(a, Any::Seq(_) | Any::Map(_)) { a } else { Any::Seq(vec![a]) } }

harnesses! {
    h_c05_any { rt(any_root(full(2, 0))) }
    h_c05_any_leaf { rt(any_root(full(1, 8))) }
    h_c05_any_chain { rt(any_root(chain(3, 0))) }
    h_c05_any_leaves { rt(any_root(chain(2, 8))) }
    h_c05_any_many { rt(any_root(many(14, 0))) }
    h_c05_any_long { rt(any_root(wide_text())) }
    h_c05_any_keys { rt(any_root(keys(1))) }
    h_c05_any_keys2 { rt(any_root(Any::Seq(vec![keys(2)]))) }
    h_c05_btree { let (k, l) = (of_n("abAB_1", 1), of_n("abAB_1", 2)); let mut m = BTreeMap::new(); m.insert(k, true); m.insert(l, false); rt(m) }
    h_c05_struct { rt(S { a: any(3), b: 7, c: None }) }
    h_c05_struct2 { rt(S { a: String::from("x"), b: 7, c: Some(any(3)) }) }
    h_c05_untagged { rt(w(U::Text(any(3)))) }
    h_c05_vec { rt(vec![any(2), any(1)]) }
    h_c05_vec2 { rt(w(vec![any(2), any(1)])) }
    h_c05_vecvec { rt(vec![vec![any(1)], vec![String::from("a"), any(2)]]) }
    h_c05_vecvec2 { rt(w(vec![vec![any(2)], vec![]])) }
    h_c05_vecstruct { rt(vec![S { a: any(2), b: 7, c: Some(String::from("y")) }, S { a: String::from("x"), b: 7, c: None }]) }
    h_c05_vecstruct2 { rt(vec![S { a: String::from("x"), b: 7, c: Some(any(2)) }, S { a: String::from("x"), b: 7, c: None }]) }
    h_c05_nested { rt(T { s: S { a: any(2), b: 7, c: None }, v: vec![S { a: String::new(), b: 7, c: Some(String::from("y")) }], z: flag() }) }
    h_c05_tuple { rt((any(3), vec![1i64], String::from("z"))) }
    h_c05_tuple2 { rt(w((1i64, any(2), any(1)))) }
    h_c05_tuple3 { rt(vec![(S { a: any(2), b: 1, c: None }, vec![String::from("q")])]) }
    h_c05_map { let mut m = BTreeMap::new(); m.insert("k".to_string(), any(2)); m.insert("k k".to_string(), any(1)); rt(m) }
    h_c05_map2 { let mut m = BTreeMap::new(); m.insert("k".to_string(), vec![any(2)]); m.insert("l".to_string(), vec![]); rt(w(m)) }
    h_c05_key { let mut m = BTreeMap::new(); m.insert(key(3), 1i64); m.insert("k k".to_string(), 2); rt(m) }
    h_c05_key2 { let mut m = BTreeMap::new(); m.insert(key(2), vec![w(key(1))]); rt(vec![m]) }
    h_c05_long { let mut s = any(2); for _ in 0..22 { s.push_str("abc ") } s.push_str(&any(1)); rt(w(s)) }
    h_c05_long2 { let mut s = any(1); for _ in 0..18 { s.push_str("abcd ") } s.push_str(&any(2)); rt(vec![s]) }
}
/// A key as the grammar knows them.
fn key(max: usize) -> String {
    let n = pick(max as u8) as usize;
    let mut s = of_n("abcxyzABCXYZ0129_", 1);
    for i in 0..n {
        let c = byte();
        let sp = i + 1 < n;
        assume(((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | ((c >= b'0') & (c <= b'9')) | (c == b'_') | (c == b'-') | ((c == b' ') & sp));
        s.push(c as char);
    }
    s
}
deep! {
    t_c05_any3 { rt(any_root(chain(4, 2))) }
    t_c05_any_leaves3 { rt(any_root(chain(3, 8))) }
    t_c05_any_full { rt(any_root(full(2, 8))) }
    t_c05_any_many { rt(any_root(many(30, 8))) }
}
