//! C04: strings survive serialization and deserialization in memory.
use crate::sym::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::BTreeMap;
use yaml_subset::yaml::{from_yaml, Pretty, Yaml, YamlSerializer};

fn show(y: &Yaml) {
    let mut t = String::new();
    y.format(&mut t, 0, None).unwrap();
    out(&t);
}
fn rt<T: Serialize + DeserializeOwned + PartialEq>(v: T) {
    let y = match v.serialize(YamlSerializer) { Ok(y) => y, Err(_) => fail("serialization failed") };
    reach(0);
    show(&y);
    match from_yaml::<T>(y.clone()) {
        Ok(w) => check(w == v, "the value changed"),
        Err(_) => fail("deserialization failed"),
    }
    let p = y.pretty();
    show(&p);
    match from_yaml::<T>(p) {
        Ok(w) => check(w == v, "the value changed after pretty"),
        Err(_) => fail("deserialization failed after pretty"),
    }
}
fn any(max: usize) -> String {
    let n = pick(max as u8 + 1) as usize;
    asciis(n)
}
/// A string around one symbolic character of two or three bytes.
fn wide(pre: &str, post: &str) -> String {
    let mut v: Vec<u8> = pre.bytes().collect();
    if flag() {
        let (a, b) = (byte(), byte());
        assume((a >= 0xc2) & (a <= 0xdf) & (b >= 0x80) & (b <= 0xbf));
        v.extend([a, b]);
    } else {
        let (a, b, c) = (byte(), byte(), byte());
        assume((a == 0xe1) | (a == 0xe2) | (a == 0xe3));
        assume((b >= 0x80) & (b <= 0xbf) & (c >= 0x80) & (c <= 0xbf));
        v.extend([a, b, c]);
    }
    v.extend(post.bytes());
    unsafe { String::from_utf8_unchecked(v) }
}
#[derive(Serialize, Deserialize, PartialEq)]
struct S { a: String, b: i64, c: Option<String> }
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(untagged)]
enum U { Unit(()), Bool(bool), Int(i64), Nat(u64), Float(f64), Text(String), List(Vec<U>), Map(BTreeMap<String, U>) }
#[derive(Serialize, Deserialize, PartialEq)]
struct N(String);

harnesses! {
    h_c04_str { rt(any(4)) }
    h_c04_opt { rt(Some(any(3))) }
    h_c04_untagged { rt(U::Text(any(4))) }
    h_c04_untagged_list { rt(U::List(vec![U::Text(any(3)), U::Int(1)])) }
    h_c04_untagged_map { let mut m = BTreeMap::new(); m.insert("k".to_string(), U::Text(any(3))); rt(U::Map(m)) }
    h_c04_struct { rt(S { a: any(3), b: 7, c: None }) }
    h_c04_struct2 { rt(S { a: String::from("x"), b: 7, c: Some(any(3)) }) }
    h_c04_vec { rt(vec![any(1), String::from("x"), any(1)]) }
    h_c04_vecvec { rt(vec![vec![String::new()], vec![String::from("a"), any(2)]]) }
    h_c04_tuple { rt((any(3), vec![1i64], String::from("z"))) }
    h_c04_newtype { rt(N(any(3))) }
    h_c04_key { let mut m = BTreeMap::new(); m.insert(any(3), 1i64); m.insert("k k".to_string(), 2); rt(m) }
    h_c04_char { let c = ascii() as char; rt(c) }
    h_c04_wide { rt(wide("", "")) }
    h_c04_wide2 { rt(vec![wide("a", "b")]) }
    h_c04_long { let mut s = any(2); for _ in 0..22 { s.push_str("abc ") } s.push_str(&any(2)); rt(s) }
}
deep! {
}
