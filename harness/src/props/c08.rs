//! C08: what untyped data a document holds; data of another kind than asked for is an error.
use crate::any::Any;
use crate::model::special;
use crate::sym::*;
use std::collections::BTreeMap;
use yaml_subset::yaml::{from_yaml, from_yaml_str, string::*, AliasedYaml, ArrayData, BlockChomping, HashData, HashElement, Yaml};

/// What a plain scalar is.
fn plain(s: &str) -> Any {
    match s {
        "~" | "null" | "Null" | "NULL" => return Any::Null,
        "true" => return Any::Bool(true),
        "false" => return Any::Bool(false),
        _ => {}
    }
    if !special(s) { return Any::Text(s.to_string()); }
    let b = s.as_bytes();
    let neg = b[0] == b'-';
    let d = if neg | (b[0] == b'+') { &b[1..] } else { b };
    let mut int = true;
    let mut v: i128 = 0;
    for &c in d {
        int &= (c >= b'0') & (c <= b'9');
        v = v.wrapping_mul(10).wrapping_add(c.wrapping_sub(b'0') as i128);
    }
    if int {
        let v = if neg { 0i128.wrapping_sub(v) } else { v };
        if (v >= i64::MIN as i128) & (v <= i64::MAX as i128) { return Any::Int(v as i64); }
        if (v >= 0) & (v <= u64::MAX as i128) { return Any::Nat(v as u64); }
    }
    Any::Float(s.parse::<f64>().unwrap().to_bits())
}
fn read(y: Yaml, want: Any) {
    reach(0);
    match from_yaml::<Any>(y) {
        Ok(a) => check(a == want, "read as something else"),
        Err(_) => fail("not read"),
    }
}
fn scalar(s: String) {
    out(&s);
    let w = plain(&s);
    read(Yaml::UnquotedString(s), w)
}
fn pre(p: &str, n: usize) -> String {
    let mut s = String::from(p);
    s.push_str(&asciis(n));
    s
}
fn no_newline(s: &str) { for c in s.bytes() { assume((c != b'\n') & (c != b'\r')) } }
fn lines(s: &str) -> Vec<String> { vec![s.to_string(), String::from("1")] }

fn quoted(n: usize) { quoted_text(asciis(n)) }
fn quoted_text(s: String) {
    no_newline(&s);
    out(&s);
    let one = vec![s.clone()];
    let (y, w) = match pick(6) {
        0 => (Yaml::SingleQuotedString(vec![SingleQuotedStringPart::String(s.clone())]), s),
        1 => (Yaml::DoubleQuotedString(vec![DoubleQuotedStringPart::String(s.clone())]), s),
        2 => (Yaml::LiteralString(one, BlockChomping::Strip), s),
        3 => (Yaml::FoldedString(one, BlockChomping::Strip), s),
        4 => (Yaml::LiteralString(lines(&s), BlockChomping::Clip), [s.as_str(), "\n1\n"].concat()),
        _ => (Yaml::SingleQuotedString(vec![SingleQuotedStringPart::String(s.clone()), SingleQuotedStringPart::EscapedChar(SingleQuotedStringEscapedChar::SingleQuote)]), [s.as_str(), "'"].concat()),
    };
    read(y, Any::Text(w))
}
/// The scalar as it stands in a text.
fn text(pre: &str, n: usize, post: &str, get: fn(Any) -> Option<Any>) {
    let s = of_n("0123456789-+.eEnulNULtrfaseTF~_xio", n);
    let t = [pre, &s, post].concat();
    // a plain scalar is more than a dash
    assume(s != "-" && s != "--");
    reach(0);
    out(&t);
    match from_yaml_str::<Any>(&t) {
        Ok(a) => check(get(a) == Some(plain(&s)), "read as something else"),
        Err(_) => fail("not read"),
    }
}
fn val(a: Any) -> Option<Any> { match a { Any::Map(mut v) if v.len() == 1 && v[0].0 == "a" => v.pop().map(|x| x.1), _ => None } }
fn first(a: Any) -> Option<Any> { match a { Any::Seq(mut v) if v.len() == 2 && v[1] == Any::Int(7) => Some(v.swap_remove(0)), _ => None } }
fn flow(a: Any) -> Option<Any> { val(a).and_then(first) }
fn flowh(a: Any) -> Option<Any> { val(a).and_then(val) }

fn al(y: Yaml) -> AliasedYaml { AliasedYaml { alias: None, value: y } }
fn un(s: &str) -> Yaml { Yaml::UnquotedString(s.to_string()) }
/// A value of symbolic kind, and what it holds.
fn tree(depth: u8) -> (Yaml, Any) {
    match pick(if depth > 0 { 10 } else { 5 }) {
        0 => (un("1"), Any::Int(1)),
        1 => (un("~"), Any::Null),
        2 => (Yaml::SingleQuotedString(vec![SingleQuotedStringPart::String("1".to_string())]), Any::Text("1".to_string())),
        3 => (Yaml::InlineArray(vec![]), Any::Seq(vec![])),
        4 => (Yaml::Hash(vec![]), Any::Map(vec![])),
        5 => { let (y, a) = tree(depth - 1); (Yaml::Array(vec![ArrayData::Comment("c".to_string()), ArrayData::Element(al(y)), ArrayData::InlineComment("d".to_string()), ArrayData::Element(al(un("x")))]), Any::Seq(vec![a, Any::Text("x".to_string())])) }
        6 => { let (y, a) = tree(depth - 1); (Yaml::InlineArray(vec![un("true"), y]), Any::Seq(vec![Any::Bool(true), a])) }
        7 => { let (y, a) = tree(depth - 1); (Yaml::Hash(vec![HashData::InlineComment("c".to_string()), HashData::Element(HashElement { key: "2".to_string(), value: al(y) }), HashData::Comment("d".to_string())]), Any::Map(vec![("2".to_string(), a)])) }
        8 => { let (y, a) = tree(depth - 1); (Yaml::InlineHash(vec![("k".to_string(), y), ("a".to_string(), un("2"))]), Any::Map(vec![("k".to_string(), a), ("a".to_string(), Any::Int(2))])) }
        _ => { let (y, a) = tree(depth - 1); (Yaml::Hash(vec![HashData::Element(HashElement { key: "k".to_string(), value: AliasedYaml { alias: Some("n".to_string()), value: y } }), HashData::Element(HashElement { key: "a".to_string(), value: al(Yaml::Anchor("n".to_string())) })]), Any::Map(vec![("k".to_string(), a.clone()), ("a".to_string(), a)])) }
    }
}

#[derive(serde::Deserialize, PartialEq)]
struct Pt { a: String, b: Option<bool> }
#[derive(serde::Deserialize, PartialEq)]
enum En { A, B(i8), C(bool, bool), D { x: i8 } }
/// A shape, read as each kind of type: a value where it fits, an error where it doesn't, no panic.
fn mismatch() {
    let k = pick(11);
    let y = match k {
        0 => un("word"),
        1 => un("1"),
        2 => un("~"),
        3 => Yaml::Array(vec![]),
        4 => Yaml::InlineArray(vec![un("1"), un("2")]),
        5 => Yaml::Array(vec![ArrayData::Element(al(Yaml::Hash(vec![])))]),
        6 => Yaml::Hash(vec![]),
        7 => Yaml::InlineHash(vec![("a".to_string(), un("x"))]),
        8 => Yaml::Hash(vec![HashData::Element(HashElement { key: "B".to_string(), value: al(un("1")) })]),
        9 => Yaml::Anchor("nowhere".to_string()),
        _ => Yaml::LiteralString(vec!["1".to_string(), "2".to_string()], BlockChomping::Keep),
    };
    reach(0);
    let strings = [0, 1, 2, 10].contains(&k);
    match pick(18) {
        0 => check(from_yaml::<bool>(y).is_err(), "a boolean"),
        1 => check(from_yaml::<i64>(y).is_ok() == (k == 1), "an integer"),
        2 => check(from_yaml::<u8>(y).is_ok() == (k == 1), "a natural number"),
        3 => check(from_yaml::<f64>(y).is_ok() == (k == 1), "a number"),
        4 => check(from_yaml::<char>(y).is_ok() == (k == 1 || k == 2), "a character"),
        5 => check(from_yaml::<String>(y).is_ok() == strings, "a string"),
        6 => check(from_yaml::<Vec<i64>>(y).is_ok() == (k == 3 || k == 4), "a list of numbers"),
        7 => check(from_yaml::<Vec<Pt>>(y).is_ok() == (k == 3), "a list of structs"),
        8 => check(from_yaml::<(i64, i64)>(y).is_ok() == (k == 4), "a pair"),
        9 => check(from_yaml::<(i64, i64, i64)>(y).is_err(), "a triple"),
        10 => check(from_yaml::<BTreeMap<String, String>>(y).is_ok() == (k == 6 || k == 7 || k == 8), "a map of strings"),
        11 => check(from_yaml::<BTreeMap<String, i64>>(y).is_ok() == (k == 6 || k == 8), "a map of numbers"),
        12 => check(from_yaml::<Pt>(y).is_ok() == (k == 7), "a struct"),
        13 => check(matches!(from_yaml::<En>(y), Ok(En::B(1))) == (k == 8), "a variant"),
        14 => check(from_yaml::<Option<Vec<Any>>>(y).is_ok() == (k >= 2 && k <= 5), "an optional list"),
        15 => check(from_yaml::<[i64; 2]>(y).is_ok() == (k == 4), "an array"),
        16 => check(from_yaml::<Vec<Option<i64>>>(y).is_ok() == (k == 3 || k == 4), "a list of options"),
        _ => check(from_yaml::<Any>(y).is_err() == (k == 9), "anything"),
    }
}
fn tuple(n: u8) {
    let v: Vec<Yaml> = (0..n).map(|_| un("1")).collect();
    let y = if flag() { Yaml::InlineArray(v) } else { Yaml::Array(v.into_iter().map(|y| ArrayData::Element(al(y))).collect()) };
    reach(0);
    match from_yaml::<(i8, i8)>(y) {
        Ok(t) => check(n >= 2 && t == (1, 1), "a pair of other values"),
        Err(_) => check(n != 2, "a pair was refused"),
    }
}

#[derive(serde::Deserialize)]
struct One { #[allow(dead_code)] a: i8 }
#[derive(serde::Deserialize)]
struct Pair(#[allow(dead_code)] i8, #[allow(dead_code)] i8);
#[derive(serde::Deserialize)]
struct New(#[allow(dead_code)] Vec<i8>);
#[derive(serde::Deserialize)]
struct Empty;
/// Collections of up to three things, read as each kind of collection.
fn shapes() {
    use crate::tree::{ac, aic, el, hc, hic, it, named};
    let n = pick(4) as usize;
    let e = pick(4);
    let one = || match e { 0 => un("1"), 1 => Yaml::Array(vec![it(un("1"))]), 2 => Yaml::Hash(vec![el("a", un("1"))]), _ => Yaml::InlineArray(vec![un("1"), un("2")]) };
    let key = |i: usize| ["a", "b", "c"][i].to_string();
    let k = pick(6);
    let seq = k < 3;
    let y = match k {
        0 => Yaml::InlineArray((0..n).map(|_| one()).collect()),
        1 => Yaml::Array((0..n).map(|_| it(one())).collect()),
        2 => { let mut v = vec![ac(" c")]; for _ in 0..n { v.push(ArrayData::Element(named("n", one()))); v.push(aic(" d")); v.push(ac("")) } Yaml::Array(v) }
        3 => Yaml::InlineHash((0..n).map(|i| (key(i), one())).collect()),
        4 => Yaml::Hash((0..n).map(|i| el(&key(i), one())).collect()),
        _ => { let mut v = vec![hc(" c")]; for i in 0..n { v.push(HashData::Element(HashElement { key: key(i), value: named("n", one()) })); v.push(hic(" d")); v.push(hc("")) } Yaml::Hash(v) }
    };
    reach(0);
    let (num, arr, map, two) = (e == 0 || n == 0, e == 1 || e == 3 || n == 0, e == 2 || n == 0, e == 3 || n == 0);
    let is = |got: bool, want: bool| check(got == want, if want { "refused" } else { "not refused" });
    // a tuple may leave out what comes after it
    let tuple = |got: bool, len: usize, ok: bool| if !(seq && ok && n > len) { check(got == (seq && ok && n == len), "not a tuple of this length") };
    match pick(28) {
        0 => is(from_yaml::<Vec<i8>>(y).is_ok(), seq && num),
        1 => is(from_yaml::<Vec<Vec<i8>>>(y).is_ok(), seq && arr),
        2 => is(from_yaml::<Vec<One>>(y).is_ok(), seq && map),
        3 => is(from_yaml::<Vec<Option<i8>>>(y).is_ok(), seq && num),
        4 => is(from_yaml::<Option<Vec<i8>>>(y).is_ok(), seq && num),
        5 => is(from_yaml::<BTreeMap<String, i8>>(y).is_ok(), !seq && num),
        6 => is(from_yaml::<BTreeMap<char, Vec<i8>>>(y).is_ok(), !seq && arr),
        7 => is(from_yaml::<BTreeMap<String, One>>(y).is_ok(), !seq && map),
        8 => is(from_yaml::<One>(y).is_ok(), !seq && num && n > 0),
        9 => is(from_yaml::<Option<One>>(y).is_ok(), !seq && num && n > 0),
        10 => tuple(from_yaml::<(i8,)>(y).is_ok(), 1, num),
        11 => tuple(from_yaml::<(i8, i8)>(y).is_ok(), 2, num),
        12 => tuple(from_yaml::<(i8, i8, i8)>(y).is_ok(), 3, num),
        13 => tuple(from_yaml::<(Vec<i8>, Vec<i8>)>(y).is_ok(), 2, arr),
        14 => tuple(from_yaml::<(One,)>(y).is_ok(), 1, map),
        15 => tuple(from_yaml::<[i8; 2]>(y).is_ok(), 2, num),
        16 => tuple(from_yaml::<[(i8, i8); 1]>(y).is_ok(), 1, two),
        17 => tuple(from_yaml::<Pair>(y).is_ok(), 2, num),
        18 => is(from_yaml::<New>(y).is_ok(), seq && num),
        19 => is(from_yaml::<String>(y).is_ok(), false),
        20 => is(from_yaml::<i8>(y).is_ok(), false),
        21 => is(from_yaml::<bool>(y).is_ok(), false),
        22 => is(from_yaml::<f64>(y).is_ok(), false),
        23 => is(from_yaml::<char>(y).is_ok(), false),
        24 => is(from_yaml::<Option<i8>>(y).is_ok(), false),
        25 => is(from_yaml::<BTreeMap<String, Any>>(y).is_ok(), !seq),
        26 => is(from_yaml::<Vec<Any>>(y).is_ok(), seq),
        _ => is(from_yaml::<Any>(y).is_ok(), true),
    }
}

harnesses! {
    h_c08_shapes { shapes() }
    h_c08_wide { quoted_text(mixed_lf(2)) }
    h_c08_plain1 { scalar(pre("", 1)) }
    h_c08_plain2 { scalar(pre("", 2)) }
    h_c08_plain3 { scalar(pre("", 3)) }
    h_c08_plain4 { scalar(pre("", 4)) }
    h_c08_int { scalar(of_n("0123456789+-", 5)) }
    h_c08_i64 { scalar(pre("92233720368547758", 2)) }
    h_c08_i64n { scalar(pre("-92233720368547758", 2)) }
    h_c08_u64 { scalar(pre("184467440737095516", 2)) }
    h_c08_float { scalar(of_n("0123456789.eE+-", 4)) }
    h_c08_words { scalar(of_n("nulNULtruefasTFinfINFatyNA~", 5)) }
    h_c08_quoted { quoted(4) }
    h_c08_quoted5 { quoted(5) }
    h_c08_text { text("---\na: ", 3, "\n", val) }
    h_c08_text_item { text("---\n- ", 3, "\n- 7\n", first) }
    h_c08_text_flow { text("---\na: [", 3, ", 7]\n", flow) }
    h_c08_text_flowh { text("---\na: {a: ", 3, "}\n", flowh) }
    h_c08_tree { let (y, a) = tree(2); read(y, a) }
    h_c08_mismatch { mismatch() }
    h_c08_tuple { tuple(pick(4)) }
}
deep! {
    t_c08_plain5 { scalar(pre("", 5)) }
    t_c08_float5 { scalar(of_n("0123456789.eE+-", 5)) }
    t_c08_text4 { text("---\na: ", 4, "\n", val) }
    t_c08_tree3 { let (y, a) = tree(3); read(y, a) }
}
