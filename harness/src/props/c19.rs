//! C19: an alias is the last value before it that has its name.
use crate::any::Any;
use crate::sym::*;
use crate::tree::*;
use serde::Deserialize;
use std::collections::BTreeMap;
use yaml_subset::yaml::{from_yaml, from_yaml_str, AliasedYaml, ArrayData, Document, DocumentData, HashData, HashElement, Yaml};

type Env = Vec<(String, Any)>;
fn name() -> String { pick_str(&["a", "b"]).to_string() }
fn any_text(s: &str) -> Any { Any::Text(s.to_string()) }
fn look(env: &Env, n: &str) -> Option<Any> { env.iter().rev().find(|e| e.0 == n).map(|e| e.1.clone()) }
fn field(k: &str, value: AliasedYaml) -> HashData { HashData::Element(HashElement { key: k.to_string(), value }) }
/// A value with names and aliases, what it holds (None: an alias without value), with the names known before and after it.
fn value(depth: u8, env: &mut Env, ok: &mut bool) -> (AliasedYaml, Any) {
    match pick(if depth == 0 { 3 } else { 7 }) {
        0 => (al(un("w")), any_text("w")),
        1 => {
            let n = name();
            let a = look(env, &n);
            if a.is_none() { *ok = false }
            (al(Yaml::Anchor(n)), a.unwrap_or(Any::Null))
        }
        2 => { let v = ch(of(VALS)); let n = name(); env.push((n.clone(), any_text(&v))); (named(&n, sq(&v)), any_text(&v)) }
        3 => {
            let n = name();
            let (y, a) = value(depth - 1, env, ok);
            let a = Any::Map(vec![("q".to_string(), a), ("r".to_string(), Any::Int(1))]);
            env.push((n.clone(), a.clone()));
            (named(&n, Yaml::Hash(vec![hc(" c"), field("q", y), el("r", un("1"))])), a)
        }
        4 => {
            let (y, a) = value(depth - 1, env, ok);
            let (z, b) = value(0, env, ok);
            (al(Yaml::Array(vec![ArrayData::Element(y), ac(" c"), ArrayData::Element(z)])), Any::Seq(vec![a, b]))
        }
        5 => {
            let n = name();
            let a = look(env, &n);
            if a.is_none() { *ok = false }
            let a = a.unwrap_or(Any::Null);
            let m = name();
            let v = Any::Seq(vec![a]);
            env.push((m.clone(), v.clone()));
            (named(&m, Yaml::InlineArray(vec![Yaml::Anchor(n)])), v)
        }
        _ => {
            let n = name();
            let a = look(env, &n);
            if a.is_none() { *ok = false }
            (al(Yaml::InlineHash(vec![("k".to_string(), Yaml::Anchor(n)), ("l".to_string(), un("x"))])), Any::Map(vec![("k".to_string(), a.unwrap_or(Any::Null)), ("l".to_string(), any_text("x"))]))
        }
    }
}
fn items(n: usize, depth: u8) -> (Yaml, Any, bool) {
    let (mut env, mut ok) = (Vec::new(), true);
    let (mut v, mut w) = (Vec::new(), Vec::new());
    for _ in 0..n { let (y, a) = value(depth, &mut env, &mut ok); v.push(ArrayData::Element(y)); w.push(a) }
    (Yaml::Array(v), Any::Seq(w), ok)
}
fn read((y, want, ok): (Yaml, Any, bool)) {
    reach(0);
    if ok { reach(1) }
    match from_yaml::<Any>(y) {
        Ok(a) => { check(ok, "an alias without value was read"); check(a == want, "read as something else") }
        Err(_) => check(!ok, "not read"),
    }
}
/// The same through the text of a document.
fn text((y, want, ok): (Yaml, Any, bool)) {
    let d = Document { leading_comments: Vec::new(), items: vec![DocumentData::Yaml(y)] };
    let t = match d.format() { Ok(t) => t, Err(_) => fail("not written") };
    out(&t);
    reach(0);
    match from_yaml_str::<Any>(&t) {
        Ok(a) => { check(ok, "an alias without value was read"); check(a == want, "read as something else") }
        Err(_) => check(!ok, "not read"),
    }
}

#[derive(Deserialize, PartialEq)]
#[serde(rename_all = "lowercase")]
enum En { One, Two(i8), Three { p: i8 }, Four(i8, i8) }
#[derive(Deserialize, PartialEq)]
struct Pt { p: i8 }
#[derive(Deserialize, PartialEq)]
struct Wrap(i8);
#[derive(Deserialize)]
struct With<T> { x: T }
fn same<'a, T: serde::de::DeserializeOwned + PartialEq>(y: &Yaml) {
    let direct = from_yaml::<T>(y.clone());
    // the named value stands in a field nobody reads, directly or nested
    let d = match pick(3) {
        0 => field("d", named("n", y.clone())),
        1 => el("d", Yaml::Array(vec![it(un("x")), ArrayData::Element(named("n", y.clone()))])),
        _ => el("d", Yaml::Hash(vec![el("n", un("x")), field("e", named("n", y.clone()))])),
    };
    let whole = Yaml::Hash(vec![d, hc(" c"), el("x", Yaml::Anchor("n".to_string()))]);
    reach(0);
    match (direct, from_yaml::<With<T>>(whole)) {
        (Ok(a), Ok(b)) => { reach(1); check(a == b.x, "the alias is read as something else") }
        (Err(_), Err(_)) => (),
        (Ok(_), Err(_)) => fail("the alias isn't read"),
        (Err(_), Ok(_)) => fail("the alias is read though the value isn't"),
    }
}
fn typed() {
    let n = of("0123456789");
    let n = ch(n);
    let y = match pick(9) {
        0 => un(&n),
        1 => un("true"),
        2 => un("~"),
        3 => un("one"),
        4 => Yaml::Hash(vec![el(pick_str(&["two", "p", "three"]), if flag() { un(&n) } else { Yaml::InlineHash(vec![("p".to_string(), un(&n))]) })]),
        5 => Yaml::InlineArray(vec![un(&n), un("2")]),
        6 => Yaml::Array(vec![it(un(&n)), ac(" c"), it(un("3"))]),
        7 => Yaml::InlineHash(vec![("four".to_string(), Yaml::InlineArray(vec![un(&n), un("2")]))]),
        _ => sq(&n),
    };
    match pick(13) {
        0 => same::<i8>(&y),
        1 => same::<Option<u64>>(&y),
        2 => same::<String>(&y),
        3 => same::<En>(&y),
        4 => same::<Pt>(&y),
        5 => same::<(i8, i8)>(&y),
        6 => same::<Vec<i16>>(&y),
        7 => same::<BTreeMap<String, i8>>(&y),
        8 => same::<bool>(&y),
        9 => same::<Wrap>(&y),
        10 => same::<char>(&y),
        11 => same::<Any>(&y),
        _ => same::<()>(&y),
    }
}

/// A value with a place for another, read as T: it makes no difference whether that one stands there or is an alias.
fn inner<T: serde::de::DeserializeOwned + PartialEq>(build: &dyn Fn(Yaml) -> Yaml, v: Yaml) {
    let direct = from_yaml::<With<T>>(Yaml::Hash(vec![el("x", build(v.clone()))]));
    let o = field("o", named("o", v));
    let y = build(Yaml::Anchor("o".to_string()));
    // an alias has no name
    let whole = match if matches!(y, Yaml::Anchor(_)) { 0 } else { pick(4) } {
        0 => Yaml::Hash(vec![o, el("x", y)]),
        1 => Yaml::Hash(vec![o, field("x", named("m", y))]),
        2 => Yaml::Hash(vec![o, field("d", named("m", y)), el("x", Yaml::Anchor("m".to_string()))]),
        _ => Yaml::Hash(vec![el("e", Yaml::Array(vec![it(un("z")), match o { HashData::Element(e) => ArrayData::Element(e.value), _ => fail("o") }])), el("d", Yaml::Hash(vec![field("f", named("m", y))])), el("x", Yaml::Anchor("m".to_string()))]),
    };
    reach(0);
    match (direct, from_yaml::<With<T>>(whole)) {
        (Ok(a), Ok(b)) => { reach(1); check(a.x == b.x, "the alias is read as something else") }
        (Err(_), Err(_)) => (),
        (Ok(_), Err(_)) => fail("the alias isn't read"),
        (Err(_), Ok(_)) => fail("the alias is read though the value isn't"),
    }
}
#[derive(Deserialize, PartialEq)]
struct Box2 { p: Option<Vec<Option<i8>>>, #[serde(default)] q: Option<Box<Box2>> }
#[derive(Deserialize, PartialEq)]
struct NewVec(Vec<i8>);
#[derive(Deserialize, PartialEq)]
#[serde(untagged)]
enum Un { N(i8), P { p: Box<Un> }, L(Vec<Un>), S(String) }
#[derive(Deserialize, PartialEq)]
#[serde(tag = "p", content = "q", rename_all = "lowercase")]
enum Adj { One, Two(i8) }
fn within() {
    let n = ch(of("0123456789"));
    let v = match pick(7) {
        0 => un(&n),
        1 => un("one"),
        2 => un("~"),
        3 => Yaml::InlineArray(vec![un(&n), un("2")]),
        4 => Yaml::Array(vec![it(un(&n))]),
        5 => Yaml::Hash(vec![el("p", un(&n))]),
        _ => Yaml::InlineHash(vec![("two".to_string(), un(&n))]),
    };
    let k = pick(9);
    let build = move |y: Yaml| match k {
        0 => y,
        1 => Yaml::InlineArray(vec![y]),
        2 => Yaml::Array(vec![it(y.clone()), ac(" c"), it(y)]),
        3 => Yaml::Hash(vec![el("p", y)]),
        4 => Yaml::InlineHash(vec![("two".to_string(), y)]),
        5 => Yaml::Hash(vec![el("three", Yaml::Hash(vec![el("p", y)]))]),
        6 => Yaml::InlineHash(vec![("four".to_string(), Yaml::InlineArray(vec![un("1"), y]))]),
        7 => Yaml::Array(vec![it(Yaml::Hash(vec![el("p", y)]))]),
        _ => Yaml::Hash(vec![el("p", Yaml::InlineArray(vec![un("1")])), el("q", Yaml::Hash(vec![el("p", y)]))]),
    };
    match pick(18) {
        0 => inner::<i8>(&build, v),
        1 => inner::<Option<i8>>(&build, v),
        2 => inner::<Option<Vec<i8>>>(&build, v),
        3 => inner::<Vec<Option<i8>>>(&build, v),
        4 => inner::<En>(&build, v),
        5 => inner::<Option<En>>(&build, v),
        6 => inner::<Vec<En>>(&build, v),
        7 => inner::<Pt>(&build, v),
        8 => inner::<Option<Pt>>(&build, v),
        9 => inner::<Vec<Option<Pt>>>(&build, v),
        10 => inner::<(i8, i8)>(&build, v),
        11 => inner::<Option<(Vec<i8>, Option<Vec<i8>>)>>(&build, v),
        12 => inner::<BTreeMap<String, Option<i8>>>(&build, v),
        13 => inner::<BTreeMap<En2, Vec<i8>>>(&build, v),
        14 => inner::<Box2>(&build, v),
        15 => inner::<NewVec>(&build, v),
        16 => inner::<Un>(&build, v),
        _ => inner::<Option<Adj>>(&build, v),
    }
}
#[derive(Deserialize, PartialEq, Eq, PartialOrd, Ord)]
#[serde(rename_all = "lowercase")]
enum En2 { P, Two }

harnesses! {
    h_c19_within { within() }
    h_c19_list3 { read(items(3, 1)) }
    h_c19_list4 { read(items(4, 0)) }
    h_c19_nested { read(items(2, 2)) }
    h_c19_text { text(items(2, 1)) }
    h_c19_typed { typed() }
}
deep! {
    t_c19_list5 { read(items(5, 0)) }
    t_c19_list4 { read(items(4, 1)) }
    t_c19_text { text(items(3, 1)) }
}
