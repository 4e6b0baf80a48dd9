//! C18: visiting and mapping reach every value once, in order.
use crate::sym::*;
use crate::tree::*;
use yaml_subset::yaml::{AliasedYaml, ArrayData, HashData, MapYaml, VisitYaml, Yaml};

fn leaf() -> Yaml { styled(&ch(of(VALS))) }
/// A value of any kind, with comments, names and nesting.
fn any(depth: u8) -> Yaml {
    if depth == 0 { return leaf(); }
    let v = any(depth - 1);
    let v = if flag() { named("n", v) } else { al(v) };
    match pick(6) {
        0 => Yaml::Hash(vec![hc(" c"), el("a", sq("x")), hic(" d"), helem("b", v), el("a", un("z")), hc(" e")]),
        1 => Yaml::Array(vec![ac(" c"), ArrayData::Element(v), aic(" d"), it(un("w")), ac(" e")]),
        2 => Yaml::InlineArray(vec![un("v"), v.value, un("y")]),
        3 => Yaml::InlineHash(vec![("k".to_string(), v.value), ("k".to_string(), un("u"))]),
        4 => Yaml::Hash(Vec::new()),
        _ => Yaml::Array(Vec::new()),
    }
}
/// Every named place of a value in order, the value before what it holds.
fn places(y: &Yaml, to: &mut Vec<AliasedYaml>) {
    match y {
        Yaml::Hash(v) => for d in v { if let HashData::Element(e) = d { to.push(e.value.clone()); places(&e.value.value, to) } },
        Yaml::Array(v) => for d in v { if let ArrayData::Element(e) = d { to.push(e.clone()); places(&e.value, to) } },
        Yaml::InlineHash(v) => for e in v { places(&e.1, to) },
        Yaml::InlineArray(v) => for e in v { places(e, to) },
        _ => (),
    }
}
fn visit(y: Yaml) {
    reach(0);
    let mut want = Vec::new();
    places(&y, &mut want);
    if want.len() > 2 { reach(1) }
    let mut got = Vec::new();
    y.visit_yaml(&mut |a: &AliasedYaml| got.push(a.clone()));
    check(got == want, "other places");
    let a = named("top", y);
    let mut got = Vec::new();
    a.visit_yaml(&mut |a: &AliasedYaml| got.push(a.clone()));
    check(!got.is_empty() && got[0] == a && got[1..] == want[..], "other places from a named value");
}
/// The function the values are mapped with: it sees mapped contents and counts its calls.
fn change(y: Yaml, n: &mut u16) -> Yaml {
    *n += 1;
    match y {
        Yaml::UnquotedString(s) => sq(&[s.as_str(), &n.to_string()].concat()),
        Yaml::Hash(mut v) => { v.push(el("last", un(&n.to_string()))); Yaml::Hash(v) }
        Yaml::InlineArray(mut v) => { v.push(un("last")); Yaml::InlineArray(v) }
        Yaml::Array(v) if v.is_empty() => un("empty"),
        y => y,
    }
}
/// The same, written out.
fn mapped(y: Yaml, n: &mut u16) -> Yaml {
    let y = match y {
        Yaml::Hash(v) => Yaml::Hash(v.into_iter().map(|d| match d {
            HashData::Element(mut e) => { e.value.value = mapped(e.value.value, n); HashData::Element(e) }
            d => d,
        }).collect()),
        Yaml::Array(v) => Yaml::Array(v.into_iter().map(|d| match d {
            ArrayData::Element(mut e) => { e.value = mapped(e.value, n); ArrayData::Element(e) }
            d => d,
        }).collect()),
        Yaml::InlineHash(v) => Yaml::InlineHash(v.into_iter().map(|(k, y)| { let y = mapped(y, n); (k, y) }).collect()),
        Yaml::InlineArray(v) => Yaml::InlineArray(v.into_iter().map(|y| mapped(y, n)).collect()),
        y => y,
    };
    change(y, n)
}
fn map(y: Yaml) {
    reach(0);
    let (mut n, mut m) = (0, 0);
    let want = mapped(y.clone(), &mut m);
    check(y.clone().map_yaml(&mut |y| y) == y, "mapping nothing changed it");
    let a = named("top", y.clone()).map_yaml(&mut |y| y);
    check(a == named("top", y.clone()), "mapping nothing changed the name");
    let got = y.map_yaml(&mut |y| change(y, &mut n));
    if n > 3 { reach(1) }
    check(n == m, "another number of calls");
    check(got == want, "another result");
}

/// All of one kind, or none.
fn alike() -> Yaml {
    let n = pick(4);
    let k = pick(7);
    let v: Vec<Yaml> = (0..n).map(|_| match k { 0 => Yaml::Anchor("n".to_string()), 1 => Yaml::InlineArray(vec![]), 2 => Yaml::InlineHash(vec![("a".to_string(), un("x"))]), 3 => Yaml::Hash(vec![el("a", un("x"))]), 4 => Yaml::Array(vec![it(un("x"))]), 5 => Yaml::DoubleQuotedString(vec![]), _ => un(&ch(of(VALS))) }).collect();
    match pick(4) {
        0 => Yaml::InlineArray(v),
        1 => Yaml::Array(v.into_iter().map(it).collect()),
        2 => Yaml::InlineHash(v.into_iter().map(|y| ("k".to_string(), y)).collect()),
        _ => Yaml::Hash(v.into_iter().map(|y| el("k", y)).collect()),
    }
}
fn around(y: Yaml) -> Yaml {
    match pick(5) {
        0 => y,
        1 => Yaml::Hash(vec![hc(" c"), hic(""), el("a", y)]),
        2 => Yaml::Array(vec![ac(" c"), it(y), aic(" d"), ac(" e"), it(un("x"))]),
        3 => Yaml::InlineArray(vec![y, un("x")]),
        _ => Yaml::InlineHash(vec![("a".to_string(), y)]),
    }
}
/// The map function keeps what it is given.
fn depth(n: u8) -> Yaml {
    let mut y = un(&ch(of(VALS)));
    for _ in 0..n { y = around(y) }
    y
}

harnesses! {
    h_c18_visit_crowd { visit(crowd().0) }
    h_c18_map_crowd { map(crowd().0) }
    h_c18_visit_fields { visit(fields().0) }
    h_c18_map_fields { map(fields().0) }
    h_c18_visit_long { visit(deep().0) }
    h_c18_map_long { map(deep().0) }
    h_c18_visit_worded { visit(worded().0) }
    h_c18_map_worded { map(worded().0) }
    h_c18_visit_dressed { visit(dressed(any(1))) }
    h_c18_map_dressed { map(dressed(any(1))) }
    h_c18_visit_dressed2 { visit(dressed(thin(2))) }
    h_c18_map_dressed2 { map(dressed(thin(2))) }
    h_c18_visit_alike { visit(around(alike())) }
    h_c18_map_alike { map(around(alike())) }
    h_c18_visit_tree { visit(dressed(value(2))) }
    h_c18_map_tree { map(dressed(value(2))) }
    h_c18_visit_deep { visit(depth(4)) }
    h_c18_map_deep { map(depth(4)) }
    h_c18_visit1 { visit(any(1)) }
    h_c18_visit2 { visit(any(2)) }
    h_c18_visit3 { visit(thin(3)) }
    h_c18_map1 { map(any(1)) }
    h_c18_map2 { map(any(2)) }
    h_c18_map3 { map(thin(3)) }
}
deep! {
    t_c18_visit { visit(any(3)) }
    t_c18_map { map(any(3)) }
}
fn helem(k: &str, value: AliasedYaml) -> HashData { HashData::Element(yaml_subset::yaml::HashElement { key: k.to_string(), value }) }
/// Deeper, with plain leaves.
fn thin(depth: u8) -> Yaml {
    if depth == 0 { return un(&ch(of(VALS))); }
    let v = thin(depth - 1);
    let v = if flag() { named("n", v) } else { al(v) };
    match pick(4) {
        0 => Yaml::Hash(vec![hc(" c"), el("a", un("x")), helem("b", v), hic(" d"), el("c", Yaml::Anchor("n".to_string()))]),
        1 => Yaml::Array(vec![it(sq("x")), ac(" c"), ArrayData::Element(v), aic(" d")]),
        2 => Yaml::InlineArray(vec![v.value, un("y")]),
        _ => Yaml::InlineHash(vec![("j".to_string(), un("z")), ("k".to_string(), v.value)]),
    }
}
