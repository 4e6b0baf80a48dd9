//! C14: moving fields to a subfield loses nothing.
use crate::sym::*;
use crate::tree::*;
use yaml_subset::yaml::{AliasedYaml, HashData, HashElement, Yaml, YamlInsert};

/// What the move does to the value at the end of the path.
fn moved(y: &mut Yaml, sub: &str, fields: &[String]) -> usize {
    let v = match y { Yaml::Hash(v) => v, _ => return 0 };
    let mut take: Vec<(String, AliasedYaml)> = Vec::new();
    for f in fields {
        if f == sub || take.iter().any(|t| t.0 == *f) { continue; }
        if let Some(i) = find(v, f) { if let HashData::Element(e) = &v[i] { take.push((f.clone(), e.value.clone())) } }
    }
    if take.is_empty() { return 0; }
    let at = match find(v, sub) {
        Some(i) => i,
        None => { v.push(el(sub, Yaml::Hash(Vec::new()))); v.len() - 1 }
    };
    match &mut v[at] {
        HashData::Element(HashElement { value: AliasedYaml { value: Yaml::Hash(w), .. }, .. }) => {
            for (key, value) in &take {
                let e = HashData::Element(HashElement { key: key.clone(), value: value.clone() });
                match find(w, key) { Some(i) => w[i] = e, None => w.push(e) }
            }
        }
        _ => return 0,
    }
    for (key, _) in &take { let i = find(v, key); if let Some(i) = i { v.remove(i); } }
    1
}
fn run(y: Yaml, st: &[Step], sub: &str, fields: Vec<String>) {
    let p = path(st);
    let mut want = y.clone();
    let mut n = 0;
    walk(&mut want, st, &mut |y, s| match s {
        None => n += moved(y, sub, &fields),
        Some(s) => if let Yaml::Hash(v) = y {
            if let Some(i) = find(v, &s.key) { if let HashData::Element(e) = &mut v[i] { n += moved(&mut e.value.value, sub, &fields) } }
        },
    });
    reach(0);
    if n > 0 { reach(1) }
    let mut got = y;
    check(got.move_to_subfield(&p, sub.to_string(), fields) == n, "another count");
    check(got == want, "another result");
}
/// The hash fields are moved in: the subfield, if there, is of every kind.
fn target() -> Yaml {
    let s = match pick(7) {
        0 => al(un("x")),
        1 => al(Yaml::Hash(vec![hc(" in"), el(&ch(of("abs")), un("old")), hic(" after")])),
        2 => named("n", Yaml::Hash(Vec::new())),
        3 => al(Yaml::InlineHash(vec![("q".to_string(), un("x"))])),
        4 => al(Yaml::Array(vec![it(small())])),
        5 => al(Yaml::Anchor("n".to_string())),
        _ => return Yaml::Hash(vec![hc(" one"), HashData::Element(HashElement { key: "a".to_string(), value: named("n", sq("y")) }), hic(" two"), el("b", small())]),
    };
    let mut v = vec![hc(" one"), HashData::Element(HashElement { key: "a".to_string(), value: named("n", sq("y")) }), hic(" two"), el("b", small())];
    v.insert(pick(5) as usize, HashData::Element(HashElement { key: "s".to_string(), value: s }));
    Yaml::Hash(v)
}
fn names(n: usize) -> Vec<String> { (0..n).map(|_| ch(of("absz"))).collect() }

/// Names that are alike, the subfield one of them, or near one.
fn words() {
    let w = |k: u8| WORDS[(k % 10) as usize].to_string();
    let i = pick(10);
    let mut v: Vec<HashData> = (i..i + 4).map(|k| el(&w(k), un(&w(k + 1)))).collect();
    v.insert(pick(3) as usize, el(&w(i + 4), Yaml::Hash(vec![el(&w(i + 1), sq("old")), hic(" c"), el(&w(i + 5), sq("old"))])));
    run(Yaml::Hash(v), &[root()], &w(i + 3 + pick(3)), vec![w(pick(10)), w(i + pick(4)), w(i)])
}

harnesses! {
    h_c14_words { words() }
    h_c14_crowd { let (y, mut st) = crowd(); st.pop(); run(y, &st, "s", vec!["b".to_string(), "a".to_string()]) }
    h_c14_fields { let (y, st) = fields(); run(y, &[if st.len() > 1 { root() } else { st[0].clone() }], "s", vec![st[0].key.clone(), "a".to_string(), "ka".to_string(), "k1x".to_string()]) }
    h_c14_deep { let (y, mut st) = deep(); st.pop(); run(y, &st, "s", vec!["x".to_string(), "z".to_string(), "k".to_string()]) }
    h_c14_root { let c = if flag() { root() } else { root().when("a", &ch(of("xy"))) }; run(target(), &[c], "s", names(2)) }
    h_c14_any { run(value(1), &[root()], &ch(of("abcd")), (0..2).map(|_| ch(of(KEYS))).collect()) }
    h_c14_three { run(target(), &[root()], &ch(of("as")), names(3)) }
    h_c14_key { run(Yaml::Hash(vec![el(&ch(of("ab")), target()), hc(" c")]), &[key("a")], "s", names(1)) }
    h_c14_all {
        let y = match pick(2) {
            0 => Yaml::Array(vec![it(un("x")), ac(" c"), it(target()), it(Yaml::Hash(vec![el(&ch(of("ab")), un("x"))]))]),
            _ => Yaml::InlineArray(vec![target(), un("x")]),
        };
        let s = match pick(3) { 0 => all(), 1 => index(vec![pick(3) as usize]), _ => all().when("a", &ch(of("xy"))) };
        run(y, &[s], "s", names(1))
    }
    h_c14_dressed { run(dressed(target()), &[root()], "s", names(2)) }
    h_c14_dressed_key { run(dressed(Yaml::Hash(vec![el("a", target())])), &[key("a")], "s", names(2)) }
    h_c14_dressed_all { run(dressed(Yaml::Array(vec![it(target())])), &[if flag() { all() } else { index(vec![0, 3]) }], "s", names(2)) }
    h_c14_full { run(dressed(full()), &[root()], &ch(of("abde")), (0..2).map(|_| ch(of("abcd"))).collect()) }
    h_c14_four { run(full(), &[root()], &ch(of("de")), (0..4).map(|_| ch(of("abcd"))).collect()) }
    h_c14_many { run(dress(full(), 3), &[root()], "s", ["j", "i", "h", "g", "f", "d", "c", "b", "a"].iter().map(|s| s.to_string()).collect()) }
    h_c14_conditions { let (y, st) = conditional(); run(y, &st, &ch(of("ads")), vec!["a".to_string(), "b".to_string()]) }
    h_c14_odd {
        let k = [ch(of(".|=[] a0*")), ch(of(".|=[] a0*"))].concat();
        let s = [ch(of(".|=[] a0*")), ch(of(".|=[] a0*"))].concat();
        let w = if flag() { el(&s, Yaml::Hash(vec![el("r", un("x"))])) } else { hc(" c") };
        run(Yaml::Hash(vec![el(&k, un("x")), w, el("k", un("y"))]), &[root()], &s, vec![k, "k".to_string()])
    }
}
deep! {
    t_c14_three { let s = steps(2, true); run(along(&s), &s, &ch(of("abcd")), (0..2).map(|_| ch(of(KEYS))).collect()) }
}
