//! C15: grouping a map by a field of its elements loses nothing.
use crate::sym::*;
use crate::tree::*;
use yaml_subset::yaml::{AliasedYaml, ArrayData, BlockChomping, HashData, HashElement, Yaml, YamlInsert};

struct Args { old: String, by: String, new: String, keeps: Vec<String> }
/// What grouping does to the value at the end of the path.
fn grouped(y: &mut Yaml, a: &Args) -> usize {
    let v = match y { Yaml::Hash(v) => v, _ => return 0 };
    if find(v, &a.new).is_some() { return 0; }
    let at = match find(v, &a.old) { Some(i) => i, None => return 0 };
    let (name, els) = match &v[at] {
        HashData::Element(HashElement { value: AliasedYaml { alias, value: Yaml::Hash(w) }, .. }) => (alias.clone(), w.clone()),
        _ => return 0,
    };
    let mut stay: Vec<HashData> = Vec::new();
    let mut groups: Vec<(String, Vec<HashData>)> = Vec::new();
    let mut before: Vec<HashData> = Vec::new();
    let mut last: Option<usize> = None;
    for d in els {
        let mut e = match d { HashData::Element(e) => e, c => { before.push(c); continue } };
        let group = get(&e.value.value, &a.by).and_then(|v| match &v.value {
            Yaml::LiteralString(l, BlockChomping::Keep) => Some([l[0].as_str(), "\n"].concat()),
            v => text(v).map(|s| s.to_string()),
        });
        let g = match group {
            None => None,
            Some(s) => {
                if let Yaml::Hash(w) = &mut e.value.value { let i = find(w, &a.by); if let Some(i) = i { w.remove(i); } }
                if s.is_empty() || a.keeps.contains(&s) { None } else { Some(s) }
            }
        };
        let to = match &g {
            None => { last = None; &mut stay }
            Some(s) => {
                let i = match groups.iter().position(|x| x.0 == *s) { Some(i) => i, None => { groups.push((s.clone(), Vec::new())); groups.len() - 1 } };
                last = Some(i);
                &mut groups[i].1
            }
        };
        to.append(&mut before);
        to.push(HashData::Element(e));
    }
    match last { None => stay.append(&mut before), Some(i) => groups[i].1.append(&mut before) }
    if groups.is_empty() { return 0; }
    groups.sort_by(|x, y| x.0.cmp(&y.0));
    let name2 = name.clone();
    let new = Yaml::Hash(groups.into_iter().map(|(k, v)| el(&k, Yaml::Hash(v))).collect());
    v[at] = HashData::Element(HashElement { key: a.old.clone(), value: AliasedYaml { alias: name, value: Yaml::Hash(stay) } });
    let mut new = al(new);
    new.alias = name2;
    v.push(HashData::Element(HashElement { key: a.new.clone(), value: new }));
    1
}
fn run(y: Yaml, st: &[Step], a: Args) {
    let p = path(st);
    let mut want = y.clone();
    let mut n = 0;
    walk(&mut want, st, &mut |y, s| match s {
        None => n += grouped(y, &a),
        Some(s) => if let Yaml::Hash(v) = y {
            if let Some(i) = find(v, &s.key) { if let HashData::Element(e) = &mut v[i] { n += grouped(&mut e.value.value, &a) } }
        },
    });
    reach(0);
    if n > 0 { reach(1) }
    let mut got = y;
    check(got.move_to_map_with_field_as_key(&p, a.old, a.by, a.new, a.keeps) == n, "another count");
    check(got == want, "another result");
}
fn args() -> Args { Args { old: "m".to_string(), by: "g".to_string(), new: "n".to_string(), keeps: vec!["k".to_string()] } }
/// An element of the map: with the field (in any style or not a string), or without.
fn element(k: &str) -> HashData {
    let g = ch(of("kxyz"));
    match pick(5) {
        0 => el(k, Yaml::Hash(vec![el("g", un(&g)), hic(" c"), el("v", un("1"))])),
        1 => el(k, Yaml::Hash(vec![hc(" c"), el("v", un("2")), el("g", sq(&g))])),
        2 => el(k, un("x")),
        3 => el(k, Yaml::Hash(vec![el("h", un("3"))])),
        _ => HashData::Element(HashElement { key: k.to_string(), value: named("p", Yaml::Hash(vec![el("g", if flag() { Yaml::Array(Vec::new()) } else { sq("") })])) }),
    }
}
fn com(v: &mut Vec<HashData>, s: &str) { match pick(3) { 0 => (), 1 => v.push(hc(s)), _ => { v.push(hic(s)); v.push(hc(s)) } } }
fn map(n: usize, comments: bool) -> Yaml {
    let mut v = Vec::new();
    for i in 0..n {
        if comments { com(&mut v, " before") }
        v.push(element(&ch(b'a' + i as u8)))
    }
    if comments { com(&mut v, " last") }
    Yaml::Hash(v)
}
/// The name of a map stays (and is given to the new one as well).
fn around(m: AliasedYaml) -> Yaml { Yaml::Hash(vec![el("q", un("x")), HashData::Element(HashElement { key: "m".to_string(), value: m }), hic(" c"), el("r", small())]) }

/// As `grouped` sees a value of the field: a string without other clothes.
fn plain(k: u8) -> u8 { [0, 1, 2, 3, 4, 5][k as usize] }
/// Elements one after the other with the same or other groups, comments in between.
fn many(n: usize) -> Yaml {
    let c = pick(3);
    let mut v = Vec::new();
    for i in 0..n {
        for _ in 0..c { v.push(hc(["", " c"][i % 2])) }
        let g = ["k", "x", "y", "z"][pick(if i < 2 { 4 } else { 2 }) as usize];
        let mut w = vec![el("g", un(g)), el("v", un(&i.to_string()))];
        if i % 2 == 1 { w.swap(0, 1); w.push(hc(" last")); w.insert(0, hic(" first")) }
        v.push(HashData::Element(HashElement { key: ch(b'a' + i as u8), value: if c == 1 { named("q", Yaml::Hash(w)) } else { al(Yaml::Hash(w)) } }));
        if c == 2 { v.push(hic(" inline")) }
    }
    Yaml::Hash(v)
}
fn around2(y: Yaml) -> (Yaml, Step) {
    match pick(5) {
        0 => (Yaml::Hash(vec![hc(" c"), el("a", y), hc(""), el("b", un("x"))]), key("a")),
        1 => (Yaml::Array(vec![ac(" c"), it(y.clone()), aic(" d"), it(y), it(un("x"))]), if flag() { all() } else { index(vec![1, 0]) }),
        2 => (Yaml::InlineArray(vec![un("x"), y]), all()),
        3 => (Yaml::Hash(vec![el("b", un("x")), HashData::Element(HashElement { key: "a".to_string(), value: named("o", y) })]), conditions(key("a"), 1)),
        _ => (Yaml::Array(vec![ArrayData::Element(named("o", y)), it(un("x"))]), conditions(all(), 2)),
    }
}

/// Groups that are alike, in any order, some of them kept.
fn words() {
    let (g, h) = (pick(10), pick(10));
    let n = 4 + pick(9);
    let mut v = Vec::new();
    for i in 0..n {
        let w = WORDS[(match i % 3 { 0 => g, 1 => h, _ => g + i } % 10) as usize];
        v.push(el(&[WORDS[i as usize % 10], if i < 10 { "" } else { "x" }].concat(), Yaml::Hash(vec![el("h", un("x")), el("g", if i % 2 == 0 { un(w) } else { sq(w) }), hic(" c")])));
        if i % 4 == 1 { v.push(hc(" c")) }
    }
    let keeps = match pick(3) { 0 => Vec::new(), 1 => vec!["a".to_string(), WORDS[g as usize].to_string(), "01".to_string()], _ => vec![WORDS[h as usize].to_string()] };
    run(around(al(Yaml::Hash(v))), &[root()], Args { keeps, ..args() })
}
/// The names themselves are alike.
fn alike() {
    let w = |i: u8| WORDS[i as usize].to_string();
    let m = Yaml::Hash(vec![el("a", Yaml::Hash(vec![el("ab", un("x")), el("a", un("z")), el("\u{e9}", un("y"))])), el("A", Yaml::Hash(vec![el("b", un("x")), el("A", un("y")), el("a b", un("k"))]))]);
    let y = Yaml::Hash(vec![el("A", un("x")), el(WORDS[pick(4) as usize], m), el("1", small())]);
    run(y, &[root()], Args { old: w(pick(5)), by: w(pick(8)), new: w(pick(10)), keeps: vec!["k".to_string()] })
}
/// The map at the end of a long path.
fn far() {
    let (mut y, mut st) = deep();
    st.pop();
    st.push(key("m"));
    let m = Yaml::Hash(vec![el("a", Yaml::Hash(vec![el("g", un("x"))])), hc(" c"), el("b", Yaml::Hash(vec![el("g", un("y")), el("v", un("1"))]))]);
    let put = st.len() - 1;
    walk(&mut y, &st[..put], &mut |y, s| match s {
        None => *y = Yaml::Hash(vec![el("m", around(al(m.clone())))]),
        Some(s) => if let Yaml::Hash(v) = y {
            if let Some(i) = find(v, &s.key) { if let HashData::Element(e) = &mut v[i] { e.value.value = Yaml::Hash(vec![el("m", around(al(m.clone())))]) } }
        },
    });
    run(y, &st, args())
}

harnesses! {
    h_c15_words { words() }
    h_c15_alike { alike() }
    h_c15_far { far() }
    h_c15_dressed { run(dress(around(al(map(1, true))), 1 + plain(pick(5))), &[root()], args()) }
    h_c15_dressed2 { run(dress(around(al(map(2, false))), 1 + plain(pick(5))), &[root()], args()) }
    h_c15_many { run(around(al(many(5))), &[root()], args()) }
    h_c15_deep { let (y, s) = around2(around(al(map(1, false)))); let (y, r) = around2(y); run(y, &[r, s], args()) }
    h_c15_deep2 { let (y, s) = around2(around(al(many(2)))); run(y, &[s, key("m")], Args { old: "a".to_string(), by: "g".to_string(), new: "n".to_string(), keeps: Vec::new() }) }
    h_c15_wide { let w = mixed(1); run(around(al(Yaml::Hash(vec![el("a", Yaml::Hash(vec![el("g", un(&w)), el("v", un("1"))])), el("b", Yaml::Hash(vec![el("g", un("x"))]))]))), &[root()], args()) }
    h_c15_text { let w = asciis(2); run(around(al(Yaml::Hash(vec![el("a", Yaml::Hash(vec![el("g", un(&w)), el("v", un("1"))])), el("b", Yaml::Hash(vec![el("g", sq("x"))]))]))), &[root()], args()) }
    h_c15_root { let y = many(3); run(Yaml::Hash(vec![hc(" c"), HashData::Element(HashElement { key: "m".to_string(), value: named("n", y) })]), &[conditions(root(), 2)], args()) }
    h_c15_two { run(around(al(map(2, true))), &[root()], args()) }
    h_c15_three { run(around(al(map(3, false))), &[root()], args()) }
    h_c15_styles { run(around(al(Yaml::Hash(vec![el("a", Yaml::Hash(vec![el("g", styled(&ch(of("kx"))))]))]))), &[root()], args()) }
    h_c15_kinds {
        let m = match pick(6) { 0 => un("x"), 1 => Yaml::Array(vec![it(small())]), 2 => Yaml::InlineHash(vec![("a".to_string(), Yaml::InlineHash(vec![("g".to_string(), un("x"))]))]), 3 => Yaml::Hash(Vec::new()), 4 => Yaml::Anchor("m".to_string()), _ => map(1, true) };
        run(around(if flag() { al(m) } else { named("n", m) }), &[root()], args())
    }
    h_c15_names {
        let a = Args { old: ch(of("mqrz")), by: ch(of("gvh")), new: ch(of("mqrz")), keeps: (0..pick(3)).map(|_| ch(of("kx"))).collect() };
        run(around(al(map(2, false))), &[root()], a)
    }
    h_c15_path {
        let y = around(al(map(1, true)));
        let (y, s) = match pick(4) {
            0 => (Yaml::Hash(vec![el(&ch(of("ab")), y)]), key("a")),
            1 => (Yaml::Array(vec![ac(" c"), it(y), it(around(al(map(1, false))))]), all()),
            2 => (Yaml::Array(vec![it(un("x")), it(y)]), index(vec![pick(3) as usize])),
            _ => (Yaml::InlineArray(vec![y, un("x")]), all().when("q", &ch(of("xy")))),
        };
        run(y, &[s], args())
    }
    h_c15_odd {
        let n = |()| [ch(of(".|=[] a0*")), ch(of(".|=[] a0*"))].concat();
        let a = Args { old: n(()), by: "g.h".to_string(), new: n(()), keeps: Vec::new() };
        let y = Yaml::Hash(vec![el(&a.old, Yaml::Hash(vec![el("a", Yaml::Hash(vec![el("g.h", un("x")), el("v", un("1"))]))])), el("q", un("x"))]);
        run(y, &[root()], a)
    }
}
deep! {
    t_c15_three { run(around(al(map(3, true))), &[root()], args()) }
    t_c15_four { run(around(al(map(4, false))), &[root()], args()) }
}
