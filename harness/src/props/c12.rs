//! C12: inserting puts the value at the place the path names and changes nothing else.
use crate::sym::*;
use crate::tree::*;
use yaml_subset::yaml::{AliasedYaml, Document, DocumentData, HashData, HashElement, Yaml, YamlInsert};

fn what() -> AliasedYaml {
    match pick(3) { 0 => al(un("new")), 1 => named("n", sq("new")), _ => al(Yaml::Hash(vec![el("b", un("new"))])) }
}
fn run(y: Yaml, st: &[Step]) { with(y, st, named("n", sq("new"))) }
fn with(y: Yaml, st: &[Step], h: AliasedYaml) {
    let p = path(st);
    let over = flag();
    let mut want = y.clone();
    let mut n = 0;
    walk(&mut want, st, &mut |y, s| {
        let (s, v) = match (s, y) { (Some(s), Yaml::Hash(v)) => (s, v), _ => return };
        let e = HashData::Element(HashElement { key: s.key.clone(), value: h.clone() });
        match find(v, &s.key) {
            None => { reach(1); v.push(e); n += 1 }
            Some(i) => if over { reach(2); v[i] = e; n += 1 },
        }
    });
    reach(0);
    let mut got = y.clone();
    check(got.insert_into_hash(&p, &h, over) == n, "another count");
    check(got == want, "another result");
    let mut got = al(y.clone());
    check(got.insert_into_hash_by_call(&p, || h.clone(), over) == n, "another count by call");
    check(got.alias.is_none() && got.value == want, "another result by call");
    let c = |y| Document { leading_comments: vec![" c".to_string()], items: vec![DocumentData::Comment(String::new()), DocumentData::Yaml(y), DocumentData::Comment(" end".to_string())] };
    let (mut got, want) = (c(y), c(want));
    check(got.insert_into_hash(&p, &h, over) == n, "another count in a document");
    check(got == want, "another document");
}

/// An array whose elements hold the fields conditions ask for, in every style.
fn conds() -> Yaml {
    let (k, l) = (of(KEYS), of(KEYS));
    assume(k != l);
    Yaml::Array(vec![it(un("x")), it(Yaml::Hash(vec![hc(" c"), el(&ch(k), styled(&ch(of(VALS)))), el(&ch(l), un(&ch(of(VALS))))]))])
}

harnesses! {
    h_c12_root { run(value(1), &[if flag() { root() } else { root().when(&ch(of(KEYS)), &ch(of(VALS))) }]) }
    h_c12_one { with(value(1), &steps(1, true), what()) }
    h_c12_two { let st = steps(2, true); run(along(&st), &st) }
    h_c12_over { with(value(1), &steps(2, false), what()) }
    h_c12_nested { run(value(2), &steps(2, false)) }
    h_c12_three { let st = steps(3, false); run(along(&st), &st) }
    h_c12_twice { run(value(2), &[index(vec![pick(2) as usize, pick(2) as usize]), key(&ch(of(KEYS)))]) }
    h_c12_dressed { with(dressed(value(1)), &steps(1, false), what()) }
    h_c12_dressed2 { let st = steps(2, false); run(dressed(along(&st)), &st) }
    h_c12_dressed3 { let st = [step(false), step(false), key(&ch(of(KEYS)))]; run(dress(along(&st), 4), &st) }
    h_c12_worded { let (y, st) = worded(); run(y, &st) }
    h_c12_crowd { let (y, st) = crowd(); run(y, &st) }
    h_c12_fields { let (y, st) = fields(); run(y, &st) }
    h_c12_deep { let (y, st) = deep(); run(y, &st) }
    h_c12_conditions { let (y, st) = conditional(); run(y, &st) }
    h_c12_long { let st = [key("a"), index(vec![pick(2) as usize]), key("b"), all(), step(false)]; run(along(&st), &st) }
    h_c12_styles { let (f, g, v, w) = (of(KEYS), of(KEYS), ch(of(VALS)), ch(of(VALS))); run(conds(), &[all(), key("a").when(&ch(f), &v).when(&ch(g), &w)]) }
}
deep! {
    t_c12_any { run(value(3), &steps(3, false)) }
    t_c12_three { run(value(3), &steps(3, true)) }
}
