//! C13: removing, renaming and wrapping change exactly the values the path names.
use crate::sym::*;
use crate::tree::*;
use yaml_subset::yaml::{AliasedYaml, Document, DocumentData, HashData, Yaml, YamlInsert};

#[derive(Clone, Copy, PartialEq)]
enum Op { Remove, Rename, Wrap }
fn op() -> Op { match pick(3) { 0 => Op::Remove, 1 => Op::Rename, _ => Op::Wrap } }
fn apply<Y: YamlInsert>(y: &mut Y, p: &yaml_subset::YamlPath, o: Op, name: &str) -> usize {
    match o {
        Op::Remove => y.remove_from_hash(p),
        Op::Rename => y.rename_field(p, name.to_string()),
        Op::Wrap => y.to_object(p, name.to_string()),
    }
}
fn run(y: Yaml, st: &[Step]) {
    let p = path(st);
    let o = op();
    let name = ch(of("abcd"));
    let mut want = y.clone();
    let mut n = 0;
    walk(&mut want, st, &mut |y, s| {
        let (s, v) = match (s, y) { (Some(s), Yaml::Hash(v)) => (s, v), _ => return };
        let i = match find(v, &s.key) { Some(i) => i, None => return };
        n += 1;
        reach(1);
        if o == Op::Remove { v.remove(i); return; }
        if let HashData::Element(e) = &mut v[i] {
            if o == Op::Rename { e.key = name.clone() } else {
                let old = std::mem::replace(&mut e.value, al(un("")));
                e.value = al(Yaml::Hash(vec![el(&name, un(""))]));
                if let Yaml::Hash(w) = &mut e.value.value { if let HashData::Element(e) = &mut w[0] { e.value = old } }
            }
        }
    });
    reach(0);
    let mut got = AliasedYaml { alias: Some("k".to_string()), value: y.clone() };
    check(apply(&mut got, &p, o, &name) == n, "another count");
    check(got.value == want && got.alias.is_some(), "another result");
    let c = |y| Document { leading_comments: vec![" c".to_string()], items: vec![DocumentData::Comment(String::new()), DocumentData::Yaml(y), DocumentData::Comment(" end".to_string())] };
    let (mut got, want) = (c(y), c(want));
    check(apply(&mut got, &p, o, &name) == n, "another count in a document");
    check(got == want, "another document");
}

/// An array whose elements hold the fields conditions ask for, in every style.
fn conds() -> Yaml {
    let (k, l) = (of(KEYS), of(KEYS));
    assume(k != l);
    Yaml::Array(vec![it(un("x")), it(Yaml::Hash(vec![hc(" c"), el(&ch(k), styled(&ch(of(VALS)))), el(&ch(l), un(&ch(of(VALS))))]))])
}

harnesses! {
    h_c13_root { run(value(1), &[if flag() { root() } else { root().when(&ch(of(KEYS)), &ch(of(VALS))) }]) }
    h_c13_one { run(value(1), &steps(1, true)) }
    h_c13_two { let st = steps(2, true); run(along(&st), &st) }
    h_c13_over { run(value(1), &steps(2, false)) }
    h_c13_nested { run(value(2), &steps(2, false)) }
    h_c13_three { let st = steps(3, false); run(along(&st), &st) }
    h_c13_twice { run(value(2), &[index(vec![pick(2) as usize, pick(2) as usize]), key(&ch(of(KEYS)))]) }
    h_c13_dressed { run(dressed(value(1)), &steps(1, false)) }
    h_c13_dressed2 { let st = steps(2, false); run(dressed(along(&st)), &st) }
    h_c13_dressed3 { let st = [step(false), step(false), key(&ch(of(KEYS)))]; run(dress(along(&st), 4), &st) }
    h_c13_worded { let (y, st) = worded(); run(y, &st) }
    h_c13_crowd { let (y, st) = crowd(); run(y, &st) }
    h_c13_fields { let (y, st) = fields(); run(y, &st) }
    h_c13_deep { let (y, st) = deep(); run(y, &st) }
    h_c13_conditions { let (y, st) = conditional(); run(y, &st) }
    h_c13_long { let st = [key("a"), index(vec![pick(2) as usize]), key("b"), all(), step(false)]; run(along(&st), &st) }
    h_c13_styles { let (f, g, v, w) = (of(KEYS), of(KEYS), ch(of(VALS)), ch(of(VALS))); run(conds(), &[all(), key("a").when(&ch(f), &v).when(&ch(g), &w)]) }
}
deep! {
    t_c13_any { run(value(3), &steps(3, false)) }
    t_c13_three { run(value(3), &steps(3, true)) }
}
