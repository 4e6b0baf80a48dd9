//! C17: a path selects the values it names.
use crate::sym::*;
use crate::tree::*;
use yaml_subset::yaml::{Document, DocumentData, Yaml, YamlInsert};

fn run(mut y: Yaml, st: &[Step]) {
    let p = path(st);
    let mut want: Vec<Yaml> = Vec::new();
    let orig = y.clone();
    walk(&mut y, st, &mut |y, s| match s {
        None => want.push(y.clone()),
        Some(s) => if let Some(a) = get(y, &s.key) { want.push(a.value.clone()) },
    });
    reach(0);
    if !want.is_empty() { reach(1) }
    check(y.find_values(&p).0 == want, "other values");
    check(y == orig, "looking changed the value");
    let mut d = Document { leading_comments: Vec::new(), items: vec![DocumentData::Comment(String::new()), DocumentData::Yaml(y)] };
    check(d.find_values(&p).0 == want, "other values in a document");
}

/// An array whose elements hold the fields conditions ask for, in every style.
fn conds() -> Yaml {
    let (k, l) = (of(KEYS), of(KEYS));
    assume(k != l);
    Yaml::Array(vec![it(un("x")), it(Yaml::Hash(vec![hc(" c"), el(&ch(k), styled(&ch(of(VALS)))), el(&ch(l), un(&ch(of(VALS))))]))])
}

harnesses! {
    h_c17_root { run(value(1), &[if flag() { root() } else { root().when(&ch(of(KEYS)), &ch(of(VALS))) }]) }
    h_c17_one { run(value(1), &steps(1, true)) }
    h_c17_two { let st = steps(2, true); run(along(&st), &st) }
    h_c17_over { run(value(1), &steps(2, false)) }
    h_c17_nested { run(value(2), &steps(2, false)) }
    h_c17_three { let st = steps(3, false); run(along(&st), &st) }
    h_c17_dressed { run(dressed(value(1)), &steps(1, false)) }
    h_c17_dressed2 { let st = steps(2, false); run(dressed(along(&st)), &st) }
    h_c17_dressed3 { let st = [step(false), step(false), key(&ch(of(KEYS)))]; run(dress(along(&st), 4), &st) }
    h_c17_worded { let (y, st) = worded(); run(y, &st) }
    h_c17_crowd { let (y, st) = crowd(); run(y, &st) }
    h_c17_fields { let (y, st) = fields(); run(y, &st) }
    h_c17_deep { let (y, st) = deep(); run(y, &st) }
    h_c17_conditions { let (y, st) = conditional(); run(y, &st) }
    h_c17_long { let st = [key("a"), index(vec![pick(2) as usize]), key("b"), all(), step(false)]; run(along(&st), &st) }
    h_c17_styles { let (f, g, v, w) = (of(KEYS), of(KEYS), ch(of(VALS)), ch(of(VALS))); run(conds(), &[all(), key("a").when(&ch(f), &v).when(&ch(g), &w)]) }
}
deep! {
    t_c17_any { run(value(3), &steps(3, false)) }
    t_c17_three { run(value(3), &steps(3, true)) }
}
