//! C06: scalars survive serialization; text that doesn't denote a value of the type is an error.
use crate::sym::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use yaml_subset::yaml::{from_yaml, from_yaml_str, string::*, Document, DocumentData, Pretty, Yaml, YamlSerializer};

fn ser<T: Serialize>(v: &T) -> Yaml {
    match v.serialize(YamlSerializer) { Ok(y) => y, Err(_) => fail("serialization failed") }
}
fn rt<T: Serialize + DeserializeOwned + PartialEq>(v: T) {
    let y = ser(&v);
    reach(0);
    let y = if flag() { y.pretty() } else { y };
    let mut t = String::new();
    y.format(&mut t, 0, None).unwrap();
    out(&t);
    match from_yaml::<T>(y) {
        Ok(w) => check(w == v, "the value changed"),
        Err(_) => fail("deserialization failed"),
    }
}
#[derive(Serialize, Deserialize, PartialEq)]
struct W<X> { w: X, z: bool }
fn text<T: Serialize + DeserializeOwned + PartialEq>(v: T) {
    let v = W { w: v, z: true };
    let d = Document { leading_comments: Vec::new(), items: vec![DocumentData::Yaml(ser(&v))] };
    let d = if flag() { d.pretty() } else { d };
    let t = d.format().unwrap();
    reach(0);
    out(&t);
    match from_yaml_str::<W<T>>(&t) {
        Ok(w) => check(w == v, "the value changed"),
        Err(_) => fail("the text does not read back"),
    }
}
fn num<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
/// One of 256 consecutive numbers around a boundary.
fn near(bases: &[i128]) -> i128 {
    let b = bases[pick(bases.len() as u8) as usize];
    b.wrapping_add(byte() as i128)
}
const fn p(e: u32) -> i128 { 1i128 << e }
fn chr(n: u8) -> char {
    let v: Vec<u8> = match n {
        1 => vec![ascii()],
        2 => {
            let (a, b) = (byte(), byte());
            assume((a >= 0xc2) & (a <= 0xdf) & (b >= 0x80) & (b <= 0xbf));
            vec![a, b]
        }
        3 => {
            let (a, b, c) = (byte(), byte(), byte());
            assume((a >= 0xe1) & (a <= 0xec) & (b >= 0x80) & (b <= 0xbf) & (c >= 0x80) & (c <= 0xbf));
            vec![a, b, c]
        }
        _ => {
            let (a, b, c, d) = (byte(), byte(), byte(), byte());
            assume((a >= 0xf1) & (a <= 0xf3) & (b >= 0x80) & (b <= 0xbf) & (c >= 0x80) & (c <= 0xbf) & (d >= 0x80) & (d <= 0xbf));
            vec![a, b, c, d]
        }
    };
    let s = unsafe { String::from_utf8_unchecked(v) };
    s.chars().next().unwrap()
}

/// What the text denotes as an integer between lo and hi.
fn integer(s: &str, lo: i128, hi: i128) -> Option<i128> {
    let b = s.as_bytes();
    let (neg, b) = match b.first() {
        Some(b'-') if lo < 0 => (true, &b[1..]),
        Some(b'+') => (false, &b[1..]),
        _ => (false, b),
    };
    if b.is_empty() { return None; }
    let mut v: i128 = 0;
    for &c in b {
        if !((c >= b'0') & (c <= b'9')) { return None; }
        v = v.wrapping_mul(10).wrapping_add((c - b'0') as i128);
    }
    let v = if neg { 0i128.wrapping_sub(v) } else { v };
    if (v >= lo) & (v <= hi) { Some(v) } else { None }
}
fn scalar(s: &str) -> Yaml {
    match pick(3) {
        0 => Yaml::UnquotedString(s.to_string()),
        1 => Yaml::SingleQuotedString(vec![SingleQuotedStringPart::String(s.to_string())]),
        _ => Yaml::DoubleQuotedString(vec![DoubleQuotedStringPart::String(s.to_string())]),
    }
}
trait Int: DeserializeOwned { const LO: i128; const HI: i128; fn wide(self) -> i128; }
macro_rules! ints { ($($t:ident)*) => { $(impl Int for $t { const LO: i128 = $t::MIN as i128; const HI: i128 = $t::MAX as i128; fn wide(self) -> i128 { self as i128 } })* } }
ints!(i8 u8 i16 u16 i32 u32 i64 u64);
impl Int for i128 { const LO: i128 = i128::MIN; const HI: i128 = i128::MAX; fn wide(self) -> i128 { self } }
fn read<T: Int>(pre: &str, n: usize) {
    let mut s = String::from(pre);
    s.push_str(&asciis(n));
    reach(0);
    out(&s);
    let want = integer(&s, T::LO, T::HI);
    match from_yaml::<T>(scalar(&s)) {
        Ok(v) => check(want == Some(v.wide()), "read another number"),
        Err(_) => check(want.is_none(), "the number was refused"),
    }
}
fn boolean(s: &str) -> Option<bool> {
    match s {
        "true" | "True" | "TRUE" | "yes" | "Yes" | "YES" | "on" | "On" | "ON" => Some(true),
        "false" | "False" | "FALSE" | "no" | "No" | "NO" | "off" | "Off" | "OFF" => Some(false),
        _ => None,
    }
}
fn boolread(n: usize) {
    let s = asciis(n);
    reach(0);
    out(&s);
    match from_yaml::<bool>(Yaml::UnquotedString(s.clone())) {
        Ok(v) => check(boolean(&s) == Some(v), "read another boolean"),
        Err(_) => check(boolean(&s).is_none(), "the boolean was refused"),
    }
}
fn charread(n: usize) {
    let s = asciis(n);
    reach(0);
    out(&s);
    match from_yaml::<char>(scalar(&s)) {
        Ok(c) => check(n == 1 && s.as_bytes()[0] == c as u8, "read another character"),
        Err(_) => check(n != 1, "the character was refused"),
    }
}
fn null(s: &str) -> bool { s == "~" || s == "null" || s == "Null" || s == "NULL" }
fn optread(n: usize) {
    let s = asciis(n);
    reach(0);
    out(&s);
    let y = scalar(&s);
    let plain = matches!(y, Yaml::UnquotedString(_));
    match from_yaml::<Option<String>>(y) {
        Ok(None) => check(plain && null(&s), "read nothing"),
        Ok(Some(t)) => check(t == s && !(plain && null(&s)), "read another option"),
        Err(_) => fail("the option was refused"),
    }
}

harnesses! {
    h_c06_u8 { rt(u8::from_le_bytes(num())) }
    h_c06_i8 { rt(i8::from_le_bytes(num())) }
    h_c06_u16 { rt(u16::from_le_bytes(num())) }
    h_c06_i16 { rt(i16::from_le_bytes(num())) }
    h_c06_u32 { rt(near(&[0, 0x7f80, 0xff80, p(31) - 128, p(32) - 256]) as u32) }
    h_c06_i32 { rt(near(&[-128, 0x7f80, 0xff80, -0x8080, p(31) - 256, -p(31)]) as i32) }
    h_c06_u64 { rt(near(&[0, 0xff80, p(31) - 128, p(32) - 128, p(53) - 128, p(63) - 128, p(64) - 256]) as u64) }
    h_c06_i64 { rt(near(&[-128, 0xff80, p(31) - 128, p(32) - 128, -p(31) - 128, -p(32) - 128, p(53) - 128, p(63) - 256, -p(63)]) as i64) }
    h_c06_u128 { rt(near(&[0, 0xff80, p(32) - 128, p(53) - 128, 9999999999999999 - 255]) as u128) }
    h_c06_i128 { rt(near(&[-128, p(32) - 128, -p(53) - 128, 9999999999999999 - 255, -9999999999999999])) }
    h_c06_text_u8 { text(u8::from_le_bytes(num())) }
    h_c06_text_i16 { text(i16::from_le_bytes(num())) }
    h_c06_text_i64 { text(near(&[-128, p(32) - 128, p(63) - 256, -p(63)]) as i64) }
    h_c06_text_u64 { text(near(&[p(63) - 128, p(64) - 256]) as u64) }
    h_c06_text_i128 { text(near(&[-128, 9999999999999999 - 255])) }
    h_c06_bool { rt(flag()); rt(Some(flag())) }
    h_c06_unit { rt(()); rt(None::<bool>); rt(None::<String>); text(()); text(None::<i64>); text(flag()) }
    h_c06_opt { rt(Some(i8::from_le_bytes(num()))) }
    h_c06_opt2 { text(if flag() { Some(u8::from_le_bytes(num())) } else { None }) }
    h_c06_char { rt(chr(1)) }
    h_c06_char2 { rt(chr(2)) }
    h_c06_char3 { rt(chr(3)) }
    h_c06_char4 { rt(chr(4)) }
    h_c06_text_char { text(chr(1)) }
    h_c06_text_char4 { text(chr(4)) }
    h_c06_read_u8 { read::<u8>("", 4) }
    h_c06_read_i8 { read::<i8>("", 4) }
    h_c06_read_u8s { read::<u8>("", pick(3) as usize) }
    h_c06_read_i8s { read::<i8>("", pick(3) as usize) }
    h_c06_read_u16 { read::<u16>("65", 4) }
    h_c06_read_i16 { read::<i16>(pick_str(&["32", "-32"]), 4) }
    h_c06_read_u32 { read::<u32>("42949672", 3) }
    h_c06_read_i32 { read::<i32>(pick_str(&["21474836", "-21474836"]), 3) }
    h_c06_read_u64 { read::<u64>("184467440737095516", 3) }
    h_c06_read_i64 { read::<i64>(pick_str(&["92233720368547758", "-92233720368547758"]), 3) }
    h_c06_read_i128 { read::<i128>(pick_str(&["9223372036854775807", "-18446744073709551616"]), 2) }
    h_c06_bool2 { boolread(2) }
    h_c06_bool3 { boolread(3) }
    h_c06_bool4 { boolread(4) }
    h_c06_bool5 { boolread(5) }
    h_c06_bool1 { boolread(pick(2) as usize) }
    h_c06_charread { charread(pick(4) as usize) }
    h_c06_optread { optread(pick(5) as usize) }
}
deep! {
}
