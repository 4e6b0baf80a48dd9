//! Symbolic inputs, assumptions and verdicts. Under the symbolic executor the functions below are
//! intercepted by name; in the replay binary they read a recorded input.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_assume(b: u32);
    fn sym_fail(p: *const u8, n: usize) -> !;
    fn sym_reach(k: u32);
    fn sym_out(p: *const u8, n: usize);
    fn sym_known(k: u32);
}
#[cfg(feature = "native")]
pub use native::*;
#[cfg(feature = "native")]
use native::{sym_assume, sym_bytes, sym_fail, sym_known, sym_out, sym_reach};

#[cfg(feature = "native")]
pub mod native {
    use std::cell::RefCell;
    pub struct Abort(pub &'static str, pub String);
    #[derive(Default)]
    pub struct Rec {
        pub input: Vec<u8>,
        pub pos: usize,
        pub out: Vec<u8>,
        pub reach: u64,
        pub known: u64,
    }
    thread_local!(pub static REC: RefCell<Rec> = RefCell::new(Rec::default()));
    pub unsafe fn sym_bytes(p: *mut u8, n: usize) {
        REC.with(|r| {
            let mut r = r.borrow_mut();
            for i in 0..n {
                let at = r.pos;
                *p.add(i) = r.input.get(at).copied().unwrap_or(0);
                r.pos += 1;
            }
        })
    }
    pub unsafe fn sym_assume(b: u32) {
        if b == 0 {
            std::panic::panic_any(Abort("assume", String::new()))
        }
    }
    pub unsafe fn sym_fail(p: *const u8, n: usize) -> ! {
        let s = std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)).to_string();
        std::panic::panic_any(Abort("fail", s))
    }
    pub unsafe fn sym_reach(k: u32) {
        REC.with(|r| r.borrow_mut().reach |= 1 << k)
    }
    pub unsafe fn sym_known(k: u32) {
        REC.with(|r| r.borrow_mut().known |= 1 << k)
    }
    pub unsafe fn sym_out(p: *const u8, n: usize) {
        REC.with(|r| r.borrow_mut().out.extend_from_slice(std::slice::from_raw_parts(p, n)))
    }
}

pub fn byte() -> u8 {
    let mut b = 0u8;
    unsafe { sym_bytes(&mut b, 1) };
    b
}
pub fn fill(b: &mut [u8]) {
    unsafe { sym_bytes(b.as_mut_ptr(), b.len()) }
}
/// Cut the path unless `b`; no fork on the condition itself.
pub fn assume(b: bool) {
    unsafe { sym_assume(b as u32) }
}
#[inline(never)]
pub fn fail(msg: &str) -> ! {
    unsafe { sym_fail(msg.as_ptr(), msg.len()) }
}
pub fn check(b: bool, msg: &str) {
    if !b {
        fail(msg)
    }
}
/// Vacuity mark: the run counts how many explored paths come through here.
pub fn reach(k: u32) {
    unsafe { sym_reach(k) }
}
/// The rest of this path lies in the region of known finding `k`.
pub fn known(k: u32) {
    unsafe { sym_known(k) }
}
/// Observable output, compared between the executor and the real code on sampled paths.
pub fn out(s: &str) {
    unsafe { sym_out(s.as_ptr(), s.len()) }
}
/// A symbolic choice among `n` alternatives (forks).
pub fn pick(n: u8) -> u8 {
    if n <= 1 {
        return 0;
    }
    let b = byte();
    assume(b < n);
    let mut i = 0;
    while i < n {
        if b == i {
            return i;
        }
        i += 1;
    }
    fail("pick")
}
pub fn pick_str<'a>(xs: &[&'a str]) -> &'a str {
    xs[pick(xs.len() as u8) as usize]
}
pub fn flag() -> bool {
    pick(2) == 1
}
/// A byte constrained to a set given as a string of ASCII characters (no fork).
pub fn of(set: &str) -> u8 {
    let b = byte();
    let mut ok = false;
    for c in set.bytes() {
        ok |= b == c;
    }
    assume(ok);
    b
}
/// Any ASCII byte except NUL.
pub fn ascii() -> u8 {
    let b = byte();
    assume((b < 0x80) & (b != 0));
    b
}
/// A printable ASCII byte.
pub fn print() -> u8 {
    let b = byte();
    assume((b < 0x7f) & (b >= 0x20));
    b
}
/// `n` printable ASCII bytes.
pub fn prints(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(print())
    }
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn asciis(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(ascii())
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Any character outside ASCII, by its length in bytes: 2, 3 or 4.
pub fn wide(len: u8) -> String {
    let (lo, hi) = match len { 2 => (0xc2, 0xdf), 3 => (0xe1, 0xec), _ => (0xf1, 0xf3) };
    let mut v = Vec::with_capacity(4);
    let b = byte();
    assume((b >= lo) & (b <= hi));
    v.push(b);
    for _ in 1..len {
        let b = byte();
        assume((b >= 0x80) & (b <= 0xbf));
        v.push(b)
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// The same without carriage returns.
pub fn mixed_lf(n: usize) -> String {
    let s = mixed(n);
    for b in s.bytes() { assume(b != b'\r') }
    s
}
/// `n` characters, one of them anywhere outside ASCII.
pub fn mixed(n: usize) -> String {
    let at = pick(n as u8) as usize;
    let mut s = String::new();
    for i in 0..n {
        if i == at { s.push_str(&wide(2 + pick(3))) } else { s.push_str(&asciis(1)) }
    }
    s
}
pub fn of_n(set: &str, n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(of(set))
    }
    unsafe { String::from_utf8_unchecked(v) }
}
pub const ALNUM: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
pub const WORD: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
