//! Parser for textual LLVM IR as printed by rustc (LLVM 23), producing `ir::Module`.
use crate::exec::{special_of, Val};
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

pub const GBASE: u64 = 0x10; // object ids of globals start here
pub const FN_BASE: u64 = 0x7f00_0000_0000_0000;

pub fn global_addr(i: usize) -> u64 {
    (GBASE + i as u64) << 32
}
pub fn fn_addr(i: u32) -> u64 {
    FN_BASE + (i as u64) * 16
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(String),
    Global(String),
    Word(String),
    Num(String),
    CStr(Vec<u8>),
    Str(String),
    P(char),
    Meta(String),
    AttrRef,
    Ellipsis,
    Nl,
}

fn unesc(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if i + 1 < s.len() && s[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
                o.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    while i < b.len() {
        let c = b[i];
        match c {
            b'\n' => {
                out.push(Tok::Nl);
                i += 1;
            }
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let (name, ni) = if i + 1 < b.len() && b[i + 1] == b'"' {
                    let st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    (String::from_utf8(unesc(&b[st..j])).unwrap(), j + 1)
                } else {
                    let st = i + 1;
                    let mut j = st;
                    while j < b.len() && is_id(b[j]) {
                        j += 1;
                    }
                    (s[st..j].to_string(), j)
                };
                i = ni;
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'#' => {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                out.push(Tok::AttrRef);
            }
            b'!' => {
                let st = i;
                i += 1;
                while i < b.len() && (is_id(b[i]) || b[i] == b'\\') {
                    i += 1;
                }
                out.push(Tok::Meta(s[st..i].to_string()));
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Str(s[st..j].to_string()));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::CStr(unesc(&b[st..j])));
                i = j + 1;
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(Tok::Ellipsis);
                i += 3;
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e' || b[i - 1] == b'E') && !s[st..].starts_with("0x"))) {
                    i += 1;
                }
                out.push(Tok::Num(s[st..i].to_string()));
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'.' || b[i] == b'-') {
                    i += 1;
                }
                out.push(Tok::Word(s[st..i].to_string()));
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out.push(Tok::Nl);
    out
}

struct Ps<'a> {
    t: &'a [Tok],
    i: usize,
    cx: &'a Ctx,
}

pub struct Ctx {
    types: HashMap<String, Ty>,
    gidx: HashMap<String, usize>,
    fidx: HashMap<String, u32>,
    aliases: HashMap<String, u64>,
}

const VALUE_WORDS: &[&str] = &[
    "true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr", "inttoptr", "ptrtoint", "bitcast", "trunc", "add",
    "sub", "splat", "xor", "ptrtoaddr", "asm", "blockaddress", "no_cfi", "dso_local_equivalent",
];

impl<'a> Ps<'a> {
    fn peek(&self) -> &'a Tok {
        &self.t[self.i]
    }
    fn next(&mut self) -> &'a Tok {
        let t = &self.t[self.i];
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Tok::P(x) if *x == c)
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Tok::Word(x) if x == w)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect_p(&mut self, c: char) {
        if !self.eat_p(c) {
            let lo = self.i.saturating_sub(15);
            panic!("expected {:?}, got {:?}; context {:?}", c, self.peek(), &self.t[lo..(self.i + 5).min(self.t.len())]);
        }
    }
    fn expect_w(&mut self, w: &str) {
        if !self.eat_w(w) {
            let lo = self.i.saturating_sub(15);
            panic!("expected {:?}, got {:?}; context {:?}", w, self.peek(), &self.t[lo..(self.i + 5).min(self.t.len())]);
        }
    }
    fn num(&mut self) -> i128 {
        match self.next() {
            Tok::Num(n) => n.parse().unwrap_or_else(|_| panic!("num {}", n)),
            t => panic!("expected number, got {:?}", t),
        }
    }
    fn skip_parens(&mut self) {
        self.expect_p('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
    }
    fn try_ty(&mut self) -> Option<Ty> {
        let save = self.i;
        let t = match self.peek() {
            Tok::Word(w) => {
                let t = match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "label" => Ty::Label,
                    "metadata" => Ty::Metadata,
                    "opaque" | "token" => Ty::Opaque,
                    w if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
                    _ => return None,
                };
                self.i += 1;
                t
            }
            Tok::Local(n) => {
                let t = self.cx.types.get(n)?.clone();
                self.i += 1;
                t
            }
            Tok::P('[') => {
                self.i += 1;
                let n = self.num() as u64;
                self.expect_w("x");
                let e = self.ty();
                self.expect_p(']');
                Ty::Array(n, Rc::new(e))
            }
            Tok::P('{') => {
                self.i += 1;
                let mut fs = vec![];
                if !self.eat_p('}') {
                    loop {
                        fs.push(self.ty());
                        if self.eat_p('}') {
                            break;
                        }
                        self.expect_p(',');
                    }
                }
                Ty::Struct(fs, false)
            }
            Tok::P('<') => {
                self.i += 1;
                if self.eat_p('{') {
                    let mut fs = vec![];
                    if !self.eat_p('}') {
                        loop {
                            fs.push(self.ty());
                            if self.eat_p('}') {
                                break;
                            }
                            self.expect_p(',');
                        }
                    }
                    self.expect_p('>');
                    Ty::Struct(fs, true)
                } else {
                    let n = self.num() as u64;
                    self.expect_w("x");
                    let e = self.ty();
                    self.expect_p('>');
                    Ty::Vector(n, Rc::new(e))
                }
            }
            _ => {
                self.i = save;
                return None;
            }
        };
        // function type suffix `(..)` — only used before callee; handled by caller
        Some(t)
    }
    fn ty(&mut self) -> Ty {
        match self.try_ty() {
            Some(t) => t,
            None => {
                let lo = self.i.saturating_sub(15);
                panic!("expected type, got {:?}; context {:?}", self.peek(), &self.t[lo..(self.i + 5).min(self.t.len())])
            }
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::Word(w) => {
                    if VALUE_WORDS.contains(&w.as_str()) {
                        return;
                    }
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens();
                    } else if w == "align" {
                        self.i += 1;
                    }
                }
                Tok::Str(_) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                Tok::AttrRef => self.i += 1,
                _ => return,
            }
        }
    }
    fn sym_addr(&self, g: &str) -> u64 {
        if let Some(a) = self.cx.aliases.get(g) {
            return *a;
        }
        if let Some(i) = self.cx.gidx.get(g) {
            return global_addr(*i);
        }
        if let Some(i) = self.cx.fidx.get(g) {
            return fn_addr(*i);
        }
        panic!("unknown symbol @{}", g)
    }
    /// constant of type `ty` as a Val
    fn konst(&mut self, ty: &Ty) -> Val {
        match self.next() {
            Tok::Num(n) => match ty {
                Ty::Int(w) => {
                    let v: i128 = n.parse().unwrap_or_else(|_| n.parse::<u128>().map(|x| x as i128).unwrap_or_else(|_| panic!("int const {}", n)));
                    Val::int(v as u128, *w)
                }
                Ty::Double => Val::C(fp_const(n, true)),
                Ty::Float => Val::C(fp_const(n, false)),
                _ => panic!("num const for {:?}", ty),
            },
            Tok::Global(g) => Val::C(self.sym_addr(g)),
            Tok::CStr(b) => Val::Agg(b.iter().map(|c| Val::C(*c as u64)).collect::<Vec<_>>().into()),
            Tok::Word(w) => match w.as_str() {
                "true" => Val::C(1),
                "false" => Val::C(0),
                "null" | "none" => Val::C(0),
                "undef" | "poison" | "zeroinitializer" => Val::zero(ty),
                "splat" => {
                    self.expect_p('(');
                    let t = self.ty();
                    let v = self.konst(&t);
                    self.expect_p(')');
                    Val::Agg(vec![v; ty.n_elems()].into())
                }
                "getelementptr" => {
                    while matches!(self.peek(), Tok::Word(_)) {
                        let isr = self.is_w("inrange");
                        self.i += 1;
                        if isr {
                            self.skip_parens();
                        }
                    }
                    self.expect_p('(');
                    let bt = self.ty();
                    self.expect_p(',');
                    let pt = self.ty();
                    let base = self.konst(&pt).c();
                    let mut off = 0i64;
                    let mut cur = Ty::Array(u64::MAX, Rc::new(bt));
                    while self.eat_p(',') {
                        self.eat_w("inrange");
                        let it = self.ty();
                        let iv = self.konst(&it);
                        let idx = sext64(iv.c(), it.bits());
                        match &cur {
                            Ty::Struct(..) => {
                                off += cur.field_off(idx as usize) as i64;
                                cur = cur.elem(idx as usize);
                            }
                            _ => {
                                let e = cur.elem(0);
                                off += e.size() as i64 * idx;
                                cur = e;
                            }
                        }
                    }
                    self.expect_p(')');
                    Val::C(base.wrapping_add(off as u64))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    self.expect_p('(');
                    let t = self.ty();
                    let v = self.konst(&t);
                    self.expect_w("to");
                    let tt = self.ty();
                    self.expect_p(')');
                    if tt.bits() == 0 {
                        v
                    } else {
                        Val::int(v.u128().unwrap(), tt.bits())
                    }
                }
                "add" | "sub" | "xor" => {
                    while matches!(self.peek(), Tok::Word(_)) {
                        self.i += 1;
                    }
                    self.expect_p('(');
                    let t = self.ty();
                    let a = self.konst(&t).c();
                    self.expect_p(',');
                    let t2 = self.ty();
                    let b = self.konst(&t2).c();
                    self.expect_p(')');
                    let r = match w.as_str() {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        _ => a ^ b,
                    };
                    Val::int(r as u128, t.bits())
                }
                "f0x" => panic!("f0x"),
                w if w.starts_with("f0x") => Val::C(u64::from_str_radix(&w[3..], 16).unwrap()),
                "inf" => Val::C(if *ty == Ty::Double { f64::INFINITY.to_bits() } else { f32::INFINITY.to_bits() as u64 }),
                w => {
                    let lo = self.i.saturating_sub(15);
                    panic!("constant word {} context {:?}", w, &self.t[lo..(self.i + 5).min(self.t.len())])
                }
            },
            Tok::P('{') => {
                let v = self.agg_body('}');
                v
            }
            Tok::P('[') => self.agg_body(']'),
            Tok::P('<') => {
                if self.eat_p('{') {
                    let v = self.agg_body('}');
                    self.expect_p('>');
                    v
                } else {
                    self.agg_body('>')
                }
            }
            t => {
                let lo = self.i.saturating_sub(15);
                panic!("constant {:?} context {:?}", t, &self.t[lo..(self.i + 5).min(self.t.len())])
            }
        }
    }
    fn agg_body(&mut self, close: char) -> Val {
        let mut vs = vec![];
        if !self.eat_p(close) {
            loop {
                let t = self.ty();
                vs.push(self.konst(&t));
                if self.eat_p(close) {
                    break;
                }
                self.expect_p(',');
            }
        }
        Val::Agg(vs.into())
    }
}

fn fp_const(n: &str, dbl: bool) -> u64 {
    if let Some(h) = n.strip_prefix("0x") {
        let b = u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("fp {}", n));
        if dbl {
            b
        } else {
            (f64::from_bits(b) as f32).to_bits() as u64
        }
    } else {
        let (neg, m) = match n.as_bytes()[0] {
            b'+' => (false, &n[1..]),
            b'-' => (true, &n[1..]),
            _ => (false, n),
        };
        let f: f64 = match m {
            "inf" => f64::INFINITY,
            "nan" | "qnan" => f64::from_bits(0x7ff8_0000_0000_0000),
            _ => m.parse().unwrap_or_else(|_| panic!("fp {:?}", n)),
        };
        let f = if neg { -f } else { f };
        if dbl {
            f.to_bits()
        } else {
            (f as f32).to_bits() as u64
        }
    }
}

pub fn sext64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

pub fn write_val(buf: &mut [u8], off: usize, ty: &Ty, v: &Val) {
    match v {
        Val::Agg(vs) => {
            for (i, e) in vs.iter().enumerate() {
                write_val(buf, off + ty.field_off(i) as usize, &ty.elem(i), e);
            }
        }
        v => {
            let n = ty.store_size() as usize;
            let x = v.u128().unwrap();
            for k in 0..n {
                buf[off + k] = if k < 16 { (x >> (8 * k)) as u8 } else { 0 };
            }
        }
    }
}

struct FnCx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl FnCx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(r) = self.blocks.get(n) {
            return *r;
        }
        let r = self.blocks.len() as u32;
        self.blocks.insert(n.to_string(), r);
        r
    }
}

impl<'a> Ps<'a> {
    fn opd(&mut self, ty: &Ty, f: &mut FnCx) -> Opd {
        if let Tok::Local(n) = self.peek() {
            self.i += 1;
            return Opd::R(f.reg(n));
        }
        if let Ty::Metadata = ty {
            // metadata operand: skip until ',' or ')' at depth 0
            let mut d = 0;
            loop {
                match self.peek() {
                    Tok::P('(') | Tok::P('{') => d += 1,
                    Tok::P(')') | Tok::P('}') => {
                        if d == 0 {
                            break;
                        }
                        d -= 1
                    }
                    Tok::P(',') if d == 0 => break,
                    _ => {}
                }
                self.i += 1;
            }
            return Opd::K(Val::C(0));
        }
        Opd::K(self.konst(ty))
    }
    fn label(&mut self, f: &mut FnCx) -> u32 {
        self.expect_w("label");
        match self.next() {
            Tok::Local(n) => f.block(n),
            t => panic!("label {:?}", t),
        }
    }
}

fn edge(b: u32) -> Edge {
    Edge { block: b, copies: Box::new([]) }
}

fn int_w(t: &Ty) -> (u32, u32) {
    match t {
        Ty::Vector(n, e) => (e.bits(), *n as u32),
        t => (t.bits(), 0),
    }
}

pub fn parse_module(src: &str) -> Module {
    // ---- pass 1: split into top-level items
    let mut globals_src: Vec<&str> = vec![];
    let mut aliases_src: Vec<&str> = vec![];
    let mut types_src: Vec<&str> = vec![];
    let mut decls: Vec<&str> = vec![];
    let mut defs: Vec<(&str, &str)> = vec![]; // header, body
    let mut pos = 0usize;
    let bytes = src.as_bytes();
    while pos < src.len() {
        let end = src[pos..].find('\n').map(|e| pos + e).unwrap_or(src.len());
        let line = &src[pos..end];
        match bytes[pos] {
            b'@' => {
                if line.contains(" alias ") && !line.contains("constant") && !line.contains(" global ") {
                    aliases_src.push(line)
                } else {
                    globals_src.push(line)
                }
            }
            b'%' => types_src.push(line),
            b'd' if line.starts_with("define ") => {
                let close = src[end..].find("\n}").map(|e| end + e).expect("function end");
                defs.push((line, &src[end..close + 1]));
                pos = close + 3;
                continue;
            }
            b'd' if line.starts_with("declare ") => decls.push(line),
            _ => {}
        }
        pos = end + 1;
    }
    let mut cx = Ctx { types: HashMap::new(), gidx: HashMap::new(), fidx: HashMap::new(), aliases: HashMap::new() };
    for l in &types_src {
        let toks = lex(l);
        if let Tok::Local(n) = &toks[0] {
            let n = n.clone();
            let ty = {
                let mut p = Ps { t: &toks, i: 3, cx: &cx };
                p.ty()
            };
            cx.types.insert(n, ty);
        }
    }
    let gname = |l: &str| -> String {
        let toks = lex(&l[..l.find(" = ").unwrap()]);
        match &toks[0] {
            Tok::Global(n) => n.clone(),
            _ => panic!(),
        }
    };
    for (i, l) in globals_src.iter().enumerate() {
        cx.gidx.insert(gname(l), i);
    }
    let mut m = Module::default();
    let mut fn_headers: Vec<Vec<Tok>> = vec![];
    for (h, _) in &defs {
        fn_headers.push(lex(h));
    }
    for d in &decls {
        fn_headers.push(lex(d));
    }
    for (i, t) in fn_headers.iter().enumerate() {
        let name = t
            .iter()
            .find_map(|x| match x {
                Tok::Global(n) => Some(n.clone()),
                _ => None,
            })
            .unwrap();
        cx.fidx.insert(name, i as u32);
    }
    for l in &aliases_src {
        let toks = lex(l);
        let n = gname(l);
        let tgt = toks
            .iter()
            .skip(1)
            .find_map(|x| match x {
                Tok::Global(n) => Some(n.clone()),
                _ => None,
            })
            .unwrap();
        let p = Ps { t: &toks, i: 0, cx: &cx };
        let a = p.sym_addr(&tgt);
        cx.aliases.insert(n, a);
    }
    // ---- globals
    for l in &globals_src {
        let toks = lex(l);
        let mut p = Ps { t: &toks, i: 0, cx: &cx };
        let name = match p.next() {
            Tok::Global(n) => n.clone(),
            _ => panic!(),
        };
        p.expect_p('=');
        let mut constant = false;
        let mut external = false;
        loop {
            match p.next() {
                Tok::Word(w) => match w.as_str() {
                    "global" => break,
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "external" | "extern_weak" => external = true,
                    _ => {
                        if p.is_p('(') {
                            p.skip_parens();
                        }
                    }
                },
                t => panic!("global header {:?} in {}", t, l),
            }
        }
        let ty = p.ty();
        let size = ty.size();
        let init = if external {
            None
        } else {
            let mut buf = vec![0u8; size as usize];
            match p.peek() {
                Tok::Word(w) if w == "zeroinitializer" || w == "undef" || w == "poison" => {}
                Tok::CStr(b) => buf[..b.len()].copy_from_slice(b),
                _ => {
                    let v = p.konst(&ty);
                    write_val(&mut buf, 0, &ty, &v);
                }
            }
            Some(buf)
        };
        m.globals.push(Global { name, init, size, constant });
    }
    // ---- functions
    for (i, t) in fn_headers.iter().enumerate() {
        let defined = i < defs.len();
        let mut p = Ps { t, i: 1, cx: &cx };
        // return type: skip linkage / attributes until a type followed eventually by @name
        let ret;
        loop {
            if let Some(ty) = p.try_ty() {
                ret = ty;
                break;
            }
            match p.next() {
                Tok::Word(w) => {
                    if p.is_p('(') {
                        p.skip_parens();
                    } else if w == "align" {
                        p.i += 1;
                    }
                }
                Tok::Str(_) => {}
                t => panic!("fn header {:?}", t),
            }
        }
        let name = loop {
            match p.next() {
                Tok::Global(n) => break n.clone(),
                _ => {}
            }
        };
        p.expect_p('(');
        let mut fc = FnCx { regs: HashMap::new(), blocks: HashMap::new() };
        let mut np = 0;
        let mut varargs = false;
        if !p.eat_p(')') {
            loop {
                if matches!(p.peek(), Tok::Ellipsis) {
                    p.i += 1;
                    varargs = true;
                } else {
                    let _t = p.ty();
                    p.skip_attrs();
                    if let Tok::Local(n) = p.peek() {
                        p.i += 1;
                        let r = fc.reg(n);
                        assert_eq!(r, np);
                    } else if defined {
                        let r = fc.reg(&format!("{}", np));
                        assert_eq!(r, np);
                    }
                    np += 1;
                }
                if p.eat_p(')') {
                    break;
                }
                p.expect_p(',');
            }
        }
        let special = special_of(&name);
        let mut func = Func {
            name,
            idx: i as u32,
            nparams: np,
            nregs: np,
            blocks: vec![],
            frame_size: 0,
            allocas: vec![],
            defined,
            special,
            ret,
            varargs,
        };
        if defined {
            parse_body(defs[i].1, &cx, &mut fc, &mut func);
        }
        m.fidx.insert(func.name.clone(), i as u32);
        m.funcs.push(func);
    }
    m.gidx = cx.gidx;
    m.aliases = cx.aliases;
    m
}

fn parse_body(body: &str, cx: &Ctx, fc: &mut FnCx, func: &mut Func) {
    let toks = lex(body);
    let mut p = Ps { t: &toks, i: 0, cx };
    // phi: block -> Vec<(dst, Vec<(pred block, Opd)>)>
    let mut phis: HashMap<u32, Vec<(u32, Vec<(u32, Opd)>)>> = HashMap::new();
    let mut blocks: Vec<(u32, Vec<Inst>)> = vec![];
    let mut first = true;
    loop {
        while p.i < toks.len() && matches!(p.peek(), Tok::Nl) {
            p.i += 1;
        }
        if p.i >= toks.len() {
            break;
        }
        // block label?
        let lab = match (p.peek(), toks.get(p.i + 1)) {
            (Tok::Word(w), Some(Tok::P(':'))) => Some(w.clone()),
            (Tok::Num(w), Some(Tok::P(':'))) => Some(w.clone()),
            (Tok::Str(w), Some(Tok::P(':'))) => Some(String::from_utf8(unesc(w.as_bytes())).unwrap()),
            _ => None,
        };
        if let Some(l) = lab {
            p.i += 2;
            let b = fc.block(&l);
            blocks.push((b, vec![]));
            first = false;
            continue;
        }
        if first {
            // implicit entry label
            let unnamed = fc.regs.keys().filter(|k| k.bytes().all(|c| c.is_ascii_digit())).count();
            let b = fc.block(&format!("{}", unnamed));
            blocks.push((b, vec![]));
            first = false;
        }
        let cur = blocks.last().unwrap().0;
        let inst = parse_inst(&mut p, fc, func, &mut phis, cur, blocks.len() == 1);
        if let Some(x) = inst {
            blocks.last_mut().unwrap().1.push(x);
        }
        while !matches!(p.peek(), Tok::Nl) {
            p.i += 1;
        }
    }
    // order blocks by index; block 0 must be the entry (it is the first one created unless a
    // forward reference came first, which cannot happen)
    let entry = blocks[0].0;
    let n = fc.blocks.len();
    let mut out: Vec<Vec<Inst>> = vec![vec![]; n];
    for (b, v) in blocks {
        out[b as usize] = v;
    }
    // attach phi copies to edges
    let names: HashMap<u32, String> = fc.blocks.iter().map(|(k, v)| (*v, k.clone())).collect();
    let fname = func.name.clone();
    for (bi, blk) in out.iter_mut().enumerate() {
        let bi = bi as u32;
        let fix = |e: &mut Edge| {
            if let Some(ps) = phis.get(&e.block) {
                let mut copies = vec![];
                for (dst, inc) in ps {
                    let o = inc.iter().find(|(b, _)| *b == bi).map(|(_, o)| o.clone()).unwrap_or_else(|| panic!("phi incoming: {} from {:?} to {:?} ({:?})", fname, names.get(&bi), names.get(&e.block), inc));
                    copies.push((*dst, o));
                }
                e.copies = copies.into();
            }
        };
        if let Some(last) = blk.last_mut() {
            match last {
                Inst::Br { e } => fix(e),
                Inst::CondBr { t, f, .. } => {
                    fix(t);
                    fix(f);
                }
                Inst::Switch { edges, .. } => {
                    for e in edges.iter_mut() {
                        fix(e)
                    }
                }
                Inst::Call { normal: Some(e), .. } => fix(e),
                _ => {}
            }
        }
    }
    if entry != 0 {
        panic!("entry block is not first");
    }
    func.blocks = out;
    func.nregs = fc.regs.len() as u32;
}

fn bin_of(w: &str) -> Option<BinOp> {
    Some(match w {
        "add" => BinOp::Add,
        "sub" => BinOp::Sub,
        "mul" => BinOp::Mul,
        "udiv" => BinOp::UDiv,
        "sdiv" => BinOp::SDiv,
        "urem" => BinOp::URem,
        "srem" => BinOp::SRem,
        "and" => BinOp::And,
        "or" => BinOp::Or,
        "xor" => BinOp::Xor,
        "shl" => BinOp::Shl,
        "lshr" => BinOp::LShr,
        "ashr" => BinOp::AShr,
        _ => return None,
    })
}

fn parse_inst(
    p: &mut Ps,
    fc: &mut FnCx,
    func: &mut Func,
    phis: &mut HashMap<u32, Vec<(u32, Vec<(u32, Opd)>)>>,
    cur: u32,
    in_entry: bool,
) -> Option<Inst> {
    let mut dst: Option<u32> = None;
    if let (Tok::Local(n), Some(Tok::P('='))) = (p.peek(), p.t.get(p.i + 1)) {
        dst = Some(fc.reg(n));
        p.i += 2;
    }
    let mut w = match p.next() {
        Tok::Word(w) => w.as_str(),
        t => {
            let lo = p.i.saturating_sub(15);
            panic!("instruction start {:?} in {} context {:?}", t, func.name, &p.t[lo..(p.i + 5).min(p.t.len())])
        }
    };
    if matches!(w, "tail" | "musttail" | "notail") {
        w = match p.next() {
            Tok::Word(w) => w.as_str(),
            _ => panic!(),
        };
    }
    if let Some(op) = bin_of(w) {
        while matches!(p.peek(), Tok::Word(x) if matches!(x.as_str(), "nuw"|"nsw"|"exact"|"disjoint")) {
            p.i += 1;
        }
        let t = p.ty();
        let a = p.opd(&t, fc);
        p.expect_p(',');
        let b = p.opd(&t, fc);
        let (w, lanes) = int_w(&t);
        return Some(Inst::Bin { op, w, dst: dst.unwrap(), a, b, lanes });
    }
    match w {
        "icmp" => {
            p.eat_w("samesign");
            let pr = match p.next() {
                Tok::Word(x) => match x.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => panic!("icmp {}", x),
                },
                _ => panic!(),
            };
            let t = p.ty();
            let a = p.opd(&t, fc);
            p.expect_p(',');
            let b = p.opd(&t, fc);
            let (w, lanes) = int_w(&t);
            Some(Inst::Icmp { p: pr, w, dst: dst.unwrap(), a, b, lanes })
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            let op = match w {
                "fadd" => FOp::Add,
                "fsub" => FOp::Sub,
                "fmul" => FOp::Mul,
                "fdiv" => FOp::Div,
                _ => FOp::Rem,
            };
            skip_fmf(p);
            let t = p.ty();
            let a = p.opd(&t, fc);
            p.expect_p(',');
            let b = p.opd(&t, fc);
            Some(Inst::FBin { op, w: t.bits(), dst: dst.unwrap(), a, b })
        }
        "fneg" => {
            skip_fmf(p);
            let t = p.ty();
            let a = p.opd(&t, fc);
            Some(Inst::FNeg { w: t.bits(), dst: dst.unwrap(), a })
        }
        "fcmp" => {
            skip_fmf(p);
            let pr = match p.next() {
                Tok::Word(x) => x.clone(),
                _ => panic!(),
            };
            let t = p.ty();
            let a = p.opd(&t, fc);
            p.expect_p(',');
            let b = p.opd(&t, fc);
            Some(Inst::Fcmp { p: crate::expr::fpred(&pr), w: t.bits(), dst: dst.unwrap(), a, b })
        }
        "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "freeze"
        | "ptrtoaddr" => {
            while matches!(p.peek(), Tok::Word(x) if matches!(x.as_str(), "nuw"|"nsw"|"nneg"|"fast"|"contract")) {
                p.i += 1;
            }
            let from = p.ty();
            let a = p.opd(&from, fc);
            let to = if w == "freeze" {
                from.clone()
            } else {
                p.expect_w("to");
                p.ty()
            };
            let op = match w {
                "trunc" => CastOp::Trunc,
                "zext" => CastOp::ZExt,
                "sext" => CastOp::SExt,
                "uitofp" => CastOp::UIToFP,
                "sitofp" => CastOp::SIToFP,
                "fptoui" => CastOp::FPToUI,
                "fptosi" => CastOp::FPToSI,
                "fpext" => CastOp::FPExt,
                "fptrunc" => CastOp::FPTrunc,
                "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                    if from.bits() > to.bits() {
                        CastOp::Trunc
                    } else if from.bits() < to.bits() {
                        CastOp::ZExt
                    } else {
                        CastOp::BitCast
                    }
                }
                _ => CastOp::BitCast,
            };
            Some(Inst::Cast { op, from, to, dst: dst.unwrap(), a })
        }
        "load" => {
            p.eat_w("atomic");
            p.eat_w("volatile");
            let t = p.ty();
            p.expect_p(',');
            let pt = p.ty();
            let a = p.opd(&pt, fc);
            Some(Inst::Load { dst: dst.unwrap(), ty: t, p: a })
        }
        "store" => {
            p.eat_w("atomic");
            p.eat_w("volatile");
            let t = p.ty();
            let v = p.opd(&t, fc);
            p.expect_p(',');
            let pt = p.ty();
            let a = p.opd(&pt, fc);
            Some(Inst::Store { ty: t, v, p: a })
        }
        "getelementptr" => {
            while matches!(p.peek(), Tok::Word(x) if matches!(x.as_str(), "inbounds"|"nuw"|"nusw")) {
                p.i += 1;
            }
            let bt = p.ty();
            p.expect_p(',');
            let pt = p.ty();
            let base = p.opd(&pt, fc);
            let mut off = 0i64;
            let mut terms: Vec<(Opd, u32, u64)> = vec![];
            let mut cur = Ty::Array(u64::MAX, Rc::new(bt));
            while p.eat_p(',') {
                if matches!(p.peek(), Tok::Meta(_)) {
                    p.i -= 1;
                    break;
                }
                let it = p.ty();
                let iv = p.opd(&it, fc);
                match &cur {
                    Ty::Struct(..) => {
                        let idx = match &iv {
                            Opd::K(v) => v.c() as usize,
                            _ => panic!(),
                        };
                        off += cur.field_off(idx) as i64;
                        cur = cur.elem(idx);
                    }
                    _ => {
                        let e = cur.elem(0);
                        match &iv {
                            Opd::K(v) => off += sext64(v.c(), it.bits()).wrapping_mul(e.size() as i64),
                            o => {
                                if e.size() != 0 {
                                    terms.push((o.clone(), it.bits(), e.size()))
                                }
                            }
                        }
                        cur = e;
                    }
                }
            }
            Some(Inst::Gep { dst: dst.unwrap(), base, off, terms: terms.into() })
        }
        "alloca" => {
            let t = p.ty();
            let mut n = Opd::K(Val::C(1));
            let mut nw = 64;
            let mut align = t.align();
            while p.eat_p(',') {
                if p.eat_w("align") {
                    align = p.num() as u64;
                } else if matches!(p.peek(), Tok::Meta(_)) {
                    break;
                } else if p.eat_w("addrspace") {
                    p.skip_parens();
                } else {
                    let nt = p.ty();
                    nw = nt.bits();
                    n = p.opd(&nt, fc);
                }
            }
            match (&n, in_entry) {
                (Opd::K(v), true) => {
                    let sz = (t.size() * v.c()).max(1);
                    let a = align.max(1);
                    let off = (func.frame_size + a - 1) / a * a;
                    func.allocas.push((dst.unwrap(), off));
                    func.frame_size = off + sz;
                    None
                }
                _ => Some(Inst::AllocaDyn { dst: dst.unwrap(), elem: t.size(), n, nw }),
            }
        }
        "phi" => {
            skip_fmf(p);
            let t = p.ty();
            let mut inc = vec![];
            loop {
                p.expect_p('[');
                let v = p.opd(&t, fc);
                p.expect_p(',');
                let b = match p.next() {
                    Tok::Local(n) => fc.block(n),
                    t => panic!("phi block {:?}", t),
                };
                p.expect_p(']');
                inc.push((b, v));
                if !(p.is_p(',') && matches!(p.t.get(p.i + 1), Some(Tok::P('[')))) {
                    break;
                }
                p.i += 1;
            }
            phis.entry(cur).or_default().push((dst.unwrap(), inc));
            None
        }
        "br" => {
            if p.is_w("label") {
                let b = p.label(fc);
                return Some(Inst::Br { e: Box::new(edge(b)) });
            }
            let t = p.ty();
            let c = p.opd(&t, fc);
            p.expect_p(',');
            let a = p.label(fc);
            p.expect_p(',');
            let b = p.label(fc);
            Some(Inst::CondBr { c, t: Box::new(edge(a)), f: Box::new(edge(b)) })
        }
        "switch" => {
            let t = p.ty();
            let v = p.opd(&t, fc);
            p.expect_p(',');
            let d = p.label(fc);
            p.expect_p('[');
            let mut cases = vec![];
            let mut edges = vec![edge(d)];
            let mut seen: HashMap<u32, u32> = HashMap::new();
            seen.insert(d, 0);
            loop {
                while matches!(p.peek(), Tok::Nl) {
                    p.i += 1;
                }
                if p.eat_p(']') {
                    break;
                }
                let ct = p.ty();
                let cv = p.konst(&ct).u128().unwrap();
                p.expect_p(',');
                let b = p.label(fc);
                let ei = *seen.entry(b).or_insert_with(|| {
                    edges.push(edge(b));
                    edges.len() as u32 - 1
                });
                cases.push((cv as u64, ei));
            }
            Some(Inst::Switch { w: t.bits(), v, cases: cases.into(), edges: edges.into(), def: 0 })
        }
        "select" => {
            skip_fmf(p);
            let ct = p.ty();
            let c = p.opd(&ct, fc);
            p.expect_p(',');
            let t = p.ty();
            let a = p.opd(&t, fc);
            p.expect_p(',');
            let t2 = p.ty();
            let b = p.opd(&t2, fc);
            let lanes = if let Ty::Vector(n, _) = ct { n as u32 } else { 0 };
            Some(Inst::Select { dst: dst.unwrap(), c, a, b, ty: t, lanes })
        }
        "extractvalue" => {
            let t = p.ty();
            let a = p.opd(&t, fc);
            let mut path = vec![];
            while p.is_p(',') && matches!(p.t.get(p.i + 1), Some(Tok::Num(_))) {
                p.i += 1;
                path.push(p.num() as u32);
            }
            Some(Inst::ExtractValue { dst: dst.unwrap(), a, path: path.into() })
        }
        "insertvalue" => {
            let t = p.ty();
            let a = p.opd(&t, fc);
            p.expect_p(',');
            let vt = p.ty();
            let v = p.opd(&vt, fc);
            let mut path = vec![];
            while p.is_p(',') && matches!(p.t.get(p.i + 1), Some(Tok::Num(_))) {
                p.i += 1;
                path.push(p.num() as u32);
            }
            Some(Inst::InsertValue { dst: dst.unwrap(), a, v, path: path.into(), ty: t })
        }
        "extractelement" => {
            let t = p.ty();
            let a = p.opd(&t, fc);
            p.expect_p(',');
            let it = p.ty();
            let i = p.opd(&it, fc);
            Some(Inst::ExtractElem { dst: dst.unwrap(), a, i, iw: it.bits() })
        }
        "insertelement" => {
            let t = p.ty();
            let a = p.opd(&t, fc);
            p.expect_p(',');
            let vt = p.ty();
            let v = p.opd(&vt, fc);
            p.expect_p(',');
            let it = p.ty();
            let i = p.opd(&it, fc);
            Some(Inst::InsertElem { dst: dst.unwrap(), a, v, i, ty: t })
        }
        "shufflevector" => {
            let t = p.ty();
            let a = p.opd(&t, fc);
            p.expect_p(',');
            let t2 = p.ty();
            let b = p.opd(&t2, fc);
            p.expect_p(',');
            let mt = p.ty();
            let mv = p.konst(&mt);
            let mask: Vec<i32> = match mv {
                Val::Agg(v) => v.iter().map(|x| x.c() as u32 as i32).collect(),
                _ => panic!(),
            };
            let (ew, n) = int_w(&t);
            Some(Inst::Shuffle { dst: dst.unwrap(), a, b, n, mask: mask.into(), elem_w: ew })
        }
        "call" | "invoke" => {
            let invoke = w == "invoke";
            skip_fmf(p);
            // cc / ret attrs
            loop {
                let save = p.i;
                if p.try_ty().is_some() {
                    p.i = save;
                    break;
                }
                match p.next() {
                    Tok::Word(w) => {
                        if p.is_p('(') {
                            p.skip_parens();
                        } else if w == "align" {
                            p.i += 1;
                        } else if w == "cc" {
                            p.i += 1;
                        }
                    }
                    t => panic!("call attr {:?}", t),
                }
            }
            let ret = p.ty();
            if p.is_p('(') {
                p.skip_parens(); // function type
            }
            let mut asm = None;
            let callee = match p.peek() {
                Tok::Global(n) => {
                    p.i += 1;
                    match p.cx.fidx.get(n) {
                        Some(i) => Callee::Direct(*i),
                        None => Callee::Indirect(Opd::K(Val::C(p.sym_addr(n)))),
                    }
                }
                Tok::Local(n) => {
                    p.i += 1;
                    Callee::Indirect(Opd::R(fc.reg(n)))
                }
                Tok::Word(x) if x == "asm" => {
                    p.i += 1;
                    let mut txt = String::new();
                    while !p.is_p('(') {
                        if let Tok::Str(s) = p.peek() {
                            txt.push_str(s);
                            txt.push('|');
                        }
                        p.i += 1;
                    }
                    asm = Some(txt);
                    Callee::Indirect(Opd::K(Val::C(0)))
                }
                _ => Callee::Indirect(Opd::K(p.konst(&Ty::Ptr))),
            };
            p.expect_p('(');
            let mut args = vec![];
            let mut tys = vec![];
            if !p.eat_p(')') {
                loop {
                    let t = p.ty();
                    p.skip_attrs();
                    if t == Ty::Metadata {
                        args.push(p.opd(&t, fc));
                    } else {
                        args.push(p.opd(&t, fc));
                    }
                    tys.push(t);
                    if p.eat_p(')') {
                        break;
                    }
                    p.expect_p(',');
                }
            }
            let mut normal = None;
            if invoke {
                while !p.is_w("to") {
                    p.i += 1;
                }
                p.i += 1;
                let b = p.label(fc);
                p.expect_w("unwind");
                let _u = p.label(fc);
                normal = Some(Box::new(edge(b)));
            }
            if let Some(a) = asm {
                return Some(Inst::Unsupported(format!("asm {}", a)));
            }
            Some(Inst::Call { dst: if ret == Ty::Void { None } else { dst }, callee, args: args.into(), argtys: tys.into(), ret, normal })
        }
        "ret" => {
            let t = p.ty();
            if t == Ty::Void {
                Some(Inst::Ret { v: None })
            } else {
                let v = p.opd(&t, fc);
                Some(Inst::Ret { v: Some(v) })
            }
        }
        "unreachable" => Some(Inst::Unreachable),
        "fence" => Some(Inst::Nop),
        "landingpad" => {
            // multi-line; clauses are on following lines, skip them
            loop {
                while !matches!(p.peek(), Tok::Nl) {
                    p.i += 1;
                }
                let mut j = p.i;
                while matches!(p.t.get(j), Some(Tok::Nl)) {
                    j += 1;
                }
                match p.t.get(j) {
                    Some(Tok::Word(w)) if matches!(w.as_str(), "cleanup" | "catch" | "filter") => p.i = j,
                    _ => break,
                }
            }
            Some(Inst::Unsupported("landingpad".into()))
        }
        "resume" => Some(Inst::Unsupported("resume".into())),
        "atomicrmw" => {
            p.eat_w("volatile");
            let op = match p.next() {
                Tok::Word(x) => match x.as_str() {
                    "xchg" => RmwOp::Xchg,
                    "add" => RmwOp::Add,
                    "sub" => RmwOp::Sub,
                    "and" => RmwOp::And,
                    "or" => RmwOp::Or,
                    "xor" => RmwOp::Xor,
                    "max" => RmwOp::Max,
                    "min" => RmwOp::Min,
                    "umax" => RmwOp::UMax,
                    "umin" => RmwOp::UMin,
                    _ => return Some(Inst::Unsupported(format!("atomicrmw {}", x))),
                },
                _ => panic!(),
            };
            let pt = p.ty();
            let a = p.opd(&pt, fc);
            p.expect_p(',');
            let t = p.ty();
            let v = p.opd(&t, fc);
            Some(Inst::AtomicRmw { op, w: t.bits(), dst: dst.unwrap(), p: a, v })
        }
        "cmpxchg" => {
            p.eat_w("weak");
            p.eat_w("volatile");
            let pt = p.ty();
            let a = p.opd(&pt, fc);
            p.expect_p(',');
            let t = p.ty();
            let c = p.opd(&t, fc);
            p.expect_p(',');
            let t2 = p.ty();
            let n = p.opd(&t2, fc);
            Some(Inst::CmpXchg { w: t.bits(), dst: dst.unwrap(), p: a, c, n })
        }
        w => {
            if let Some(d) = dst {
                let _ = d;
            }
            Some(Inst::Unsupported(format!("instruction {}", w)))
        }
    }
}

fn skip_fmf(p: &mut Ps) {
    while matches!(p.peek(), Tok::Word(x) if matches!(x.as_str(), "nnan"|"ninf"|"nsz"|"arcp"|"contract"|"afn"|"reassoc"|"fast")) {
        p.i += 1;
    }
}
