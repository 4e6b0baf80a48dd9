//! Feasibility queries. Every distinct query is decided by z3 (through its C API); answers are
//! cached under a canonical key (the constraints that share variables with the query).
use crate::expr::*;
use crate::ir::{BinOp, CastOp, FOp, Pred};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::sync::atomic::{AtomicU32, Ordering::*};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_gt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, b: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error code {}", e);
    std::process::abort();
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,  // feasibility questions asked
    pub solved: u64,   // answered by a z3 call (the others repeat an answered one)
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub z3_us: u64,
    pub max_us: u64,
    pub canon: u64,
    pub shared: u64,
}

/// Answers shared between the worker processes of one run (key: structural hash of the query).
#[repr(C)]
pub struct Slot {
    st: AtomicU32,
    res: u8,
    n: u8,
    vals: [(u8, u8); 16],
    key: u128,
}
pub struct Shc(pub *mut Slot);
pub const SH_SLOTS: usize = 1 << 20;
impl Shc {
    fn get(&self, key: u128) -> Option<(Res, Vec<(u32, u8)>)> {
        let mut i = key as usize % SH_SLOTS;
        for _ in 0..32 {
            let s = unsafe { &*self.0.add(i) };
            match s.st.load(Acquire) {
                2 => {
                    if s.key == key {
                        let r = match s.res {
                            1 => Res::Sat,
                            _ => Res::Unsat,
                        };
                        return Some((r, s.vals[..s.n as usize].iter().map(|p| (p.0 as u32, p.1)).collect()));
                    }
                }
                0 => return None,
                _ => {}
            }
            i = (i + 1) % SH_SLOTS;
        }
        None
    }
    fn put(&self, key: u128, r: Res, m: &[(u32, u8)]) {
        if r == Res::Unknown || m.len() > 16 {
            return;
        }
        let mut i = key as usize % SH_SLOTS;
        for _ in 0..32 {
            let p = unsafe { self.0.add(i) };
            let st = unsafe { &(*p).st };
            if st.load(Acquire) == 2 && unsafe { (*p).key } == key {
                return;
            }
            if st.compare_exchange(0, 1, AcqRel, Acquire).is_ok() {
                unsafe {
                    (*p).res = (r == Res::Sat) as u8;
                    (*p).n = m.len() as u8;
                    for (k, (v, x)) in m.iter().enumerate() {
                        (*p).vals[k] = (*v as u8, *x);
                    }
                    (*p).key = key;
                }
                st.store(2, Release);
                return;
            }
            i = (i + 1) % SH_SLOTS;
        }
    }
}

pub struct Solver {
    pub shc: Option<Shc>,
    cx: P,
    s: P,
    /// for queries with floating point
    sf: P,
    ast: Vec<P>,
    asts_true: P,
    asts_false: P,
    cache: FxMap<Box<[u32]>, (Res, Box<[(u32, u8)]>)>,
    cache1: FxMap<(u32, u32), (Res, u8)>,
    pub st: Stats,
    sorts: FxMap<u32, P>,
    vars: FxMap<u32, P>,
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let cx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(cx, Some(on_err));
            let mk = |logic: &str| {
                let k = CString::new(logic).unwrap();
                let s = Z3_mk_solver_for_logic(cx, Z3_mk_string_symbol(cx, k.as_ptr()));
                Z3_solver_inc_ref(cx, s);
                let p = Z3_mk_params(cx);
                Z3_params_inc_ref(cx, p);
                let k = CString::new("rlimit").unwrap();
                Z3_params_set_uint(cx, p, Z3_mk_string_symbol(cx, k.as_ptr()), rlimit);
                let k = CString::new("random_seed").unwrap();
                Z3_params_set_uint(cx, p, Z3_mk_string_symbol(cx, k.as_ptr()), 1);
                Z3_solver_set_params(cx, s, p);
                s
            };
            let s = mk("QF_BV");
            let sf = mk("QF_BVFP");
            let t = Z3_mk_true(cx);
            Z3_inc_ref(cx, t);
            let f = Z3_mk_false(cx);
            Z3_inc_ref(cx, f);
            Solver {
                shc: None,
                cx,
                s,
                sf,
                ast: vec![],
                asts_true: t,
                asts_false: f,
                cache: Default::default(),
                cache1: Default::default(),
                st: Default::default(),
                sorts: Default::default(),
                vars: Default::default(),
            }
        }
    }
    fn rc(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.cx, a) }
        a
    }
    fn sort(&mut self, w: u32) -> P {
        if let Some(s) = self.sorts.get(&w) {
            return *s;
        }
        let s = unsafe { Z3_mk_bv_sort(self.cx, w) };
        let s = self.rc(s);
        self.sorts.insert(w, s);
        s
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        let s = self.sort(w);
        let c = CString::new(format!("{}", v)).unwrap();
        let a = unsafe { Z3_mk_numeral(self.cx, c.as_ptr(), s) };
        self.rc(a)
    }
    fn varp(&mut self, v: u32) -> P {
        if let Some(x) = self.vars.get(&v) {
            return *x;
        }
        let s = self.sort(8);
        let n = CString::new(format!("b{}", v)).unwrap();
        let a = unsafe { Z3_mk_const(self.cx, Z3_mk_string_symbol(self.cx, n.as_ptr()), s) };
        let a = self.rc(a);
        self.vars.insert(v, a);
        a
    }
    /// boolean z3 term of a width-1 expression
    fn tb(&mut self, ar: &Arena, a: Id) -> P {
        match ar.node(a) {
            Node::Const(c) => {
                if c == 1 {
                    self.asts_true
                } else {
                    self.asts_false
                }
            }
            _ => self.t(ar, a),
        }
    }
    fn inset(&mut self, v: u32, m: &Mask) -> P {
        let x = self.varp(v);
        let has = |i: u32| (m[(i >> 6) as usize] >> (i & 63)) & 1 == 1;
        let mut parts: Vec<P> = vec![];
        let mut i = 0;
        while i < 256 {
            if !has(i) {
                i += 1;
                continue;
            }
            let st = i;
            while i < 256 && has(i) {
                i += 1;
            }
            let en = i - 1;
            let cx = self.cx;
            unsafe {
                let lo = self.num(st as u128, 8);
                let hi = self.num(en as u128, 8);
                let p = if st == en {
                    self.rc(Z3_mk_eq(cx, x, lo))
                } else {
                    let a = self.rc(Z3_mk_bvule(cx, lo, x));
                    let b = self.rc(Z3_mk_bvule(cx, x, hi));
                    let ab = [a, b];
                    self.rc(Z3_mk_and(cx, 2, ab.as_ptr()))
                };
                parts.push(p);
            }
        }
        let r = unsafe { Z3_mk_or(self.cx, parts.len() as c_uint, parts.as_ptr()) };
        self.rc(r)
    }
    /// z3 term: boolean for width 1, bit-vector otherwise
    fn t(&mut self, ar: &Arena, a: Id) -> P {
        let ai = a as usize;
        if ai < self.ast.len() && !self.ast[ai].is_null() {
            return self.ast[ai];
        }
        let w = ar.w(a);
        let r = self.t_node(ar, ar.node(a), w);
        if self.ast.len() <= ai {
            self.ast.resize(ai + 1, std::ptr::null_mut());
        }
        self.ast[ai] = r;
        r
    }
    fn to_bv(&mut self, ar: &Arena, a: Id) -> P {
        if ar.w(a) == 1 {
            let b = self.tb(ar, a);
            let o = self.num(1, 1);
            let z = self.num(0, 1);
            let r = unsafe { Z3_mk_ite(self.cx, b, o, z) };
            self.rc(r)
        } else {
            self.t(ar, a)
        }
    }
    fn fsort(&mut self, w: u32) -> P {
        let (e, m) = if w == 64 { (11, 53) } else { (8, 24) };
        let s = unsafe { Z3_mk_fpa_sort(self.cx, e, m) };
        self.rc(s)
    }
    fn to_fp(&mut self, ar: &Arena, a: Id) -> P {
        let so = self.fsort(ar.w(a));
        let x = self.t(ar, a);
        let r = unsafe { Z3_mk_fpa_to_fp_bv(self.cx, x, so) };
        self.rc(r)
    }
    fn from_bv1(&mut self, p: P) -> P {
        let o = self.num(1, 1);
        let r = unsafe { Z3_mk_eq(self.cx, p, o) };
        self.rc(r)
    }
    fn t_node(&mut self, ar: &Arena, n: Node, w: u32) -> P {
        let cx = self.cx;
        unsafe {
            let r = match n {
                Node::Const(c) => {
                    if w == 1 {
                        if c == 1 {
                            self.asts_true
                        } else {
                            self.asts_false
                        }
                    } else {
                        self.num(c, w)
                    }
                }
                Node::Var(v) => self.varp(v),
                Node::InSet(v, m) => {
                    let m = ar.masks[m as usize];
                    self.inset(v, &m)
                }
                Node::Bin(op, a, b) if w == 1 => {
                    let x = self.tb(ar, a);
                    let y = self.tb(ar, b);
                    let ab = [x, y];
                    match op {
                        BinOp::And => Z3_mk_and(cx, 2, ab.as_ptr()),
                        BinOp::Or => Z3_mk_or(cx, 2, ab.as_ptr()),
                        BinOp::Xor | BinOp::Add | BinOp::Sub => Z3_mk_xor(cx, x, y),
                        _ => panic!("boolean {:?}", op),
                    }
                }
                Node::Bin(op, a, b) => {
                    let x = self.t(ar, a);
                    let y = self.t(ar, b);
                    match op {
                        BinOp::Add => Z3_mk_bvadd(cx, x, y),
                        BinOp::Sub => Z3_mk_bvsub(cx, x, y),
                        BinOp::Mul => Z3_mk_bvmul(cx, x, y),
                        BinOp::UDiv => Z3_mk_bvudiv(cx, x, y),
                        BinOp::SDiv => Z3_mk_bvsdiv(cx, x, y),
                        BinOp::URem => Z3_mk_bvurem(cx, x, y),
                        BinOp::SRem => Z3_mk_bvsrem(cx, x, y),
                        BinOp::And => Z3_mk_bvand(cx, x, y),
                        BinOp::Or => Z3_mk_bvor(cx, x, y),
                        BinOp::Xor => Z3_mk_bvxor(cx, x, y),
                        BinOp::Shl => Z3_mk_bvshl(cx, x, y),
                        BinOp::LShr => Z3_mk_bvlshr(cx, x, y),
                        BinOp::AShr => Z3_mk_bvashr(cx, x, y),
                    }
                }
                Node::Cmp(p, a, b) => {
                    if ar.w(a) == 1 && p == Pred::Eq {
                        let x = self.tb(ar, a);
                        let y = self.tb(ar, b);
                        Z3_mk_eq(cx, x, y)
                    } else {
                        let x = self.to_bv(ar, a);
                        let y = self.to_bv(ar, b);
                        match p {
                            Pred::Eq => Z3_mk_eq(cx, x, y),
                            Pred::Ult => Z3_mk_bvult(cx, x, y),
                            Pred::Ule => Z3_mk_bvule(cx, x, y),
                            Pred::Slt => Z3_mk_bvslt(cx, x, y),
                            Pred::Sle => Z3_mk_bvsle(cx, x, y),
                            _ => panic!("non-canonical compare"),
                        }
                    }
                }
                Node::Not(a) => {
                    let x = self.tb(ar, a);
                    Z3_mk_not(cx, x)
                }
                Node::Ite(c, a, b) => {
                    let k = self.tb(ar, c);
                    let (x, y) = if w == 1 { (self.tb(ar, a), self.tb(ar, b)) } else { (self.t(ar, a), self.t(ar, b)) };
                    Z3_mk_ite(cx, k, x, y)
                }
                Node::Concat(h, l) => {
                    let x = self.to_bv(ar, h);
                    let y = self.to_bv(ar, l);
                    Z3_mk_concat(cx, x, y)
                }
                Node::Extract(a, lo) => {
                    let x = self.to_bv(ar, a);
                    let e = Z3_mk_extract(cx, lo + w - 1, lo, x);
                    let e = self.rc(e);
                    if w == 1 {
                        self.from_bv1(e)
                    } else {
                        e
                    }
                }
                Node::ZExt(a) => {
                    let x = self.to_bv(ar, a);
                    Z3_mk_zero_ext(cx, w - ar.w(a), x)
                }
                Node::SExt(a) => {
                    let x = self.to_bv(ar, a);
                    Z3_mk_sign_ext(cx, w - ar.w(a), x)
                }
                Node::Ctlz(a) | Node::Cttz(a) => {
                    let x = self.to_bv(ar, a);
                    let msb_first = matches!(n, Node::Ctlz(_));
                    let mut r = self.num(w as u128, w);
                    // scan from the far end so that the nearest set bit wins
                    for k in 0..w {
                        let bit = if msb_first { k } else { w - 1 - k };
                        let e = self.rc(Z3_mk_extract(cx, bit, bit, x));
                        let c = self.from_bv1(e);
                        let v = if msb_first { w - 1 - bit } else { bit };
                        let kv = self.num(v as u128, w);
                        r = self.rc(Z3_mk_ite(cx, c, kv, r));
                    }
                    r
                }
                Node::Ctpop(a) => {
                    let x = self.to_bv(ar, a);
                    let mut r = self.num(0, w);
                    for bit in 0..w {
                        let e = self.rc(Z3_mk_extract(cx, bit, bit, x));
                        let z = if w > 1 { self.rc(Z3_mk_zero_ext(cx, w - 1, e)) } else { e };
                        r = self.rc(Z3_mk_bvadd(cx, r, z));
                    }
                    r
                }
                Node::FBin(op, a, b) => {
                    let x = self.to_fp(ar, a);
                    let y = self.to_fp(ar, b);
                    let rm = self.rc(Z3_mk_fpa_rne(cx));
                    let r = match op {
                        FOp::Add => Z3_mk_fpa_add(cx, rm, x, y),
                        FOp::Sub => Z3_mk_fpa_sub(cx, rm, x, y),
                        FOp::Mul => Z3_mk_fpa_mul(cx, rm, x, y),
                        FOp::Div => Z3_mk_fpa_div(cx, rm, x, y),
                        FOp::Rem => panic!("frem"),
                    };
                    let r = self.rc(r);
                    Z3_mk_fpa_to_ieee_bv(cx, r)
                }
                Node::FCmp(p, a, b) => {
                    let x = self.to_fp(ar, a);
                    let y = self.to_fp(ar, b);
                    let mut ps = vec![];
                    if p & 1 != 0 {
                        ps.push(self.rc(Z3_mk_fpa_lt(cx, x, y)));
                    }
                    if p & 2 != 0 {
                        ps.push(self.rc(Z3_mk_fpa_eq(cx, x, y)));
                    }
                    if p & 4 != 0 {
                        ps.push(self.rc(Z3_mk_fpa_gt(cx, x, y)));
                    }
                    if p & 8 != 0 {
                        ps.push(self.rc(Z3_mk_fpa_is_nan(cx, x)));
                        ps.push(self.rc(Z3_mk_fpa_is_nan(cx, y)));
                    }
                    Z3_mk_or(cx, ps.len() as c_uint, ps.as_ptr())
                }
                Node::FCast(op, a) => {
                    let rm = self.rc(Z3_mk_fpa_rne(cx));
                    let so = self.fsort(w);
                    let r = match op {
                        CastOp::UIToFP => {
                            let x = self.to_bv(ar, a);
                            Z3_mk_fpa_to_fp_unsigned(cx, rm, x, so)
                        }
                        CastOp::SIToFP => {
                            let x = self.to_bv(ar, a);
                            Z3_mk_fpa_to_fp_signed(cx, rm, x, so)
                        }
                        CastOp::FPExt | CastOp::FPTrunc => {
                            let x = self.to_fp(ar, a);
                            Z3_mk_fpa_to_fp_float(cx, rm, x, so)
                        }
                        _ => panic!("float cast"),
                    };
                    let r = self.rc(r);
                    Z3_mk_fpa_to_ieee_bv(cx, r)
                }
            };
            self.rc(r)
        }
    }

    /// constraints plus per-byte domains; on Sat returns values of `vars`
    fn raw(&mut self, ar: &Arena, cons: &[Id], doms: &[(u32, u32)], vars: u128) -> (Res, Vec<(u32, u8)>) {
        let t0 = Instant::now();
        let mut out = vec![];
        let r;
        unsafe {
            let cx = self.cx;
            let s = if cons.iter().any(|c| ar.fp(*c)) { self.sf } else { self.s };
            Z3_solver_push(cx, s);
            for c in cons {
                let a = self.tb(ar, *c);
                Z3_solver_assert(cx, s, a);
            }
            for (v, m) in doms {
                if *m != M_ALL {
                    let mk = ar.masks[*m as usize];
                    let a = self.inset(*v, &mk);
                    Z3_solver_assert(cx, s, a);
                }
            }
            r = match Z3_solver_check(cx, s) {
                1 => Res::Sat,
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if r == Res::Sat {
                let m = Z3_solver_get_model(cx, s);
                Z3_model_inc_ref(cx, m);
                let mut vs = vars;
                while vs != 0 {
                    let v = vs.trailing_zeros();
                    vs &= vs - 1;
                    let x = self.varp(v);
                    let mut o: P = std::ptr::null_mut();
                    if !Z3_model_eval(cx, m, x, true, &mut o) {
                        panic!("model eval");
                    }
                    Z3_inc_ref(cx, o);
                    let mut u = 0u64;
                    if !Z3_get_numeral_uint64(cx, o, &mut u) {
                        panic!("numeral");
                    }
                    out.push((v, u as u8));
                }
                Z3_model_dec_ref(cx, m);
            }
            Z3_solver_pop(cx, s, 1);
        }
        let us = t0.elapsed().as_micros() as u64;
        self.st.z3_us += us;
        self.st.max_us = self.st.max_us.max(us);
        self.st.solved += 1;
        match r {
            Res::Sat => self.st.sat += 1,
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown => self.st.unknown += 1,
        }
        (r, out)
    }

    /// Is `cond` satisfiable together with the path condition (`multi`, `doms`)?
    /// On Sat writes a satisfying assignment for the connected variables into `model`.
    pub fn sat(&mut self, ar: &mut Arena, multi: &[Id], doms: &[u32], cond: Id, model: &mut [u8]) -> Res {
        match cond {
            0 => return Res::Unsat,
            1 => return Res::Sat,
            _ => {}
        }
        self.st.queries += 1;
        let mut vars = ar.vars(cond);
        let mut sl: Vec<Id> = vec![];
        if !multi.is_empty() {
            let mut used = vec![false; multi.len()];
            loop {
                let mut ch = false;
                for (i, c) in multi.iter().enumerate() {
                    if !used[i] && ar.vars(*c) & vars != 0 {
                        used[i] = true;
                        vars |= ar.vars(*c);
                        sl.push(*c);
                        ch = true;
                    }
                }
                if !ch {
                    break;
                }
            }
        }
        if sl.is_empty() && vars.count_ones() == 1 {
            let v = vars.trailing_zeros();
            let d = doms[v as usize];
            // the answer does not depend on which byte it is: key on the two sets
            if let Node::InSet(_, m) = ar.node(cond) {
                if let Some((r, x)) = self.cache1.get(&(d, m)) {
                    if *r == Res::Sat {
                        model[v as usize] = *x;
                    }
                    return *r;
                }
                let hk = mix(mix(mix(5, ar.mask_hash(d)), ar.mask_hash(m)), 1);
                let (r, ms) = match self.shc.as_ref().and_then(|s| s.get(hk)) {
                    Some(a) => {
                        self.st.shared += 1;
                        a
                    }
                    None => {
                        let a = self.raw(ar, &[cond], &[(v, d)], vars);
                        if let Some(s) = &self.shc {
                            s.put(hk, a.0, &a.1);
                        }
                        a
                    }
                };
                let x = ms.first().map(|p| p.1).unwrap_or(0);
                self.cache1.insert((d, m), (r, x));
                if r == Res::Sat {
                    model[v as usize] = x;
                }
                return r;
            }
        }
        sl.sort_unstable();
        let mut key = Vec::with_capacity(sl.len() + 34);
        key.push(cond);
        key.extend_from_slice(&sl);
        key.push(u32::MAX);
        let mut ds = vec![];
        let mut vs = vars;
        while vs != 0 {
            let v = vs.trailing_zeros();
            vs &= vs - 1;
            let d = doms[v as usize];
            key.push(d);
            ds.push((v, d));
        }
        if let Some((r, ms)) = self.cache.get(&key[..]) {
            for (v, x) in ms.iter() {
                model[*v as usize] = *x;
            }
            return *r;
        }
        let mut hs: Vec<u128> = sl.iter().map(|c| ar.h(*c)).collect();
        hs.sort_unstable();
        let mut hk = mix(9, ar.h(cond));
        for x in hs {
            hk = mix(hk, x);
        }
        for (v, d) in &ds {
            hk = mix(hk, mix(*v as u128, ar.mask_hash(*d)));
        }
        let (r, ms) = match self.shc.as_ref().and_then(|s| s.get(hk)) {
            Some(a) => {
                self.st.shared += 1;
                a
            }
            None => {
                sl.push(cond);
                let a = self.raw(ar, &sl, &ds, vars);
                if let Some(s) = &self.shc {
                    s.put(hk, a.0, &a.1);
                }
                a
            }
        };
        for (v, x) in ms.iter() {
            model[*v as usize] = *x;
        }
        self.cache.insert(key.into(), (r, ms.into()));
        r
    }

    /// z3 confirms that a single-byte expression and its canonical form agree
    pub fn confirm_canon(&mut self, ar: &Arena, n: Node, w: u32, canon: Id) -> Res {
        let a = self.t_node(ar, n, w);
        let fp = ar.node_fp(&n);
        let b = if w == 1 { self.tb(ar, canon) } else { self.t(ar, canon) };
        let t0 = Instant::now();
        let r = unsafe {
            let e = self.rc(Z3_mk_eq(self.cx, a, b));
            let ne = self.rc(Z3_mk_not(self.cx, e));
            let s = if fp { self.sf } else { self.s };
            Z3_solver_push(self.cx, s);
            Z3_solver_assert(self.cx, s, ne);
            let r = Z3_solver_check(self.cx, s);
            Z3_solver_pop(self.cx, s, 1);
            r
        };
        self.st.z3_us += t0.elapsed().as_micros() as u64;
        self.st.canon += 1;
        match r {
            -1 => Res::Unsat,
            1 => Res::Sat,
            _ => Res::Unknown,
        }
    }
}
