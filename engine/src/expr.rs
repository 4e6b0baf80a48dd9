//! Hash-consed bit-vector expressions over symbolic input bytes, with a simplifier.
//! Width-1 vectors are booleans.
use crate::ir::{CastOp, FOp, BinOp, Pred};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Id = u32;
pub type Mask = [u64; 4];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Const(u128),
    Var(u32),
    InSet(u32, u32), // variable, mask id
    Bin(BinOp, Id, Id),
    Cmp(Pred, Id, Id), // canonical: Eq, Ult, Ule, Slt, Sle
    Not(Id),           // width 1
    Ite(Id, Id, Id),
    Concat(Id, Id), // high, low
    Extract(Id, u32),
    ZExt(Id),
    SExt(Id),
    Ctlz(Id),
    Cttz(Id),
    Ctpop(Id),
    /// IEEE arithmetic on bit patterns; the width is that of the operands
    FBin(FOp, Id, Id),
    FCmp(FPred, Id, Id),
    /// conversion to floating point
    FCast(CastOp, Id),
}

pub fn f_of(x: u128, w: u32) -> f64 {
    if w == 64 {
        f64::from_bits(x as u64)
    } else {
        f32::from_bits(x as u32) as f64
    }
}
pub fn fold_fbin(op: FOp, x: u128, y: u128, w: u32) -> u128 {
    if w == 64 {
        let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
        match op {
            FOp::Add => x + y,
            FOp::Sub => x - y,
            FOp::Mul => x * y,
            FOp::Div => x / y,
            FOp::Rem => x % y,
        }
        .to_bits() as u128
    } else {
        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        match op {
            FOp::Add => x + y,
            FOp::Sub => x - y,
            FOp::Mul => x * y,
            FOp::Div => x / y,
            FOp::Rem => x % y,
        }
        .to_bits() as u128
    }
}
/// An fcmp predicate as the set of outcomes it accepts: 1 less, 2 equal, 4 greater, 8 unordered.
pub type FPred = u8;
pub fn fpred(p: &str) -> FPred {
    match p {
        "oeq" => 2,
        "ueq" => 10,
        "one" => 5,
        "une" => 13,
        "olt" => 1,
        "ole" => 3,
        "ogt" => 4,
        "oge" => 6,
        "ult" => 9,
        "ule" => 11,
        "ugt" => 12,
        "uge" => 14,
        "ord" => 7,
        "uno" => 8,
        "true" => 15,
        "false" => 0,
        _ => panic!("fcmp {}", p),
    }
}
pub fn fold_fcmp(p: FPred, x: u128, y: u128, w: u32) -> bool {
    let (x, y) = (f_of(x, w), f_of(y, w));
    let o = if x.is_nan() || y.is_nan() {
        8
    } else if x < y {
        1
    } else if x == y {
        2
    } else {
        4
    };
    p & o != 0
}
pub fn fold_fcast(op: CastOp, x: u128, fw: u32, tw: u32) -> u128 {
    match op {
        CastOp::UIToFP => {
            if tw == 64 {
                (x as f64).to_bits() as u128
            } else {
                (x as f32).to_bits() as u128
            }
        }
        CastOp::SIToFP => {
            let s = sx(x, fw);
            if tw == 64 {
                (s as f64).to_bits() as u128
            } else {
                (s as f32).to_bits() as u128
            }
        }
        CastOp::FPExt => (f32::from_bits(x as u32) as f64).to_bits() as u128,
        CastOp::FPTrunc => (f64::from_bits(x as u64) as f32).to_bits() as u128,
        CastOp::FPToUI => f_of(x, fw) as u128 & mask_w(tw),
        CastOp::FPToSI => (f_of(x, fw) as i128 as u128) & mask_w(tw),
        _ => unreachable!(),
    }
}

pub struct Info {
    pub node: Node,
    pub w: u32,
    pub vars: u128,
    /// contains floating point
    pub fp: bool,
    /// structural hash, the same in every worker process
    pub h: u128,
}

pub fn mask_w(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn mix(a: u128, b: u128) -> u128 {
    let f = |x: u64, y: u64, k: u64| {
        let mut z = x ^ y.wrapping_mul(k).rotate_left(31);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    };
    let (a0, a1, b0, b1) = (a as u64, (a >> 64) as u64, b as u64, (b >> 64) as u64);
    let x = f(f(a0, b0, 0x9e37_79b9_7f4a_7c15), b1 ^ a1.rotate_left(17), 0xc2b2_ae3d_27d4_eb4f);
    let y = f(f(a1, b1, 0x1656_67b1_9e37_79f9), b0 ^ a0.rotate_left(41), 0x27d4_eb2f_1656_67c5);
    ((x as u128) << 64) | y as u128
}

pub fn fold_bin(op: BinOp, a: u128, b: u128, w: u32) -> Option<u128> {
    let m = mask_w(w);
    Some(
        match op {
            BinOp::Add => a.wrapping_add(b),
            BinOp::Sub => a.wrapping_sub(b),
            BinOp::Mul => a.wrapping_mul(b),
            BinOp::UDiv => {
                if b == 0 {
                    return None;
                }
                a / b
            }
            BinOp::URem => {
                if b == 0 {
                    return None;
                }
                a % b
            }
            BinOp::SDiv => {
                if b == 0 {
                    return None;
                }
                sx(a, w).wrapping_div(sx(b, w)) as u128
            }
            BinOp::SRem => {
                if b == 0 {
                    return None;
                }
                sx(a, w).wrapping_rem(sx(b, w)) as u128
            }
            BinOp::And => a & b,
            BinOp::Or => a | b,
            BinOp::Xor => a ^ b,
            BinOp::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            BinOp::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            BinOp::AShr => {
                let s = if b >= w as u128 { w - 1 } else { b as u32 };
                (sx(a, w) >> s) as u128
            }
        } & m,
    )
}

pub fn fold_cmp(p: Pred, a: u128, b: u128, w: u32) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
    }
}

pub struct Arena {
    pub nodes: Vec<Info>,
    map: FxMap<(Node, u32), Id>,
    pub masks: Vec<Mask>,
    mask_map: FxMap<Mask, u32>,
    and_cache: FxMap<(u32, u32), u32>,
    memo: Vec<(u64, u128)>,
    ext_memo: FxMap<(Id, u32, u32), Id>,
    gen: u64,
    /// (original node, canonical set) pairs still to be confirmed by the solver
    pub canon_log: Vec<(Node, u32, Id)>,
    pub log_canon: bool,
}

pub const M_ALL: u32 = 0;
pub const M_NONE: u32 = 1;

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: vec![],
            map: Default::default(),
            masks: vec![],
            mask_map: Default::default(),
            and_cache: Default::default(),
            memo: vec![],
            ext_memo: Default::default(),
            gen: 0,
            canon_log: vec![],
            log_canon: false,
        };
        a.mask([u64::MAX; 4]);
        a.mask([0; 4]);
        a.intern(Node::Const(0), 1);
        a.intern(Node::Const(1), 1);
        a
    }
    pub fn mask(&mut self, m: Mask) -> u32 {
        if let Some(i) = self.mask_map.get(&m) {
            return *i;
        }
        let i = self.masks.len() as u32;
        self.masks.push(m);
        self.mask_map.insert(m, i);
        i
    }
    pub fn mask_and(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == M_ALL {
            return a;
        }
        if a == M_ALL {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.and_cache.get(&k) {
            return *r;
        }
        let (x, y) = (self.masks[a as usize], self.masks[b as usize]);
        let r = self.mask([x[0] & y[0], x[1] & y[1], x[2] & y[2], x[3] & y[3]]);
        self.and_cache.insert(k, r);
        r
    }
    pub fn mask_not(&mut self, a: u32) -> u32 {
        let x = self.masks[a as usize];
        self.mask([!x[0], !x[1], !x[2], !x[3]])
    }
    pub fn mask_has(&self, m: u32, v: u8) -> bool {
        (self.masks[m as usize][(v >> 6) as usize] >> (v & 63)) & 1 == 1
    }
    pub fn mask_count(&self, m: u32) -> u32 {
        self.masks[m as usize].iter().map(|x| x.count_ones()).sum()
    }
    pub fn mask_single(&self, m: u32) -> Option<u8> {
        let x = &self.masks[m as usize];
        let n: u32 = x.iter().map(|x| x.count_ones()).sum();
        if n != 1 {
            return None;
        }
        for i in 0..4 {
            if x[i] != 0 {
                return Some((i as u32 * 64 + x[i].trailing_zeros()) as u8);
            }
        }
        None
    }

    fn intern(&mut self, n: Node, w: u32) -> Id {
        if let Some(i) = self.map.get(&(n, w)) {
            return *i;
        }
        let vars = match n {
            Node::Const(_) => 0,
            Node::Var(v) | Node::InSet(v, _) => 1u128 << v,
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) | Node::FBin(_, a, b) | Node::FCmp(_, a, b) => self.vars(a) | self.vars(b),
            Node::Not(a) | Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) | Node::Ctlz(a) | Node::Cttz(a) | Node::Ctpop(a) | Node::FCast(_, a) => self.vars(a),
            Node::Ite(a, b, c) => self.vars(a) | self.vars(b) | self.vars(c),
        };
        // canonical form of anything that depends on one byte only
        if vars.count_ones() == 1 && !matches!(n, Node::Var(_) | Node::InSet(..)) {
            let v = vars.trailing_zeros();
            if w == 1 {
                let mut m: Mask = [0; 4];
                for x in 0..256u32 {
                    if self.eval_node_1(n, w, v, x as u8) & 1 == 1 {
                        m[(x >> 6) as usize] |= 1 << (x & 63);
                    }
                }
                let mi = self.mask(m);
                let r = if mi == M_ALL {
                    1
                } else if mi == M_NONE {
                    0
                } else {
                    self.intern(Node::InSet(v, mi), 1)
                };
                self.map.insert((n, w), r);
                if self.log_canon {
                    self.canon_log.push((n, w, r));
                }
                return r;
            } else {
                let x0 = self.eval_node_1(n, w, v, 0);
                let mut same = true;
                for x in 1..256u32 {
                    if self.eval_node_1(n, w, v, x as u8) != x0 {
                        same = false;
                        break;
                    }
                }
                if same {
                    let r = self.cst(x0, w);
                    self.map.insert((n, w), r);
                    if self.log_canon {
                        self.canon_log.push((n, w, r));
                    }
                    return r;
                }
            }
        }
        let i = self.nodes.len() as Id;
        let h = self.hash_node(n, w);
        let fp = self.node_fp(&n);
        self.nodes.push(Info { node: n, w, vars, fp, h });
        self.memo.push((0, 0));
        self.map.insert((n, w), i);
        i
    }
    pub fn node_fp(&self, n: &Node) -> bool {
        match *n {
            Node::Const(_) | Node::Var(_) | Node::InSet(..) => false,
            Node::FBin(..) | Node::FCmp(..) | Node::FCast(..) => true,
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => self.fp(a) || self.fp(b),
            Node::Not(a) | Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) | Node::Ctlz(a) | Node::Cttz(a) | Node::Ctpop(a) => self.fp(a),
            Node::Ite(a, b, c) => self.fp(a) || self.fp(b) || self.fp(c),
        }
    }
    pub fn mask_hash(&self, m: u32) -> u128 {
        let x = &self.masks[m as usize];
        mix(mix(77, (x[0] as u128) << 64 | x[1] as u128), (x[2] as u128) << 64 | x[3] as u128)
    }
    pub fn h(&self, a: Id) -> u128 {
        self.nodes[a as usize].h
    }
    fn hash_node(&self, n: Node, w: u32) -> u128 {
        let (t, a, b, c): (u128, u128, u128, u128) = match n {
            Node::Const(k) => (1, k, 0, 0),
            Node::Var(v) => (2, v as u128, 0, 0),
            Node::InSet(v, m) => (3, v as u128, self.mask_hash(m), 0),
            Node::Bin(op, a, b) => {
                let (x, y) = (self.h(a), self.h(b));
                (100 + op as u128, x, y, 0)
            }
            Node::Cmp(p, a, b) => (200 + p as u128, self.h(a), self.h(b), 0),
            Node::Not(a) => (4, self.h(a), 0, 0),
            Node::Ite(a, b, c) => (5, self.h(a), self.h(b), self.h(c)),
            Node::Concat(a, b) => (6, self.h(a), self.h(b), 0),
            Node::Extract(a, lo) => (7, self.h(a), lo as u128, 0),
            Node::ZExt(a) => (8, self.h(a), 0, 0),
            Node::SExt(a) => (9, self.h(a), 0, 0),
            Node::Ctlz(a) => (10, self.h(a), 0, 0),
            Node::Cttz(a) => (11, self.h(a), 0, 0),
            Node::Ctpop(a) => (12, self.h(a), 0, 0),
            Node::FBin(op, a, b) => (300 + op as u128, self.h(a), self.h(b), 0),
            Node::FCmp(p, a, b) => (400 + p as u128, self.h(a), self.h(b), 0),
            Node::FCast(op, a) => (500 + op as u128, self.h(a), 0, 0),
        };
        mix(mix(mix(mix(t << 8, w as u128), a), b), c)
    }
    pub fn w(&self, a: Id) -> u32 {
        self.nodes[a as usize].w
    }
    pub fn fp(&self, a: Id) -> bool {
        self.nodes[a as usize].fp
    }
    pub fn fbin(&mut self, op: FOp, a: Id, b: Id) -> Id {
        let w = self.w(a);
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => self.cst(fold_fbin(op, x, y, w), w),
            _ => self.intern(Node::FBin(op, a, b), w),
        }
    }
    pub fn fcmp(&mut self, p: FPred, a: Id, b: Id) -> Id {
        let w = self.w(a);
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => fold_fcmp(p, x, y, w) as Id,
            _ => self.intern(Node::FCmp(p, a, b), 1),
        }
    }
    pub fn fcast(&mut self, op: CastOp, a: Id, w: u32) -> Id {
        match self.as_const(a) {
            Some(x) => {
                let fw = self.w(a);
                self.cst(fold_fcast(op, x, fw, w), w)
            }
            _ => self.intern(Node::FCast(op, a), w),
        }
    }
    pub fn vars(&self, a: Id) -> u128 {
        self.nodes[a as usize].vars
    }
    pub fn node(&self, a: Id) -> Node {
        self.nodes[a as usize].node
    }
    pub fn as_const(&self, a: Id) -> Option<u128> {
        match self.nodes[a as usize].node {
            Node::Const(c) => Some(c),
            _ => None,
        }
    }
    pub fn cst(&mut self, v: u128, w: u32) -> Id {
        self.intern(Node::Const(v & mask_w(w)), w)
    }
    pub fn var(&mut self, i: u32) -> Id {
        assert!(i < 128, "too many symbolic bytes");
        self.intern(Node::Var(i), 8)
    }
    pub fn inset(&mut self, v: u32, m: u32) -> Id {
        if m == M_ALL {
            1
        } else if m == M_NONE {
            0
        } else {
            self.intern(Node::InSet(v, m), 1)
        }
    }

    // ---- evaluation
    pub fn eval(&mut self, a: Id, model: &[u8]) -> u128 {
        if let Some(c) = self.as_const(a) {
            return c;
        }
        self.gen += 1;
        self.ev(a, model)
    }
    fn eval_node_1(&mut self, n: Node, w: u32, v: u32, x: u8) -> u128 {
        let mut model = [0u8; 128];
        model[v as usize] = x;
        self.gen += 1;
        self.ev_node(n, w, &model)
    }
    fn ev(&mut self, a: Id, model: &[u8]) -> u128 {
        let (g, v) = self.memo[a as usize];
        if g == self.gen {
            return v;
        }
        let (n, w) = {
            let i = &self.nodes[a as usize];
            (i.node, i.w)
        };
        let r = self.ev_node(n, w, model);
        self.memo[a as usize] = (self.gen, r);
        r
    }
    fn ev_node(&mut self, n: Node, w: u32, model: &[u8]) -> u128 {
        match n {
            Node::Const(c) => c,
            Node::Var(v) => model.get(v as usize).copied().unwrap_or(0) as u128,
            Node::InSet(v, m) => self.mask_has(m, model.get(v as usize).copied().unwrap_or(0)) as u128,
            Node::Bin(op, a, b) => {
                let (x, y) = (self.ev(a, model), self.ev(b, model));
                // division by zero follows SMT-LIB here; LLVM code guards it
                fold_bin(op, x, y, w).unwrap_or(match op {
                    BinOp::UDiv => mask_w(w),
                    BinOp::URem | BinOp::SRem => x,
                    _ => {
                        if sx(x, w) < 0 {
                            1
                        } else {
                            mask_w(w)
                        }
                    }
                })
            }
            Node::Cmp(p, a, b) => {
                let wa = self.w(a);
                fold_cmp(p, self.ev(a, model), self.ev(b, model), wa) as u128
            }
            Node::Not(a) => self.ev(a, model) ^ 1,
            Node::Ite(c, a, b) => {
                if self.ev(c, model) == 1 {
                    self.ev(a, model)
                } else {
                    self.ev(b, model)
                }
            }
            Node::Concat(h, l) => {
                let wl = self.w(l);
                (self.ev(h, model) << wl) | self.ev(l, model)
            }
            Node::Extract(a, lo) => (self.ev(a, model) >> lo) & mask_w(w),
            Node::ZExt(a) => self.ev(a, model),
            Node::SExt(a) => {
                let wa = self.w(a);
                (sx(self.ev(a, model), wa) as u128) & mask_w(w)
            }
            Node::Ctlz(a) => {
                let wa = self.w(a);
                (self.ev(a, model).leading_zeros() - (128 - wa)) as u128
            }
            Node::Cttz(a) => {
                let wa = self.w(a);
                self.ev(a, model).trailing_zeros().min(wa) as u128
            }
            Node::Ctpop(a) => self.ev(a, model).count_ones() as u128,
            Node::FBin(op, a, b) => {
                let (x, y) = (self.ev(a, model), self.ev(b, model));
                fold_fbin(op, x, y, w)
            }
            Node::FCmp(p, a, b) => {
                let wa = self.w(a);
                let (x, y) = (self.ev(a, model), self.ev(b, model));
                fold_fcmp(p, x, y, wa) as u128
            }
            Node::FCast(op, a) => {
                let wa = self.w(a);
                fold_fcast(op, self.ev(a, model), wa, w)
            }
        }
    }

    /// simplify the boolean structure of `a` knowing which values each byte can still take
    pub fn under(&mut self, a: Id, doms: &[u32], fuel: &mut u32) -> Id {
        if *fuel == 0 {
            return a;
        }
        *fuel -= 1;
        match self.node(a) {
            Node::InSet(v, m) => {
                let d = doms[v as usize];
                if d == M_ALL {
                    return a;
                }
                let x = self.mask_and(d, m);
                if x == M_NONE {
                    0
                } else if x == d {
                    1
                } else {
                    a
                }
            }
            Node::Bin(op, x, y) if self.w(a) == 1 && matches!(op, BinOp::And | BinOp::Or) => {
                let x2 = self.under(x, doms, fuel);
                let y2 = self.under(y, doms, fuel);
                if x2 == x && y2 == y {
                    a
                } else {
                    self.bin(op, x2, y2)
                }
            }
            Node::Not(x) => {
                let x2 = self.under(x, doms, fuel);
                if x2 == x {
                    a
                } else {
                    self.not(x2)
                }
            }
            Node::Ite(c, x, y) => {
                let c2 = self.under(c, doms, fuel);
                let x2 = self.under(x, doms, fuel);
                let y2 = self.under(y, doms, fuel);
                if c2 == c && x2 == x && y2 == y {
                    a
                } else {
                    self.ite(c2, x2, y2)
                }
            }
            Node::Cmp(p, x, y) => {
                let x2 = self.under(x, doms, fuel);
                let y2 = self.under(y, doms, fuel);
                if x2 == x && y2 == y {
                    a
                } else {
                    self.cmp(p, x2, y2)
                }
            }
            _ => a,
        }
    }
    pub fn show(&self, a: Id) -> String {
        let w = self.w(a);
        match self.node(a) {
            Node::Const(c) => format!("{}:{}", c, w),
            Node::Var(v) => format!("b{}", v),
            Node::InSet(v, m) => format!("b{} in #{}({})", v, m, self.mask_count(m)),
            Node::Bin(o, x, y) => format!("({:?} {} {})", o, self.show(x), self.show(y)),
            Node::Cmp(o, x, y) => format!("({:?} {} {})", o, self.show(x), self.show(y)),
            Node::Not(x) => format!("!{}", self.show(x)),
            Node::Ite(c, x, y) => format!("({} ? {} : {})", self.show(c), self.show(x), self.show(y)),
            Node::Concat(x, y) => format!("({} ++ {})", self.show(x), self.show(y)),
            Node::Extract(x, lo) => format!("{}[{}+{}]", self.show(x), lo, w),
            Node::ZExt(x) => format!("z{}({})", w, self.show(x)),
            Node::SExt(x) => format!("s{}({})", w, self.show(x)),
            Node::Ctlz(x) => format!("ctlz({})", self.show(x)),
            Node::Cttz(x) => format!("cttz({})", self.show(x)),
            Node::Ctpop(x) => format!("ctpop({})", self.show(x)),
            Node::FBin(o, x, y) => format!("(f{:?} {} {})", o, self.show(x), self.show(y)),
            Node::FCmp(p, x, y) => format!("(fcmp{} {} {})", p, self.show(x), self.show(y)),
            Node::FCast(o, x) => format!("{:?}({})", o, self.show(x)),
        }
    }

    // ---- constructors
    pub fn bin(&mut self, op: BinOp, mut a: Id, mut b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (mut ca, mut cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = fold_bin(op, x, y, w) {
                return self.cst(r, w);
            }
        }
        let comm = matches!(op, BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = mask_w(w);
        if let Some(y) = cb {
            match op {
                BinOp::Add | BinOp::Sub | BinOp::Or | BinOp::Xor | BinOp::Shl | BinOp::LShr | BinOp::AShr if y == 0 => return a,
                BinOp::Mul | BinOp::And if y == 0 => return self.cst(0, w),
                BinOp::Mul | BinOp::UDiv | BinOp::SDiv if y == 1 => return a,
                BinOp::And if y == m => return a,
                BinOp::Or if y == m => return b,
                BinOp::Xor if w == 1 => return self.not(a),
                BinOp::Sub => {
                    let nb = self.cst(0u128.wrapping_sub(y), w);
                    return self.bin(BinOp::Add, a, nb);
                }
                BinOp::Mul if y.is_power_of_two() => {
                    let s = self.cst(y.trailing_zeros() as u128, w);
                    return self.bin(BinOp::Shl, a, s);
                }
                BinOp::UDiv if y.is_power_of_two() => {
                    let s = self.cst(y.trailing_zeros() as u128, w);
                    return self.bin(BinOp::LShr, a, s);
                }
                BinOp::URem if y.is_power_of_two() => {
                    let s = self.cst(y - 1, w);
                    return self.bin(BinOp::And, a, s);
                }
                _ => {}
            }
            // constant re-association
            if let Node::Bin(op2, x, k) = self.node(a) {
                if op2 == op && matches!(op, BinOp::Add | BinOp::And | BinOp::Or | BinOp::Xor) {
                    if let Some(kc) = self.as_const(k) {
                        let nk = self.cst(fold_bin(op, kc, y, w).unwrap(), w);
                        return self.bin(op, x, nk);
                    }
                }
            }
            match op {
                BinOp::Shl => {
                    let s = y as u32;
                    if y >= w as u128 {
                        return self.cst(0, w);
                    }
                    let lo = self.cst(0, s);
                    let hi = self.extract(a, 0, w - s);
                    return self.concat(hi, lo);
                }
                BinOp::LShr => {
                    let s = y as u32;
                    if y >= w as u128 {
                        return self.cst(0, w);
                    }
                    let hi = self.extract(a, s, w - s);
                    return self.zext(hi, w);
                }
                BinOp::And if (y + 1).is_power_of_two() => {
                    let k = (y + 1).trailing_zeros();
                    let lo = self.extract(a, 0, k);
                    return self.zext(lo, w);
                }
                _ => {}
            }
        }
        if a == b {
            match op {
                BinOp::And | BinOp::Or => return a,
                BinOp::Xor | BinOp::Sub => return self.cst(0, w),
                _ => {}
            }
        }
        if w == 1 {
            match op {
                BinOp::And | BinOp::Or => {
                    let na = self.not(a);
                    if na == b {
                        return if op == BinOp::And { 0 } else { 1 };
                    }
                }
                BinOp::Add => return self.bin(BinOp::Xor, a, b),
                BinOp::Mul => return self.bin(BinOp::And, a, b),
                _ => {}
            }
        }
        // or / add of disjoint concats: (x ++ 0) | zext(y)
        if matches!(op, BinOp::Or | BinOp::Add | BinOp::Xor) && w > 1 {
            if let Some(r) = self.or_disjoint(a, b, w).or_else(|| self.or_disjoint(b, a, w)) {
                return r;
            }
        }
        if let Some(r) = self.push_ite1(a, b, w, |s, x, y| s.bin(op, x, y)) {
            return r;
        }
        self.intern(Node::Bin(op, a, b), w)
    }
    /// op over (ite const const, const): push inside
    fn push_ite1(&mut self, a: Id, b: Id, _w: u32, f: impl Fn(&mut Arena, Id, Id) -> Id) -> Option<Id> {
        if let (Node::Ite(c, x, y), Some(_)) = (self.node(a), self.as_const(b)) {
            if self.as_const(x).is_some() && self.as_const(y).is_some() {
                let p = f(self, x, b);
                let q = f(self, y, b);
                return Some(self.ite(c, p, q));
            }
        }
        None
    }
    fn or_disjoint(&mut self, a: Id, b: Id, w: u32) -> Option<Id> {
        // a = concat(h, const 0 of k bits), b = zext(y) with y <= k bits
        if let Node::Concat(h, l) = self.node(a) {
            if self.as_const(l) == Some(0) {
                let k = self.w(l);
                if let Node::ZExt(y) = self.node(b) {
                    if self.w(y) <= k {
                        let yl = self.zext(y, k);
                        return Some(self.concat(h, yl));
                    }
                }
                if let Some(c) = self.as_const(b) {
                    if c >> k == 0 {
                        let yl = self.cst(c, k);
                        return Some(self.concat(h, yl));
                    }
                }
                // b = zext(concat(.., low zero)) etc. are left alone
            }
            // a = concat(zext.., ..) with b low part
            let _ = w;
        }
        None
    }
    pub fn not(&mut self, a: Id) -> Id {
        match self.node(a) {
            Node::Const(c) => (1 - c) as Id,
            Node::Not(x) => x,
            Node::InSet(v, m) => {
                let nm = self.mask_not(m);
                self.inset(v, nm)
            }
            Node::Cmp(Pred::Ult, x, y) => self.cmp(Pred::Ule, y, x),
            Node::Cmp(Pred::Ule, x, y) => self.cmp(Pred::Ult, y, x),
            Node::Cmp(Pred::Slt, x, y) => self.cmp(Pred::Sle, y, x),
            Node::Cmp(Pred::Sle, x, y) => self.cmp(Pred::Slt, y, x),
            _ => self.intern(Node::Not(a), 1),
        }
    }
    pub fn and(&mut self, a: Id, b: Id) -> Id {
        self.bin(BinOp::And, a, b)
    }
    pub fn or(&mut self, a: Id, b: Id) -> Id {
        self.bin(BinOp::Or, a, b)
    }
    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        self.cmp(Pred::Eq, a, b)
    }
    fn ite_consts(&self, a: Id, depth: u32) -> bool {
        match self.node(a) {
            Node::Const(_) => true,
            Node::Ite(_, x, y) if depth > 0 => self.ite_consts(x, depth - 1) && self.ite_consts(y, depth - 1),
            _ => false,
        }
    }
    pub fn cmp(&mut self, p: Pred, a: Id, b: Id) -> Id {
        match p {
            Pred::Ne => {
                let e = self.cmp(Pred::Eq, a, b);
                return self.not(e);
            }
            Pred::Ugt => return self.cmp(Pred::Ult, b, a),
            Pred::Uge => return self.cmp(Pred::Ule, b, a),
            Pred::Sgt => return self.cmp(Pred::Slt, b, a),
            Pred::Sge => return self.cmp(Pred::Sle, b, a),
            _ => {}
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return fold_cmp(p, x, y, w) as Id;
        }
        if a == b {
            return matches!(p, Pred::Eq | Pred::Ule | Pred::Sle) as Id;
        }
        let (mut a, mut b) = (a, b);
        let (mut ca, mut cb) = (ca, cb);
        if p == Pred::Eq && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        // ite trees of constants against a constant
        if cb.is_some() && matches!(self.node(a), Node::Ite(..)) && self.ite_consts(a, 6) {
            return self.cmp_ite(p, a, b, false);
        }
        if ca.is_some() && matches!(self.node(b), Node::Ite(..)) && self.ite_consts(b, 6) {
            return self.cmp_ite(p, b, a, true);
        }
        if p == Pred::Eq {
            if w == 1 {
                if let Some(y) = cb {
                    return if y == 1 { a } else { self.not(a) };
                }
            }
            if let Some(y) = cb {
                match self.node(a) {
                    Node::ZExt(x) => {
                        let wx = self.w(x);
                        if y >> wx != 0 {
                            return 0;
                        }
                        let k = self.cst(y, wx);
                        return self.eq(x, k);
                    }
                    Node::SExt(x) => {
                        let wx = self.w(x);
                        if (sx(y & mask_w(wx), wx) as u128) & mask_w(w) != y {
                            return 0;
                        }
                        let k = self.cst(y, wx);
                        return self.eq(x, k);
                    }
                    Node::Concat(h, l) => {
                        let wl = self.w(l);
                        let kh = self.cst(y >> wl, w - wl);
                        let kl = self.cst(y, wl);
                        let e1 = self.eq(h, kh);
                        if e1 == 0 {
                            return 0;
                        }
                        let e2 = self.eq(l, kl);
                        return self.and(e1, e2);
                    }
                    Node::Bin(BinOp::Add, x, k) => {
                        if let Some(kc) = self.as_const(k) {
                            let nk = self.cst(y.wrapping_sub(kc), w);
                            return self.eq(x, nk);
                        }
                    }
                    Node::Bin(BinOp::Xor, x, k) => {
                        if let Some(kc) = self.as_const(k) {
                            let nk = self.cst(y ^ kc, w);
                            return self.eq(x, nk);
                        }
                        if y == 0 {
                            return self.eq(x, k);
                        }
                    }
                    Node::Bin(BinOp::Or, x, k) if y == 0 => {
                        let z = self.cst(0, w);
                        let e1 = self.eq(x, z);
                        let e2 = self.eq(k, z);
                        return self.and(e1, e2);
                    }
                    _ => {}
                }
            } else {
                match (self.node(a), self.node(b)) {
                    (Node::Concat(h, l), Node::Concat(h2, l2)) if self.w(l) == self.w(l2) => {
                        let e1 = self.eq(h, h2);
                        if e1 == 0 {
                            return 0;
                        }
                        let e2 = self.eq(l, l2);
                        return self.and(e1, e2);
                    }
                    (Node::ZExt(x), Node::ZExt(y)) => {
                        let k = self.w(x).max(self.w(y));
                        let (x, y) = (self.zext(x, k), self.zext(y, k));
                        return self.eq(x, y);
                    }
                    _ => {}
                }
            }
        } else if matches!(p, Pred::Ult | Pred::Ule) {
            match (self.node(a), self.node(b)) {
                (Node::ZExt(x), Node::ZExt(y)) => {
                    let k = self.w(x).max(self.w(y));
                    let (x, y) = (self.zext(x, k), self.zext(y, k));
                    return self.cmp(p, x, y);
                }
                (Node::ZExt(x), Node::Const(c)) => {
                    let wx = self.w(x);
                    if c >> wx != 0 {
                        return 1;
                    }
                    let k = self.cst(c, wx);
                    return self.cmp(p, x, k);
                }
                (Node::Const(c), Node::ZExt(y)) => {
                    let wy = self.w(y);
                    if c >> wy != 0 {
                        return 0;
                    }
                    let k = self.cst(c, wy);
                    return self.cmp(p, k, y);
                }
                _ => {}
            }
            if p == Pred::Ult && cb == Some(0) {
                return 0;
            }
            if p == Pred::Ule && ca == Some(0) {
                return 1;
            }
        }
        self.intern(Node::Cmp(p, a, b), 1)
    }
    fn cmp_ite(&mut self, p: Pred, a: Id, k: Id, swapped: bool) -> Id {
        match self.node(a) {
            Node::Ite(c, x, y) => {
                let e = self.cmp_ite(p, x, k, swapped);
                let f = self.cmp_ite(p, y, k, swapped);
                self.ite(c, e, f)
            }
            _ => {
                if swapped {
                    self.cmp(p, k, a)
                } else {
                    self.cmp(p, a, k)
                }
            }
        }
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(x) = self.as_const(c) {
            return if x == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        if let Node::Not(x) = self.node(c) {
            return self.ite(x, b, a);
        }
        if let Node::Ite(c2, a2, _) = self.node(a) {
            if c2 == c {
                return self.ite(c, a2, b);
            }
        }
        if let Node::Ite(c2, _, b2) = self.node(b) {
            if c2 == c {
                return self.ite(c, a, b2);
            }
        }
        self.intern(Node::Ite(c, a, b), w)
    }
    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(l)) {
            return self.cst((x << wl) | y, w);
        }
        if self.as_const(h) == Some(0) {
            return self.zext(l, w);
        }
        // adjacent extracts
        if let Node::Extract(a, lo) = self.node(h) {
            if let Node::Extract(b, lo2) = self.node(l) {
                if a == b && lo == lo2 + wl {
                    return self.extract(a, lo2, w);
                }
            }
            if a == l && lo == 0 {}
        }
        // concat(x, concat(extract..)) : normalise to right-nested? keep left-nested
        if let Node::Concat(h1, l1) = self.node(l) {
            // (h ++ (h1 ++ l1)) -> ((h ++ h1) ++ l1) so that adjacent extracts meet
            if let (Node::Extract(a, lo), Node::Extract(b, lo2)) = (self.node(h), self.node(h1)) {
                if a == b && lo == lo2 + self.w(h1) {
                    let hh = self.concat(h, h1);
                    return self.concat(hh, l1);
                }
            }
            if self.as_const(h).is_some() && self.as_const(h1).is_some() {
                let hh = self.concat(h, h1);
                return self.concat(hh, l1);
            }
        }
        // sign/zero extension chunks: concat(extract(zext x)..) handled by extract
        self.intern(Node::Concat(h, l), w)
    }
    pub fn extract(&mut self, a: Id, lo: u32, w: u32) -> Id {
        // expressions are DAGs: without a memo the recursion below is exponential in their depth
        if !matches!(self.node(a), Node::Ite(..) | Node::Bin(..)) {
            return self.extract_(a, lo, w);
        }
        if let Some(r) = self.ext_memo.get(&(a, lo, w)) {
            return *r;
        }
        let r = self.extract_(a, lo, w);
        self.ext_memo.insert((a, lo, w), r);
        r
    }
    fn extract_(&mut self, a: Id, lo: u32, w: u32) -> Id {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa && w > 0, "extract {} {} of {}", lo, w, wa);
        if lo == 0 && w == wa {
            return a;
        }
        match self.node(a) {
            Node::Const(c) => self.cst(c >> lo, w),
            Node::Extract(b, lo2) => self.extract(b, lo + lo2, w),
            Node::Concat(h, l) => {
                let wl = self.w(l);
                if lo + w <= wl {
                    self.extract(l, lo, w)
                } else if lo >= wl {
                    self.extract(h, lo - wl, w)
                } else {
                    let x = self.extract(l, lo, wl - lo);
                    let y = self.extract(h, 0, lo + w - wl);
                    self.concat(y, x)
                }
            }
            Node::ZExt(x) => {
                let wx = self.w(x);
                if lo >= wx {
                    self.cst(0, w)
                } else if lo + w <= wx {
                    self.extract(x, lo, w)
                } else {
                    let y = self.extract(x, lo, wx - lo);
                    self.zext(y, w)
                }
            }
            Node::SExt(x) => {
                let wx = self.w(x);
                if lo + w <= wx {
                    self.extract(x, lo, w)
                } else if lo == 0 {
                    self.sext(x, w)
                } else {
                    self.intern(Node::Extract(a, lo), w)
                }
            }
            Node::Ite(c, x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.ite(c, p, q)
            }
            Node::Bin(op, x, y) if matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.bin(op, p, q)
            }
            Node::Bin(op, x, y) if lo == 0 && matches!(op, BinOp::Add | BinOp::Mul | BinOp::Sub) => {
                let p = self.extract(x, 0, w);
                let q = self.extract(y, 0, w);
                self.bin(op, p, q)
            }
            _ => self.intern(Node::Extract(a, lo), w),
        }
    }
    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        debug_assert!(w > wa);
        match self.node(a) {
            Node::Const(c) => self.cst(c, w),
            Node::ZExt(x) => self.zext(x, w),
            Node::Ite(c, x, y) if self.as_const(x).is_some() && self.as_const(y).is_some() => {
                let p = self.zext(x, w);
                let q = self.zext(y, w);
                self.ite(c, p, q)
            }
            _ => self.intern(Node::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        match self.node(a) {
            Node::Const(c) => self.cst(sx(c, wa) as u128, w),
            Node::SExt(x) => self.sext(x, w),
            Node::ZExt(x) => self.zext(x, w),
            Node::Ite(c, x, y) if self.as_const(x).is_some() && self.as_const(y).is_some() => {
                let p = self.sext(x, w);
                let q = self.sext(y, w);
                self.ite(c, p, q)
            }
            _ => self.intern(Node::SExt(a), w),
        }
    }
    pub fn ctlz(&mut self, a: Id) -> Id {
        let w = self.w(a);
        match self.as_const(a) {
            Some(c) => self.cst((c.leading_zeros() - (128 - w)) as u128, w),
            None => self.intern(Node::Ctlz(a), w),
        }
    }
    pub fn cttz(&mut self, a: Id) -> Id {
        let w = self.w(a);
        match self.as_const(a) {
            Some(c) => self.cst(c.trailing_zeros().min(w) as u128, w),
            None => self.intern(Node::Cttz(a), w),
        }
    }
    pub fn ctpop(&mut self, a: Id) -> Id {
        let w = self.w(a);
        match self.as_const(a) {
            Some(c) => self.cst(c.count_ones() as u128, w),
            None => self.intern(Node::Ctpop(a), w),
        }
    }
}
