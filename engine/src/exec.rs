//! Symbolic executor over `ir::Module`.
use crate::expr::*;
use crate::ir::*;
use crate::ll::{fn_addr, global_addr, sext64, FN_BASE, GBASE};
use crate::solver::{Res, Solver};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    W(Rc<u128>),
    E(Id),
    Agg(Rc<[Val]>),
}

impl Val {
    pub fn int(v: u128, w: u32) -> Val {
        if w <= 64 {
            Val::C((v & mask_w(w)) as u64)
        } else {
            Val::W(Rc::new(v & mask_w(w)))
        }
    }
    pub fn zero(t: &Ty) -> Val {
        match t {
            Ty::Array(n, e) | Ty::Vector(n, e) => Val::Agg(vec![Val::zero(e); *n as usize].into()),
            Ty::Struct(fs, _) => Val::Agg(fs.iter().map(Val::zero).collect::<Vec<_>>().into()),
            t => Val::int(0, t.bits().max(1)),
        }
    }
    pub fn c(&self) -> u64 {
        match self {
            Val::C(x) => *x,
            Val::W(x) => **x as u64,
            v => panic!("concrete value expected, got {:?}", v),
        }
    }
    pub fn u128(&self) -> Option<u128> {
        match self {
            Val::C(x) => Some(*x as u128),
            Val::W(x) => Some(**x),
            _ => None,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    UMin,
    UMax,
    SMin,
    SMax,
    USubSat,
    UAddSat,
    Abs,
    UCmp,
    SCmp,
    Ctlz,
    Cttz,
    Ctpop,
    Fshl,
    Fshr,
    Bitrev,
    Bswap,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    IsConst,
    Trap,
    Tls,
    Expect,
    ReduceOr,
    ReduceAdd,
    FptoSiSat,
    FptoUiSat,
    FAbs,
    Unknown,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Special {
    No,
    Intrinsic(Intr, u32),
    SymBytes,
    SymAssume,
    SymFail,
    SymReach,
    SymOut,
    SymKnown,
    Panic,
    Abort,
    RAlloc,
    RAllocZ,
    RDealloc,
    RRealloc,
    Malloc,
    Calloc,
    Free,
    Realloc,
    Memalign,
    Memcmp,
    Strlen,
    MemcpyF,
    MemsetF,
    RemainingStack,
    MemchrRaw,
    HashOne,
    RandKeys,
    RetZero,
}

pub fn special_of(n: &str) -> Special {
    use Special::*;
    if let Some(r) = n.strip_prefix("llvm.") {
        let w: u32 = r.rsplit('.').find_map(|p| p.strip_prefix('i').and_then(|d| d.parse().ok())).unwrap_or(0);
        let i = if r.starts_with("lifetime") || r.starts_with("assume") || r.starts_with("experimental.noalias") || r.starts_with("dbg") || r.starts_with("x86.sse2.pause") || r.starts_with("prefetch") || r.starts_with("invariant") {
            Intr::Nop
        } else if r.starts_with("memcpy") || r.starts_with("memmove") {
            Intr::Memcpy
        } else if r.starts_with("memset") {
            Intr::Memset
        } else if r.starts_with("umin.") {
            Intr::UMin
        } else if r.starts_with("umax.") {
            Intr::UMax
        } else if r.starts_with("smin.") {
            Intr::SMin
        } else if r.starts_with("smax.") {
            Intr::SMax
        } else if r.starts_with("usub.sat") {
            Intr::USubSat
        } else if r.starts_with("uadd.sat") {
            Intr::UAddSat
        } else if r.starts_with("abs.") {
            Intr::Abs
        } else if r.starts_with("ucmp.") {
            Intr::UCmp
        } else if r.starts_with("scmp.") {
            Intr::SCmp
        } else if r.starts_with("ctlz") {
            Intr::Ctlz
        } else if r.starts_with("cttz") {
            Intr::Cttz
        } else if r.starts_with("ctpop") {
            Intr::Ctpop
        } else if r.starts_with("fshl") {
            Intr::Fshl
        } else if r.starts_with("fshr") {
            Intr::Fshr
        } else if r.starts_with("bitreverse") {
            Intr::Bitrev
        } else if r.starts_with("bswap") {
            Intr::Bswap
        } else if r.starts_with("uadd.with") {
            Intr::UAddO
        } else if r.starts_with("usub.with") {
            Intr::USubO
        } else if r.starts_with("umul.with") {
            Intr::UMulO
        } else if r.starts_with("sadd.with") {
            Intr::SAddO
        } else if r.starts_with("ssub.with") {
            Intr::SSubO
        } else if r.starts_with("smul.with") {
            Intr::SMulO
        } else if r.starts_with("is.constant") {
            Intr::IsConst
        } else if r.starts_with("trap") {
            Intr::Trap
        } else if r.starts_with("threadlocal") {
            Intr::Tls
        } else if r.starts_with("expect") {
            Intr::Expect
        } else if r.starts_with("vector.reduce.or") {
            Intr::ReduceOr
        } else if r.starts_with("vector.reduce.add") {
            Intr::ReduceAdd
        } else if r.starts_with("fptosi.sat") {
            Intr::FptoSiSat
        } else if r.starts_with("fptoui.sat") {
            Intr::FptoUiSat
        } else if r.starts_with("fabs") {
            Intr::FAbs
        } else {
            Intr::Unknown
        };
        // for overloaded on two types (ucmp.i8.i64) the operand type comes last
        return Intrinsic(i, w);
    }
    match n {
        "sym_bytes" => return SymBytes,
        "sym_assume" => return SymAssume,
        "sym_fail" => return SymFail,
        "sym_reach" => return SymReach,
        "sym_out" => return SymOut,
        "sym_known" => return SymKnown,
        "malloc" => return Malloc,
        "calloc" => return Calloc,
        "free" => return Free,
        "realloc" => return Realloc,
        "posix_memalign" => return Memalign,
        "bcmp" | "memcmp" => return Memcmp,
        "strlen" => return Strlen,
        "memcpy" | "memmove" => return MemcpyF,
        "memset" => return MemsetF,
        "abort" => return Abort,
        "__cxa_thread_atexit_impl" => return RetZero,
        _ => {}
    }
    let has = |s: &str| n.contains(s);
    if n.ends_with("___rust_alloc") {
        return RAlloc;
    }
    if n.ends_with("___rust_alloc_zeroed") {
        return RAllocZ;
    }
    if n.ends_with("___rust_dealloc") {
        return RDealloc;
    }
    if n.ends_with("___rust_realloc") {
        return RRealloc;
    }
    if has("stacker15remaining_stack") {
        return RemainingStack;
    }
    if has("memchr10memchr_raw6detect") {
        return MemchrRaw;
    }
    if has("8hash_one") {
        return HashOne;
    }
    if has("hashmap_random_keys") {
        return RandKeys;
    }
    if has("4core9panicking")
        && (has("9panic_fmt")
            || has("18panic_bounds_check")
            || n.ends_with("9panicking5panic")
            || has("11panic_const")
            || has("13assert_failed")
            || has("19assert_failed_inner")
            || has("panic_nounwind")
            || has("panic_in_cleanup")
            || has("panic_cannot_unwind")
            || has("panic_display")
            || has("panic_explicit")
            || has("unreachable_display")
            || has("panic_misaligned")
            || has("panic_null"))
        || has("6option13unwrap_failed")
        || has("6option13expect_failed")
        || has("6result13unwrap_failed")
        || has("3str16slice_error_fail")
        || has("5slice5index16slice_index_fail")
        || has("5slice5index24slice_end_index")
        || has("5slice5index26slice_start_index")
        || has("len_mismatch_fail")
        || has("4cell22panic_already_borrowed")
        || has("4cell30panic_already_mutably_borrowed")
        || has("panic_already_")
        || has("raw_vec12handle_error")
        || has("raw_vec17capacity_overflow")
        || has("5alloc18handle_alloc_error")
        || has("3std9panicking11begin_panic")
        || has("7process5abort")
    {
        return Panic;
    }
    No
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<Vec<Id>>>,
}

const CH: usize = 64;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    free: Vec<u32>,
    next: u32,
}

impl Mem {
    fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH)?.get(id as usize % CH)?.as_ref()
    }
    fn slot(&mut self, id: u32) -> &mut Option<Rc<Obj>> {
        let c = id as usize / CH;
        while self.chunks.len() <= c {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        &mut Rc::make_mut(&mut self.chunks[c])[id as usize % CH]
    }
    fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        if self.get(id).is_none() {
            return None;
        }
        self.slot(id).as_mut().map(|r| Rc::make_mut(r))
    }
    pub fn alloc(&mut self, size: usize) -> u64 {
        let id = match self.free.pop() {
            Some(i) => i,
            None => {
                self.next += 1;
                self.next - 1
            }
        };
        *self.slot(id) = Some(Rc::new(Obj { data: vec![0; size], sym: None }));
        (id as u64) << 32
    }
    pub fn dealloc(&mut self, addr: u64) {
        let id = (addr >> 32) as u32;
        *self.slot(id) = None;
        self.free.push(id);
    }
}

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub block: u32,
    pub ip: u32,
    pub base: u32,
    pub obj: u64,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub regs: Vec<Val>,
    pub mem: Mem,
    pub doms: Vec<u32>,
    pub multi: Vec<Id>,
    pub pins: Vec<(Id, u64)>,
    pub model: Vec<u8>,
    pub decisions: Vec<u64>,
    pub replay: Rc<Vec<u64>>,
    pub replay_pos: usize,
    pub out: Vec<Val>,
    pub reach: u64,
    pub known: u64,
    pub icount: u64,
    pub harness: u32,
    pub extra_objs: Vec<(u32, u64)>, // (frame depth, dynamic alloca object)
}

#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Assume,
    Fail { kind: String, loc: String },
    Error(String),
    Budget,
    Depth,
}

pub struct Limits {
    pub max_icount: u64,
    pub max_depth: usize,
    pub max_values: usize,
}

pub struct Exec {
    pub m: &'static Module,
    pub ar: Arena,
    pub sol: Solver,
    pub work: Vec<State>,
    pub lim: Limits,
    pub used: Vec<bool>,
    pub total_inst: u64,
    pub forks: u64,
    pub decided: u64,
    pub dead: u64,
    tmp: Vec<Val>,
}

type R<T> = Result<T, Stop>;

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Error(s.into()))
}

impl Exec {
    pub fn new(m: &'static Module, lim: Limits, rlimit: u32) -> Exec {
        Exec {
            m,
            ar: Arena::new(),
            sol: Solver::new(rlimit),
            work: vec![],
            lim,
            used: vec![false; m.funcs.len()],
            total_inst: 0,
            forks: 0,
            decided: 0,
            dead: 0,
            tmp: vec![],
        }
    }

    pub fn base_mem(m: &Module) -> Mem {
        let mut mem = Mem { chunks: vec![], free: vec![], next: 0 };
        for (i, g) in m.globals.iter().enumerate() {
            let id = (GBASE + i as u64) as u32;
            let data = match &g.init {
                Some(d) => d.clone(),
                None => vec![0; g.size.max(8) as usize],
            };
            *mem.slot(id) = Some(Rc::new(Obj { data, sym: None }));
            debug_assert_eq!(global_addr(i) >> 32, id as u64);
        }
        mem.next = (GBASE as u32 + m.globals.len() as u32 + CH as u32) / CH as u32 * CH as u32;
        mem
    }

    pub fn initial(&mut self, mem: &Mem, func: u32, harness: u32, replay: Vec<u64>) -> State {
        let f = &self.m.funcs[func as usize];
        let mut st = State {
            frames: vec![],
            regs: vec![],
            mem: mem.clone(),
            doms: vec![],
            multi: vec![],
            pins: vec![],
            model: vec![],
            decisions: vec![],
            replay: Rc::new(replay),
            replay_pos: 0,
            out: vec![],
            reach: 0,
            known: 0,
            icount: 0,
            harness,
            extra_objs: vec![],
        };
        self.push_frame(&mut st, f, vec![]);
        st
    }

    fn push_frame(&mut self, st: &mut State, f: &'static Func, args: Vec<Val>) {
        self.used[f.idx as usize] = true;
        let base = st.regs.len();
        let n = args.len().min(f.nparams as usize);
        st.regs.extend(args.into_iter().take(n));
        st.regs.resize(base + f.nregs as usize, Val::C(0));
        let mut obj = 0;
        if f.frame_size > 0 {
            obj = st.mem.alloc(f.frame_size as usize);
            for (r, off) in &f.allocas {
                st.regs[base + *r as usize] = Val::C(obj + off);
            }
        }
        st.frames.push(Frame { func: f.idx, block: 0, ip: 0, base: base as u32, obj });
    }

    // ---------- values
    pub fn id(&mut self, v: &Val, w: u32) -> Id {
        match v {
            Val::C(c) => self.ar.cst(*c as u128, w),
            Val::W(c) => self.ar.cst(**c, w),
            Val::E(i) => {
                debug_assert_eq!(self.ar.w(*i), w);
                *i
            }
            Val::Agg(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn val(&self, i: Id) -> Val {
        match self.ar.as_const(i) {
            Some(c) => Val::int(c, self.ar.w(i)),
            None => Val::E(i),
        }
    }

    // ---------- constraints
    fn add_constraint(&mut self, st: &mut State, c: Id) {
        if c == 1 {
            return;
        }
        match self.ar.node(c) {
            Node::InSet(v, m) => {
                let d = st.doms[v as usize];
                let nd = self.ar.mask_and(d, m);
                if nd == d {
                    return;
                }
                st.doms[v as usize] = nd;
                // constraints that mention this byte may have become simpler
                if st.multi.iter().any(|x| self.ar.vars(*x) >> v & 1 == 1) {
                    let old = std::mem::take(&mut st.multi);
                    let mut again = vec![];
                    for x in old {
                        if self.ar.vars(x) >> v & 1 == 1 {
                            let mut fuel = 200;
                            let y = self.ar.under(x, &st.doms, &mut fuel);
                            if y != x {
                                again.push(y);
                                continue;
                            }
                        }
                        st.multi.push(x);
                    }
                    for y in again {
                        self.add_constraint(st, y);
                    }
                }
                if self.ar.mask_single(st.doms[v as usize]).is_some() && !st.multi.is_empty() {
                    let mut fixed = 0u128;
                    for (i, d) in st.doms.iter().enumerate() {
                        if self.ar.mask_single(*d).is_some() {
                            fixed |= 1 << i;
                        }
                    }
                    let ar = &self.ar;
                    st.multi.retain(|x| ar.vars(*x) & !fixed != 0);
                }
            }
            Node::Bin(BinOp::And, a, b) => {
                self.add_constraint(st, a);
                self.add_constraint(st, b);
            }
            Node::Not(x) => {
                if let Node::Bin(BinOp::Or, a, b) = self.ar.node(x) {
                    let na = self.ar.not(a);
                    let nb = self.ar.not(b);
                    self.add_constraint(st, na);
                    self.add_constraint(st, nb);
                } else if !st.multi.contains(&c) {
                    st.multi.push(c)
                }
            }
            _ => {
                if !st.multi.contains(&c) {
                    st.multi.push(c)
                }
            }
        }
    }
    fn all_fixed(&self, st: &State, mut vars: u128) -> bool {
        while vars != 0 {
            let v = vars.trailing_zeros();
            vars &= vars - 1;
            if self.ar.mask_single(st.doms[v as usize]).is_none() {
                return false;
            }
        }
        true
    }
    fn sat(&mut self, st: &State, c: Id, model: &mut Vec<u8>) -> R<bool> {
        match self.sol.sat(&mut self.ar, &st.multi, &st.doms, c, model) {
            Res::Sat => Ok(true),
            Res::Unsat => Ok(false),
            Res::Unknown => err("solver gave no answer within its resource limit"),
        }
    }

    /// Pick one of several mutually exclusive, jointly exhaustive conditions; the other
    /// feasible ones become pending states that re-execute the current instruction.
    fn choose(&mut self, st: &mut State, opts: &[(u64, Id)]) -> R<u64> {
        self.decided += 1;
        let mut feas: Vec<(u64, Id, Option<Vec<u8>>)> = vec![];
        for (k, c) in opts {
            if *c == 0 {
                continue;
            }
            if *c == 1 {
                return Ok(*k);
            }
            if self.ar.eval(*c, &st.model) == 1 {
                feas.push((*k, *c, None));
            } else {
                let mut m = st.model.clone();
                if self.sat(st, *c, &mut m)? {
                    feas.push((*k, *c, Some(m)));
                }
            }
        }
        if feas.is_empty() {
            return err("no feasible alternative");
        }
        if feas.len() == 1 {
            return Ok(feas[0].0);
        }
        let mut pick = 0;
        let replaying = st.replay_pos < st.replay.len();
        if replaying {
            let k = st.replay[st.replay_pos];
            st.replay_pos += 1;
            pick = match feas.iter().position(|f| f.0 == k) {
                Some(p) => p,
                None => return err("replay diverged"),
            };
        } else {
            for f in feas.iter().skip(1).rev() {
                let mut s2 = st.clone();
                s2.decisions.push(f.0);
                if let Some(m) = &f.2 {
                    s2.model = m.clone();
                }
                self.add_constraint(&mut s2, f.1);
                self.forks += 1;
                self.work.push(s2);
            }
        }
        let (k, c, m) = feas.swap_remove(pick);
        st.decisions.push(k);
        if let Some(m) = m {
            st.model = m;
        }
        self.add_constraint(st, c);
        Ok(k)
    }

    fn truth(&mut self, st: &mut State, v: &Val) -> R<bool> {
        match v {
            Val::C(c) => Ok(*c & 1 == 1),
            Val::E(i) => {
                let mut i = *i;
                if self.all_fixed(st, self.ar.vars(i)) {
                    return Ok(self.ar.eval(i, &st.model) == 1);
                }
                if self.ar.vars(i).count_ones() > 1 {
                    let mut fuel = 200;
                    i = self.ar.under(i, &st.doms, &mut fuel);
                    if i < 2 {
                        return Ok(i == 1);
                    }
                }
                let n = self.ar.not(i);
                Ok(self.choose(st, &[(1, i), (0, n)])? == 1)
            }
            _ => err("condition"),
        }
    }

    /// all feasible values of an expression (bounded), exact
    fn values(&mut self, st: &State, i: Id) -> R<Vec<u64>> {
        let vars = self.ar.vars(i);
        let w = self.ar.w(i);
        let mut out: Vec<u64> = vec![];
        if vars.count_ones() == 1 {
            let v = vars.trailing_zeros();
            let d = st.doms[v as usize];
            let mut m = st.model.clone();
            for x in 0..=255u8 {
                if self.ar.mask_has(d, x) {
                    m[v as usize] = x;
                    let k = self.ar.eval(i, &m) as u64;
                    if !out.contains(&k) {
                        out.push(k);
                    }
                }
            }
            return Ok(out);
        }
        let mut excl: Id = 1;
        let mut model = st.model.clone();
        loop {
            if out.len() > self.lim.max_values {
                return err(format!("more than {} values for one expression", self.lim.max_values));
            }
            let k = self.ar.eval(i, &model);
            out.push(k as u64);
            let kc = self.ar.cst(k, w);
            let e = self.ar.eq(i, kc);
            let ne = self.ar.not(e);
            excl = self.ar.and(excl, ne);
            if !self.sat(st, excl, &mut model)? {
                return Ok(out);
            }
        }
    }

    fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::W(c) => Ok(**c as u64),
            Val::E(i) => {
                let i = *i;
                if w > 64 {
                    return err("wide value must be concrete");
                }
                if let Some(p) = st.pins.iter().find(|p| p.0 == i) {
                    return Ok(p.1);
                }
                if self.all_fixed(st, self.ar.vars(i)) {
                    return Ok(self.ar.eval(i, &st.model) as u64);
                }
                let vs = self.values(st, i)?;
                if vs.len() == 1 {
                    return Ok(vs[0]);
                }
                let mut opts = Vec::with_capacity(vs.len());
                for k in vs {
                    let c = self.ar.cst(k as u128, w);
                    opts.push((k, self.ar.eq(i, c)));
                }
                let k = self.choose(st, &opts)?;
                st.pins.push((i, k));
                Ok(k)
            }
            _ => err("aggregate address"),
        }
    }

    // ---------- memory
    fn obj<'a>(&self, st: &'a State, addr: u64, n: u64) -> R<(&'a Obj, usize)> {
        let off = addr & 0xffff_ffff;
        match st.mem.get((addr >> 32) as u32) {
            Some(o) if addr < FN_BASE => {
                if off + n > o.data.len() as u64 {
                    return err(format!("out of bounds access {:#x}+{} (object of {} bytes)", addr, n, o.data.len()));
                }
                Ok((o, off as usize))
            }
            _ => err(format!("access to unmapped address {:#x}", addr)),
        }
    }
    fn load_int(&mut self, st: &State, addr: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as usize;
        let (o, off) = self.obj(st, addr, n as u64)?;
        let symbolic = match &o.sym {
            Some(s) => s[off..off + n].iter().any(|x| *x != 0),
            None => false,
        };
        if !symbolic {
            let d = &o.data[off..off + n];
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(d);
                let v = u64::from_le_bytes(b);
                return Ok(Val::C(if w >= 64 { v } else { v & ((1u64 << w) - 1) }));
            }
            if n > 16 {
                return err("integer wider than 128 bits");
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(d);
            return Ok(Val::int(u128::from_le_bytes(b), w));
        }
        if n > 16 {
            return err("integer wider than 128 bits");
        }
        let s = o.sym.as_ref().unwrap();
        let mut r: Option<Id> = None;
        for k in 0..n {
            let b = if s[off + k] != 0 { s[off + k] } else { self.ar.cst(o.data[off + k] as u128, 8) };
            r = Some(match r {
                None => b,
                Some(l) => self.ar.concat(b, l),
            });
        }
        let mut r = r.unwrap();
        if (w as usize) < n * 8 {
            r = self.ar.extract(r, 0, w);
        }
        if self.ar.as_const(r).is_none() && n <= 2 && self.all_fixed(st, self.ar.vars(r)) {
            return Ok(Val::C(self.ar.eval(r, &st.model) as u64));
        }
        Ok(self.val(r))
    }
    fn load(&mut self, st: &State, addr: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float => self.load_int(st, addr, t.bits()),
            Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..) => {
                let n = t.n_elems();
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    let e = t.elem(i);
                    v.push(self.load(st, addr + t.field_off(i), &e)?);
                }
                Ok(Val::Agg(v.into()))
            }
            _ => err("load type"),
        }
    }
    fn store_int(&mut self, st: &mut State, addr: u64, w: u32, v: &Val) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        let id = (addr >> 32) as u32;
        let mut bytes: [Id; 16] = [0; 16];
        if let Val::E(i) = v {
            let mut i = *i;
            if (w as usize) < n * 8 {
                i = self.ar.zext(i, n as u32 * 8);
            }
            for k in 0..n {
                bytes[k] = self.ar.extract(i, k as u32 * 8, 8);
            }
        }
        let ar = &self.ar;
        if addr >= FN_BASE {
            return err("store to code");
        }
        match st.mem.get_mut(id) {
            Some(o) => {
                if off + n > o.data.len() {
                    return err(format!("out of bounds store {:#x}+{} (object of {} bytes)", addr, n, o.data.len()));
                }
                match v {
                    Val::C(c) => {
                        o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n.min(8)]);
                        if let Some(s) = &mut o.sym {
                            s[off..off + n].fill(0);
                        }
                    }
                    Val::W(c) => {
                        o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                        if let Some(s) = &mut o.sym {
                            s[off..off + n].fill(0);
                        }
                    }
                    Val::E(_) => {
                        let len = o.data.len();
                        let s = o.sym.get_or_insert_with(|| Box::new(vec![0; len]));
                        for k in 0..n {
                            match ar.as_const(bytes[k]) {
                                Some(c) => {
                                    o.data[off + k] = c as u8;
                                    s[off + k] = 0;
                                }
                                None => s[off + k] = bytes[k],
                            }
                        }
                    }
                    Val::Agg(_) => return err("store of aggregate as scalar"),
                }
                Ok(())
            }
            None => err(format!("store to unmapped address {:#x}", addr)),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, t: &Ty, v: &Val) -> R<()> {
        match (t, v) {
            (Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..), Val::Agg(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    let e = t.elem(i);
                    self.store(st, addr + t.field_off(i), &e, x)?;
                }
                Ok(())
            }
            _ => self.store_int(st, addr, t.bits(), v),
        }
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (so, soff) = self.obj(st, s, n)?;
        let n = n as usize;
        let data: Vec<u8> = so.data[soff..soff + n].to_vec();
        let sym: Option<Vec<Id>> = match &so.sym {
            Some(x) if x[soff..soff + n].iter().any(|v| *v != 0) => Some(x[soff..soff + n].to_vec()),
            _ => None,
        };
        self.obj(st, d, n as u64)?;
        let off = (d & 0xffff_ffff) as usize;
        let o = st.mem.get_mut((d >> 32) as u32).unwrap();
        o.data[off..off + n].copy_from_slice(&data);
        match sym {
            Some(v) => {
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| Box::new(vec![0; len]));
                s[off..off + n].copy_from_slice(&v);
            }
            None => {
                if let Some(s) = &mut o.sym {
                    s[off..off + n].fill(0);
                }
            }
        }
        Ok(())
    }
    fn memset(&mut self, st: &mut State, d: u64, v: &Val, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        self.obj(st, d, n)?;
        let n = n as usize;
        let off = (d & 0xffff_ffff) as usize;
        let o = st.mem.get_mut((d >> 32) as u32).unwrap();
        let len = o.data.len();
        match v {
            Val::E(i) => {
                let s = o.sym.get_or_insert_with(|| Box::new(vec![0; len]));
                s[off..off + n].fill(*i);
            }
            v => {
                o.data[off..off + n].fill(v.c() as u8);
                if let Some(s) = &mut o.sym {
                    s[off..off + n].fill(0);
                }
            }
        }
        Ok(())
    }
    pub fn read_bytes(&self, st: &State, p: u64, n: u64) -> Option<Vec<u8>> {
        let (o, off) = self.obj(st, p, n).ok()?;
        Some(o.data[off..off + n as usize].to_vec())
    }
    fn byte(&mut self, st: &State, a: u64) -> R<Id> {
        let v = self.load_int(st, a, 8)?;
        Ok(self.id(&v, 8))
    }

    /// load through a symbolic pointer
    fn load_sym(&mut self, st: &mut State, p: &Val, t: &Ty) -> R<Val> {
        if let Val::E(i) = p {
            let i = *i;
            if !st.pins.iter().any(|p| p.0 == i) && !self.all_fixed(st, self.ar.vars(i)) && matches!(t, Ty::Int(_)) && self.ar.vars(i).count_ones() == 1 {
                let addrs = self.values(st, i)?;
                let obj = addrs[0] >> 32;
                let gi = (obj as usize).wrapping_sub(GBASE as usize);
                if addrs.len() > 1 && addrs.iter().all(|a| a >> 32 == obj) && self.m.globals.get(gi).map_or(false, |g| g.constant) {
                    // table lookup: an expression over the feasible entries
                    let w = t.bits();
                    let mut groups: Vec<(Id, Id)> = vec![];
                    for a in &addrs {
                        let v = self.load_int(st, *a, w)?;
                        let v = self.id(&v, w);
                        let ac = self.ar.cst(*a as u128, 64);
                        let c = self.ar.eq(i, ac);
                        match groups.iter_mut().find(|g| g.0 == v) {
                            Some(g) => g.1 = self.ar.or(g.1, c),
                            None => groups.push((v, c)),
                        }
                    }
                    let mut r = groups[0].0;
                    for (v, c) in &groups[1..] {
                        r = self.ar.ite(*c, *v, r);
                    }
                    return Ok(self.val(r));
                }
            }
        }
        if let (Val::E(i), Ty::Int(_)) = (p, t) {
            let (i, w) = (*i, t.bits());
            if w % 8 == 0 && w <= 64 && !st.pins.iter().any(|p| p.0 == i) && !self.all_fixed(st, self.ar.vars(i)) && self.ar.vars(i).count_ones() > 1 {
                if let Some(r) = self.table(st, i, w)? {
                    return Ok(self.val(r));
                }
            }
        }
        let a = self.concretize(st, p, 64)?;
        self.load(st, a, t)
    }

    /// Lookup in a small constant table at an address over several inputs: a tree of choices on the
    /// bits of the offset.
    fn table(&mut self, st: &State, i: Id, w: u32) -> R<Option<Id>> {
        let a = self.ar.eval(i, &st.model) as u64;
        let base = a >> 32 << 32;
        let gi = ((a >> 32) as usize).wrapping_sub(GBASE as usize);
        if !self.m.globals.get(gi).map_or(false, |g| g.constant) {
            return Ok(None);
        }
        let n = match st.mem.get((a >> 32) as u32) {
            Some(o) => o.data.len() as u64,
            None => return Ok(None),
        };
        let b = (w / 8) as u64;
        if n < b || n > 512 {
            return Ok(None);
        }
        let bc = self.ar.cst(base as u128, 64);
        let off = self.ar.bin(BinOp::Sub, i, bc);
        let lim = self.ar.cst((n - b) as u128, 64);
        let beyond = self.ar.cmp(Pred::Ugt, off, lim);
        let mut model = st.model.clone();
        if beyond != 0 && (self.ar.eval(beyond, &model) == 1 || self.sat(st, beyond, &mut model)?) {
            return Ok(None);
        }
        let mut vals = Vec::new();
        for k in 0..=(n - b) {
            let v = self.load_int(st, base + k, w)?;
            vals.push(self.id(&v, w));
        }
        let mut bit = 0;
        while vals.len() > 1 {
            let c = self.ar.extract(off, bit, 1);
            let mut next = Vec::with_capacity(vals.len() / 2 + 1);
            for p in vals.chunks(2) {
                next.push(if p.len() == 1 { p[0] } else { self.ar.ite(c, p[1], p[0]) });
            }
            vals = next;
            bit += 1;
        }
        Ok(Some(vals[0]))
    }

    // ---------- scalar operations
    fn bin1(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
            let (x, y) = (*x, *y);
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                BinOp::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                _ => match fold_bin(op, x as u128, y as u128, w) {
                    Some(r) => r as u64,
                    None => return err("division by zero"),
                },
            };
            return Ok(Val::C(r & m));
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let r = self.ar.bin(op, x, y);
        Ok(self.val(r))
    }
    fn cmp1(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                _ => {
                    let (x, y) = (sext64(x, w), sext64(y, w));
                    match p {
                        Pred::Slt => x < y,
                        Pred::Sle => x <= y,
                        Pred::Sgt => x > y,
                        _ => x >= y,
                    }
                }
            };
            return Val::C(r as u64);
        }
        let (x, y) = (self.id(a, w), self.id(b, w));
        let r = self.ar.cmp(p, x, y);
        self.val(r)
    }
    /// bit pattern of a (possibly vector) value
    fn flat(&mut self, v: &Val, t: &Ty) -> R<(Val, u32)> {
        match (t, v) {
            (Ty::Vector(n, e), Val::Agg(vs)) => {
                let ew = e.bits();
                let tw = ew * *n as u32;
                if tw > 128 {
                    return err("vector wider than 128 bits");
                }
                let mut r: Option<Id> = None;
                for x in vs.iter() {
                    let b = self.id(x, ew);
                    r = Some(match r {
                        None => b,
                        Some(l) => self.ar.concat(b, l),
                    });
                }
                let r = r.unwrap();
                Ok((self.val(r), tw))
            }
            _ => Ok((v.clone(), t.bits())),
        }
    }
    fn unflat(&mut self, v: &Val, t: &Ty) -> R<Val> {
        match t {
            Ty::Vector(n, e) => {
                let ew = e.bits();
                let tw = ew * *n as u32;
                let x = self.id(v, tw);
                let mut out = vec![];
                for k in 0..*n as u32 {
                    let l = self.ar.extract(x, k * ew, ew);
                    out.push(self.val(l));
                }
                Ok(Val::Agg(out.into()))
            }
            _ => Ok(v.clone()),
        }
    }
    fn cast1(&mut self, st: &mut State, op: CastOp, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        let (fw, tw) = (from.bits(), to.bits());
        if fw > 128 || tw > 128 {
            return err("integer wider than 128 bits");
        }
        Ok(match op {
            CastOp::Trunc => match v {
                Val::E(i) => {
                    let r = self.ar.extract(*i, 0, tw);
                    self.val(r)
                }
                v => Val::int(v.u128().unwrap(), tw),
            },
            CastOp::ZExt => match v {
                Val::E(i) => {
                    let r = self.ar.zext(*i, tw);
                    self.val(r)
                }
                v => Val::int(v.u128().unwrap(), tw),
            },
            CastOp::SExt => match v {
                Val::E(i) => {
                    let r = self.ar.sext(*i, tw);
                    self.val(r)
                }
                v => Val::int(sx(v.u128().unwrap(), fw) as u128, tw),
            },
            CastOp::BitCast => {
                if from == to || (!from.is_agg() && !to.is_agg()) {
                    v.clone()
                } else {
                    let (b, _) = self.flat(v, from)?;
                    self.unflat(&b, to)?
                }
            }
            _ => {
                if fw > 64 || tw > 64 {
                    return err("wide float cast");
                }
                if matches!(op, CastOp::FPToUI | CastOp::FPToSI) {
                    let x = self.concretize(st, v, fw)?;
                    return Ok(Val::int(fold_fcast(op, x as u128, fw, tw), tw));
                }
                let x = self.id(v, fw);
                let r = self.ar.fcast(op, x, tw);
                self.val(r)
            }
        })
    }
    fn lanes(v: &Val) -> &[Val] {
        match v {
            Val::Agg(x) => x,
            _ => panic!("vector expected"),
        }
    }
    fn select1(&mut self, c: &Val, a: &Val, b: &Val, t: &Ty) -> R<Val> {
        match c {
            Val::C(x) => Ok(if x & 1 == 1 { a.clone() } else { b.clone() }),
            Val::E(i) => match (a, b) {
                (Val::Agg(x), Val::Agg(y)) => {
                    let mut out = vec![];
                    for k in 0..x.len() {
                        let e = t.elem(k);
                        out.push(self.select1(c, &x[k], &y[k], &e)?);
                    }
                    Ok(Val::Agg(out.into()))
                }
                _ => {
                    let w = t.bits();
                    let (x, y) = (self.id(a, w), self.id(b, w));
                    let r = self.ar.ite(*i, x, y);
                    Ok(self.val(r))
                }
            },
            _ => err("select condition"),
        }
    }

    // ---------- main loop
    #[inline]
    fn ev(st: &State, base: usize, o: &Opd) -> Val {
        match o {
            Opd::R(r) => match &st.regs[base + *r as usize] {
                Val::C(c) => Val::C(*c),
                v => v.clone(),
            },
            Opd::K(Val::C(c)) => Val::C(*c),
            Opd::K(v) => v.clone(),
        }
    }
    #[inline]
    fn set(st: &mut State, base: usize, r: u32, v: Val) {
        st.regs[base + r as usize] = v;
    }
    fn take_edge(&mut self, st: &mut State, base: usize, e: &'static Edge) {
        match e.copies.len() {
            0 => {}
            1 => {
                let (d, o) = &e.copies[0];
                let v = Self::ev(st, base, o);
                Self::set(st, base, *d, v);
            }
            _ => {
                let mut tmp = std::mem::take(&mut self.tmp);
                tmp.clear();
                for (_, o) in e.copies.iter() {
                    tmp.push(Self::ev(st, base, o));
                }
                for ((d, _), v) in e.copies.iter().zip(tmp.drain(..)) {
                    Self::set(st, base, *d, v);
                }
                self.tmp = tmp;
            }
        }
        let f = st.frames.last_mut().unwrap();
        f.block = e.block;
        f.ip = 0;
    }

    pub fn run(&mut self, st: &mut State) -> Stop {
        let before = st.icount;
        let r = match self.run_inner(st) {
            Ok(()) => Stop::Done,
            Err(s) => s,
        };
        self.total_inst += st.icount - before;
        r
    }

    pub fn trace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| format!("{} b{} i{}", self.m.funcs[f.func as usize].name, f.block, f.ip)).collect()
    }

    fn run_inner(&mut self, st: &mut State) -> R<()> {
        let m: &'static Module = self.m;
        'outer: loop {
            let (mut func, mut base) = {
                let f = st.frames.last().unwrap();
                (&m.funcs[f.func as usize], f.base as usize)
            };
            loop {
                let (bi, mut ip) = {
                    let f = st.frames.last().unwrap();
                    (f.block as usize, f.ip as usize)
                };
                let blk: &'static [Inst] = &func.blocks[bi];
                if st.icount > self.lim.max_icount {
                    return Err(Stop::Budget);
                }
                'blk: loop {
                    let inst = &blk[ip];
                    st.icount += 1;
                    // position is only written back where it can be observed
                    macro_rules! sync {
                        () => {
                            st.frames.last_mut().unwrap().ip = ip as u32
                        };
                    }
                    match inst {
                        Inst::Bin { op, w, dst, a, b, lanes } => {
                            let x = Self::ev(st, base, a);
                            let y = Self::ev(st, base, b);
                            let v = if *lanes == 0 {
                                self.bin1(*op, *w, &x, &y)?
                            } else {
                                let mut out = vec![];
                                for k in 0..*lanes as usize {
                                    out.push(self.bin1(*op, *w, &Self::lanes(&x)[k], &Self::lanes(&y)[k])?);
                                }
                                Val::Agg(out.into())
                            };
                            Self::set(st, base, *dst, v);
                        }
                        Inst::Icmp { p, w, dst, a, b, lanes } => {
                            let x = Self::ev(st, base, a);
                            let y = Self::ev(st, base, b);
                            let v = if *lanes == 0 {
                                self.cmp1(*p, *w, &x, &y)
                            } else {
                                let mut out = vec![];
                                for k in 0..*lanes as usize {
                                    out.push(self.cmp1(*p, *w, &Self::lanes(&x)[k], &Self::lanes(&y)[k]));
                                }
                                Val::Agg(out.into())
                            };
                            Self::set(st, base, *dst, v);
                        }
                        Inst::Load { dst, ty, p } => {
                            let pv = Self::ev(st, base, p);
                            let v = match &pv {
                                Val::C(a) => self.load(st, *a, ty)?,
                                _ => {
                                    sync!();
                                    self.load_sym(st, &pv, ty)?
                                }
                            };
                            Self::set(st, base, *dst, v);
                        }
                        Inst::Store { ty, v, p } => {
                            let pv = Self::ev(st, base, p);
                            let a = match &pv {
                                Val::C(a) => *a,
                                _ => {
                                    sync!();
                                    self.concretize(st, &pv, 64)?
                                }
                            };
                            let x = Self::ev(st, base, v);
                            self.store(st, a, ty, &x)?;
                        }
                        Inst::Gep { dst, base: b, off, terms } => {
                            let mut v = Self::ev(st, base, b);
                            if *off != 0 {
                                v = match v {
                                    Val::C(x) => Val::C(x.wrapping_add(*off as u64)),
                                    v => self.bin1(BinOp::Add, 64, &v, &Val::C(*off as u64))?,
                                };
                            }
                            for (o, w, sz) in terms.iter() {
                                let i = Self::ev(st, base, o);
                                match (&v, &i) {
                                    (Val::C(x), Val::C(y)) => {
                                        v = Val::C(x.wrapping_add((sext64(*y, *w) as u64).wrapping_mul(*sz)));
                                    }
                                    _ => {
                                        let e = self.id(&i, *w);
                                        let e = if *w < 64 { self.ar.sext(e, 64) } else { e };
                                        let e = self.val(e);
                                        let s = self.bin1(BinOp::Mul, 64, &e, &Val::C(*sz))?;
                                        v = self.bin1(BinOp::Add, 64, &v, &s)?;
                                    }
                                }
                            }
                            Self::set(st, base, *dst, v);
                        }
                        Inst::Cast { op, from, to, dst, a } => {
                            let x = Self::ev(st, base, a);
                            let v = if let (Ty::Vector(n, fe), Ty::Vector(_, te), true) = (from, to, *op != CastOp::BitCast) {
                                let mut out = vec![];
                                for k in 0..*n as usize {
                                    sync!();
                                    out.push(self.cast1(st, *op, fe, te, &Self::lanes(&x)[k])?);
                                }
                                Val::Agg(out.into())
                            } else {
                                match (op, &x) {
                                    (CastOp::BitCast, Val::C(c)) if !from.is_agg() && !to.is_agg() => Val::C(*c),
                                    _ => {
                                        sync!();
                                        self.cast1(st, *op, from, to, &x)?
                                    }
                                }
                            };
                            Self::set(st, base, *dst, v);
                        }
                        Inst::Select { dst, c, a, b, ty, lanes } => {
                            let cv = Self::ev(st, base, c);
                            let v = if *lanes > 0 {
                                let x = Self::ev(st, base, a);
                                let y = Self::ev(st, base, b);
                                let mut out = vec![];
                                for k in 0..*lanes as usize {
                                    let e = ty.elem(k);
                                    out.push(self.select1(&Self::lanes(&cv)[k], &Self::lanes(&x)[k], &Self::lanes(&y)[k], &e)?);
                                }
                                Val::Agg(out.into())
                            } else {
                                match cv {
                                    Val::C(k) => Self::ev(st, base, if k & 1 == 1 { a } else { b }),
                                    _ => {
                                        let x = Self::ev(st, base, a);
                                        let y = Self::ev(st, base, b);
                                        self.select1(&cv, &x, &y, ty)?
                                    }
                                }
                            };
                            Self::set(st, base, *dst, v);
                        }
                        Inst::Br { e } => {
                            self.take_edge(st, base, e);
                            break 'blk;
                        }
                        Inst::CondBr { c, t, f } => {
                            let cv = Self::ev(st, base, c);
                            let b = match &cv {
                                Val::C(k) => *k & 1 == 1,
                                _ => {
                                    sync!();
                                    self.truth(st, &cv)?
                                }
                            };
                            self.take_edge(st, base, if b { t } else { f });
                            break 'blk;
                        }
                        Inst::Switch { w, v, cases, edges, def } => {
                            let x = Self::ev(st, base, v);
                            let ei = match &x {
                                Val::C(k) => cases.iter().find(|c| c.0 == *k).map(|c| c.1).unwrap_or(*def),
                                Val::E(i) => {
                                    sync!();
                                    let i = *i;
                                    if self.all_fixed(st, self.ar.vars(i)) {
                                        let k = self.ar.eval(i, &st.model) as u64;
                                        cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def)
                                    } else {
                                        let mut conds: Vec<(u64, Id)> = (0..edges.len()).map(|k| (k as u64, 0)).collect();
                                        let mut any: Id = 0;
                                        for (k, e) in cases.iter() {
                                            let kc = self.ar.cst(*k as u128, *w);
                                            let c = self.ar.eq(i, kc);
                                            any = self.ar.or(any, c);
                                            let s = &mut conds[*e as usize].1;
                                            *s = self.ar.or(*s, c);
                                        }
                                        let none = self.ar.not(any);
                                        let s = &mut conds[*def as usize].1;
                                        *s = self.ar.or(*s, none);
                                        self.choose(st, &conds)? as u32
                                    }
                                }
                                _ => return err("wide switch"),
                            };
                            self.take_edge(st, base, &edges[ei as usize]);
                            break 'blk;
                        }
                        Inst::ExtractValue { dst, a, path } => {
                            let mut v = Self::ev(st, base, a);
                            for p in path.iter() {
                                v = match &v {
                                    Val::Agg(x) => x[*p as usize].clone(),
                                    _ => return err("extractvalue"),
                                };
                            }
                            Self::set(st, base, *dst, v);
                        }
                        Inst::InsertValue { dst, a, v, path, ty } => {
                            let mut agg = Self::ev(st, base, a);
                            let x = Self::ev(st, base, v);
                            if !matches!(agg, Val::Agg(_)) {
                                agg = Val::zero(ty);
                            }
                            fn ins(v: &Val, p: &[u32], x: Val) -> Val {
                                if p.is_empty() {
                                    return x;
                                }
                                match v {
                                    Val::Agg(e) => {
                                        let mut n = e.to_vec();
                                        n[p[0] as usize] = ins(&e[p[0] as usize], &p[1..], x);
                                        Val::Agg(n.into())
                                    }
                                    _ => panic!("insertvalue"),
                                }
                            }
                            let r = ins(&agg, path, x);
                            Self::set(st, base, *dst, r);
                        }
                        Inst::Call { dst, callee, args, argtys, ret, normal } => {
                            sync!();
                            let fi = match callee {
                                Callee::Direct(i) => *i,
                                Callee::Indirect(o) => {
                                    let v = Self::ev(st, base, o);
                                    let a = self.concretize(st, &v, 64)?;
                                    if a < FN_BASE || ((a - FN_BASE) / 16) as usize >= m.funcs.len() {
                                        return err(format!("call through bad function pointer {:#x}", a));
                                    }
                                    ((a - FN_BASE) / 16) as u32
                                }
                            };
                            let f = &m.funcs[fi as usize];
                            if f.special == Special::No {
                                if !f.defined {
                                    return err(format!("call of unmodelled external {}", f.name));
                                }
                                if st.frames.len() >= self.lim.max_depth {
                                    return Err(Stop::Depth);
                                }
                                let mut av = Vec::with_capacity(args.len());
                                for a in args.iter() {
                                    av.push(Self::ev(st, base, a));
                                }
                                self.push_frame(st, f, av);
                                continue 'outer;
                            }
                            if f.special == Special::Intrinsic(Intr::Nop, 0) || matches!(f.special, Special::Intrinsic(Intr::Nop, _)) {
                                // nothing
                            } else {
                                let mut av = Vec::with_capacity(args.len());
                                for a in args.iter() {
                                    av.push(Self::ev(st, base, a));
                                }
                                self.used[fi as usize] = true;
                                let r = self.special(st, f, &av, argtys, ret)?;
                                if let (Some(d), Some(v)) = (dst, r) {
                                    Self::set(st, base, *d, v);
                                }
                            }
                            if let Some(e) = normal {
                                self.take_edge(st, base, e);
                                break 'blk;
                            }
                        }
                        Inst::Ret { v } => {
                            let rv = v.as_ref().map(|o| Self::ev(st, base, o));
                            let fr = st.frames.pop().unwrap();
                            if fr.obj != 0 {
                                st.mem.dealloc(fr.obj);
                            }
                            while let Some((d, a)) = st.extra_objs.last().copied() {
                                if d as usize > st.frames.len() {
                                    st.mem.dealloc(a);
                                    st.extra_objs.pop();
                                } else {
                                    break;
                                }
                            }
                            st.regs.truncate(fr.base as usize);
                            let caller = match st.frames.last() {
                                Some(c) => c,
                                None => return Ok(()),
                            };
                            func = &m.funcs[caller.func as usize];
                            base = caller.base as usize;
                            let (cb, ci) = (caller.block as usize, caller.ip as usize);
                            match &func.blocks[cb][ci] {
                                Inst::Call { dst, normal, .. } => {
                                    if let (Some(d), Some(x)) = (dst, rv) {
                                        Self::set(st, base, *d, x);
                                    }
                                    match normal {
                                        Some(e) => self.take_edge(st, base, e),
                                        None => st.frames.last_mut().unwrap().ip = ci as u32 + 1,
                                    }
                                }
                                _ => return err("return to a non-call"),
                            }
                            break 'blk;
                        }
                        Inst::ExtractElem { dst, a, i, iw } => {
                            let v = Self::ev(st, base, a);
                            let iv = Self::ev(st, base, i);
                            sync!();
                            let k = self.concretize(st, &iv, *iw)?;
                            Self::set(st, base, *dst, Self::lanes(&v)[k as usize].clone());
                        }
                        Inst::InsertElem { dst, a, v, i, ty } => {
                            let mut agg = Self::ev(st, base, a);
                            if !matches!(agg, Val::Agg(_)) {
                                agg = Val::zero(ty);
                            }
                            let x = Self::ev(st, base, v);
                            let iv = Self::ev(st, base, i);
                            sync!();
                            let k = self.concretize(st, &iv, 64)?;
                            let mut n = Self::lanes(&agg).to_vec();
                            n[k as usize] = x;
                            Self::set(st, base, *dst, Val::Agg(n.into()));
                        }
                        Inst::Shuffle { dst, a, b, n, mask, .. } => {
                            let x = Self::ev(st, base, a);
                            let y = Self::ev(st, base, b);
                            let (x, y) = (Self::lanes(&x), Self::lanes(&y));
                            let mut out = vec![];
                            for k in mask.iter() {
                                let k = *k as usize;
                                out.push(if k < *n as usize {
                                    x[k].clone()
                                } else if k < 2 * *n as usize {
                                    y[k - *n as usize].clone()
                                } else {
                                    x[0].clone()
                                });
                            }
                            Self::set(st, base, *dst, Val::Agg(out.into()));
                        }
                        Inst::AtomicRmw { op, w, dst, p, v } => {
                            sync!();
                            let pv = Self::ev(st, base, p);
                            let a = self.concretize(st, &pv, 64)?;
                            let old = self.load_int(st, a, *w)?;
                            let x = Self::ev(st, base, v);
                            let n = match op {
                                RmwOp::Xchg => x,
                                RmwOp::Add => self.bin1(BinOp::Add, *w, &old, &x)?,
                                RmwOp::Sub => self.bin1(BinOp::Sub, *w, &old, &x)?,
                                RmwOp::And => self.bin1(BinOp::And, *w, &old, &x)?,
                                RmwOp::Or => self.bin1(BinOp::Or, *w, &old, &x)?,
                                RmwOp::Xor => self.bin1(BinOp::Xor, *w, &old, &x)?,
                                _ => return err("atomic min/max"),
                            };
                            self.store_int(st, a, *w, &n)?;
                            Self::set(st, base, *dst, old);
                        }
                        Inst::CmpXchg { w, dst, p, c, n } => {
                            sync!();
                            let pv = Self::ev(st, base, p);
                            let a = self.concretize(st, &pv, 64)?;
                            let old = self.load_int(st, a, *w)?;
                            let cv = Self::ev(st, base, c);
                            let e = self.cmp1(Pred::Eq, *w, &old, &cv);
                            if self.truth(st, &e)? {
                                let nv = Self::ev(st, base, n);
                                self.store_int(st, a, *w, &nv)?;
                                Self::set(st, base, *dst, Val::Agg(vec![old, Val::C(1)].into()));
                            } else {
                                Self::set(st, base, *dst, Val::Agg(vec![old, Val::C(0)].into()));
                            }
                        }
                        Inst::AllocaDyn { dst, elem, n, nw } => {
                            sync!();
                            let nv = Self::ev(st, base, n);
                            let k = self.concretize(st, &nv, *nw)?;
                            let a = st.mem.alloc((elem * k).max(1) as usize);
                            let d = st.frames.len() as u32;
                            st.extra_objs.push((d, a));
                            Self::set(st, base, *dst, Val::C(a));
                        }
                        Inst::FBin { op, w, dst, a, b } => {
                            sync!();
                            let x = Self::ev(st, base, a);
                            let y = Self::ev(st, base, b);
                            let v = if *op == FOp::Rem {
                                let x = self.concretize(st, &x, *w)?;
                                let y = self.concretize(st, &y, *w)?;
                                Val::C(fold_fbin(*op, x as u128, y as u128, *w) as u64)
                            } else {
                                let (x, y) = (self.id(&x, *w), self.id(&y, *w));
                                let r = self.ar.fbin(*op, x, y);
                                self.val(r)
                            };
                            Self::set(st, base, *dst, v);
                        }
                        Inst::FNeg { w, dst, a } => {
                            let x = Self::ev(st, base, a);
                            let k = Val::C(1u64 << (*w - 1));
                            let v = self.bin1(BinOp::Xor, *w, &x, &k)?;
                            Self::set(st, base, *dst, v);
                        }
                        Inst::Fcmp { p, w, dst, a, b } => {
                            let x = Self::ev(st, base, a);
                            let y = Self::ev(st, base, b);
                            let (x, y) = (self.id(&x, *w), self.id(&y, *w));
                            let r = self.ar.fcmp(*p, x, y);
                            let v = self.val(r);
                            Self::set(st, base, *dst, v);
                        }
                        Inst::Nop => {}
                        Inst::Unreachable => {
                            sync!();
                            return err(format!("unreachable executed in {}", func.name));
                        }
                        Inst::Unsupported(s) => {
                            sync!();
                            return err(format!("unsupported: {} in {}", s, func.name));
                        }
                    }
                    ip += 1;
                }
            }
        }
    }

    fn panic_loc(&self, st: &State, args: &[Val]) -> String {
        if let Some(Val::C(p)) = args.last() {
            if let Some(b) = self.read_bytes(st, *p, 24) {
                let ptr = u64::from_le_bytes(b[0..8].try_into().unwrap());
                let len = u64::from_le_bytes(b[8..16].try_into().unwrap());
                let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
                let col = u32::from_le_bytes(b[20..24].try_into().unwrap());
                if len < 400 {
                    for l in [len, len.saturating_sub(1)] {
                        if let Some(s) = self.read_bytes(st, ptr, l) {
                            return format!("{}:{}:{}", String::from_utf8_lossy(&s), line, col);
                        }
                    }
                }
            }
        }
        "?".into()
    }

    fn special(&mut self, st: &mut State, f: &'static Func, a: &[Val], tys: &[Ty], ret: &Ty) -> R<Option<Val>> {
        use Special::*;
        Ok(match f.special {
            Intrinsic(k, _) => return self.intrinsic(st, k, f, a, tys, ret),
            SymBytes => {
                let p = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[1], 64)?;
                for k in 0..n {
                    let v = st.doms.len() as u32;
                    if v >= 128 {
                        return err("more than 128 symbolic bytes");
                    }
                    st.doms.push(M_ALL);
                    st.model.push(0);
                    let e = self.ar.var(v);
                    self.store_int(st, p + k, 8, &Val::E(e))?;
                }
                None
            }
            SymAssume => {
                match &a[0] {
                    Val::C(c) => {
                        if *c & 1 == 0 {
                            return Err(Stop::Assume);
                        }
                    }
                    Val::E(i) => {
                        let w = self.ar.w(*i);
                        let z = self.ar.cst(0, w);
                        let e = self.ar.eq(*i, z);
                        let c = self.ar.not(e);
                        if c == 0 {
                            return Err(Stop::Assume);
                        }
                        if self.ar.eval(c, &st.model) == 0 {
                            let mut m = st.model.clone();
                            if !self.sat(st, c, &mut m)? {
                                return Err(Stop::Assume);
                            }
                            st.model = m;
                        }
                        self.add_constraint(st, c);
                    }
                    _ => return err("assume"),
                }
                None
            }
            SymFail => {
                let p = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[1], 64)?;
                let s = self.read_bytes(st, p, n).unwrap_or_default();
                return Err(Stop::Fail { kind: "assertion".into(), loc: String::from_utf8_lossy(&s).into_owned() });
            }
            SymReach => {
                let k = self.concretize(st, &a[0], 32)?;
                st.reach |= 1 << (k & 63);
                None
            }
            SymKnown => {
                let k = self.concretize(st, &a[0], 32)?;
                st.known |= 1 << (k & 63);
                None
            }
            SymOut => {
                let p = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[1], 64)?;
                for k in 0..n {
                    let v = self.load_int(st, p + k, 8)?;
                    st.out.push(v);
                }
                None
            }
            Panic => {
                let loc = self.panic_loc(st, a);
                let kind = {
                    // the last identifiable path segment of the mangled name
                    let n = &f.name;
                    let mut best = "panic";
                    for k in [
                        "panic_bounds_check", "unwrap_failed", "expect_failed", "slice_error_fail", "slice_index_fail", "panic_const_add_overflow", "panic_const_sub_overflow",
                        "panic_const_mul_overflow", "panic_const_neg_overflow", "panic_const_shl_overflow", "panic_const_shr_overflow", "panic_const_div_by_zero", "panic_const_rem_by_zero", "len_mismatch_fail",
                        "assert_failed", "capacity_overflow", "handle_alloc_error", "handle_error", "panic_already", "abort", "panic_fmt",
                    ] {
                        if n.contains(k) {
                            best = k;
                            break;
                        }
                    }
                    best.to_string()
                };
                return Err(Stop::Fail { kind, loc });
            }
            Abort => return Err(Stop::Fail { kind: "abort".into(), loc: "?".into() }),
            RAlloc | RAllocZ | Malloc => {
                let n = self.concretize(st, &a[0], 64)?;
                if n > 1 << 28 {
                    return err("allocation larger than 256 MB");
                }
                Some(Val::C(st.mem.alloc(n as usize)))
            }
            Calloc => {
                let n = self.concretize(st, &a[0], 64)?;
                let k = self.concretize(st, &a[1], 64)?;
                Some(Val::C(st.mem.alloc((n * k) as usize)))
            }
            RDealloc | Free => {
                let p = self.concretize(st, &a[0], 64)?;
                if p != 0 {
                    if st.mem.get((p >> 32) as u32).is_none() || p & 0xffff_ffff != 0 {
                        return err(format!("free of bad address {:#x}", p));
                    }
                    st.mem.dealloc(p);
                }
                None
            }
            RRealloc | Realloc => {
                let p = self.concretize(st, &a[0], 64)?;
                let n = if f.special == RRealloc { self.concretize(st, &a[3], 64)? } else { self.concretize(st, &a[1], 64)? };
                if n > 1 << 28 {
                    return err("allocation larger than 256 MB");
                }
                if p == 0 {
                    return Ok(Some(Val::C(st.mem.alloc(n as usize))));
                }
                match st.mem.get_mut((p >> 32) as u32) {
                    Some(o) => {
                        o.data.resize(n as usize, 0);
                        if let Some(s) = &mut o.sym {
                            s.resize(n as usize, 0);
                        }
                    }
                    None => return err("realloc of bad address"),
                }
                Some(Val::C(p))
            }
            Memalign => {
                let p = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[2], 64)?;
                let x = st.mem.alloc(n as usize);
                self.store_int(st, p, 64, &Val::C(x))?;
                Some(Val::C(0))
            }
            Memcmp => {
                let p = self.concretize(st, &a[0], 64)?;
                let q = self.concretize(st, &a[1], 64)?;
                let n = self.concretize(st, &a[2], 64)?;
                let bc = f.name == "bcmp";
                // first difference decides
                let mut conc = true;
                let mut r: Vec<(Id, Id)> = vec![];
                for k in 0..n {
                    let x = self.byte(st, p + k)?;
                    let y = self.byte(st, q + k)?;
                    if x == y {
                        continue;
                    }
                    let e = self.ar.eq(x, y);
                    if e == 1 {
                        continue;
                    }
                    r.push((x, y));
                    if e == 0 {
                        break;
                    }
                    conc = false;
                }
                if r.is_empty() {
                    return Ok(Some(Val::C(0)));
                }
                if conc {
                    let (x, y) = r[0];
                    let (x, y) = (self.ar.as_const(x), self.ar.as_const(y));
                    if let (Some(x), Some(y)) = (x, y) {
                        return Ok(Some(Val::C(if bc || x > y { 1 } else { 0xffff_ffff })));
                    }
                }
                if bc {
                    let mut all: Id = 1;
                    for (x, y) in r.iter().rev() {
                        let e = self.ar.eq(*x, *y);
                        all = self.ar.and(e, all);
                    }
                    let z = self.ar.cst(0, 32);
                    let o = self.ar.cst(1, 32);
                    let v = self.ar.ite(all, z, o);
                    return Ok(Some(self.val(v)));
                }
                let mut v = self.ar.cst(0, 32);
                for (x, y) in r.iter().rev() {
                    let e = self.ar.eq(*x, *y);
                    let l = self.ar.cmp(Pred::Ult, *x, *y);
                    let one = self.ar.cst(1, 32);
                    let neg = self.ar.cst(0xffff_ffff, 32);
                    let d = self.ar.ite(l, neg, one);
                    v = self.ar.ite(e, v, d);
                }
                Some(self.val(v))
            }
            Strlen => {
                let p = self.concretize(st, &a[0], 64)?;
                let mut k = 0;
                loop {
                    let b = self.byte(st, p + k)?;
                    match self.ar.as_const(b) {
                        Some(0) => break,
                        Some(_) => k += 1,
                        None => return err("strlen of symbolic text"),
                    }
                }
                Some(Val::C(k))
            }
            MemcpyF => {
                let d = self.concretize(st, &a[0], 64)?;
                let s = self.concretize(st, &a[1], 64)?;
                let n = self.concretize(st, &a[2], 64)?;
                self.memcpy(st, d, s, n)?;
                Some(Val::C(d))
            }
            MemsetF => {
                let d = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[2], 64)?;
                let b = self.cast1(st, CastOp::Trunc, &Ty::Int(32), &Ty::Int(8), &a[1])?;
                self.memset(st, d, &b, n)?;
                Some(Val::C(d))
            }
            RemainingStack => Some(match ret {
                Ty::Struct(..) => Val::Agg(vec![Val::C(1), Val::C(1 << 30)].into()),
                _ => return err("remaining_stack signature"),
            }),
            MemchrRaw => {
                // memchr::arch::x86_64::memchr::memchr_raw(needle, start, end) -> Option<*const u8>
                let s = self.concretize(st, &a[1], 64)?;
                let e = self.concretize(st, &a[2], 64)?;
                let n = self.id(&a[0], 8);
                let mut r: Option<Id> = None;
                let none = self.ar.cst(0, 64);
                let mut p = e;
                while p > s {
                    p -= 1;
                    let b = self.byte(st, p)?;
                    let c = self.ar.eq(b, n);
                    let pc = self.ar.cst(p as u128, 64);
                    r = Some(self.ar.ite(c, pc, r.unwrap_or(none)));
                }
                let r = r.unwrap_or(none);
                match ret {
                    Ty::Ptr => Some(self.val(r)),
                    Ty::Struct(..) => {
                        let z = self.ar.eq(r, none);
                        let nz = self.ar.not(z);
                        let tag = self.ar.zext(nz, 64);
                        Some(Val::Agg(vec![self.val(tag), self.val(r)].into()))
                    }
                    _ => return err("memchr_raw signature"),
                }
            }
            HashOne => Some(Val::C(0x1234_5678_9abc_def0)),
            RandKeys => Some(Val::zero(ret)),
            RetZero => Some(Val::zero(ret)),
            No => return err("special"),
        })
    }

    fn intrinsic(&mut self, st: &mut State, k: Intr, f: &'static Func, a: &[Val], tys: &[Ty], ret: &Ty) -> R<Option<Val>> {
        // element-wise on vectors
        if let Ty::Vector(n, e) = ret {
            if !matches!(k, Intr::ReduceAdd | Intr::ReduceOr) {
                let mut out = vec![];
                for l in 0..*n as usize {
                    let av: Vec<Val> = a
                        .iter()
                        .map(|v| match v {
                            Val::Agg(x) => x[l].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    let tv: Vec<Ty> = tys
                        .iter()
                        .map(|t| match t {
                            Ty::Vector(_, x) => (**x).clone(),
                            t => t.clone(),
                        })
                        .collect();
                    match self.intrinsic(st, k, f, &av, &tv, e)? {
                        Some(v) => out.push(v),
                        None => return err("vector intrinsic"),
                    }
                }
                return Ok(Some(Val::Agg(out.into())));
            }
        }
        let w = tys.first().map(|t| t.bits()).unwrap_or(0);
        Ok(match k {
            Intr::Nop => None,
            Intr::Memcpy => {
                let d = self.concretize(st, &a[0], 64)?;
                let s = self.concretize(st, &a[1], 64)?;
                let n = self.concretize(st, &a[2], 64)?;
                self.memcpy(st, d, s, n)?;
                None
            }
            Intr::Memset => {
                let d = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[2], 64)?;
                self.memset(st, d, &a[1], n)?;
                None
            }
            Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax => {
                let p = match k {
                    Intr::UMin => Pred::Ult,
                    Intr::UMax => Pred::Ugt,
                    Intr::SMin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.cmp1(p, w, &a[0], &a[1]);
                Some(self.select1(&c, &a[0], &a[1], ret)?)
            }
            Intr::USubSat => {
                let c = self.cmp1(Pred::Ult, w, &a[0], &a[1]);
                let d = self.bin1(BinOp::Sub, w, &a[0], &a[1])?;
                Some(self.select1(&c, &Val::int(0, w), &d, ret)?)
            }
            Intr::UAddSat => {
                let s = self.bin1(BinOp::Add, w, &a[0], &a[1])?;
                let c = self.cmp1(Pred::Ult, w, &s, &a[0]);
                Some(self.select1(&c, &Val::int(mask_w(w), w), &s, ret)?)
            }
            Intr::Abs => {
                let c = self.cmp1(Pred::Slt, w, &a[0], &Val::int(0, w));
                let n = self.bin1(BinOp::Sub, w, &Val::int(0, w), &a[0])?;
                Some(self.select1(&c, &n, &a[0], ret)?)
            }
            Intr::UCmp | Intr::SCmp => {
                let (lt, gt) = if k == Intr::UCmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let rw = ret.bits();
                let l = self.cmp1(lt, w, &a[0], &a[1]);
                let g = self.cmp1(gt, w, &a[0], &a[1]);
                let x = self.select1(&g, &Val::int(1, rw), &Val::int(0, rw), ret)?;
                Some(self.select1(&l, &Val::int(mask_w(rw), rw), &x, ret)?)
            }
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop => {
                let i = self.id(&a[0], w);
                let r = match k {
                    Intr::Ctlz => self.ar.ctlz(i),
                    Intr::Cttz => self.ar.cttz(i),
                    _ => self.ar.ctpop(i),
                };
                Some(self.val(r))
            }
            Intr::Fshl | Intr::Fshr => {
                let s = self.concretize(st, &a[2], w)? % w as u64;
                let x = self.id(&a[0], w);
                let y = self.id(&a[1], w);
                let s = s as u32;
                let r = if k == Intr::Fshl {
                    if s == 0 {
                        x
                    } else {
                        let h = self.ar.extract(x, 0, w - s);
                        let l = self.ar.extract(y, w - s, s);
                        self.ar.concat(h, l)
                    }
                } else if s == 0 {
                    y
                } else {
                    let h = self.ar.extract(x, 0, s);
                    let l = self.ar.extract(y, s, w - s);
                    self.ar.concat(h, l)
                };
                Some(self.val(r))
            }
            Intr::Bitrev => {
                let x = self.id(&a[0], w);
                let mut r: Option<Id> = None;
                for b in (0..w).rev() {
                    let e = self.ar.extract(x, b, 1);
                    r = Some(match r {
                        None => e,
                        Some(l) => self.ar.concat(e, l),
                    });
                }
                Some(self.val(r.unwrap()))
            }
            Intr::Bswap => {
                let x = self.id(&a[0], w);
                let mut r: Option<Id> = None;
                for b in (0..w / 8).rev() {
                    let e = self.ar.extract(x, b * 8, 8);
                    r = Some(match r {
                        None => e,
                        Some(l) => self.ar.concat(e, l),
                    });
                }
                Some(self.val(r.unwrap()))
            }
            Intr::UAddO => {
                let s = self.bin1(BinOp::Add, w, &a[0], &a[1])?;
                let c = self.cmp1(Pred::Ult, w, &s, &a[0]);
                Some(Val::Agg(vec![s, c].into()))
            }
            Intr::USubO => {
                let s = self.bin1(BinOp::Sub, w, &a[0], &a[1])?;
                let c = self.cmp1(Pred::Ult, w, &a[0], &a[1]);
                Some(Val::Agg(vec![s, c].into()))
            }
            Intr::UMulO | Intr::SMulO | Intr::SAddO | Intr::SSubO => {
                let signed = k != Intr::UMulO;
                if matches!(k, Intr::SAddO | Intr::SSubO) && w > 64 {
                    let (x, y) = (self.id(&a[0], w), self.id(&a[1], w));
                    let lo = self.ar.bin(if k == Intr::SAddO { BinOp::Add } else { BinOp::Sub }, x, y);
                    let p = self.ar.bin(BinOp::Xor, x, if k == Intr::SAddO { lo } else { y });
                    let q = self.ar.bin(BinOp::Xor, if k == Intr::SAddO { y } else { x }, lo);
                    let b = self.ar.bin(BinOp::And, p, q);
                    let o = self.ar.extract(b, w - 1, 1);
                    return Ok(Some(Val::Agg(vec![self.val(lo), self.val(o)].into())));
                }
                if matches!(k, Intr::UMulO | Intr::SMulO) {
                    // by a positive constant: compare with the largest factors
                    let (x, c) = if a[1].u128().is_some() { (&a[0], a[1].u128()) } else { (&a[1], a[0].u128()) };
                    if let Some(c) = c.filter(|c| *c > 0 && (!signed || sx(*c, w) > 0)) {
                        let x = self.id(x, w);
                        let cc = self.ar.cst(c, w);
                        let lo = self.ar.bin(BinOp::Mul, x, cc);
                        let o = if signed {
                            let max = (mask_w(w) >> 1) as i128;
                            let (h, l) = (self.ar.cst((max / c as i128) as u128 & mask_w(w), w), self.ar.cst(((-max - 1) / c as i128) as u128 & mask_w(w), w));
                            let (p, q) = (self.ar.cmp(Pred::Sgt, x, h), self.ar.cmp(Pred::Slt, x, l));
                            self.ar.or(p, q)
                        } else {
                            let h = self.ar.cst(mask_w(w) / c, w);
                            self.ar.cmp(Pred::Ugt, x, h)
                        };
                        return Ok(Some(Val::Agg(vec![self.val(lo), self.val(o)].into())));
                    }
                }
                if w > 64 {
                    return err("wide overflow operation");
                }
                let op = match k {
                    Intr::UMulO | Intr::SMulO => BinOp::Mul,
                    Intr::SAddO => BinOp::Add,
                    _ => BinOp::Sub,
                };
                let (x, y) = (self.id(&a[0], w), self.id(&a[1], w));
                let w2 = w * 2;
                let (x2, y2) = if signed { (self.ar.sext(x, w2), self.ar.sext(y, w2)) } else { (self.ar.zext(x, w2), self.ar.zext(y, w2)) };
                let full = self.ar.bin(op, x2, y2);
                let lo = self.ar.bin(op, x, y);
                let back = if signed { self.ar.sext(lo, w2) } else { self.ar.zext(lo, w2) };
                let e = self.ar.eq(full, back);
                let o = self.ar.not(e);
                Some(Val::Agg(vec![self.val(lo), self.val(o)].into()))
            }
            Intr::IsConst => Some(Val::C(0)),
            Intr::Trap => return Err(Stop::Fail { kind: "trap".into(), loc: "?".into() }),
            Intr::Tls | Intr::Expect => Some(a[0].clone()),
            Intr::ReduceOr | Intr::ReduceAdd => {
                let e = match &tys[0] {
                    Ty::Vector(_, e) => e.bits(),
                    _ => return err("reduce"),
                };
                let op = if k == Intr::ReduceOr { BinOp::Or } else { BinOp::Add };
                let mut r = Val::int(0, e);
                for x in Self::lanes(&a[0]).to_vec().iter() {
                    r = self.bin1(op, e, &r, x)?;
                }
                Some(r)
            }
            Intr::FptoSiSat | Intr::FptoUiSat => {
                let x = self.concretize(st, &a[0], w)?;
                let v = if w == 64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                let rw = ret.bits();
                Some(if k == Intr::FptoUiSat {
                    Val::int((v as u128).min(mask_w(rw)), rw)
                } else {
                    let hi = (mask_w(rw) >> 1) as i128;
                    Val::int((v as i128).clamp(-hi - 1, hi) as u128, rw)
                })
            }
            Intr::FAbs => Some(self.bin1(BinOp::And, w, &a[0], &Val::C(if w == 64 { u64::MAX >> 1 } else { 0x7fff_ffff }))?),
            Intr::Unknown => return err(format!("unmodelled intrinsic {}", f.name)),
        })
    }
}

#[allow(dead_code)]
pub fn fnptr(i: u32) -> u64 {
    fn_addr(i)
}
