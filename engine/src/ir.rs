//! Internal form of an LLVM module: types resolved to sizes, registers numbered,
//! constants folded, phi nodes moved onto edges.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Array(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Struct(Vec<Ty>, bool),
    Label,
    Metadata,
    Opaque,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                if *w <= 64 {
                    (((*w as u64) + 7) / 8).next_power_of_two()
                } else {
                    (((*w as u64) + 127) / 128) * 16
                }
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => {
                let bits = n * t.bits() as u64;
                (bits + 7) / 8
            }
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                let mut al = 1;
                for f in fs {
                    let a = if *packed { 1 } else { f.align() };
                    al = al.max(a);
                    off = (off + a - 1) / a * a;
                    off += f.size();
                }
                (off + al - 1) / al * al
            }
            Ty::Void | Ty::Label | Ty::Metadata | Ty::Opaque => 0,
        }
    }
    /// number of bytes touched by a load/store of this type
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            t => t.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                if *w > 64 {
                    16
                } else {
                    self.size()
                }
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Array(_, t) => t.size() * i as u64,
            Ty::Vector(_, t) => t.size() * i as u64,
            Ty::Struct(fs, packed) => {
                let mut off = 0u64;
                for (j, f) in fs.iter().enumerate() {
                    let a = if *packed { 1 } else { f.align() };
                    off = (off + a - 1) / a * a;
                    if j == i {
                        return off;
                    }
                    off += f.size();
                }
                panic!("field_off")
            }
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
            Ty::Struct(fs, _) => fs[i].clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn n_elems(&self) -> usize {
        match self {
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            Ty::Struct(fs, _) => fs.len(),
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Array(..) | Ty::Vector(..) | Ty::Struct(..))
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(crate::exec::Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    BitCast, // also ptrtoint / inttoptr of the same width, freeze
    UIToFP,
    SIToFP,
    FPToUI,
    FPToSI,
    FPExt,
    FPTrunc,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub block: u32,
    pub copies: Box<[(u32, Opd)]>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // function index
    Indirect(Opd),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u32, dst: u32, a: Opd, b: Opd, lanes: u32 },
    Icmp { p: Pred, w: u32, dst: u32, a: Opd, b: Opd, lanes: u32 },
    FBin { op: FOp, w: u32, dst: u32, a: Opd, b: Opd },
    FNeg { w: u32, dst: u32, a: Opd },
    Fcmp { p: u8, w: u32, dst: u32, a: Opd, b: Opd },
    Cast { op: CastOp, from: Ty, to: Ty, dst: u32, a: Opd },
    Load { dst: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { dst: u32, base: Opd, off: i64, terms: Box<[(Opd, u32, u64)]> },
    AllocaDyn { dst: u32, elem: u64, n: Opd, nw: u32 },
    Call { dst: Option<u32>, callee: Callee, args: Box<[Opd]>, argtys: Box<[Ty]>, ret: Ty, normal: Option<Box<Edge>> },
    Br { e: Box<Edge> },
    CondBr { c: Opd, t: Box<Edge>, f: Box<Edge> },
    Switch { w: u32, v: Opd, cases: Box<[(u64, u32)]>, edges: Box<[Edge]>, def: u32 },
    Select { dst: u32, c: Opd, a: Opd, b: Opd, ty: Ty, lanes: u32 },
    ExtractValue { dst: u32, a: Opd, path: Box<[u32]> },
    InsertValue { dst: u32, a: Opd, v: Opd, path: Box<[u32]>, ty: Ty },
    ExtractElem { dst: u32, a: Opd, i: Opd, iw: u32 },
    InsertElem { dst: u32, a: Opd, v: Opd, i: Opd, ty: Ty },
    Shuffle { dst: u32, a: Opd, b: Opd, n: u32, mask: Box<[i32]>, elem_w: u32 },
    AtomicRmw { op: RmwOp, w: u32, dst: u32, p: Opd, v: Opd },
    CmpXchg { w: u32, dst: u32, p: Opd, c: Opd, n: Opd },
    Ret { v: Option<Opd> },
    Unreachable,
    Nop,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub idx: u32,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Vec<Inst>>,
    pub frame_size: u64,
    /// (register, offset in the frame object) of the static allocas
    pub allocas: Vec<(u32, u64)>,
    pub defined: bool,
    pub special: crate::exec::Special,
    pub ret: Ty,
    pub varargs: bool,
}

#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub init: Option<Vec<u8>>,
    pub size: u64,
    pub constant: bool,
}

#[derive(Debug, Default)]
pub struct Module {
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub aliases: HashMap<String, u64>,
}
