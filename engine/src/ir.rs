//! Compact register IR. Every SSA value is flattened into scalar slots (registers).
use crate::expr::{E, Op};
use std::rc::Rc;

pub type R = u32;

/// A scalar value: concrete when `e == 0`, else a symbolic expression.
#[derive(Clone, Copy, Debug)]
pub struct V { pub c: u128, pub e: E }
impl V {
    #[inline] pub fn k(c: u128) -> V { V { c, e: 0 } }
    #[inline] pub fn s(e: E) -> V { V { c: 0, e } }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Struct(Vec<Rc<Ty>>, bool), Array(u64, Rc<Ty>), Vector(u32, Rc<Ty>), Label, Meta }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => int_size(*w).min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => int_size(*w),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f { if !packed { o = up(o, t.align()); } o += t.size(); }
                if !packed { o = up(o, self.align()); }
                o
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => match **t { Ty::Int(1) => ((*n as u64) + 7) / 8, _ => *n as u64 * t.size() },
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() { if !packed { o = up(o, t.align()); } if j == i { return o; } o += t.size(); }
                panic!("field index")
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => i as u64 * t.size(),
            _ => panic!("field_offset of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Rc<Ty> {
        match self { Ty::Struct(f, _) => f[i].clone(), Ty::Array(_, t) | Ty::Vector(_, t) => t.clone(), _ => panic!("elem of {:?}", self) }
    }
    pub fn slots(&self) -> usize {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 0,
            Ty::Struct(f, _) => f.iter().map(|t| t.slots()).sum(),
            Ty::Array(n, t) => *n as usize * t.slots(),
            Ty::Vector(n, t) => *n as usize * t.slots(),
            _ => 1,
        }
    }
    /// scalar bit width
    pub fn bits(&self) -> u32 {
        match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::Vector(_, t) => t.bits(), _ => panic!("bits of {:?}", self) }
    }
    /// (slot type, byte offset) of each scalar slot in memory layout
    pub fn flatten(&self, base: u64, out: &mut Vec<(Rc<Ty>, u64)>) {
        match self {
            Ty::Struct(f, _) => for (i, t) in f.iter().enumerate() { t.flatten(base + self.field_offset(i), out) },
            Ty::Array(_, t) | Ty::Vector(_, t) => for i in 0..n_of(self) { t.flatten(base + i * t.size(), out) },
            Ty::Void | Ty::Label | Ty::Meta => {}
            t => out.push((Rc::new(t.clone()), base)),
        }
    }
}
fn n_of(t: &Ty) -> u64 { match t { Ty::Array(n, _) => *n, Ty::Vector(n, _) => *n as u64, _ => 0 } }
fn up(o: u64, a: u64) -> u64 { (o + a - 1) / a * a }
fn int_size(w: u32) -> u64 { ((w as u64 + 7) / 8).next_power_of_two() }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { ZExt, SExt, Trunc }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    UMax, UMin, SMax, SMin, USubSat, UAddSat, SSubSat, SAddSat,
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO,
    BSwap, BitReverse, Ctlz, Cttz, Ctpop, FShl, FShr, Abs, UCmp, SCmp,
}

#[derive(Debug)]
pub struct Edge { pub target: u32, pub moves: Box<[(R, R)]> }

#[derive(Debug)]
pub enum Callee { Direct(u32), Indirect(R) }

#[derive(Debug)]
pub struct CallI { pub callee: Callee, pub args: Vec<R>, pub dst: R, pub nret: u32, pub normal: Option<Edge> }

#[derive(Debug)]
pub enum Inst {
    Bin { op: Op, w: u8, d: R, a: R, b: R },
    Icmp { p: Pred, w: u8, d: R, a: R, b: R },
    Cast { k: CastK, wf: u8, wt: u8, d: R, a: R },
    Mov { d: R, a: R },
    Select { w: u8, d: R, c: R, a: R, b: R },
    Load { d: R, p: R, off: u32, w: u8, bytes: u8 },
    Store { v: R, p: R, off: u32, w: u8, bytes: u8 },
    Gep { d: R, base: R, off: i64, idx: Box<[(R, i64, u8)]> },
    FrameAddr { d: R, off: u32 },
    Call(Box<CallI>),
    Intr { k: Intr, w: u8, d: R, a: [R; 3], wr: u8 },
    MemCpy { d: R, s: R, n: R },
    MemSet { d: R, v: R, n: R },
    Assume { c: R },
    LoadRel { d: R, base: R, off: R },
    Pack { d: R, src: R, n: u32, w: u8 },
    Unpack { d: R, src: R, n: u32, w: u8 },
    AtomicRmw { op: u8, w: u8, d: R, p: R, v: R },
    CmpXchg { w: u8, d: R, p: R, c: R, n: R },
    /// A place where another thread may run: before each atomic access.
    Sync { p: R, load: bool },
    Yield,
    /// float op: name code, width; always on concrete values (symbolic ones are concretised)
    Float { op: FOp, w: u8, wt: u8, d: R, a: R, b: R },
    Br(Edge),
    CondBr { c: R, t: Edge, f: Edge },
    Switch { v: R, w: u8, cases: Box<[(u128, u32)]>, edges: Box<[Edge]> }, // edges[0] = default
    Ret { src: Box<[R]> },
    Unreachable,
    Unsupported(String),
    Nop,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp { Add, Sub, Mul, Div, Rem, Neg, Abs, FromU, FromS, ToU, ToS, Ext, Trunc, Cmp(FCmp), IsClass(u32) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FCmp { Oeq, Ogt, Oge, Olt, Ole, One, Ord, Uno, Ueq, Ugt, Uge, Ult, Ule, Une, False, True }

#[derive(Debug)]
pub struct Block { pub insts: Vec<Inst>, pub dbg: Vec<u32>, pub name: String }

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub id: u32,
    pub blocks: Vec<Block>,
    pub template: Vec<V>,
    pub params: Vec<R>,
    pub frame_size: u32,
    pub scope: u32,
}
