//! Path-exploring symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::parse::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

const CH: usize = 64;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sh: Option<Vec<E>>, pub ro: bool, pub heap: bool }
type Chunk = Vec<Option<Rc<Obj>>>;

pub struct Group { vars: Vec<u32>, cs: Vec<E> }

#[derive(Clone)]
pub struct Frame { f: Rc<Func>, regs: Vec<V>, blk: u32, pc: u32, base: u64 }

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Vec<Rc<Chunk>>,
    free: Vec<u32>,
    groups: Vec<Rc<Group>>,
    known: Rc<HashMap<E, u128>>,
    model: Rc<Model>,
    inputs: Vec<(E, u8)>,
    nth: HashMap<u8, u32>,
    obs: Vec<(u32, V)>,
    checks: Vec<u32>,
    forks: u32,
    steps: u64,
    /// The other one of two threads, the thread that waits for both, and how
    /// many times the running one may still be interrupted.
    other: Option<Vec<Rc<Frame>>>,
    parked: Option<Vec<Rc<Frame>>>,
    switches: u32,
    waits: u32,
}

pub enum End { Return, Panic(String), Discard, Error(String) }

pub struct Violation { pub id: u32, pub kind: String, pub msg: String, pub inputs: Vec<u128>, pub stack: String }
pub struct Case { pub outcome: String, pub inputs: Vec<u128>, pub obs: Vec<(u32, u128)> }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi { Malloc, Calloc, Realloc, Free, Memalign, AlignedAlloc, Memcmp, Bcmp, Strlen, Zero, Syscall, Write, Errno, Panic, MemCpy, MemSet,
    SymU64, SymBytes, Assume, Check, Observe, Reach, Concrete, Abort, Param, IsSym, GetRandom, Trace, Clean, Race }

pub struct Limits { pub max_paths: u64, pub max_steps: u64, pub max_time: f64, pub path_steps: u64, pub stop_after: f64 }

pub struct Engine {
    pub stop_at: f64,
    pub a: Arena,
    pub z: Solver,
    pub p: Prog,
    bi: HashMap<u32, Bi>,
    gran: Vec<u32>,
    nglob: usize,
    base_mem: Vec<Rc<Chunk>>,
    pending: Vec<State>,
    pub params: Vec<u64>,
    pub lim: Limits,
    pub paths: u64,
    pub discarded: u64,
    pub forks: u64,
    pub steps: u64,
    pub violations: Vec<Violation>,
    vseen: HashSet<String>,
    pub cases: Vec<Case>,
    pub case_cap: usize,
    pub panics_ok: bool,
    pub obligations: BTreeMap<u32, (u64, u64)>, // id -> (evaluated trivially true on path, discharged by solver)
    pub reached: BTreeMap<u32, u64>,
    qcache: HashMap<Vec<E>, Option<Rc<Vec<(u32, u128)>>>>,
    pub qhits: u64,
    recent: Vec<Rc<Model>>,
    next_model: u64,
    vars: HashMap<(u8, u32), E>,
    pub errors: Vec<String>,
    pub fork_sites: HashMap<String, u64>,
    pub profile: bool,
    pub seen_dbg: HashSet<u32>,
    pub seen_fn: HashSet<u32>,
    pub errno: u64,
    t0: std::time::Instant,
    pub rng_ctr: u64,
    pub enums: u64,
    merge_tmp: Vec<V>,
}

type X<T> = Result<T, End>;
macro_rules! err { ($($t:tt)*) => { return Err(End::Error(format!($($t)*))) } }

impl Engine {
    pub fn new(mut p: Prog, lim: Limits, timeout_ms: u32, dump: Option<String>) -> Engine {
        let mut bi = HashMap::new();
        for (i, f) in p.fns.iter().enumerate() {
            let n = f.name.as_str();
            let b = match n {
                "malloc" => Bi::Malloc, "calloc" => Bi::Calloc, "realloc" => Bi::Realloc, "free" => Bi::Free, "posix_memalign" => Bi::Memalign, "aligned_alloc" => Bi::AlignedAlloc,
                "memcmp" => Bi::Memcmp, "bcmp" => Bi::Bcmp, "strlen" => Bi::Strlen, "memcpy" | "memmove" => Bi::MemCpy, "memset" => Bi::MemSet,
                "getenv" | "pthread_atfork" | "__cxa_thread_atexit_impl" | "sched_yield" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" => Bi::Zero,
                "syscall" => Bi::Syscall, "write" => Bi::Write, "__errno_location" => Bi::Errno, "getrandom" => Bi::GetRandom,
                "abort" | "exit" | "_exit" => Bi::Panic,
                "__sym_u64" => Bi::SymU64, "__sym_bytes" => Bi::SymBytes, "__sym_assume" => Bi::Assume, "__sym_check" => Bi::Check,
                "__sym_observe" => Bi::Observe, "__sym_reach" => Bi::Reach, "__sym_concrete" => Bi::Concrete, "__sym_abort" => Bi::Abort,
                "__sym_param" => Bi::Param, "__sym_is_symbolic" => Bi::IsSym, "__sym_trace" => Bi::Trace, "__sym_clean" => Bi::Clean, "__sym_race" => Bi::Race,
                _ => {
                    if n.contains("4core9panicking") || n.contains("rust_begin_unwind") || n.contains("___rustc10rust_panic") || n.contains("18handle_alloc_error") || n.contains("7process5abort") || n.contains("3std9panicking") && !n.contains("panic_count") { Bi::Panic } else { continue }
                }
            };
            bi.insert(i as u32, b);
        }
        // memory image
        let n = p.globals.len();
        let top = p.globals.last().map(|g| g.addr + g.size).unwrap_or(GLOBAL_BASE);
        let mut gran = vec![0u32; ((top - GLOBAL_BASE) / 16 + 2) as usize];
        let mut objs: Vec<Option<Rc<Obj>>> = vec![];
        for gi in 0..n {
            let data = p.global_bytes(gi);
            let g = &p.globals[gi];
            let s = (g.addr - GLOBAL_BASE) / 16;
            let e = (g.addr + g.size.max(1) - 1 - GLOBAL_BASE) / 16;
            for k in s..=e { gran[k as usize] = gi as u32 + 1; }
            objs.push(Some(Rc::new(Obj { data, sh: None, ro: g.constant, heap: false })));
        }
        // errno object
        objs.push(Some(Rc::new(Obj { data: vec![0; 16], sh: None, ro: false, heap: true })));
        let nglob = n;
        let mut base_mem = vec![];
        for c in objs.chunks(CH) { let mut v = c.to_vec(); v.resize(CH, None); base_mem.push(Rc::new(v)); }
        let errno = 1u64 << 32;
        Engine { stop_at: f64::INFINITY, a: Arena::new(), z: Solver::new(timeout_ms, dump), p, bi, gran, nglob, base_mem, pending: vec![], params: vec![], lim, paths: 0, discarded: 0, forks: 0, steps: 0, violations: vec![], vseen: HashSet::new(), cases: vec![], case_cap: 2000, panics_ok: false,
            obligations: BTreeMap::new(), reached: BTreeMap::new(), qcache: HashMap::new(), qhits: 0, recent: vec![], next_model: 1, vars: HashMap::new(), errors: vec![], fork_sites: HashMap::new(), profile: false, seen_dbg: HashSet::new(), seen_fn: HashSet::new(), errno, t0: std::time::Instant::now(), rng_ctr: 0, enums: 0, merge_tmp: vec![] }
    }

    // ------------------------------------------------------------------ memory
    #[inline]
    fn find(&self, addr: u64) -> Option<(usize, u64)> {
        if addr >= 1 << 32 { return Some((self.nglob + (addr >> 32) as usize - 1, addr & 0xffff_ffff)); }
        if addr < GLOBAL_BASE { return None; }
        let k = ((addr - GLOBAL_BASE) / 16) as usize;
        let g = *self.gran.get(k)?;
        if g == 0 { return None; }
        Some((g as usize - 1, addr - self.p.globals[g as usize - 1].addr))
    }
    #[inline]
    fn obj<'s>(st: &'s State, i: usize) -> Option<&'s Rc<Obj>> { st.mem.get(i / CH)?.get(i % CH)?.as_ref() }
    #[inline]
    fn obj_mut<'s>(st: &'s mut State, i: usize) -> Option<&'s mut Obj> {
        let c = Rc::make_mut(st.mem.get_mut(i / CH)?);
        c[i % CH].as_mut().map(Rc::make_mut)
    }
    fn base_of(&self, i: usize) -> u64 { if i < self.nglob { self.p.globals[i].addr } else { ((i - self.nglob) as u64 + 1) << 32 } }
    fn alloc(&self, st: &mut State, size: u64) -> u64 {
        let o = Some(Rc::new(Obj { data: vec![0; size as usize], sh: None, ro: false, heap: true }));
        let i = if let Some(i) = st.free.pop() { i as usize } else {
            // first unused index: search the end
            let mut n = st.mem.len() * CH;
            if let Some(last) = st.mem.last() { n -= CH; let used = last.iter().rposition(|x| x.is_some()).map(|p| p + 1).unwrap_or(0); n += used; }
            n
        };
        while i / CH >= st.mem.len() { st.mem.push(Rc::new(vec![None; CH])); }
        Rc::make_mut(&mut st.mem[i / CH])[i % CH] = o;
        self.base_of(i)
    }
    fn free(&self, st: &mut State, addr: u64) -> X<()> {
        if addr == 0 { return Ok(()); }
        match self.find(addr) {
            Some((i, 0)) if i > self.nglob && Self::obj(st, i).map(|o| o.heap).unwrap_or(false) => {
                Rc::make_mut(&mut st.mem[i / CH])[i % CH] = None;
                st.free.push(i as u32);
                Ok(())
            }
            _ => Err(End::Panic(format!("invalid free of {:#x}", addr))),
        }
    }
    fn ex(&mut self, v: V, w: u32) -> E { if v.e == 0 { self.a.cst(v.c, w) } else { v.e } }
    #[inline]
    fn vx(&self, e: E) -> V { match self.a.as_const(e) { Some(c) => V::k(c), None => V::s(e) } }

    fn read_at(&mut self, st: &State, i: usize, off: u64, n: u64, w: u32) -> X<V> {
        let o = match Self::obj(st, i) { Some(o) => o, None => err!("read of freed object {} off {}", i, off) };
        if off + n > o.data.len() as u64 { return Err(End::Panic(format!("out-of-bounds read: object size {} offset {} len {}", o.data.len(), off, n))); }
        let off = off as usize;
        let n = n as usize;
        if let Some(sh) = &o.sh {
            if sh[off..off + n].iter().any(|e| *e != 0) {
                let mut bytes: Vec<E> = Vec::with_capacity(n);
                for k in 0..n {
                    let e = sh[off + k];
                    bytes.push(if e != 0 { if let Some(c) = st.known.get(&e) { self.a.cst(*c, 8) } else { e } } else { self.a.cst(o.data[off + k] as u128, 8) });
                }
                let mut r = bytes[n - 1];
                for k in (0..n - 1).rev() { r = self.a.bin(Op::Concat, r, bytes[k]); }
                let full = 8 * n as u32;
                if w < full { r = self.a.extract(r, 0, w); }
                if let Some(c) = st.known.get(&r) { return Ok(V::k(*c)); }
                return Ok(self.vx(r));
            }
        }
        let mut c = 0u128;
        for k in (0..n).rev() { c = (c << 8) | o.data[off + k] as u128; }
        Ok(V::k(c & mask(w)))
    }
    fn write_at(&mut self, st: &mut State, i: usize, off: u64, n: u64, w: u32, v: V) -> X<()> {
        let a = &mut self.a;
        let o = match Self::obj_mut(st, i) { Some(o) => o, None => err!("write to freed object") };
        if o.ro { return Err(End::Panic("write to constant memory".into())); }
        if off + n > o.data.len() as u64 { return Err(End::Panic(format!("out-of-bounds write: object size {} offset {} len {}", o.data.len(), off, n))); }
        let off = off as usize;
        let n = n as usize;
        if v.e == 0 {
            let b = v.c.to_le_bytes();
            o.data[off..off + n].copy_from_slice(&b[..n]);
            if let Some(sh) = &mut o.sh { for e in &mut sh[off..off + n] { *e = 0; } }
        } else {
            let full = 8 * n as u32;
            let e = if w < full { a.zext(v.e, full) } else { v.e };
            let len = o.data.len();
            let sh = o.sh.get_or_insert_with(|| vec![0; len]);
            for k in 0..n {
                let b = a.extract(e, 8 * k as u32, 8);
                match a.as_const(b) { Some(c) => { o.data[off + k] = c as u8; sh[off + k] = 0; } None => { sh[off + k] = b; o.data[off + k] = 0; } }
            }
        }
        Ok(())
    }
    fn locate(&self, addr: u64) -> X<(usize, u64)> { match self.find(addr) { Some(x) => Ok(x), None => Err(End::Panic(format!("access to invalid address {:#x}", addr))) } }

    // ------------------------------------------------------------------ solver interface
    fn mk_model(&mut self, v: Vec<u128>) -> Rc<Model> { self.next_model += 1; Rc::new(Model { id: self.next_model, v }) }
    fn ev(&mut self, st: &State, e: E) -> u128 { self.a.eval(e, &st.model) }

    fn touching(&mut self, st: &State, e: E) -> Vec<usize> {
        let d = self.a.deps(e);
        let mut r = vec![];
        for (i, g) in st.groups.iter().enumerate() { if intersects(&g.vars, &d) { r.push(i); } }
        r
    }
    /// Is `extra` satisfiable together with the path condition? Returns a model if so.
    fn feasible(&mut self, st: &State, extra: E) -> X<Option<Rc<Model>>> {
        if let Some(c) = self.a.as_const(extra) { return Ok(if c == 1 { Some(st.model.clone()) } else { None }); }
        let gs = self.touching(st, extra);
        let mut key: Vec<E> = vec![];
        for &g in &gs { key.extend(&st.groups[g].cs); }
        let neg = self.a.not(extra);
        if key.contains(&neg) { return Ok(None); }
        key.push(extra);
        key.sort_unstable();
        key.dedup();
        let hit = self.qcache.get(&key).cloned();
        let r = match hit {
            Some(r) => { self.qhits += 1; r }
            None => {
                // try recent models first (a model that satisfies everything settles the SAT side)
                let mut found = None;
                for m in self.recent.clone().iter().rev().take(6) {
                    if key.iter().all(|c| self.a.eval(*c, m) == 1) { found = Some(m.clone()); break; }
                }
                let r = if let Some(m) = found {
                    let mut vars: Vec<u32> = vec![];
                    for &c in &key { vars.extend(self.a.deps(c).iter()); }
                    vars.sort_unstable(); vars.dedup();
                    Some(Rc::new(vars.iter().map(|v| (*v, m.v.get(*v as usize).copied().unwrap_or(0))).collect::<Vec<_>>()))
                } else {
                    match self.z.check(&mut self.a, &key) {
                        Res::Sat(m) => Some(Rc::new(m)),
                        Res::Unsat => None,
                        Res::Unknown => err!("solver returned unknown/timeout on a query with {} constraints", key.len()),
                    }
                };
                self.qcache.insert(key, r.clone());
                r
            }
        };
        Ok(match r {
            None => None,
            Some(part) => {
                let mut v = st.model.v.clone();
                let need = self.a.var_names.len();
                if v.len() < need { v.resize(need, 0); }
                for (k, x) in part.iter() { v[*k as usize] = *x; }
                let m = self.mk_model(v);
                self.recent.push(m.clone());
                if self.recent.len() > 12 { self.recent.remove(0); }
                Some(m)
            }
        })
    }
    fn add(&mut self, st: &mut State, c: E) {
        if self.a.as_const(c) == Some(1) { return; }
        if let Node::Bin(Op::And, x, y) = self.a.node(c) { if self.a.width(c) == 1 { self.add(st, x); self.add(st, y); return; } }
        let gs = self.touching(st, c);
        if gs.len() == 1 && st.groups[gs[0]].cs.contains(&c) { return; }
        let mut vars: Vec<u32> = self.a.deps(c).to_vec();
        let mut cs = vec![];
        for &g in &gs { vars.extend(&st.groups[g].vars); cs.extend(&st.groups[g].cs); }
        vars.sort_unstable(); vars.dedup();
        cs.push(c);
        for &g in gs.iter().rev() { st.groups.swap_remove(g); }
        st.groups.push(Rc::new(Group { vars, cs }));
        // learn equalities with constants
        match self.a.node(c) {
            Node::Bin(Op::Eq, x, y) => if let Some(k) = self.a.as_const(y) { Rc::make_mut(&mut st.known).insert(x, k); },
            Node::Not(x) => { Rc::make_mut(&mut st.known).insert(x, 0); }
            _ => {}
        }
        if self.a.width(c) == 1 { Rc::make_mut(&mut st.known).insert(c, 1); }
    }
    /// Decide a branch: returns (true side model, false side model)
    fn split(&mut self, st: &State, c: E) -> X<(Option<Rc<Model>>, Option<Rc<Model>>)> {
        if let Some(k) = st.known.get(&c) { return Ok(if *k == 1 { (Some(st.model.clone()), None) } else { (None, Some(st.model.clone())) }); }
        let v = self.ev(st, c);
        if v == 1 {
            let n = self.a.not(c);
            let o = self.feasible(st, n)?;
            Ok((Some(st.model.clone()), o))
        } else {
            let o = self.feasible(st, c)?;
            Ok((o, Some(st.model.clone())))
        }
    }
    fn note_fork(&mut self, st: &State) {
        self.forks += 1;
        if self.profile { let s = self.where_am_i(st, 3); *self.fork_sites.entry(s).or_insert(0) += 1; }
    }
    /// Concretise a value; other feasible values become forked states that retry the current instruction.
    fn conc(&mut self, st: &mut State, v: V) -> X<u128> {
        if v.e == 0 { return Ok(v.c); }
        if let Some(k) = st.known.get(&v.e) { return Ok(*k); }
        let m = self.ev(st, v.e);
        let w = self.a.width(v.e);
        let k = self.a.cst(m, w);
        let eq = self.a.eq(v.e, k);
        let ne = self.a.not(eq);
        if let Some(om) = self.feasible(st, ne)? {
            let mut o = st.clone();
            o.model = om;
            o.forks += 1;
            self.add(&mut o, ne);
            self.note_fork(st);
            self.pending.push(o);
        }
        st.forks += 1;
        self.add(st, eq);
        Rc::make_mut(&mut st.known).insert(v.e, m);
        self.enums += 1;
        Ok(m)
    }
    /// Constrain condition `c` to hold on this path; the complement becomes a retrying fork.
    fn require_or_fork(&mut self, st: &mut State, c: E) -> X<bool> {
        let (t, f) = self.split(st, c)?;
        match (t, f) {
            (Some(_), None) => Ok(true),
            (None, _) => Ok(false),
            (Some(tm), Some(fm)) => {
                let n = self.a.not(c);
                let mut o = st.clone();
                o.model = fm;
                o.forks += 1;
                self.add(&mut o, n);
                self.note_fork(st);
                self.pending.push(o);
                st.model = tm;
                st.forks += 1;
                self.add(st, c);
                Ok(true)
            }
        }
    }

    // ------------------------------------------------------------------ symbolic addresses
    /// Follow unary-like structure down to a narrow core the address is a function of.
    fn core_of(&self, e: E) -> Option<E> {
        let mut x = e;
        let mut best = None;
        loop {
            if self.a.width(x) <= 10 || self.upper(x, 24) < 1024 { best = Some(x); }
            match self.a.node(x) {
                Node::ZExt(y) | Node::SExt(y) | Node::Not(y) => x = y,
                Node::Extract(y, _) => x = y,
                Node::Bin(_, y, z) => {
                    if self.a.as_const(z).is_some() { x = y } else if self.a.as_const(y).is_some() { x = z } else { return best; }
                }
                _ => return best,
            }
        }
    }
    /// An unsigned upper bound, from the shape of the expression alone.
    fn upper(&self, e: E, depth: u32) -> u128 {
        let top = mask(self.a.width(e));
        if depth == 0 { return top; }
        match self.a.node(e) {
            Node::Const(c) => c,
            Node::ZExt(y) => self.upper(y, depth - 1),
            Node::Extract(y, lo) => (self.upper(y, depth - 1) >> lo).min(top),
            Node::Ite(_, x, y) => self.upper(x, depth - 1).max(self.upper(y, depth - 1)),
            Node::Bin(op, y, z) => match (op, self.a.as_const(z)) {
                (Op::URem, Some(c)) if c > 0 => self.upper(y, depth - 1).min(c - 1),
                (Op::UDiv, Some(c)) if c > 0 => self.upper(y, depth - 1) / c,
                (Op::And, Some(c)) => self.upper(y, depth - 1).min(c),
                (Op::LShr, Some(c)) if c < 128 => self.upper(y, depth - 1) >> c,
                _ => top,
            },
            _ => top,
        }
    }
    /// How many low bits of a table index matter.
    fn index_bits(&self, core: E) -> u32 {
        let (w, u) = (self.a.width(core), self.upper(core, 24));
        w.min((128 - u.leading_zeros()).max(1))
    }
    fn subst(&mut self, e: E, core: E, v: u128) -> u128 {
        if e == core { return v; }
        let w = self.a.width(e);
        match self.a.node(e) {
            Node::Const(c) => c,
            Node::ZExt(y) => self.subst(y, core, v),
            Node::SExt(y) => { let wy = self.a.width(y); (sext(self.subst(y, core, v), wy) as u128) & mask(w) }
            Node::Not(y) => !self.subst(y, core, v) & mask(w),
            Node::Extract(y, lo) => (self.subst(y, core, v) >> lo) & mask(w),
            Node::Bin(op, y, z) => { let (a, b) = (self.subst(y, core, v), self.subst(z, core, v)); fold(op, a, b, self.a.width(y), self.a.width(z)) }
            _ => unreachable!(),
        }
    }
    /// Returns Ok(None) when the address got concretised (value known), else the object and the core
    fn sym_addr(&mut self, st: &mut State, e: E, n: u64) -> X<(usize, E)> {
        let m = self.ev(st, e) as u64;
        let (oi, _) = match self.find(m) { Some(x) => x, None => { let c = self.conc(st, V::s(e))?; return Err(End::Panic(format!("access to invalid address {:#x}", c))); } };
        let size = match Self::obj(st, oi) { Some(o) => o.data.len() as u64, None => err!("access to freed object") };
        let base = self.base_of(oi);
        if size < n { return Err(End::Panic("out-of-bounds access".into())); }
        // base <= e <= base+size-n
        let kb = self.a.cst(base as u128, 64);
        let d = self.a.bin(Op::Sub, e, kb);
        let ks = self.a.cst((size - n) as u128, 64);
        let inside = self.a.bin(Op::Ule, d, ks);
        if !self.require_or_fork(st, inside)? { return Err(End::Panic(format!("out-of-bounds access: object size {} base {:#x} address {:#x}", size, base, m))); }
        Ok((oi, d))
    }
    fn load(&mut self, st: &mut State, p: V, off: u32, bytes: u64, w: u32) -> X<V> {
        if p.e == 0 {
            let (i, o) = self.locate((p.c as u64).wrapping_add(off as u64))?;
            return self.read_at(st, i, o, bytes, w);
        }
        if let Some(k) = st.known.get(&p.e) { let (i, o) = self.locate((*k as u64).wrapping_add(off as u64))?; return self.read_at(st, i, o, bytes, w); }
        let k = self.a.cst(off as u128, 64);
        let e = self.a.bin(Op::Add, p.e, k);
        let (oi, d) = match self.a.node(e) {
            Node::Ite(..) => { let c = self.conc(st, p)?; let (i, o) = self.locate((c as u64).wrapping_add(off as u64))?; return self.read_at(st, i, o, bytes, w); }
            _ => self.sym_addr(st, e, bytes)?,
        };
        if let Some(c) = self.a.as_const(d) { return self.read_at(st, oi, c as u64, bytes, w); }
        if let Some(core) = self.core_of(d) {
            let cw = self.index_bits(core);
            let size = Self::obj(st, oi).unwrap().data.len() as u128;
            let mut tbl: Vec<Option<V>> = Vec::with_capacity(1 << cw);
            for v in 0..(1u128 << cw) {
                let o = self.subst(d, core, v);
                tbl.push(if o + bytes as u128 <= size { Some(self.read_at(st, oi, o as u64, bytes, w)?) } else { None });
            }
            let r = self.tree(core, cw, &tbl, w);
            return match r { Some(v) => Ok(v), None => err!("no feasible table entry") };
        }
        let c = self.conc(st, p)?;
        let (i, o) = self.locate((c as u64).wrapping_add(off as u64))?;
        self.read_at(st, i, o, bytes, w)
    }
    fn tree(&mut self, core: E, bits: u32, tbl: &[Option<V>], w: u32) -> Option<V> {
        if bits == 0 { return tbl[0]; }
        let h = tbl.len() / 2;
        let lo = self.tree(core, bits - 1, &tbl[..h], w);
        let hi = self.tree(core, bits - 1, &tbl[h..], w);
        match (lo, hi) {
            (None, x) | (x, None) => x,
            (Some(x), Some(y)) => {
                if x.e == 0 && y.e == 0 && x.c == y.c { return Some(x); }
                let ex = self.ex(x, w);
                let ey = self.ex(y, w);
                if ex == ey { return Some(x); }
                let b = self.a.extract(core, bits - 1, 1);
                let r = self.a.ite(b, ey, ex);
                Some(self.vx(r))
            }
        }
    }
    fn store(&mut self, st: &mut State, p: V, off: u32, bytes: u64, w: u32, v: V) -> X<()> {
        if p.e == 0 {
            let (i, o) = self.locate((p.c as u64).wrapping_add(off as u64))?;
            return self.write_at(st, i, o, bytes, w, v);
        }
        if st.known.get(&p.e).is_none() {
            let k = self.a.cst(off as u128, 64);
            let e = self.a.bin(Op::Add, p.e, k);
            if !matches!(self.a.node(e), Node::Ite(..)) {
                let (oi, d) = self.sym_addr(st, e, bytes)?;
                if let Some(core) = self.core_of(d) {
                    let cw = self.index_bits(core);
                    let low = self.a.extract(core, 0, cw);
                    let size = Self::obj(st, oi).unwrap().data.len() as u128;
                    if (1u128 << cw) * bytes as u128 <= 2048 {
                        let nv = self.ex(v, w);
                        for x in 0..(1u128 << cw) {
                            let o = self.subst(d, core, x);
                            if o + bytes as u128 > size { continue; }
                            let kx = self.a.cst(x, cw);
                            let c = self.a.eq(low, kx);
                            if self.a.as_const(c) == Some(0) { continue; }
                            let old = self.read_at(st, oi, o as u64, bytes, w)?;
                            let oe = self.ex(old, w);
                            let r = self.a.ite(c, nv, oe);
                            let rv = self.vx(r);
                            self.write_at(st, oi, o as u64, bytes, w, rv)?;
                        }
                        return Ok(());
                    }
                }
            }
        }
        let c = self.conc(st, p)?;
        let (i, o) = self.locate((c as u64).wrapping_add(off as u64))?;
        self.write_at(st, i, o, bytes, w, v)
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 { return Ok(()); }
        let (si, so) = self.locate(s)?;
        let (di, dof) = self.locate(d)?;
        let src = match Self::obj(st, si) { Some(o) => o.clone(), None => err!("memcpy from freed object") };
        if so + n > src.data.len() as u64 { return Err(End::Panic(format!("memcpy: out-of-bounds read (size {} off {} len {})", src.data.len(), so, n))); }
        let (so, n, dof) = (so as usize, n as usize, dof as usize);
        let dst = match Self::obj_mut(st, di) { Some(o) => o, None => err!("memcpy to freed object") };
        if dst.ro { return Err(End::Panic("memcpy to constant memory".into())); }
        if dof + n > dst.data.len() { return Err(End::Panic(format!("memcpy: out-of-bounds write (size {} off {} len {})", dst.data.len(), dof, n))); }
        if si == di {
            drop(src);
            let dst = Self::obj_mut(st, di).unwrap();
            dst.data.copy_within(so..so + n, dof);
            if let Some(sh) = &mut dst.sh { sh.copy_within(so..so + n, dof); }
            return Ok(());
        }
        dst.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
        match (&src.sh, &mut dst.sh) {
            (None, None) => {}
            (None, Some(sh)) => for e in &mut sh[dof..dof + n] { *e = 0; },
            (Some(ss), _) => {
                if dst.sh.is_some() || ss[so..so + n].iter().any(|e| *e != 0) {
                    let len = dst.data.len();
                    let sh = dst.sh.get_or_insert_with(|| vec![0; len]);
                    sh[dof..dof + n].copy_from_slice(&ss[so..so + n]);
                }
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------------ diagnostics
    pub fn where_am_i(&mut self, st: &State, depth: usize) -> String {
        let mut out = vec![];
        for fr in st.frames.iter().rev() {
            let bl = &fr.f.blocks[fr.blk as usize];
            let d = bl.dbg.get(fr.pc as usize).copied().unwrap_or(0);
            if d != 0 {
                for (f, l) in self.p.loc(d).iter() { out.push(format!("{}:{}", f, l)); }
            } else { out.push(fr.f.name.clone()); }
        }
        // prefer frames in the repository
        let repo: Vec<String> = out.iter().filter(|s| s.starts_with("/repo/")).take(depth).cloned().collect();
        let mut r: Vec<String> = out.iter().take(depth).cloned().collect();
        for x in repo { if !r.contains(&x) { r.push(x); } }
        r.join(" < ")
    }
    fn input_values(&mut self, st: &State, m: &Model) -> Vec<u128> { let ins = st.inputs.clone(); ins.iter().map(|(e, _)| self.a.eval(*e, m)).collect() }

    fn report(&mut self, st: &State, m: &Rc<Model>, id: u32, kind: &str, msg: &str) {
        let stack = self.where_am_i(st, 6);
        let sig = format!("{} {} {}", kind, id, if kind == "check" { String::new() } else { stack.clone() });
        if !self.vseen.insert(sig) { return; }
        let inputs = self.input_values(st, m);
        // once there is something to report, the rest of the exploration may be cut short
        let now = self.t0.elapsed().as_secs_f64();
        if self.lim.stop_after >= 0.0 && self.violations.is_empty() { self.stop_at = now + self.lim.stop_after; }
        self.violations.push(Violation { id, kind: kind.into(), msg: msg.into(), inputs, stack });
    }

    // ------------------------------------------------------------------ main loop
    pub fn explore(&mut self, entry: &str) {
        let id = match self.p.fn_index.get(entry) { Some(i) => *i, None => { self.errors.push(format!("no entry {}", entry)); return; } };
        let m = self.mk_model(vec![]);
        let mut st = State { frames: vec![], mem: self.base_mem.clone(), free: vec![], groups: vec![], known: Rc::new(HashMap::new()), model: m, inputs: vec![], nth: HashMap::new(), obs: vec![], checks: vec![], forks: 0, steps: 0, other: None, parked: None, switches: 0, waits: 0 };
        let f = match self.p.func(id) { Some(f) => f, None => { self.errors.push("entry has no body".into()); return; } };
        self.enter(&mut st, f, &[]);
        self.pending.push(st);
        self.t0 = std::time::Instant::now();
        while let Some(mut st) = self.pending.pop() {
            if self.t0.elapsed().as_secs_f64() > self.stop_at { return; }
            if self.t0.elapsed().as_secs_f64() > self.lim.max_time { self.errors.push(format!("time limit reached with {} states pending", self.pending.len() + 1)); return; }
            if self.paths + self.discarded >= self.lim.max_paths { self.errors.push(format!("path limit reached with {} states pending", self.pending.len() + 1)); return; }
            let before = st.steps;
            let end = loop { match self.run(&mut st) { Ok(()) => {} Err(e) => break e } };
            self.steps += st.steps - before;
            match end {
                End::Return => { self.paths += 1; self.record(&st, "ok"); }
                End::Panic(msg) => {
                    self.paths += 1;
                    if self.panics_ok { self.record(&st, "panic"); } else {
                        let m = st.model.clone();
                        self.report(&st, &m, 0, "panic", &msg);
                    }
                }
                End::Discard => { self.discarded += 1; }
                End::Error(msg) => {
                    let w = self.where_am_i(&st, 12);
                    self.errors.push(format!("{} at {}", msg, w));
                    if self.errors.len() >= 5 { return; }
                }
            }
        }
    }
    fn record(&mut self, st: &State, outcome: &str) {
        if self.cases.len() < self.case_cap {
            let m = st.model.clone();
            let inputs = self.input_values(st, &m);
            let obs = st.obs.clone().iter().map(|(t, v)| (*t, if v.e == 0 { v.c } else { self.a.eval(v.e, &m) })).collect();
            self.cases.push(Case { outcome: outcome.into(), inputs, obs });
        }
    }
    fn enter(&mut self, st: &mut State, f: Rc<Func>, args: &[V]) {
        let mut regs = f.template.clone();
        for (i, p) in f.params.iter().enumerate() { if let Some(a) = args.get(i) { regs[*p as usize] = *a; } }
        let base = if f.frame_size > 0 { self.alloc(st, f.frame_size as u64) } else { 0 };
        self.seen_fn.insert(f.id);
        st.frames.push(Rc::new(Frame { f, regs, blk: 0, pc: 0, base }));
    }

    #[inline]
    fn take_edge(&mut self, fr: &mut Frame, e: &Edge) {
        if e.moves.len() == 1 { let (d, s) = e.moves[0]; fr.regs[d as usize] = fr.regs[s as usize]; }
        else if !e.moves.is_empty() {
            self.merge_tmp.clear();
            for (_, s) in e.moves.iter() { self.merge_tmp.push(fr.regs[*s as usize]); }
            for (i, (d, _)) in e.moves.iter().enumerate() { fr.regs[*d as usize] = self.merge_tmp[i]; }
        }
        fr.blk = e.target;
        fr.pc = 0;
    }

    /// Executes until a call/return/fork changes the frame stack (or the path ends).
    fn run(&mut self, st: &mut State) -> X<()> {
        let top = st.frames.len() - 1;
        let f: *const Func = &*st.frames[top].f;
        // SAFETY: the function is kept alive by the program cache for the whole run
        let f: &Func = unsafe { &*f };
        loop {
            st.steps += 1;
            if st.steps & 0xfffff == 0 {
                if st.steps > self.lim.path_steps { err!("per-path step limit"); }
                if self.t0.elapsed().as_secs_f64() > self.lim.max_time { err!("time limit"); }
            }
            macro_rules! fr { () => { Rc::make_mut(&mut st.frames[top]) } }
            let fr = fr!();
            let bl = &f.blocks[fr.blk as usize];
            let pc = fr.pc as usize;
            let inst = &bl.insts[pc];
            let dbg = bl.dbg[pc];
            if dbg != 0 { self.seen_dbg.insert(dbg); }
            macro_rules! reg { ($r:expr) => { fr.regs[$r as usize] } }
            match inst {
                Inst::Bin { op, w, d, a, b } => {
                    let (x, y) = (reg!(*a), reg!(*b));
                    let w = *w as u32;
                    if x.e == 0 && y.e == 0 {
                        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && y.c == 0 { return Err(End::Panic("division by zero".into())); }
                        fr.regs[*d as usize] = V::k(fold(*op, x.c, y.c, w, w));
                    } else {
                        let (ex, ey) = (self.ex(x, w), self.ex(y, w));
                        let r = self.a.bin(*op, ex, ey);
                        fr.regs[*d as usize] = self.vx(r);
                    }
                }
                Inst::Icmp { p, w, d, a, b } => {
                    let (x, y) = (reg!(*a), reg!(*b));
                    let w = *w as u32;
                    if x.e == 0 && y.e == 0 {
                        let r = match p {
                            Pred::Eq => x.c == y.c, Pred::Ne => x.c != y.c, Pred::Ult => x.c < y.c, Pred::Ule => x.c <= y.c, Pred::Ugt => x.c > y.c, Pred::Uge => x.c >= y.c,
                            Pred::Slt => sext(x.c, w) < sext(y.c, w), Pred::Sle => sext(x.c, w) <= sext(y.c, w), Pred::Sgt => sext(x.c, w) > sext(y.c, w), Pred::Sge => sext(x.c, w) >= sext(y.c, w),
                        };
                        fr.regs[*d as usize] = V::k(r as u128);
                    } else {
                        let (ex, ey) = (self.ex(x, w), self.ex(y, w));
                        let a = &mut self.a;
                        let r = match p {
                            Pred::Eq => a.eq(ex, ey), Pred::Ne => { let t = a.eq(ex, ey); a.not(t) }
                            Pred::Ult => a.bin(Op::Ult, ex, ey), Pred::Ule => a.bin(Op::Ule, ex, ey), Pred::Ugt => a.bin(Op::Ult, ey, ex), Pred::Uge => a.bin(Op::Ule, ey, ex),
                            Pred::Slt => a.bin(Op::Slt, ex, ey), Pred::Sle => a.bin(Op::Sle, ex, ey), Pred::Sgt => a.bin(Op::Slt, ey, ex), Pred::Sge => a.bin(Op::Sle, ey, ex),
                        };
                        fr.regs[*d as usize] = match st.known.get(&r) { Some(k) => V::k(*k), None => self.vx(r) };
                    }
                }
                Inst::Cast { k, wf, wt, d, a } => {
                    let x = reg!(*a);
                    let (wf, wt) = (*wf as u32, *wt as u32);
                    fr.regs[*d as usize] = if x.e == 0 {
                        match k { CastK::ZExt => x, CastK::SExt => V::k(sext(x.c, wf) as u128 & mask(wt)), CastK::Trunc => V::k(x.c & mask(wt)) }
                    } else {
                        let r = match k { CastK::ZExt => self.a.zext(x.e, wt), CastK::SExt => self.a.sext_e(x.e, wt), CastK::Trunc => self.a.extract(x.e, 0, wt) };
                        self.vx(r)
                    };
                }
                Inst::Mov { d, a } => { fr.regs[*d as usize] = reg!(*a); }
                Inst::Select { w, d, c, a, b } => {
                    let cv = reg!(*c);
                    if cv.e == 0 { fr.regs[*d as usize] = if cv.c == 1 { reg!(*a) } else { reg!(*b) }; }
                    else if let Some(k) = st.known.get(&cv.e) { fr.regs[*d as usize] = if *k == 1 { reg!(*a) } else { reg!(*b) }; }
                    else {
                        let (x, y) = (reg!(*a), reg!(*b));
                        let (ex, ey) = (self.ex(x, *w as u32), self.ex(y, *w as u32));
                        let r = self.a.ite(cv.e, ex, ey);
                        fr.regs[*d as usize] = self.vx(r);
                    }
                }
                Inst::Gep { d, base, off, idx } => {
                    let b = reg!(*base);
                    let mut k = (b.c as u64).wrapping_add(*off as u64);
                    let mut sym: Vec<E> = vec![];
                    if b.e != 0 { sym.push(b.e); k = *off as u64; }
                    for (r, sc, w) in idx.iter() {
                        let v = reg!(*r);
                        if v.e == 0 { k = k.wrapping_add((sext(v.c, *w as u32) as i64).wrapping_mul(*sc) as u64); }
                        else {
                            let e = if (*w as u32) < 64 { self.a.sext_e(v.e, 64) } else { v.e };
                            let s = self.a.cst(*sc as u128, 64);
                            let e = self.a.bin(Op::Mul, e, s);
                            sym.push(e);
                        }
                    }
                    if sym.is_empty() { fr.regs[*d as usize] = V::k(k as u128); }
                    else {
                        let mut e = sym[0];
                        for x in &sym[1..] { e = self.a.bin(Op::Add, e, *x); }
                        let kk = self.a.cst(k as u128, 64);
                        e = self.a.bin(Op::Add, e, kk);
                        fr.regs[*d as usize] = self.vx(e);
                    }
                }
                Inst::FrameAddr { d, off } => { let v = V::k((fr.base + *off as u64) as u128); fr.regs[*d as usize] = v; }
                Inst::Load { d, p, off, w, bytes } => {
                    let pv = reg!(*p);
                    let v = self.load(st, pv, *off, *bytes as u64, *w as u32)?;
                    fr!().regs[*d as usize] = v;
                }
                Inst::Store { v, p, off, w, bytes } => {
                    let (pv, vv) = (reg!(*p), reg!(*v));
                    self.store(st, pv, *off, *bytes as u64, *w as u32, vv)?;
                }
                Inst::Call(c) => {
                    let fid = match &c.callee {
                        Callee::Direct(f) => *f,
                        Callee::Indirect(r) => {
                            let pv = reg!(*r);
                            let a = self.conc(st, pv)? as u64;
                            match self.p.fn_at(a) { Some(f) => f, None => return Err(End::Panic(format!("call to invalid address {:#x}", a))) }
                        }
                    };
                    let args: Vec<V> = { let fr = &st.frames[top]; c.args.iter().map(|r| fr.regs[*r as usize]).collect() };
                    if let Some(b) = self.bi.get(&fid).copied() {
                        if b == Bi::Race {
                            // (function, argument) twice, and the number of interruptions
                            let fr = fr!();
                            if let Some(e) = &c.normal { self.take_edge(fr, e); } else { fr.pc += 1; }
                            if st.parked.is_some() { err!("threads within threads"); }
                            st.parked = Some(std::mem::take(&mut st.frames));
                            let mut stacks = vec![];
                            for k in [0, 2] {
                                let a = self.conc(st, args[k])? as u64;
                                let g = match self.p.fn_at(a).and_then(|f| self.p.func(f)) { Some(g) => g, None => err!("thread function") };
                                self.enter(st, g, &args[k + 1..k + 2]);
                                stacks.push(std::mem::take(&mut st.frames));
                            }
                            st.other = stacks.pop();
                            st.frames = stacks.pop().unwrap();
                            st.switches = self.conc(st, args[4])? as u32;
                            st.waits = 0;
                            return Ok(());
                        }
                        if b == Bi::Syscall && args[0].e == 0 && args[0].c == 202 {
                            // futex: waiting lets the other thread run
                            let op = self.conc(st, args[2])? & 127;
                            let fr = fr!();
                            if c.nret > 0 { fr.regs[c.dst as usize] = V::k(0); }
                            if let Some(e) = &c.normal { self.take_edge(fr, e); } else { fr.pc += 1; }
                            if op == 0 || op == 9 {
                                let now = self.load(st, args[1], 0, 4, 32)?;
                                if self.conc(st, now)? == self.conc(st, args[3])? & 0xffff_ffff { self.give_way(st, true)?; return Ok(()); }
                            }
                            continue;
                        }
                        let r = self.builtin(st, b, &args, fid)?;
                        let fr = fr!();
                        if c.nret > 0 { if let Some(v) = r { fr.regs[c.dst as usize] = v; } }
                        if let Some(e) = &c.normal { self.take_edge(fr, e); } else { fr.pc += 1; }
                        continue;
                    }
                    let g = match self.p.func(fid) { Some(g) => g, None => err!("call to unmodelled external function {}", self.p.fns[fid as usize].name) };
                    if st.frames.len() > 4000 { return Err(End::Panic("stack overflow (recursion deeper than 4000 frames)".into())); }
                    self.enter(st, g, &args);
                    return Ok(());
                }
                Inst::Ret { src } => {
                    let vals: Vec<V> = src.iter().map(|r| reg!(*r)).collect();
                    let base = fr.base;
                    if base != 0 { self.free(st, base)?; }
                    st.frames.pop();
                    if st.frames.is_empty() {
                        match st.other.take().or_else(|| st.parked.take()) { Some(s) => { st.frames = s; return Ok(()); } None => return Err(End::Return) }
                    }
                    let t = st.frames.len() - 1;
                    let cf: *const Func = &*st.frames[t].f;
                    let cf: &Func = unsafe { &*cf };
                    let fr = Rc::make_mut(&mut st.frames[t]);
                    let Inst::Call(c) = &cf.blocks[fr.blk as usize].insts[fr.pc as usize] else { panic!() };
                    for i in 0..c.nret { fr.regs[(c.dst + i) as usize] = vals[i as usize]; }
                    if let Some(e) = &c.normal { self.take_edge(fr, e); } else { fr.pc += 1; }
                    return Ok(());
                }
                Inst::Br(e) => { self.take_edge(fr, e); continue; }
                Inst::CondBr { c, t, f: fe } => {
                    let cv = reg!(*c);
                    if cv.e == 0 { self.take_edge(fr, if cv.c == 1 { t } else { fe }); continue; }
                    let (tm, fm) = self.split(st, cv.e)?;
                    match (tm, fm) {
                        (Some(tm), Some(fm)) => {
                            let mut o = st.clone();
                            let n = self.a.not(cv.e);
                            o.model = fm;
                            o.forks += 1;
                            self.add(&mut o, n);
                            self.note_fork(st);
                            let ot = Rc::make_mut(&mut o.frames[top]);
                            self.take_edge(ot, fe);
                            self.pending.push(o);
                            st.model = tm;
                            st.forks += 1;
                            self.add(st, cv.e);
                            self.take_edge(fr!(), t);
                        }
                        (Some(_), None) => { Rc::make_mut(&mut st.known).insert(cv.e, 1); self.take_edge(fr!(), t) }
                        (None, Some(_)) => { Rc::make_mut(&mut st.known).insert(cv.e, 0); self.take_edge(fr!(), fe) }
                        (None, None) => err!("infeasible state"),
                    }
                    continue;
                }
                Inst::Switch { v, w, cases, edges } => {
                    let x = reg!(*v);
                    let x = if x.e != 0 { match st.known.get(&x.e) { Some(k) => V::k(*k), None => x } } else { x };
                    if x.e == 0 {
                        let e = cases.iter().find(|c| c.0 == x.c).map(|c| c.1).unwrap_or(0);
                        self.take_edge(fr, &edges[e as usize]);
                        continue;
                    }
                    // one condition per distinct target edge
                    let w = *w as u32;
                    let mut conds: Vec<E> = vec![0; edges.len()];
                    let mut any = self.a.cst(0, 1);
                    for (k, e) in cases.iter() {
                        let kk = self.a.cst(*k, w);
                        let c = self.a.eq(x.e, kk);
                        any = self.a.or(any, c);
                        let cur = conds[*e as usize];
                        conds[*e as usize] = if cur == 0 { c } else { self.a.or(cur, c) };
                    }
                    let dflt = self.a.not(any);
                    conds[0] = if conds[0] == 0 { dflt } else { self.a.or(conds[0], dflt) };
                    let mut taken: Option<usize> = None;
                    for i in 0..edges.len() {
                        if conds[i] == 0 { continue; }
                        if self.ev(st, conds[i]) == 1 { taken = Some(i); }
                    }
                    let taken = match taken { Some(t) => t, None => err!("switch: no case under model") };
                    for i in 0..edges.len() {
                        if i == taken || conds[i] == 0 { continue; }
                        if let Some(m) = self.feasible(st, conds[i])? {
                            let mut o = st.clone();
                            o.model = m;
                            o.forks += 1;
                            self.add(&mut o, conds[i]);
                            self.note_fork(st);
                            let ot = Rc::make_mut(&mut o.frames[top]);
                            self.take_edge(ot, &edges[i]);
                            self.pending.push(o);
                        }
                    }
                    st.forks += 1;
                    self.add(st, conds[taken]);
                    self.take_edge(fr!(), &edges[taken]);
                    continue;
                }
                Inst::MemCpy { d, s, n } => {
                    let (dv, sv, nv) = (reg!(*d), reg!(*s), reg!(*n));
                    let n = self.conc(st, nv)? as u64;
                    if n > 0 {
                        let dd = self.conc(st, dv)? as u64;
                        let ss = self.conc(st, sv)? as u64;
                        self.memcpy(st, dd, ss, n)?;
                    }
                }
                Inst::MemSet { d, v, n } => {
                    let (dv, vv, nv) = (reg!(*d), reg!(*v), reg!(*n));
                    self.memset(st, dv, vv, nv)?;
                }
                Inst::Intr { k, w, d, a, wr } => {
                    let vals = [reg!(a[0]), fr.regs.get(a[1] as usize).copied().unwrap_or(V::k(0)), fr.regs.get(a[2] as usize).copied().unwrap_or(V::k(0))];
                    let r = self.intrinsic(*k, *w as u32, *wr as u32, vals)?;
                    let fr = fr!();
                    fr.regs[*d as usize] = r.0;
                    if let Some(o) = r.1 { fr.regs[*d as usize + 1] = o; }
                }
                Inst::Assume { c } => {
                    // compiler-generated facts: they hold in any execution without undefined behaviour
                    let cv = reg!(*c);
                    if cv.e == 0 && cv.c == 0 { return Err(End::Panic("compiler assumption violated (undefined behaviour)".into())); }
                }
                Inst::LoadRel { d, base, off } => {
                    let (b, o) = (reg!(*base), reg!(*off));
                    let b = self.conc(st, b)? as u64;
                    let o = self.conc(st, o)? as u64;
                    let v = self.load(st, V::k(b.wrapping_add(o) as u128), 0, 4, 32)?;
                    let rel = sext(self.conc(st, v)?, 32) as i64;
                    fr!().regs[*d as usize] = V::k(b.wrapping_add(rel as u64) as u128);
                }
                Inst::Pack { d, src, n, w } => {
                    let (n, w) = (*n, *w as u32);
                    if (0..n).all(|i| reg!(src + i).e == 0) {
                        let mut c = 0u128;
                        for i in (0..n).rev() { c = (c << w) | reg!(src + i).c; }
                        fr.regs[*d as usize] = V::k(c);
                    } else {
                        let mut e = { let v = reg!(src + n - 1); self.ex(v, w) };
                        for i in (0..n - 1).rev() { let v = reg!(src + i); let x = self.ex(v, w); e = self.a.bin(Op::Concat, e, x); }
                        fr.regs[*d as usize] = self.vx(e);
                    }
                }
                Inst::Unpack { d, src, n, w } => {
                    let v = reg!(*src);
                    for i in 0..*n {
                        let x = if v.e == 0 { V::k((v.c >> (i * *w as u32)) & mask(*w as u32)) } else { let e = self.a.extract(v.e, i * *w as u32, *w as u32); self.vx(e) };
                        fr.regs[(*d + i) as usize] = x;
                    }
                }
                Inst::AtomicRmw { op, w, d, p, v } => {
                    let (pv, vv) = (reg!(*p), reg!(*v));
                    let w = *w as u32;
                    let bytes = ((w + 7) / 8) as u64;
                    let old = self.load(st, pv, 0, bytes, w)?;
                    let new = if *op == 0 { vv } else {
                        let (x, y) = (self.ex(old, w), self.ex(vv, w));
                        let r = match op { 1 => self.a.bin(Op::Add, x, y), 2 => self.a.bin(Op::Sub, x, y), 3 => self.a.bin(Op::And, x, y), 4 => self.a.bin(Op::Or, x, y), 5 => self.a.bin(Op::Xor, x, y), 6 => { let c = self.a.bin(Op::Ult, x, y); self.a.ite(c, y, x) } _ => { let c = self.a.bin(Op::Ult, x, y); self.a.ite(c, x, y) } };
                        self.vx(r)
                    };
                    self.store(st, pv, 0, bytes, w, new)?;
                    fr!().regs[*d as usize] = old;
                }
                Inst::CmpXchg { w, d, p, c, n } => {
                    let (pv, cv, nv) = (reg!(*p), reg!(*c), reg!(*n));
                    let w = *w as u32;
                    let bytes = ((w + 7) / 8) as u64;
                    let old = self.load(st, pv, 0, bytes, w)?;
                    let o = self.conc(st, old)?;
                    let cc = self.conc(st, cv)?;
                    if o == cc { self.store(st, pv, 0, bytes, w, nv)?; }
                    let fr = fr!();
                    fr.regs[*d as usize] = old;
                    fr.regs[*d as usize + 1] = V::k((o == cc) as u128);
                }
                Inst::Sync { p, load } => {
                    if st.other.is_some() && st.switches > 0 {
                        let pv = reg!(*p);
                        // reads of statics are of the runtime's panic count
                        if !*load || pv.e != 0 || pv.c >= 1 << 32 {
                            fr.pc += 1;
                            let mut o = st.clone();
                            o.switches -= 1;
                            o.forks += 1;
                            let f = o.other.take().unwrap();
                            o.other = Some(std::mem::replace(&mut o.frames, f));
                            self.note_fork(st);
                            self.pending.push(o);
                            continue;
                        }
                    }
                }
                Inst::Yield => if st.other.is_some() {
                    fr.pc += 1;
                    self.give_way(st, false)?;
                    return Ok(());
                }
                Inst::Float { op, w, wt, d, a, b } => {
                    let (x, y) = (reg!(*a), reg!(*b));
                    let x = self.conc(st, x)?;
                    let y = self.conc(st, y)?;
                    fr!().regs[*d as usize] = V::k(float(*op, *w, *wt, x, y));
                }
                Inst::Unreachable => return Err(End::Panic("reached unreachable code".into())),
                Inst::Unsupported(s) => err!("unsupported instruction: {}", s),
                Inst::Nop => {}
            }
            fr!().pc += 1;
        }
    }

    /// The running thread cannot go on: the other one does.
    fn give_way(&mut self, st: &mut State, must: bool) -> X<()> {
        st.waits += 1;
        if st.waits > 2000 { return Err(End::Panic("deadlock: both threads wait".into())); }
        match st.other.take() {
            Some(f) => { st.other = Some(std::mem::replace(&mut st.frames, f)); Ok(()) }
            None if must => Err(End::Panic("deadlock: waits for a lock that nothing releases".into())),
            None => Ok(()),
        }
    }
    fn memset(&mut self, st: &mut State, dv: V, vv: V, nv: V) -> X<()> {
        let n = self.conc(st, nv)? as u64;
        if n == 0 { return Ok(()); }
        let d = self.conc(st, dv)? as u64;
        let (i, off) = self.locate(d)?;
        if vv.e == 0 {
            let o = match Self::obj_mut(st, i) { Some(o) => o, None => err!("memset freed") };
            if o.ro || off + n > o.data.len() as u64 { return Err(End::Panic("out-of-bounds memset".into())); }
            let (s, e) = (off as usize, (off + n) as usize);
            for b in &mut o.data[s..e] { *b = vv.c as u8; }
            if let Some(sh) = &mut o.sh { for x in &mut sh[s..e] { *x = 0; } }
        } else { for k in 0..n { self.write_at(st, i, off + k, 1, 8, vv)?; } }
        Ok(())
    }

    fn intrinsic(&mut self, k: Intr, w: u32, wr: u32, v: [V; 3]) -> X<(V, Option<V>)> {
        let conc = v[0].e == 0 && v[1].e == 0 && v[2].e == 0;
        let x = self.ex(v[0], w);
        let two = !matches!(k, Intr::BSwap | Intr::BitReverse | Intr::Ctlz | Intr::Cttz | Intr::Ctpop | Intr::Abs);
        let y = if two { self.ex(v[1], w) } else { x };
        let _ = conc;
        let a = &mut self.a;
        let r: (E, Option<E>) = match k {
            Intr::UMax => { let c = a.bin(Op::Ult, x, y); (a.ite(c, y, x), None) }
            Intr::UMin => { let c = a.bin(Op::Ult, x, y); (a.ite(c, x, y), None) }
            Intr::SMax => { let c = a.bin(Op::Slt, x, y); (a.ite(c, y, x), None) }
            Intr::SMin => { let c = a.bin(Op::Slt, x, y); (a.ite(c, x, y), None) }
            Intr::USubSat => { let c = a.bin(Op::Ult, x, y); let s = a.bin(Op::Sub, x, y); let z = a.cst(0, w); (a.ite(c, z, s), None) }
            Intr::UAddSat => { let s = a.bin(Op::Add, x, y); let c = a.bin(Op::Ult, s, x); let m = a.cst(mask(w), w); (a.ite(c, m, s), None) }
            Intr::UAddO => { let s = a.bin(Op::Add, x, y); let c = a.bin(Op::Ult, s, x); (s, Some(c)) }
            Intr::USubO => { let s = a.bin(Op::Sub, x, y); let c = a.bin(Op::Ult, x, y); (s, Some(c)) }
            Intr::UMulO => {
                if w > 64 { if conc { let r = v[0].c.checked_mul(v[1].c); let s = a.cst(v[0].c.wrapping_mul(v[1].c), w); let c = a.cst((r.is_none() || r.unwrap() > mask(w)) as u128, 1); (s, Some(c)) } else { err!("umulo w>64") } }
                else {
                    let (x2, y2) = (a.zext(x, 2 * w), a.zext(y, 2 * w));
                    let m = a.bin(Op::Mul, x2, y2);
                    let hi = a.extract(m, w, w);
                    let z = a.cst(0, w);
                    let e = a.eq(hi, z);
                    let s = a.extract(m, 0, w);
                    (s, Some(a.not(e)))
                }
            }
            Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                if 2 * w > 128 { err!("signed overflow op w={}", w) }
                let (x2, y2) = (a.sext_e(x, 2 * w), a.sext_e(y, 2 * w));
                let m = a.bin(match k { Intr::SAddO => Op::Add, Intr::SSubO => Op::Sub, _ => Op::Mul }, x2, y2);
                let s = a.extract(m, 0, w);
                let s2 = a.sext_e(s, 2 * w);
                let e = a.eq(s2, m);
                (s, Some(a.not(e)))
            }
            Intr::SAddSat | Intr::SSubSat => {
                let (x2, y2) = (a.sext_e(x, 2 * w), a.sext_e(y, 2 * w));
                let m = a.bin(if k == Intr::SAddSat { Op::Add } else { Op::Sub }, x2, y2);
                let s = a.extract(m, 0, w);
                let s2 = a.sext_e(s, 2 * w);
                let ok = a.eq(s2, m);
                let neg = a.extract(m, 2 * w - 1, 1);
                let mn = a.cst(1u128 << (w - 1), w);
                let mx = a.cst(mask(w) >> 1, w);
                let sat = a.ite(neg, mn, mx);
                (a.ite(ok, s, sat), None)
            }
            Intr::BSwap => {
                let mut r = a.extract(x, 0, 8);
                for i in 1..w / 8 { let b = a.extract(x, 8 * i, 8); r = a.bin(Op::Concat, r, b); }
                (r, None)
            }
            Intr::BitReverse => {
                let mut r = a.extract(x, 0, 1);
                for i in 1..w { let b = a.extract(x, i, 1); r = a.bin(Op::Concat, r, b); }
                (r, None)
            }
            Intr::Ctlz => {
                let mut r = a.cst(w as u128, w);
                for i in 0..w { let b = a.extract(x, i, 1); let kx = a.cst((w - 1 - i) as u128, w); r = a.ite(b, kx, r); }
                (r, None)
            }
            Intr::Cttz => {
                let mut r = a.cst(w as u128, w);
                for i in (0..w).rev() { let b = a.extract(x, i, 1); let kx = a.cst(i as u128, w); r = a.ite(b, kx, r); }
                (r, None)
            }
            Intr::Ctpop => {
                let mut r = a.cst(0, w);
                for i in 0..w { let b = a.extract(x, i, 1); let z = if w > 1 { a.zext(b, w) } else { b }; r = a.bin(Op::Add, r, z); }
                (r, None)
            }
            Intr::FShl | Intr::FShr => {
                if v[2].e != 0 { err!("fshl by symbolic amount") }
                let s = (v[2].c % w as u128) as u32;
                if s == 0 { (if k == Intr::FShl { x } else { y }, None) }
                else {
                    let s = if k == Intr::FShl { s } else { w - s };
                    // high w bits of (x:y) << s
                    let hi = a.extract(x, 0, w - s);
                    let lo = a.extract(y, w - s, s);
                    (a.bin(Op::Concat, hi, lo), None)
                }
            }
            Intr::Abs => { let z = a.cst(0, w); let n = a.bin(Op::Sub, z, x); let c = a.bin(Op::Slt, x, z); (a.ite(c, n, x), None) }
            Intr::UCmp | Intr::SCmp => {
                let c = a.bin(if k == Intr::UCmp { Op::Ult } else { Op::Slt }, x, y);
                let e = a.eq(x, y);
                let (m1, z, p1) = (a.cst(mask(wr), wr), a.cst(0, wr), a.cst(1, wr));
                let t = a.ite(e, z, p1);
                (a.ite(c, m1, t), None)
            }
        };
        let v0 = self.vx(r.0);
        let v1 = r.1.map(|e| self.vx(e));
        Ok((v0, v1))
    }

    fn fresh_var(&mut self, st: &mut State, bits: u8) -> E {
        let n = st.nth.entry(bits).or_insert(0);
        let k = *n;
        *n += 1;
        let e = match self.vars.get(&(bits, k)) { Some(e) => *e, None => { let e = self.a.var(&format!("in{}_{}", bits, k), bits as u32); self.vars.insert((bits, k), e); e } };
        st.inputs.push((e, bits));
        e
    }

    fn cmp_bytes(&mut self, st: &mut State, args: &[V], bcmp: bool) -> X<V> {
        let n = self.conc(st, args[2])? as u64;
        if n == 0 { return Ok(V::k(0)); }
        let pa = self.conc(st, args[0])? as u64;
        let pb = self.conc(st, args[1])? as u64;
        let (ia, oa) = self.locate(pa)?;
        let (ib, ob) = self.locate(pb)?;
        let mut xs = vec![];
        let mut allc = true;
        for k in 0..n {
            let x = self.read_at(st, ia, oa + k, 1, 8)?;
            let y = self.read_at(st, ib, ob + k, 1, 8)?;
            if x.e != 0 || y.e != 0 { allc = false; }
            xs.push((x, y));
        }
        if allc {
            for (x, y) in xs { if x.c != y.c { return Ok(V::k(if x.c < y.c { 0xffff_ffff } else { 1 })); } }
            return Ok(V::k(0));
        }
        if bcmp {
            let mut all = self.a.cst(1, 1);
            for (x, y) in xs {
                if x.e == 0 && y.e == 0 { if x.c != y.c { return Ok(V::k(1)); } else { continue; } }
                let (ex, ey) = (self.ex(x, 8), self.ex(y, 8));
                let e = self.a.eq(ex, ey);
                all = self.a.and(all, e);
            }
            let (z, o) = (self.a.cst(0, 32), self.a.cst(1, 32));
            let r = self.a.ite(all, z, o);
            return Ok(self.vx(r));
        }
        let mut r = self.a.cst(0, 32);
        let (m1, p1) = (self.a.cst(0xffff_ffff, 32), self.a.cst(1, 32));
        for (x, y) in xs.into_iter().rev() {
            let (ex, ey) = (self.ex(x, 8), self.ex(y, 8));
            let e = self.a.eq(ex, ey);
            let l = self.a.bin(Op::Ult, ex, ey);
            let t = self.a.ite(l, m1, p1);
            r = self.a.ite(e, r, t);
        }
        Ok(self.vx(r))
    }

    fn builtin(&mut self, st: &mut State, b: Bi, args: &[V], fid: u32) -> X<Option<V>> {
        macro_rules! c { ($i:expr) => { self.conc(st, args[$i])? as u64 } }
        const MAXA: u64 = 1 << 28;
        Ok(match b {
            Bi::Malloc => { let n = c!(0); if n > MAXA { return Err(End::Panic(format!("allocation of {} bytes", n))); } Some(V::k(self.alloc(st, n) as u128)) }
            Bi::Calloc => { let n = c!(0) * c!(1); if n > MAXA { return Err(End::Panic("huge allocation".into())); } Some(V::k(self.alloc(st, n) as u128)) }
            Bi::AlignedAlloc => { let n = c!(1); Some(V::k(self.alloc(st, n) as u128)) }
            Bi::Memalign => { let p = c!(0); let n = c!(2); let a = self.alloc(st, n); self.store(st, V::k(p as u128), 0, 8, 64, V::k(a as u128))?; Some(V::k(0)) }
            Bi::Realloc => {
                let p = c!(0);
                let n = c!(1);
                if n > MAXA { return Err(End::Panic("huge allocation".into())); }
                if p == 0 { return Ok(Some(V::k(self.alloc(st, n) as u128))); }
                let (i, off) = self.locate(p)?;
                if off != 0 { return Err(End::Panic("realloc of interior pointer".into())); }
                let old = match Self::obj(st, i) { Some(o) => o.data.len() as u64, None => return Err(End::Panic("realloc of freed object".into())) };
                let q = self.alloc(st, n);
                self.memcpy(st, q, p, old.min(n))?;
                self.free(st, p)?;
                Some(V::k(q as u128))
            }
            Bi::Free => { let p = c!(0); self.free(st, p)?; None }
            Bi::Memcmp => Some(self.cmp_bytes(st, args, false)?),
            Bi::Bcmp => Some(self.cmp_bytes(st, args, true)?),
            Bi::MemCpy => { let n = c!(2); let d = c!(0); let s = c!(1); self.memcpy(st, d, s, n)?; Some(V::k(d as u128)) }
            Bi::MemSet => { let v = V { c: args[1].c & 0xff, e: if args[1].e != 0 { self.a.extract(args[1].e, 0, 8) } else { 0 } }; self.memset(st, args[0], v, args[2])?; Some(args[0]) }
            Bi::Strlen => { let p = c!(0); let mut k = 0; loop { let v = self.load(st, V::k((p + k) as u128), 0, 1, 8)?; if self.conc(st, v)? == 0 { break; } k += 1; } Some(V::k(k as u128)) }
            Bi::Zero => Some(V::k(0)),
            Bi::Write => Some(args[2]),
            Bi::Errno => Some(V::k(self.errno as u128)),
            Bi::GetRandom => { let p = c!(0); let n = c!(1); self.fill_random(st, p, n)?; Some(V::k(n as u128)) }
            Bi::Syscall => {
                let nr = c!(0);
                match nr {
                    318 => { let p = c!(1); let n = c!(2); self.fill_random(st, p, n)?; Some(V::k(n as u128)) }
                    186 => Some(V::k(1)),
                    _ => err!("unmodelled syscall {}", nr),
                }
            }
            Bi::Panic => { let n = self.p.fns[fid as usize].name.clone(); return Err(End::Panic(format!("panic via {}", n))); }
            Bi::SymU64 => { let bits = c!(0) as u8; let e = self.fresh_var(st, bits); let e = if bits < 64 { self.a.zext(e, 64) } else { e }; Some(V::s(e)) }
            Bi::SymBytes => {
                let p = c!(0);
                let n = c!(1);
                let (i, off) = self.locate(p)?;
                for k in 0..n { let e = self.fresh_var(st, 8); self.write_at(st, i, off + k, 1, 8, V::s(e))?; }
                None
            }
            Bi::Assume => {
                let v = args[0];
                if v.e == 0 { if v.c & 1 == 0 { return Err(End::Discard); } return Ok(None); }
                let e = self.a.extract(v.e, 0, 1);
                if self.ev(st, e) != 1 { match self.feasible(st, e)? { Some(m) => st.model = m, None => return Err(End::Discard) } }
                self.add(st, e);
                None
            }
            Bi::Check => {
                let id = self.conc(st, args[1])? as u32;
                st.checks.push(id);
                let v = args[0];
                let ent = self.obligations.entry(id).or_insert((0, 0));
                if v.e == 0 {
                    if v.c & 1 == 1 { ent.0 += 1; } else { let m = st.model.clone(); self.report(st, &m, id, "check", "check failed"); return Err(End::Discard); }
                    return Ok(None);
                }
                let e = self.a.extract(v.e, 0, 1);
                let n = self.a.not(e);
                match self.feasible(st, n)? {
                    Some(m) => {
                        self.report(st, &m, id, "check", "check failed");
                        if self.ev(st, e) != 1 { match self.feasible(st, e)? { Some(m) => st.model = m, None => return Err(End::Discard) } }
                        self.add(st, e);
                    }
                    None => { self.obligations.get_mut(&id).unwrap().1 += 1; }
                }
                None
            }
            Bi::Observe => { let t = self.conc(st, args[0])? as u32; st.obs.push((t, args[1])); None }
            Bi::Reach => { let t = self.conc(st, args[0])? as u32; *self.reached.entry(t).or_insert(0) += 1; None }
            Bi::Concrete => Some(V::k(self.conc(st, args[0])?)),
            Bi::Abort => return Err(End::Discard),
            Bi::Param => { let k = c!(0) as usize; Some(V::k(self.params.get(k).copied().unwrap_or(0) as u128)) }
            Bi::IsSym => Some(V::k(1)),
            Bi::Trace => { let t = self.conc(st, args[0])?; let s = if args[1].e == 0 { format!("{:#x}", args[1].c) } else { self.a.show(args[1].e, 6) }; eprintln!("trace {} = {}", t, s); None }
            Bi::Race => unreachable!(),
            Bi::Clean => { Some(V::k((args[0].e == 0) as u128)) }
        })
    }
    fn fill_random(&mut self, st: &mut State, p: u64, n: u64) -> X<()> {
        if n == 0 { return Ok(()); }
        let (i, off) = self.locate(p)?;
        for k in 0..n { self.rng_ctr += 0; let b = (k.wrapping_mul(37).wrapping_add(11)) as u8; self.write_at(st, i, off + k, 1, 8, V::k(b as u128))?; }
        Ok(())
    }

    /// source lines of the repository that were executed
    pub fn covered_lines(&mut self) -> BTreeMap<String, Vec<u32>> {
        let mut m: BTreeMap<String, HashSet<u32>> = BTreeMap::new();
        let ids: Vec<u32> = self.seen_dbg.iter().copied().collect();
        for d in ids { for (f, l) in self.p.loc(d).iter() { if f.starts_with("/repo/") && *l > 0 { m.entry(f.clone()).or_default().insert(*l); } } }
        m.into_iter().map(|(k, v)| { let mut v: Vec<u32> = v.into_iter().collect(); v.sort_unstable(); (k, v) }).collect()
    }
}

fn intersects(a: &[u32], b: &[u32]) -> bool {
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() { if a[i] == b[j] { return true; } if a[i] < b[j] { i += 1 } else { j += 1 } }
    false
}

fn float(op: FOp, w: u8, wt: u8, x: u128, y: u128) -> u128 {
    let f = |v: u128| -> f64 { if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) } };
    let out = |r: f64, w: u8| -> u128 { if w == 32 { (r as f32).to_bits() as u128 } else { r.to_bits() as u128 } };
    macro_rules! ar { ($o:tt) => { if w == 32 { (f32::from_bits(x as u32) $o f32::from_bits(y as u32)).to_bits() as u128 } else { (f64::from_bits(x as u64) $o f64::from_bits(y as u64)).to_bits() as u128 } } }
    match op {
        FOp::Add => ar!(+), FOp::Sub => ar!(-), FOp::Mul => ar!(*), FOp::Div => ar!(/), FOp::Rem => ar!(%),
        FOp::Neg => x ^ (1u128 << (w - 1)),
        FOp::Abs => x & (mask(w as u32) >> 1),
        FOp::FromU => if wt == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 },
        FOp::FromS => { let s = sext(x, w as u32); if wt == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 } }
        FOp::ToU => (f(x) as u128) & mask(wt as u32),
        FOp::ToS => (f(x) as i128) as u128 & mask(wt as u32),
        FOp::Ext | FOp::Trunc => out(f(x), wt),
        FOp::Cmp(p) => {
            let (a, b) = (f(x), f(y));
            let un = a.is_nan() || b.is_nan();
            (match p {
                FCmp::Oeq => !un && a == b, FCmp::Ogt => a > b, FCmp::Oge => a >= b, FCmp::Olt => a < b, FCmp::Ole => a <= b, FCmp::One => !un && a != b, FCmp::Ord => !un, FCmp::Uno => un,
                FCmp::Ueq => un || a == b, FCmp::Ugt => un || a > b, FCmp::Uge => un || a >= b, FCmp::Ult => un || a < b, FCmp::Ule => un || a <= b, FCmp::Une => un || a != b, FCmp::False => false, FCmp::True => true,
            }) as u128
        }
        FOp::IsClass(m) => {
            use std::num::FpCategory as C;
            let a = f(x);
            let neg = (x >> (w - 1)) & 1 == 1;
            let cat = if w == 32 { f32::from_bits(x as u32).classify() } else { a.classify() };
            let bit = match cat { C::Nan => 1 << 1, C::Infinite => if neg { 1 << 2 } else { 1 << 9 }, C::Normal => if neg { 1 << 3 } else { 1 << 8 }, C::Subnormal => if neg { 1 << 4 } else { 1 << 7 }, C::Zero => if neg { 1 << 5 } else { 1 << 6 } };
            let bit = if cat == C::Nan { m & 3 } else { m & bit };
            (bit != 0) as u128
        }
    }
}
