//! Hash-consed bit-vector expressions (width 1..=128) with local simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Not(E),
    Bin(Op, E, E),
    Ite(E, E, E),
    Extract(E, u8),
    ZExt(E),
    SExt(E),
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
#[inline]
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub struct Model { pub id: u64, pub v: Vec<u128> }

pub struct Arena {
    pub nodes: Vec<(Node, u8)>,
    map: HashMap<(Node, u8), E>,
    deps: Vec<Option<Rc<Vec<u32>>>>,
    pub var_names: Vec<(String, u8)>,
    var_exprs: Vec<E>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
    memo_model: u64,
}

/// Constant folding; division by zero follows SMT-LIB.
pub fn fold(op: Op, a: u128, b: u128, w: u32, wb: u32) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { w - 1 } else { b as u32 }; ((sext(a, w) >> s) as u128) & m }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        Op::Concat => (a << wb) | b,
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { nodes: vec![], map: HashMap::new(), deps: vec![], var_names: vec![], var_exprs: vec![], memo: vec![], epoch: 1, memo_model: u64::MAX };
        // id 0 is reserved (means "concrete" in memory shadow)
        a.nodes.push((Node::Const(0), 1));
        a.deps.push(None);
        a.memo.push((0, 0));
        a
    }
    #[inline]
    pub fn width(&self, e: E) -> u32 { self.nodes[e as usize].1 as u32 }
    #[inline]
    pub fn node(&self, e: E) -> Node { self.nodes[e as usize].0 }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize].0 { Node::Const(c) => Some(c), _ => None }
    }
    fn intern(&mut self, n: Node, w: u32) -> E {
        debug_assert!(w >= 1 && w <= 128);
        if let Some(&e) = self.map.get(&(n, w as u8)) { return e; }
        let e = self.nodes.len() as E;
        self.nodes.push((n, w as u8));
        self.deps.push(None);
        self.memo.push((0, 0));
        self.map.insert((n, w as u8), e);
        e
    }
    pub fn cst(&mut self, v: u128, w: u32) -> E { self.intern(Node::Const(v & mask(w)), w) }
    pub fn var(&mut self, name: &str, w: u32) -> E {
        let id = self.var_names.len() as u32;
        self.var_names.push((name.to_string(), w as u8));
        let e = self.intern(Node::Var(id), w);
        self.var_exprs.push(e);
        e
    }
    pub fn var_expr(&self, v: u32) -> E { self.var_exprs[v as usize] }
    pub fn deps(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(d) = &self.deps[e as usize] { return d.clone(); }
        // iterative post-order
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.deps[x as usize].is_some() { stack.pop(); continue; }
            let kids: [E; 3] = match self.nodes[x as usize].0 {
                Node::Const(_) | Node::Var(_) => [0, 0, 0],
                Node::Not(a) | Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) => [a, 0, 0],
                Node::Bin(_, a, b) => [a, b, 0],
                Node::Ite(a, b, c) => [a, b, c],
            };
            let mut ready = true;
            for k in kids { if k != 0 && self.deps[k as usize].is_none() { stack.push(k); ready = false; } }
            if !ready { continue; }
            let mut v: Vec<u32> = vec![];
            if let Node::Var(id) = self.nodes[x as usize].0 { v.push(id); }
            let ks: Vec<E> = kids.iter().copied().filter(|k| *k != 0).collect();
            let r = if ks.len() == 1 { self.deps[ks[0] as usize].clone().unwrap() } else {
                for k in ks { v.extend(self.deps[k as usize].as_ref().unwrap().iter()); }
                v.sort_unstable(); v.dedup();
                Rc::new(v)
            };
            self.deps[x as usize] = Some(r);
            stack.pop();
        }
        self.deps[e as usize].clone().unwrap()
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.width(a);
        match self.node(a) {
            Node::Const(c) => self.cst(!c, w),
            Node::Not(x) => x,
            Node::Bin(Op::Ult, x, y) if w == 1 => self.bin(Op::Ule, y, x),
            Node::Bin(Op::Ule, x, y) if w == 1 => self.bin(Op::Ult, y, x),
            Node::Bin(Op::Slt, x, y) if w == 1 => self.bin(Op::Sle, y, x),
            Node::Bin(Op::Sle, x, y) if w == 1 => self.bin(Op::Slt, y, x),
            _ => self.intern(Node::Not(a), w),
        }
    }
    pub fn eq(&mut self, a: E, b: E) -> E { self.bin(Op::Eq, a, b) }
    pub fn and(&mut self, a: E, b: E) -> E { self.bin(Op::And, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bin(Op::Or, a, b) }

    /// number of known-zero high bits
    fn lead_zeros(&self, a: E) -> u32 {
        let w = self.width(a);
        match self.node(a) {
            Node::Const(c) => w - (128 - c.leading_zeros()),
            Node::ZExt(x) => w - self.width(x) + self.lead_zeros(x),
            Node::Bin(Op::And, _, y) => match self.as_const(y) { Some(c) => w - (128 - c.leading_zeros()).min(w), None => 0 },
            Node::Bin(Op::LShr, x, y) => match self.as_const(y) { Some(c) if c < w as u128 => (c as u32 + self.lead_zeros(x)).min(w), _ => 0 },
            Node::Bin(Op::Concat, h, l) => { let lz = self.lead_zeros(h); if lz == self.width(h) { lz + self.lead_zeros(l) } else { lz } }
            Node::Ite(_, x, y) => self.lead_zeros(x).min(self.lead_zeros(y)),
            Node::Bin(Op::Add, x, y) => { let z = self.lead_zeros(x).min(self.lead_zeros(y)); z.saturating_sub(1) }
            _ => 0,
        }
    }
    /// number of known-zero low bits
    pub fn trail_zeros(&self, a: E) -> u32 {
        let w = self.width(a);
        match self.node(a) {
            Node::Const(c) => if c == 0 { w } else { c.trailing_zeros() },
            Node::ZExt(x) | Node::SExt(x) => { let t = self.trail_zeros(x); if t == self.width(x) { w } else { t } }
            Node::Bin(Op::Add, x, y) | Node::Bin(Op::Sub, x, y) | Node::Bin(Op::Or, x, y) | Node::Bin(Op::Xor, x, y) => self.trail_zeros(x).min(self.trail_zeros(y)),
            Node::Bin(Op::And, x, y) => self.trail_zeros(x).max(self.trail_zeros(y)),
            Node::Bin(Op::Mul, x, y) => (self.trail_zeros(x) + self.trail_zeros(y)).min(w),
            Node::Bin(Op::Shl, x, y) => match self.as_const(y) { Some(c) if c < w as u128 => (c as u32 + self.trail_zeros(x)).min(w), _ => 0 },
            Node::Bin(Op::Concat, h, l) => { let t = self.trail_zeros(l); if t == self.width(l) { t + self.trail_zeros(h) } else { t } }
            Node::Ite(_, x, y) => self.trail_zeros(x).min(self.trail_zeros(y)),
            _ => 0,
        }
    }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        use Op::*;
        let w = self.width(a);
        let wb = self.width(b);
        debug_assert!(op == Concat || w == wb, "width mismatch {:?} {} {}", op, w, wb);
        let rw = match op { Eq | Ult | Ule | Slt | Sle => 1, Concat => w + wb, _ => w };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = fold(op, x, y, w, wb);
            return self.cst(v, rw);
        }
        let (ca, cb) = if ca.is_some() && matches!(op, Add | Mul | And | Or | Xor | Eq) {
            std::mem::swap(&mut a, &mut b);
            (cb, ca)
        } else { (ca, cb) };
        let m = mask(w);
        match op {
            Add => {
                if cb == Some(0) { return a; }
                if let (Some(c), Node::Bin(Add, x, y)) = (cb, self.node(a)) {
                    if let Some(d) = self.as_const(y) { let k = self.cst(c.wrapping_add(d), w); return self.bin(Add, x, k); }
                }
            }
            Sub => {
                if cb == Some(0) { return a; }
                if a == b { return self.cst(0, w); }
                if let Some(c) = cb { let k = self.cst(c.wrapping_neg(), w); return self.bin(Add, a, k); }
            }
            Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(c) = cb { if c.is_power_of_two() { let k = self.cst(c.trailing_zeros() as u128, w); return self.bin(Shl, a, k); } }
            }
            UDiv => {
                if cb == Some(1) { return a; }
                if let Some(c) = cb { if c.is_power_of_two() { let k = self.cst(c.trailing_zeros() as u128, w); return self.bin(LShr, a, k); } }
            }
            URem => {
                if let Some(c) = cb { if c.is_power_of_two() { let k = self.cst(c - 1, w); return self.bin(And, a, k); } }
            }
            And => {
                if a == b { return a; }
                if cb == Some(0) { return b; }
                if cb == Some(m) { return a; }
                if let Some(c) = cb {
                    let lz = self.lead_zeros(a);
                    // mask covers all possibly-set bits
                    if lz < w && c & mask(w - lz) == mask(w - lz) { return a; }
                    if lz == w { return self.cst(0, w); }
                    match self.node(a) {
                        Node::Bin(And, x, y) => if let Some(d) = self.as_const(y) { let k = self.cst(c & d, w); return self.bin(And, x, k); },
                        Node::ZExt(x) => { let wx = self.width(x); let k = self.cst(c, wx); let r = self.bin(And, x, k); return self.zext(r, w); }
                        Node::Bin(Concat, h, l) => {
                            let wl = self.width(l); let wh = self.width(h);
                            let kl = self.cst(c, wl); let kh = self.cst(c >> wl, wh);
                            let l2 = self.bin(And, l, kl); let h2 = self.bin(And, h, kh);
                            return self.bin(Concat, h2, l2);
                        }
                        // low mask: keep as zext(extract)
                        _ => if c & (c + 1) == 0 { let k = 128 - c.leading_zeros(); let x = self.extract(a, 0, k); return self.zext(x, w); }
                    }
                }
                if w == 1 {
                    if self.node(a) == Node::Not(b) || self.node(b) == Node::Not(a) { return self.cst(0, 1); }
                }
                if a > b && cb.is_none() { std::mem::swap(&mut a, &mut b); }
            }
            Or => {
                if a == b { return a; }
                if cb == Some(0) { return a; }
                if cb == Some(m) { return b; }
                // disjoint concat-like: (zext x) | (y << k) with k >= width x
                if cb.is_none() {
                    for (p, q) in [(a, b), (b, a)] {
                        let tz = self.trail_zeros(q);
                        let lz = self.lead_zeros(p);
                        if tz > 0 && tz < w && w - lz <= tz {
                            let hi = self.extract(q, tz, w - tz);
                            let lo = self.extract(p, 0, tz);
                            return self.bin(Concat, hi, lo);
                        }
                    }
                    if w == 1 && (self.node(a) == Node::Not(b) || self.node(b) == Node::Not(a)) { return self.cst(1, 1); }
                    if a > b { std::mem::swap(&mut a, &mut b); }
                } else if let (Some(c), Node::Bin(Concat, h, l)) = (cb, self.node(a)) {
                    let wl = self.width(l); let wh = self.width(h);
                    let kl = self.cst(c, wl); let kh = self.cst(c >> wl, wh);
                    let l2 = self.bin(Or, l, kl); let h2 = self.bin(Or, h, kh);
                    return self.bin(Concat, h2, l2);
                }
            }
            Xor => {
                if a == b { return self.cst(0, w); }
                if cb == Some(0) { return a; }
                if cb == Some(m) { return self.not(a); }
                if let Some(c) = cb {
                    match self.node(a) {
                        Node::Bin(Concat, h, l) => {
                            let wl = self.width(l); let wh = self.width(h);
                            let kl = self.cst(c, wl); let kh = self.cst(c >> wl, wh);
                            let l2 = self.bin(Xor, l, kl); let h2 = self.bin(Xor, h, kh);
                            return self.bin(Concat, h2, l2);
                        }
                        Node::Bin(Xor, x, y) => if let Some(d) = self.as_const(y) { let k = self.cst(c ^ d, w); return self.bin(Xor, x, k); },
                        _ => {}
                    }
                } else {
                    if let (Node::Bin(Concat, h1, l1), Node::Bin(Concat, h2, l2)) = (self.node(a), self.node(b)) {
                        if self.width(l1) == self.width(l2) {
                            let l = self.bin(Xor, l1, l2); let h = self.bin(Xor, h1, h2);
                            return self.bin(Concat, h, l);
                        }
                    }
                    if a > b { std::mem::swap(&mut a, &mut b); }
                }
            }
            Shl => {
                if cb == Some(0) { return a; }
                if let Some(c) = cb {
                    if c >= w as u128 { return self.cst(0, w); }
                    let c = c as u32;
                    let lo = self.extract(a, 0, w - c);
                    let z = self.cst(0, c);
                    return self.bin(Concat, lo, z);
                }
            }
            LShr => {
                if cb == Some(0) { return a; }
                if let Some(c) = cb {
                    if c >= w as u128 { return self.cst(0, w); }
                    let c = c as u32;
                    let hi = self.extract(a, c, w - c);
                    return self.zext(hi, w);
                }
            }
            AShr => {
                if cb == Some(0) { return a; }
                if let Some(c) = cb {
                    let c = (c.min(w as u128 - 1)) as u32;
                    if self.lead_zeros(a) > 0 { let k = self.cst(c as u128, w); return self.bin(LShr, a, k); }
                    let hi = self.extract(a, c, w - c);
                    return self.sext_e(hi, w);
                }
            }
            Eq => {
                if a == b { return self.cst(1, 1); }
                if let Some(c) = cb {
                    if w == 1 { return if c == 1 { a } else { self.not(a) }; }
                    match self.node(a) {
                        Node::ZExt(x) => {
                            let wx = self.width(x);
                            if c > mask(wx) { return self.cst(0, 1); }
                            let k = self.cst(c, wx);
                            return self.bin(Eq, x, k);
                        }
                        Node::SExt(x) => {
                            let wx = self.width(x);
                            if (sext(c & mask(wx), wx) as u128) & m != c { return self.cst(0, 1); }
                            let k = self.cst(c, wx);
                            return self.bin(Eq, x, k);
                        }
                        Node::Bin(Concat, h, l) => {
                            let wl = self.width(l); let wh = self.width(h);
                            let kl = self.cst(c, wl); let kh = self.cst(c >> wl, wh);
                            let r1 = self.bin(Eq, h, kh);
                            if self.as_const(r1) == Some(0) { return r1; }
                            let r2 = self.bin(Eq, l, kl);
                            return self.bin(And, r1, r2);
                        }
                        Node::Bin(Add, x, y) => if let Some(d) = self.as_const(y) { let k = self.cst(c.wrapping_sub(d), w); return self.bin(Eq, x, k); },
                        Node::Bin(Xor, x, y) => { if let Some(d) = self.as_const(y) { let k = self.cst(c ^ d, w); return self.bin(Eq, x, k); } if c == 0 { return self.bin(Eq, x, y); } }
                        Node::Bin(Sub, x, y) if c == 0 => return self.bin(Eq, x, y),
                        Node::Not(x) => { let k = self.cst(!c, w); return self.bin(Eq, x, k); }
                        Node::Ite(q, x, y) => {
                            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                                let r1 = self.bin(Eq, x, b); let r2 = self.bin(Eq, y, b);
                                return self.ite(q, r1, r2);
                            }
                        }
                        _ => {}
                    }
                    if self.lead_zeros(a) > 0 && c >> (w - self.lead_zeros(a)) != 0 { return self.cst(0, 1); }
                } else {
                    match (self.node(a), self.node(b)) {
                        (Node::ZExt(x), Node::ZExt(y)) if self.width(x) == self.width(y) => return self.bin(Eq, x, y),
                        (Node::Bin(Concat, h1, l1), Node::Bin(Concat, h2, l2)) if self.width(l1) == self.width(l2) => {
                            let r1 = self.bin(Eq, h1, h2);
                            let r2 = self.bin(Eq, l1, l2);
                            return self.bin(And, r1, r2);
                        }
                        _ => {}
                    }
                    if a > b { std::mem::swap(&mut a, &mut b); }
                }
            }
            Ult => {
                if a == b { return self.cst(0, 1); }
                if cb == Some(0) { return b_zero(self); }
                if ca == Some(m) { return self.cst(0, 1); }
                if cb == Some(1) { let z = self.cst(0, w); return self.bin(Eq, a, z); }
                if ca == Some(0) { let r = self.bin(Eq, b, a); return self.not(r); }
                if let Some(c) = cb {
                    let lz = self.lead_zeros(a);
                    if lz > 0 && c > mask(w - lz) { return self.cst(1, 1); }
                    if let Node::ZExt(x) = self.node(a) { let k = self.cst(c, self.width(x)); return self.bin(Ult, x, k); }
                    if let Node::Ite(q, x, y) = self.node(a) { if self.as_const(x).is_some() && self.as_const(y).is_some() { let r1 = self.bin(Ult, x, b); let r2 = self.bin(Ult, y, b); return self.ite(q, r1, r2); } }
                }
                if let Some(c) = ca {
                    let lz = self.lead_zeros(b);
                    if lz > 0 && c >= mask(w - lz) { return self.cst(0, 1); }
                    if let Node::ZExt(x) = self.node(b) { let k = self.cst(c, self.width(x)); return self.bin(Ult, k, x); }
                }
                if let (Node::ZExt(x), Node::ZExt(y)) = (self.node(a), self.node(b)) { if self.width(x) == self.width(y) { return self.bin(Ult, x, y); } }
            }
            Ule => {
                if a == b { return self.cst(1, 1); }
                if ca == Some(0) || cb == Some(m) { return self.cst(1, 1); }
                if let Some(c) = cb { let k = self.cst(c + 1, w); return self.bin(Ult, a, k); }
                if let Some(c) = ca { let k = self.cst(c - 1, w); return self.bin(Ult, k, b); }
                if let (Node::ZExt(x), Node::ZExt(y)) = (self.node(a), self.node(b)) { if self.width(x) == self.width(y) { return self.bin(Ule, x, y); } }
            }
            Slt => {
                if a == b { return self.cst(0, 1); }
                if self.lead_zeros(a) > 0 && self.lead_zeros(b) > 0 { return self.bin(Ult, a, b); }
                if cb == Some(0) { return self.extract(a, w - 1, 1); }
                // a zext'd vs negative constant
                if let Some(c) = cb { if self.lead_zeros(a) > 0 && sext(c, w) < 0 { return self.cst(0, 1); } }
                if let Some(c) = ca { if self.lead_zeros(b) > 0 && sext(c, w) < 0 { return self.cst(1, 1); } }
                if let (Some(c), Node::Ite(q, x, y)) = (cb, self.node(a)) { let _ = c; if self.as_const(x).is_some() && self.as_const(y).is_some() { let r1 = self.bin(Slt, x, b); let r2 = self.bin(Slt, y, b); return self.ite(q, r1, r2); } }
            }
            Sle => {
                if a == b { return self.cst(1, 1); }
                let r = self.bin(Slt, b, a);
                // avoid infinite recursion: not(Slt) canonicalises to Sle; only use when Slt simplified
                match self.node(r) { Node::Bin(Slt, _, _) => {}, _ => return self.not(r) }
            }
            Concat => {
                if ca == Some(0) { return self.zext(b, rw); }
                // merge adjacent extracts
                if let (Node::Extract(x, hx), Node::Extract(y, ly)) = (self.node(a), self.node(b)) {
                    if x == y && hx as u32 == ly as u32 + wb { return self.extract(x, ly as u32, rw); }
                }
                // a = extract(x, wb..), b = x fully narrower: b is extract(.., 0) collapsed to whole
                if let Node::Extract(x, hx) = self.node(a) {
                    if let Node::Bin(Concat, h2, l2) = self.node(b) {
                        if let Node::Extract(y, ly) = self.node(h2) {
                            if x == y && hx as u32 == ly as u32 + self.width(h2) {
                                let m2 = self.extract(x, ly as u32, w + self.width(h2));
                                return self.bin(Concat, m2, l2);
                            }
                        }
                    }
                }
                // zext(hi) ++ lo  == zext(hi ++ lo)
                if let Node::ZExt(x) = self.node(a) { let r = self.bin(Concat, x, b); return self.zext(r, rw); }
                // normalise right-nested: concat(concat(a,b),c) -> concat(a, concat(b,c))
                if let Node::Bin(Concat, h, l) = self.node(a) { let r = self.bin(Concat, l, b); return self.bin(Concat, h, r); }
            }
            _ => {}
        }
        return self.intern(Node::Bin(op, a, b), rw);
        fn b_zero(s: &mut Arena) -> E { s.cst(0, 1) }
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a; }
        if let Some(v) = self.as_const(c) { return if v == 1 { a } else { b }; }
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if let Node::Not(x) = self.node(c) { return self.ite(x, b, a); }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        }
        if let Node::Ite(c2, x, y) = self.node(b) { if x == a { let q = self.or(c, c2); return self.ite(q, a, y); } if c2 == c { return self.ite(c, a, y); } }
        if let Node::Ite(c2, x, y) = self.node(a) { if c2 == c { return self.ite(c, x, b); } if y == b { let q = self.and(c, c2); return self.ite(q, x, b); } }
        self.intern(Node::Ite(c, a, b), w)
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.width(a);
        if wa == w { return a; }
        debug_assert!(wa < w);
        match self.node(a) {
            Node::Const(c) => self.cst(c, w),
            Node::ZExt(x) => self.zext(x, w),
            _ => self.intern(Node::ZExt(a), w),
        }
    }
    pub fn sext_e(&mut self, a: E, w: u32) -> E {
        let wa = self.width(a);
        if wa == w { return a; }
        match self.node(a) {
            Node::Const(c) => self.cst(sext(c, wa) as u128, w),
            Node::SExt(x) => self.sext_e(x, w),
            _ if self.lead_zeros(a) > 0 => self.zext(a, w),
            _ => self.intern(Node::SExt(a), w),
        }
    }
    /// bits [lo, lo+w)
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.width(a);
        debug_assert!(lo + w <= wa && w > 0);
        if lo == 0 && w == wa { return a; }
        match self.node(a) {
            Node::Const(c) => self.cst(c >> lo, w),
            Node::Extract(x, l2) => self.extract(x, l2 as u32 + lo, w),
            Node::ZExt(x) => {
                let wx = self.width(x);
                if lo >= wx { self.cst(0, w) }
                else if lo + w <= wx { self.extract(x, lo, w) }
                else { let y = self.extract(x, lo, wx - lo); self.zext(y, w) }
            }
            Node::SExt(x) => {
                let wx = self.width(x);
                if lo + w <= wx { self.extract(x, lo, w) }
                else if lo < wx { let y = self.extract(x, lo, wx - lo); self.sext_e(y, w) }
                else { let y = self.extract(x, wx - 1, 1); self.sext_e(y, w) }
            }
            Node::Bin(Op::Concat, h, l) => {
                let wl = self.width(l);
                if lo >= wl { self.extract(h, lo - wl, w) }
                else if lo + w <= wl { self.extract(l, lo, w) }
                else {
                    let x = self.extract(l, lo, wl - lo);
                    let y = self.extract(h, 0, lo + w - wl);
                    self.bin(Op::Concat, y, x)
                }
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let x2 = self.extract(x, lo, w);
                let y2 = self.extract(y, lo, w);
                self.bin(op, x2, y2)
            }
            Node::Not(x) => { let x2 = self.extract(x, lo, w); self.not(x2) }
            Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => {
                let x2 = self.extract(x, 0, w);
                let y2 = self.extract(y, 0, w);
                self.bin(op, x2, y2)
            }
            Node::Ite(c, x, y) => {
                let x2 = self.extract(x, lo, w);
                let y2 = self.extract(y, lo, w);
                self.ite(c, x2, y2)
            }
            _ => self.intern(Node::Extract(a, lo as u8), w),
        }
    }

    /// evaluate under a model (memoised per model id)
    pub fn eval(&mut self, e: E, model: &Model) -> u128 {
        if let Node::Const(c) = self.nodes[e as usize].0 { return c; }
        if model.id != self.memo_model {
            self.memo_model = model.id;
            self.epoch += 1;
        }
        self.eval_rec(e, &model.v)
    }
    fn eval_rec(&mut self, root: E, model: &[u128]) -> u128 {
        let ep = self.epoch;
        if self.memo[root as usize].0 == ep { return self.memo[root as usize].1; }
        let mut stack = vec![root];
        while let Some(&x) = stack.last() {
            if self.memo[x as usize].0 == ep { stack.pop(); continue; }
            let (n, w) = self.nodes[x as usize];
            let w = w as u32;
            macro_rules! get { ($k:expr) => {{ let m = self.memo[$k as usize]; if m.0 != ep { if let Node::Const(c) = self.nodes[$k as usize].0 { c } else { stack.push($k); continue; } } else { m.1 } }} }
            let v = match n {
                Node::Const(c) => c,
                Node::Var(i) => model.get(i as usize).copied().unwrap_or(0) & mask(w),
                Node::Not(a) => { let v = get!(a); !v & mask(w) }
                Node::Extract(a, lo) => { let v = get!(a); (v >> lo) & mask(w) }
                Node::ZExt(a) => get!(a),
                Node::SExt(a) => { let v = get!(a); (sext(v, self.width(a)) as u128) & mask(w) }
                Node::Ite(c, a, b) => { let cv = get!(c); if cv == 1 { get!(a) } else { get!(b) } }
                Node::Bin(op, a, b) => { let va = get!(a); let vb = get!(b); fold(op, va, vb, self.width(a), self.width(b)) }
            };
            self.memo[x as usize] = (ep, v);
            stack.pop();
        }
        self.memo[root as usize].1
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        if depth == 0 { return "..".into(); }
        let d = depth - 1;
        match self.node(e) {
            Node::Const(c) => format!("{}:{}", c, self.width(e)),
            Node::Var(i) => self.var_names[i as usize].0.clone(),
            Node::Not(a) => format!("!{}", self.show(a, d)),
            Node::Bin(op, a, b) => format!("({:?} {} {})", op, self.show(a, d), self.show(b, d)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", self.show(c, d), self.show(a, d), self.show(b, d)),
            Node::Extract(a, lo) => format!("{}[{}+{}]", self.show(a, d), lo, self.width(e)),
            Node::ZExt(a) => format!("zx{}({})", self.width(e), self.show(a, d)),
            Node::SExt(a) => format!("sx{}({})", self.width(e), self.show(a, d)),
        }
    }
}
