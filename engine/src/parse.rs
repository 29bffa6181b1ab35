//! Lazy parser for textual LLVM IR.
use crate::expr::{mask, Op};
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

pub const FN_BASE: u64 = 0x4000_0000;
pub const GLOBAL_BASE: u64 = 0x1_0000;

#[derive(Clone, Debug, PartialEq)]
pub enum T<'a> { Local(String), Global(String), Int(&'a str), Word(&'a str), Str(Vec<u8>), P(char), Meta(&'a str), Attr }

pub struct Lex<'a> { s: &'a [u8], i: usize, pub peeked: Option<T<'a>> }

fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }

impl<'a> Lex<'a> {
    pub fn new(s: &'a [u8]) -> Self { Lex { s, i: 0, peeked: None } }
    fn name(&mut self) -> String {
        if self.s.get(self.i) == Some(&b'"') {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' { self.i += 1; }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && idc(self.s[self.i]) { self.i += 1; }
            String::from_utf8_lossy(&self.s[st..self.i]).to_string()
        }
    }
    fn lex(&mut self) -> Option<T<'a>> {
        loop {
            let c = *self.s.get(self.i)?;
            if c.is_ascii_whitespace() { self.i += 1; continue; }
            if c == b';' { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } continue; }
            if c == b'/' && self.s.get(self.i + 1) == Some(&b'*') {
                while !(self.s[self.i] == b'*' && self.s[self.i + 1] == b'/') || self.s[self.i - 1] == b'/' { self.i += 1; }
                self.i += 2;
                continue;
            }
            return Some(match c {
                b'%' => { self.i += 1; T::Local(self.name()) }
                b'@' => { self.i += 1; T::Global(self.name()) }
                b'!' => { self.i += 1; let st = self.i; while self.i < self.s.len() && (idc(self.s[self.i]) || self.s[self.i] == b'\\') { self.i += 1; } T::Meta(std::str::from_utf8(&self.s[st..self.i]).unwrap()) }
                b'#' => { self.i += 1; while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1; } T::Attr }
                b'c' if self.s.get(self.i + 1) == Some(&b'"') => { self.i += 1; self.string() }
                b'"' => self.string(),
                b'0'..=b'9' | b'-' => {
                    let st = self.i;
                    self.i += 1;
                    while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'.' | b'+') || (self.s[self.i] == b'-' && self.s[self.i - 1] == b'e')) { self.i += 1; }
                    T::Int(std::str::from_utf8(&self.s[st..self.i]).unwrap())
                }
                c if c.is_ascii_alphabetic() || c == b'_' => { let st = self.i; while self.i < self.s.len() && idc(self.s[self.i]) { self.i += 1; } T::Word(std::str::from_utf8(&self.s[st..self.i]).unwrap()) }
                _ => { self.i += 1; T::P(c as char) }
            });
        }
    }
    fn string(&mut self) -> T<'a> {
        self.i += 1;
        let mut v = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' { v.push(b'\\'); self.i += 2; continue; }
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                self.i += 3;
            } else { v.push(self.s[self.i]); self.i += 1; }
        }
        self.i += 1;
        T::Str(v)
    }
    pub fn next(&mut self) -> Option<T<'a>> { if let Some(t) = self.peeked.take() { Some(t) } else { self.lex() } }
    pub fn peek(&mut self) -> Option<&T<'a>> { if self.peeked.is_none() { self.peeked = self.lex(); } self.peeked.as_ref() }
    pub fn is(&mut self, c: char) -> bool { matches!(self.peek(), Some(T::P(x)) if *x == c) }
    pub fn isw(&mut self, w: &str) -> bool { matches!(self.peek(), Some(T::Word(x)) if *x == w) }
    pub fn eat(&mut self, c: char) -> bool { if self.is(c) { self.next(); true } else { false } }
    pub fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.next(); true } else { false } }
    pub fn expect(&mut self, c: char) { let ctx = self.i; let t = self.next(); if t != Some(T::P(c)) { panic!("expected {:?} got {:?} near {:?}", c, t, String::from_utf8_lossy(&self.s[ctx.saturating_sub(80)..(ctx + 80).min(self.s.len())])); } }
    pub fn ctx(&self) -> String { String::from_utf8_lossy(&self.s[self.i.saturating_sub(60)..(self.i + 120).min(self.s.len())]).to_string() }
    /// skip to after the matching close paren; the open paren has been consumed
    fn skip_parens(&mut self) {
        let mut d = 1;
        while d > 0 { match self.next() { Some(T::P('(')) => d += 1, Some(T::P(')')) => d -= 1, None => panic!("eof in parens"), _ => {} } }
    }
}

/// Parsed constant/operand
#[derive(Clone, Debug)]
pub enum C { Int(u128), Reg(String), Agg(Vec<C>), Bytes(Vec<u8>), Zero }

pub struct FnEntry { pub name: String, pub body: Option<(usize, usize)>, pub parsed: Option<Rc<Func>> }
pub struct Global { pub name: String, pub addr: u64, pub size: u64, pub align: u64, pub constant: bool, pub ty: Rc<Ty>, pub init: Option<(usize, usize)> }

pub struct Prog {
    pub text: &'static [u8],
    named: HashMap<String, (usize, usize)>,
    pub fn_index: HashMap<String, u32>,
    pub fns: Vec<FnEntry>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    alias: HashMap<String, String>,
    meta: Vec<u32>,
    meta_end: Vec<u32>,
    loc_cache: HashMap<u32, Rc<Vec<(String, u32)>>>,
}

impl Prog {
    pub fn load(path: &str) -> Prog {
        let text: &'static [u8] = Box::leak(std::fs::read(path).unwrap_or_else(|e| panic!("{}: {}", path, e)).into_boxed_slice());
        let mut p = Prog { text, named: HashMap::new(), fn_index: HashMap::new(), fns: vec![], globals: vec![], gidx: HashMap::new(), alias: HashMap::new(), meta: vec![], meta_end: vec![], loc_cache: HashMap::new() };
        let mut i = 0;
        let n = text.len();
        let mut gdefs: Vec<(String, usize, usize)> = vec![];
        while i < n {
            let e = memchr(text, b'\n', i).unwrap_or(n);
            let line = &text[i..e];
            let mut nexti = e + 1;
            if line.is_empty() { i = nexti; continue; }
            match line[0] {
                b'@' => {
                    let mut lx = Lex::new(line);
                    if let Some(T::Global(name)) = lx.next() { gdefs.push((name, i, e)); }
                }
                b'%' => {
                    let mut lx = Lex::new(line);
                    if let Some(T::Local(name)) = lx.next() {
                        let eq = line.iter().position(|c| *c == b'=').unwrap();
                        p.named.insert(name, (i + eq + 1, e));
                    }
                }
                b'd' if line.starts_with(b"define") || line.starts_with(b"declare") => {
                    let is_def = line.starts_with(b"define");
                    let at = line.iter().position(|c| *c == b'@').unwrap();
                    let mut lx = Lex::new(&line[at..]);
                    let name = match lx.next() { Some(T::Global(n)) => n, _ => panic!() };
                    let body = if is_def {
                        // find "\n}\n"
                        let mut j = e;
                        loop {
                            if text[j + 1] == b'}' { break; }
                            j = memchr(text, b'\n', j + 1).expect("end of function");
                        }
                        nexti = j + 3;
                        Some((i, j))
                    } else { None };
                    let id = p.fns.len() as u32;
                    p.fn_index.insert(name.clone(), id);
                    p.fns.push(FnEntry { name, body, parsed: None });
                }
                b'!' if line.len() > 1 && line[1].is_ascii_digit() => {
                    let mut k = 1;
                    let mut id = 0usize;
                    while line[k].is_ascii_digit() { id = id * 10 + (line[k] - b'0') as usize; k += 1; }
                    if p.meta.len() <= id { p.meta.resize(id + 1, 0); p.meta_end.resize(id + 1, 0); }
                    p.meta[id] = (i + k) as u32;
                    p.meta_end[id] = e as u32;
                }
                _ => {}
            }
            i = nexti;
        }
        // lay out globals
        let mut addr = GLOBAL_BASE;
        for (name, s, e) in gdefs {
            let line = &text[s..e];
            let mut lx = Lex::new(line);
            lx.next();
            lx.expect('=');
            let mut constant = false;
            let mut external = false;
            let mut is_alias = false;
            loop {
                match lx.peek().cloned() {
                    Some(T::Word("constant")) => { constant = true; lx.next(); break; }
                    Some(T::Word("global")) => { lx.next(); break; }
                    Some(T::Word("alias")) => { is_alias = true; lx.next(); break; }
                    Some(T::Word("external")) | Some(T::Word("extern_weak")) => { external = true; lx.next(); }
                    Some(T::P('(')) => { lx.next(); lx.skip_parens(); }
                    Some(_) => { lx.next(); }
                    None => panic!("bad global {}", name),
                }
            }
            if is_alias {
                p.ty(&mut lx);
                lx.expect(',');
                p.ty(&mut lx);
                if let Some(T::Global(t)) = lx.next() { p.alias.insert(name, t); }
                continue;
            }
            let ty = p.ty(&mut lx);
            let init = if external || matches!(lx.peek(), None | Some(T::P(','))) { None } else {
                // re-lex from current position: remember offset
                let back = lx.i; let _ = back;
                Some((s, e))
            };
            let mut align = ty.align();
            if let Some(pos) = find(line, b", align ") {
                let mut k = pos + 8; let mut a = 0u64;
                while k < line.len() && line[k].is_ascii_digit() { a = a * 10 + (line[k] - b'0') as u64; k += 1; }
                align = align.max(a);
            }
            let size = ty.size();
            let al = align.max(16);
            addr = (addr + al - 1) / al * al;
            let gi = p.globals.len() as u32;
            p.gidx.insert(name.clone(), gi);
            p.globals.push(Global { name, addr, size, align, constant, ty, init });
            addr += size + 16;
        }
        assert!(addr < FN_BASE);
        p
    }

    pub fn global_addr(&mut self, name: &str) -> u64 {
        if let Some(&g) = self.gidx.get(name) { return self.globals[g as usize].addr; }
        if let Some(&f) = self.fn_index.get(name) {
            return FN_BASE + 16 * f as u64;
        }
        if let Some(a) = self.alias.get(name).cloned() { return self.global_addr(&a); }
        panic!("unknown global @{}", name)
    }
    pub fn resolve_fn(&self, name: &str) -> Option<u32> {
        if let Some(&f) = self.fn_index.get(name) { return Some(f); }
        self.alias.get(name).and_then(|a| self.resolve_fn(a))
    }
    pub fn fn_at(&self, addr: u64) -> Option<u32> {
        if addr >= FN_BASE && (addr - FN_BASE) % 16 == 0 && ((addr - FN_BASE) / 16) < self.fns.len() as u64 { Some(((addr - FN_BASE) / 16) as u32) } else { None }
    }

    /// bytes of a global's initialiser
    pub fn global_bytes(&mut self, gi: usize) -> Vec<u8> {
        let size = self.globals[gi].size as usize;
        let mut out = vec![0u8; size];
        if let Some((s, e)) = self.globals[gi].init {
            let line = &self.text[s..e];
            let mut lx = Lex::new(line);
            lx.next();
            loop {
                match lx.next() { Some(T::Word("constant")) | Some(T::Word("global")) => break, Some(T::P('(')) => lx.skip_parens(), None => panic!(), _ => {} }
            }
            let ty = self.ty(&mut lx);
            let c = self.constant(&mut lx, &ty);
            self.write_const(&c, &ty, 0, &mut out);
        }
        out
    }
    fn write_const(&mut self, c: &C, ty: &Rc<Ty>, off: usize, out: &mut [u8]) {
        match c {
            C::Zero => {}
            C::Bytes(b) => out[off..off + b.len()].copy_from_slice(b),
            C::Int(v) => { let n = ty.size() as usize; out[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]); }
            C::Agg(es) => for (i, x) in es.iter().enumerate() { let et = ty.elem(i); let o = ty.field_offset(i) as usize; self.write_const(x, &et, off + o, out) },
            C::Reg(_) => panic!("reg in global"),
        }
    }

    pub fn ty(&mut self, lx: &mut Lex) -> Rc<Ty> {
        let base = match lx.next() {
            Some(T::Word(w)) => match w {
                "ptr" => { if lx.isw("addrspace") { lx.next(); lx.expect('('); lx.skip_parens(); } Ty::Ptr }
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" => Ty::Label,
                "metadata" | "token" => Ty::Meta,
                w if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
                w => panic!("type word {} near {}", w, lx.ctx()),
            },
            Some(T::P('{')) => self.struct_body(lx, false),
            Some(T::P('[')) => {
                let n = match lx.next() { Some(T::Int(n)) => n.parse().unwrap(), t => panic!("array len {:?}", t) };
                assert!(lx.eatw("x"));
                let t = self.ty(lx);
                lx.expect(']');
                Ty::Array(n, t)
            }
            Some(T::P('<')) => {
                if lx.eat('{') { let t = self.struct_body(lx, true); lx.expect('>'); t } else {
                    let n = match lx.next() { Some(T::Int(n)) => n.parse().unwrap(), t => panic!("vec len {:?}", t) };
                    assert!(lx.eatw("x"));
                    let t = self.ty(lx);
                    lx.expect('>');
                    Ty::Vector(n, t)
                }
            }
            Some(T::Local(n)) => {
                let (s, e) = self.named[&n];
                let mut l2 = Lex::new(&self.text[s..e]);
                l2.next();
                return self.ty(&mut l2);
            }
            t => panic!("type {:?} near {}", t, lx.ctx()),
        };
        Rc::new(base)
    }
    fn struct_body(&mut self, lx: &mut Lex, packed: bool) -> Ty {
        let mut v = vec![];
        if !lx.eat('}') {
            loop { v.push(self.ty(lx)); if lx.eat('}') { break; } lx.expect(','); }
        }
        Ty::Struct(v, packed)
    }
    fn is_type_start(lx: &mut Lex) -> bool {
        match lx.peek() {
            Some(T::Word(w)) => matches!(*w, "ptr" | "void" | "float" | "double" | "label" | "metadata" | "token") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())),
            Some(T::P('{')) | Some(T::P('[')) | Some(T::P('<')) | Some(T::Local(_)) => true,
            _ => false,
        }
    }
    /// skip attributes up to a type
    fn skip_to_type(lx: &mut Lex) {
        while !Self::is_type_start(lx) {
            match lx.next() { Some(T::P('(')) => lx.skip_parens(), None => panic!("no type"), _ => {} }
        }
    }
    /// skip parameter attributes up to a value
    fn skip_param_attrs(lx: &mut Lex) {
        loop {
            match lx.peek() {
                Some(T::Word(w)) => {
                    match *w {
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "sub" | "add" | "splat" | "xor" => return,
                        "align" => { lx.next(); if let Some(T::Int(_)) = lx.peek() { lx.next(); } }
                        _ => { lx.next(); }
                    }
                }
                Some(T::P('(')) => { lx.next(); lx.skip_parens(); }
                Some(T::Str(_)) | Some(T::Attr) => { lx.next(); }
                _ => return,
            }
        }
    }

    pub fn constant(&mut self, lx: &mut Lex, ty: &Rc<Ty>) -> C {
        match lx.next() {
            Some(T::Local(n)) => C::Reg(n),
            Some(T::Global(n)) => { let a = self.global_addr(&n); C::Int(a as u128) }
            Some(T::Int(s)) => match **ty {
                Ty::F64 => C::Int(parse_float(s).to_bits() as u128),
                Ty::F32 => C::Int((parse_float(s) as f32).to_bits() as u128),
                _ => {
                    let w = ty.bits();
                    let v: u128 = if let Some(x) = s.strip_prefix('-') { (x.parse::<u128>().unwrap()).wrapping_neg() } else { s.parse().unwrap() };
                    C::Int(v & mask(w))
                }
            },
            Some(T::Word(w)) => match w {
                "true" => C::Int(1),
                "false" => C::Int(0),
                "null" => C::Int(0),
                "undef" | "poison" | "zeroinitializer" | "none" => C::Zero,
                "splat" => {
                    lx.expect('(');
                    let t = self.ty(lx);
                    let c = self.constant(lx, &t);
                    lx.expect(')');
                    let n = if let Ty::Vector(n, _) = **ty { n } else { panic!("splat") };
                    C::Agg(vec![c; n as usize])
                }
                "getelementptr" => {
                    while !lx.is('(') { lx.next(); if lx.isw("inrange") { lx.next(); lx.expect('('); lx.skip_parens(); } }
                    lx.expect('(');
                    let et = self.ty(lx);
                    lx.expect(',');
                    let pt = self.ty(lx);
                    let base = self.cint(lx, &pt);
                    let mut a = base;
                    let mut first = true;
                    let mut cur = et;
                    while lx.eat(',') {
                        let it = self.ty(lx);
                        let w = it.bits();
                        let i = crate::expr::sext(self.cint(lx, &it), w) as i64;
                        if first { a = a.wrapping_add((i * cur.size() as i64) as u128); first = false; }
                        else { a = a.wrapping_add(cur.field_offset(i as usize) as u128); cur = cur.elem(i as usize); }
                    }
                    lx.expect(')');
                    C::Int(a & mask(64))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                    while !lx.is('(') { lx.next(); }
                    lx.expect('(');
                    let t = self.ty(lx);
                    let v = self.cint(lx, &t);
                    assert!(lx.eatw("to"));
                    let t2 = self.ty(lx);
                    lx.expect(')');
                    C::Int(v & mask(t2.bits()))
                }
                "sub" | "add" | "xor" => {
                    let op = w.to_string();
                    while !lx.is('(') { lx.next(); }
                    lx.expect('(');
                    let t = self.ty(lx);
                    let a = self.cint(lx, &t);
                    lx.expect(',');
                    let t2 = self.ty(lx);
                    let b = self.cint(lx, &t2);
                    lx.expect(')');
                    let r = match op.as_str() { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), _ => a ^ b };
                    C::Int(r & mask(t.bits()))
                }
                "f0x" => panic!("f0x"),
                w => panic!("constant word {} near {}", w, lx.ctx()),
            },
            Some(T::P(sign @ ('+' | '-'))) => {
                // +inf, -inf, +qnan
                let w = match lx.next() { Some(T::Word(w)) => w.to_string(), t => panic!("constant {}{:?}", sign, t) };
                let v = match w.as_str() { "inf" => f64::INFINITY, "qnan" => f64::NAN, w => panic!("constant {}{}", sign, w) };
                let v = if sign == '-' { -v } else { v };
                match **ty { Ty::F64 => C::Int(v.to_bits() as u128), _ => C::Int((v as f32).to_bits() as u128) }
            }
            Some(T::Str(b)) => C::Bytes(b),
            Some(T::P('{')) => self.agg(lx, '}'),
            Some(T::P('[')) => self.agg(lx, ']'),
            Some(T::P('<')) => { if lx.eat('{') { let r = self.agg(lx, '}'); lx.expect('>'); r } else { self.agg(lx, '>') } }
            t => panic!("constant {:?} near {}", t, lx.ctx()),
        }
    }
    fn agg(&mut self, lx: &mut Lex, close: char) -> C {
        let mut v = vec![];
        if !lx.eat(close) {
            loop {
                let t = self.ty(lx);
                v.push(self.constant(lx, &t));
                if lx.eat(close) { break; }
                lx.expect(',');
            }
        }
        C::Agg(v)
    }
    fn cint(&mut self, lx: &mut Lex, ty: &Rc<Ty>) -> u128 {
        match self.constant(lx, ty) { C::Int(v) => v, C::Zero => 0, c => panic!("non-int constant {:?}", c) }
    }

    // ---------------------------------------------------------------- debug locations
    fn meta_line(&self, id: u32) -> &'static [u8] {
        let i = id as usize;
        if i >= self.meta.len() || self.meta_end[i] == 0 { return b""; }
        &self.text[self.meta[i] as usize..self.meta_end[i] as usize]
    }
    fn mfield(line: &[u8], key: &str) -> Option<String> {
        let pat = format!("{}: ", key);
        let mut from = 0;
        while let Some(p) = find_from(line, pat.as_bytes(), from) {
            if p > 0 && matches!(line[p - 1], b'(' | b' ') {
                let s = &line[p + pat.len()..];
                if s[0] == b'"' { let e = s[1..].iter().position(|c| *c == b'"').unwrap(); return Some(String::from_utf8_lossy(&s[1..1 + e]).to_string()); }
                let e = s.iter().position(|c| matches!(*c, b',' | b')' | b' ')).unwrap_or(s.len());
                return Some(String::from_utf8_lossy(&s[..e]).to_string());
            }
            from = p + 1;
        }
        None
    }
    fn mref(line: &[u8], key: &str) -> Option<u32> { Self::mfield(line, key).and_then(|s| s.strip_prefix('!').and_then(|x| x.parse().ok())) }
    fn scope_file(&self, scope: u32) -> String {
        let mut s = scope;
        for _ in 0..64 {
            let l = self.meta_line(s);
            if let Some(f) = Self::mref(l, "file") {
                let fl = self.meta_line(f);
                let n = Self::mfield(fl, "filename").unwrap_or_default();
                if n.starts_with('/') { return n; }
                return format!("{}/{}", Self::mfield(fl, "directory").unwrap_or_default(), n);
            }
            match Self::mref(l, "scope") { Some(x) => s = x, None => return String::new() }
        }
        String::new()
    }
    /// inlining stack of a DILocation, innermost first
    pub fn loc(&mut self, id: u32) -> Rc<Vec<(String, u32)>> {
        if let Some(r) = self.loc_cache.get(&id) { return r.clone(); }
        let mut v = vec![];
        let mut cur = Some(id);
        while let Some(c) = cur {
            let l = self.meta_line(c);
            if l.is_empty() { break; }
            let line = Self::mfield(l, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
            let f = Self::mref(l, "scope").map(|s| self.scope_file(s)).unwrap_or_default();
            v.push((f, line));
            cur = Self::mref(l, "inlinedAt");
        }
        let r = Rc::new(v);
        self.loc_cache.insert(id, r.clone());
        r
    }

    // ---------------------------------------------------------------- functions
    pub fn func(&mut self, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = &self.fns[id as usize].parsed { return Some(f.clone()); }
        let (s, e) = self.fns[id as usize].body?;
        let name = self.fns[id as usize].name.clone();
        let f = Rc::new(FnBuilder::build(self, &name, id, s, e));
        self.fns[id as usize].parsed = Some(f.clone());
        Some(f)
    }
}

fn parse_float(s: &str) -> f64 {
    if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { s.parse().unwrap() }
}
pub fn memchr(t: &[u8], c: u8, from: usize) -> Option<usize> { t[from..].iter().position(|x| *x == c).map(|p| p + from) }
fn find(t: &[u8], p: &[u8]) -> Option<usize> { find_from(t, p, 0) }
fn find_from(t: &[u8], p: &[u8], from: usize) -> Option<usize> { if t.len() < p.len() { return None; } (from..=t.len() - p.len()).find(|&i| &t[i..i + p.len()] == p) }

struct PendingPhi { dst: R, n: usize, inc: Vec<(C, Rc<Ty>, String)> }

struct FnBuilder<'p> {
    p: &'p mut Prog,
    regs: HashMap<String, (R, Rc<Ty>)>,
    template: Vec<V>,
    consts: HashMap<u128, R>,
    blocks: HashMap<String, u32>,
    frame: u32,
    cur: String,
    phis: Vec<Vec<PendingPhi>>,
    insts: Vec<Inst>,
}

impl<'p> FnBuilder<'p> {
    fn fresh(&mut self, n: usize) -> R { let r = self.template.len() as R; for _ in 0..n { self.template.push(V::k(0)); } r }
    fn kreg(&mut self, v: u128) -> R {
        if let Some(&r) = self.consts.get(&v) { return r; }
        let r = self.fresh(1);
        self.template[r as usize] = V::k(v);
        self.consts.insert(v, r);
        r
    }
    /// Register base of a named value: types are known on definition; forward references get the type from use.
    fn def(&mut self, name: &str, ty: &Rc<Ty>) -> R {
        if let Some((r, _)) = self.regs.get(name) { return *r; }
        let r = self.fresh(ty.slots().max(1));
        self.regs.insert(name.to_string(), (r, ty.clone()));
        r
    }
    /// register holding `c` (contiguous slots)
    fn opd(&mut self, c: &C, ty: &Rc<Ty>) -> R {
        match c {
            C::Reg(n) => self.def(n, ty),
            C::Int(v) => self.kreg(*v),
            C::Zero if ty.slots() == 1 => self.kreg(0),
            _ => {
                let mut vals = vec![];
                self.flat(c, ty, &mut vals);
                let r = self.fresh(vals.len());
                for (i, v) in vals.iter().enumerate() {
                    match v { FlatV::K(k) => self.template[r as usize + i] = V::k(*k), FlatV::R(s) => self.insts.push(Inst::Mov { d: r + i as R, a: *s }) }
                }
                r
            }
        }
    }
    fn flat(&mut self, c: &C, ty: &Rc<Ty>, out: &mut Vec<FlatV>) {
        match c {
            C::Zero => for _ in 0..ty.slots() { out.push(FlatV::K(0)) },
            C::Int(v) => out.push(FlatV::K(*v)),
            C::Bytes(b) => for x in b { out.push(FlatV::K(*x as u128)) },
            C::Agg(es) => for (i, x) in es.iter().enumerate() { let t = ty.elem(i); self.flat(x, &t, out) },
            C::Reg(n) => { let r = self.def(n, ty); for i in 0..ty.slots() { out.push(FlatV::R(r + i as R)) } }
        }
    }
    fn val(&mut self, lx: &mut Lex, ty: &Rc<Ty>) -> R { let c = self.p.constant(lx, ty); self.opd(&c, ty) }
    fn tyval(&mut self, lx: &mut Lex) -> (Rc<Ty>, R) { let t = self.p.ty(lx); let r = self.val(lx, &t); (t, r) }
    fn block(&mut self, n: &str) -> u32 { *self.blocks.get(n).unwrap_or_else(|| panic!("no block {}", n)) }

    fn build(p: &'p mut Prog, name: &str, id: u32, s: usize, e: usize) -> Func {
        let text = p.text;
        let nl = memchr(text, b'\n', s).unwrap();
        let header = &text[s..nl];
        let mut b = FnBuilder { p, regs: HashMap::new(), template: vec![], consts: HashMap::new(), blocks: HashMap::new(), frame: 0, cur: String::new(), phis: vec![], insts: vec![] };
        // header params
        let mut params = vec![];
        let mut scope = 0;
        {
            let mut lx = Lex::new(header);
            lx.next(); // define
            loop { match lx.next() { Some(T::Global(_)) => break, None => panic!(), _ => {} } }
            lx.expect('(');
            let mut unnamed = 0;
            if !lx.eat(')') {
                loop {
                    if lx.eat('.') { lx.next(); lx.next(); }
                    else {
                        let t = b.p.ty(&mut lx);
                        loop {
                            match lx.peek() { Some(T::P(',')) | Some(T::P(')')) | Some(T::Local(_)) => break, Some(T::P('(')) => { lx.next(); lx.skip_parens(); } _ => { lx.next(); } }
                        }
                        let n = if let Some(T::Local(_)) = lx.peek() { if let Some(T::Local(n)) = lx.next() { n } else { unreachable!() } } else { let n = unnamed.to_string(); unnamed += 1; n };
                        let r = b.def(&n, &t);
                        for i in 0..t.slots() { params.push(r + i as R); }
                    }
                    if lx.eat(')') { break; }
                    lx.expect(',');
                }
            }
            if let Some(pos) = find(header, b"!dbg !") { scope = num_at(header, pos + 6); }
        }
        // gather instruction texts per block
        let mut blocks: Vec<(String, Vec<(usize, usize)>)> = vec![];
        let mut i = nl + 1;
        let mut open_switch = false;
        while i <= e {
            let le = memchr(text, b'\n', i).unwrap().min(e);
            let l = &text[i..le];
            if l.is_empty() || l[0] == b';' { i = le + 1; continue; }
            if l[0] != b' ' {
                let mut lx = Lex::new(l);
                let n = if l[0] == b'"' { match lx.next() { Some(T::Str(s)) => String::from_utf8(s).unwrap(), _ => panic!() } } else { let c = l.iter().position(|c| *c == b':').unwrap(); String::from_utf8_lossy(&l[..c]).to_string() };
                blocks.push((n, vec![]));
            } else {
                if blocks.is_empty() { blocks.push((implicit_entry(&params, header), vec![])); }
                let cont = open_switch || l.starts_with(b"   ") || l.starts_with(b"  ]");
                let cur = &mut blocks.last_mut().unwrap().1;
                if cont { cur.last_mut().unwrap().1 = le; } else { cur.push((i, le)); }
                if l.starts_with(b"  switch ") && !l.contains(&b']') { open_switch = true; }
                if l.starts_with(b"  ]") { open_switch = false; }
                if open_switch && l.contains(&b']') && !l.starts_with(b"  switch") { open_switch = false; }
            }
            i = le + 1;
        }
        for (k, (n, _)) in blocks.iter().enumerate() { b.blocks.insert(n.clone(), k as u32); b.phis.push(vec![]); }
        // pass 1: phis (so edges can be resolved)
        for (k, (_, ins)) in blocks.iter().enumerate() {
            for &(s, e) in ins {
                let l = &text[s..e];
                let Some(eq) = find(l, b" = phi ") else { break };
                let mut lx = Lex::new(&l[..eq]);
                let dn = match lx.next() { Some(T::Local(n)) => n, _ => panic!() };
                let mut lx = Lex::new(&l[eq + 7..]);
                while !Prog::is_type_start(&mut lx) { lx.next(); }
                let t = b.p.ty(&mut lx);
                let d = b.def(&dn, &t);
                let mut inc = vec![];
                loop {
                    lx.expect('[');
                    let c = b.p.constant(&mut lx, &t);
                    lx.expect(',');
                    let bn = match lx.next() { Some(T::Local(n)) => n, x => panic!("phi block {:?}", x) };
                    lx.expect(']');
                    inc.push((c, t.clone(), bn));
                    if !lx.eat(',') { break; }
                    if !lx.is('[') { break; }
                }
                b.phis[k].push(PendingPhi { dst: d, n: t.slots(), inc });
            }
        }
        // pass 2
        let mut out = vec![];
        for (bn, ins) in blocks.iter() {
            b.cur = bn.clone();
            let mut bl = Block { insts: vec![], dbg: vec![], name: bn.clone() };
            for &(s, e) in ins {
                let l = &text[s..e];
                let dbg = find_last(l, b"!dbg !").map(|p| num_at(l, p + 6)).unwrap_or(0);
                b.insts.clear();
                b.inst(l);
                let v: Vec<Inst> = b.insts.drain(..).collect();
                for x in v { if matches!(x, Inst::Nop) { continue; } bl.insts.push(x); bl.dbg.push(dbg); }
            }
            out.push(bl);
        }
        Func { name: name.to_string(), id, blocks: out, template: b.template, params, frame_size: b.frame, scope }
    }

    fn edge(&mut self, target: &str) -> Edge {
        let t = self.block(target);
        let cur = self.cur.clone();
        let mut items: Vec<(R, C, Rc<Ty>, usize)> = vec![];
        for ph in &self.phis[t as usize] {
            let (c, ty, _) = ph.inc.iter().find(|x| x.2 == cur).unwrap_or_else(|| panic!("phi in {} lacks {}", target, cur));
            items.push((ph.dst, c.clone(), ty.clone(), ph.n));
        }
        let mut moves = vec![];
        for (d, c, ty, n) in items {
            let s = self.opd(&c, &ty);
            for i in 0..n as R { if d + i != s + i { moves.push((d + i, s + i)); } }
        }
        Edge { target: t, moves: moves.into_boxed_slice() }
    }

    fn inst(&mut self, l: &[u8]) {
        let mut lx = Lex::new(l);
        let mut dst: Option<String> = None;
        if let Some(T::Local(_)) = lx.peek() {
            if let Some(T::Local(n)) = lx.next() { dst = Some(n); }
            lx.expect('=');
        }
        let op = match lx.next() { Some(T::Word(w)) => w, t => panic!("inst {:?}: {}", t, String::from_utf8_lossy(l)) };
        match op {
            "phi" | "fence" | "landingpad" => {
                if op == "landingpad" { let t = self.p.ty(&mut lx); let d = self.def(&dst.unwrap(), &t); let _ = d; self.insts.push(Inst::Unsupported("landingpad".into())); }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while let Some(T::Word("nuw" | "nsw" | "exact" | "disjoint")) = lx.peek() { lx.next(); }
                let t = self.p.ty(&mut lx);
                let a = self.val(&mut lx, &t);
                lx.expect(',');
                let b = self.val(&mut lx, &t);
                let d = self.def(&dst.unwrap(), &t);
                let o = match op { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, _ => Op::AShr };
                for i in 0..t.slots() as R { self.insts.push(Inst::Bin { op: o, w: t.bits() as u8, d: d + i, a: a + i, b: b + i }); }
            }
            "icmp" => {
                if lx.isw("samesign") { lx.next(); }
                let p = match lx.next() { Some(T::Word(w)) => match w { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, _ => panic!() }, _ => panic!() };
                let t = self.p.ty(&mut lx);
                let a = self.val(&mut lx, &t);
                lx.expect(',');
                let b = self.val(&mut lx, &t);
                let rt = match *t { Ty::Vector(n, _) => Rc::new(Ty::Vector(n, Rc::new(Ty::Int(1)))), _ => Rc::new(Ty::Int(1)) };
                let d = self.def(&dst.unwrap(), &rt);
                for i in 0..t.slots() as R { self.insts.push(Inst::Icmp { p, w: t.bits() as u8, d: d + i, a: a + i, b: b + i }); }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                while let Some(T::Word("nuw" | "nsw" | "nneg")) = lx.peek() { lx.next(); }
                let (t, a) = self.tyval(&mut lx);
                assert!(lx.eatw("to"));
                let t2 = self.p.ty(&mut lx);
                let d = self.def(&dst.unwrap(), &t2);
                if op == "bitcast" {
                    let (n1, n2) = (t.slots(), t2.slots());
                    if n1 == n2 { for i in 0..n1 as R { self.insts.push(Inst::Mov { d: d + i, a: a + i }); } }
                    else if n2 == 1 { self.insts.push(Inst::Pack { d, src: a, n: n1 as u32, w: t.bits() as u8 }); }
                    else if n1 == 1 { self.insts.push(Inst::Unpack { d, src: a, n: n2 as u32, w: t2.bits() as u8 }); }
                    else {
                        let tmp = self.fresh(1);
                        self.insts.push(Inst::Pack { d: tmp, src: a, n: n1 as u32, w: t.bits() as u8 });
                        self.insts.push(Inst::Unpack { d, src: tmp, n: n2 as u32, w: t2.bits() as u8 });
                    }
                } else {
                    let (wf, wt) = (t.bits(), t2.bits());
                    let k = if op == "sext" { CastK::SExt } else if wf > wt { CastK::Trunc } else { CastK::ZExt };
                    for i in 0..t.slots() as R {
                        if wf == wt { self.insts.push(Inst::Mov { d: d + i, a: a + i }); }
                        else { self.insts.push(Inst::Cast { k, wf: wf as u8, wt: wt as u8, d: d + i, a: a + i }); }
                    }
                }
            }
            "freeze" => {
                let (t, a) = self.tyval(&mut lx);
                let d = self.def(&dst.unwrap(), &t);
                for i in 0..t.slots() as R { self.insts.push(Inst::Mov { d: d + i, a: a + i }); }
            }
            "select" => {
                skip_fmf(&mut lx);
                let (ct, c) = self.tyval(&mut lx);
                lx.expect(',');
                let (t, a) = self.tyval(&mut lx);
                lx.expect(',');
                let (_, b) = self.tyval(&mut lx);
                let d = self.def(&dst.unwrap(), &t);
                let vc = matches!(*ct, Ty::Vector(..));
                let mut fl = vec![];
                t.flatten(0, &mut fl);
                for i in 0..t.slots() as R { self.insts.push(Inst::Select { w: fl[i as usize].0.bits() as u8, d: d + i, c: if vc { c + i } else { c }, a: a + i, b: b + i }); }
            }
            "alloca" => {
                if lx.isw("inalloca") { lx.next(); }
                let t = self.p.ty(&mut lx);
                let mut n = 1u64;
                let mut al = t.align().max(1);
                while lx.eat(',') {
                    if lx.eatw("align") { if let Some(T::Int(a)) = lx.next() { al = al.max(a.parse().unwrap()); } }
                    else if Prog::is_type_start(&mut lx) { let it = self.p.ty(&mut lx); n = self.p.cint(&mut lx, &it) as u64; }
                    else { break; }
                }
                let al = al.max(16) as u32;
                let off = (self.frame + al - 1) / al * al;
                self.frame = off + (t.size() * n) as u32;
                let pt = Rc::new(Ty::Ptr);
                let d = self.def(&dst.unwrap(), &pt);
                self.insts.push(Inst::FrameAddr { d, off });
            }
            "load" => {
                let atomic = lx.isw("atomic");
                while let Some(T::Word("atomic" | "volatile")) = lx.peek() { lx.next(); }
                let t = self.p.ty(&mut lx);
                lx.expect(',');
                let (_, p) = self.tyval(&mut lx);
                let d = self.def(&dst.unwrap(), &t);
                if atomic { self.insts.push(Inst::Sync { p, load: true }); }
                self.mem(&t, d, p, true);
            }
            "store" => {
                let atomic = lx.isw("atomic");
                while let Some(T::Word("atomic" | "volatile")) = lx.peek() { lx.next(); }
                let (t, v) = self.tyval(&mut lx);
                lx.expect(',');
                let (_, p) = self.tyval(&mut lx);
                if atomic { self.insts.push(Inst::Sync { p, load: false }); }
                self.mem(&t, v, p, false);
            }
            "getelementptr" => {
                while let Some(T::Word("inbounds" | "nuw" | "nusw")) = lx.peek() { lx.next(); }
                let et = self.p.ty(&mut lx);
                lx.expect(',');
                let (pt, base) = self.tyval(&mut lx);
                assert!(*pt == Ty::Ptr, "vector gep");
                let mut off = 0i64;
                let mut idx = vec![];
                let mut first = true;
                let mut cur = et;
                while lx.eat(',') {
                    if matches!(lx.peek(), Some(T::Meta(_))) { break; }
                    let it = self.p.ty(&mut lx);
                    let c = self.p.constant(&mut lx, &it);
                    let w = it.bits();
                    let k = match &c { C::Int(v) => Some(crate::expr::sext(*v, w) as i64), C::Zero => Some(0), _ => None };
                    if first {
                        first = false;
                        let sz = cur.size() as i64;
                        match k { Some(k) => off += k * sz, None => { let r = self.opd(&c, &it); idx.push((r, sz, w as u8)); } }
                    } else {
                        match (&*cur, k) {
                            (Ty::Struct(..), Some(k)) => { off += cur.field_offset(k as usize) as i64; let n = cur.elem(k as usize); cur = n; }
                            (Ty::Array(..) | Ty::Vector(..), Some(k)) => { let n = cur.elem(0); off += k * n.size() as i64; cur = n; }
                            (Ty::Array(..) | Ty::Vector(..), None) => { let n = cur.elem(0); let r = self.opd(&c, &it); idx.push((r, n.size() as i64, w as u8)); cur = n; }
                            x => panic!("gep {:?}", x),
                        }
                    }
                }
                let d = self.def(&dst.unwrap(), &pt);
                self.insts.push(Inst::Gep { d, base, off, idx: idx.into_boxed_slice() });
            }
            "extractvalue" => {
                let (t, a) = self.tyval(&mut lx);
                let (off, et) = self.agg_path(&mut lx, &t);
                let d = self.def(&dst.unwrap(), &et);
                for i in 0..et.slots() as R { self.insts.push(Inst::Mov { d: d + i, a: a + off + i }); }
            }
            "insertvalue" => {
                let (t, a) = self.tyval(&mut lx);
                lx.expect(',');
                let (et, v) = self.tyval(&mut lx);
                let (off, _) = self.agg_path(&mut lx, &t);
                let d = self.def(&dst.unwrap(), &t);
                for i in 0..t.slots() as R { self.insts.push(Inst::Mov { d: d + i, a: a + i }); }
                for i in 0..et.slots() as R { self.insts.push(Inst::Mov { d: d + off + i, a: v + i }); }
            }
            "extractelement" | "insertelement" => {
                let (t, a) = self.tyval(&mut lx);
                lx.expect(',');
                if op == "extractelement" {
                    let it = self.p.ty(&mut lx);
                    let k = self.p.constant(&mut lx, &it);
                    let et = t.elem(0);
                    let d = self.def(&dst.unwrap(), &et);
                    match k { C::Int(k) => self.insts.push(Inst::Mov { d, a: a + k as R }), C::Zero => self.insts.push(Inst::Mov { d, a }), _ => self.insts.push(Inst::Unsupported("extractelement".into())) }
                } else {
                    let (_, v) = self.tyval(&mut lx);
                    lx.expect(',');
                    let it = self.p.ty(&mut lx);
                    let k = self.p.constant(&mut lx, &it);
                    let d = self.def(&dst.unwrap(), &t);
                    let k = match k { C::Int(k) => k as R, C::Zero => 0, _ => { self.insts.push(Inst::Unsupported("insertelement".into())); 0 } };
                    for i in 0..t.slots() as R { self.insts.push(Inst::Mov { d: d + i, a: if i == k { v } else { a + i } }); }
                }
            }
            "shufflevector" => {
                let (t, a) = self.tyval(&mut lx);
                lx.expect(',');
                let (_, b) = self.tyval(&mut lx);
                lx.expect(',');
                let mt = self.p.ty(&mut lx);
                let m = self.p.constant(&mut lx, &mt);
                let mut fl = vec![];
                self.flat(&m, &mt, &mut fl);
                let n = t.slots() as u128;
                let rt = Rc::new(Ty::Vector(fl.len() as u32, t.elem(0)));
                let d = self.def(&dst.unwrap(), &rt);
                for (i, k) in fl.iter().enumerate() {
                    let k = match k { FlatV::K(k) => *k, _ => panic!() };
                    self.insts.push(Inst::Mov { d: d + i as R, a: if k < n { a + k as R } else { b + (k - n) as R } });
                }
            }
            "atomicrmw" => {
                if lx.isw("volatile") { lx.next(); }
                let o = match lx.next() { Some(T::Word(w)) => match w { "xchg" => 0, "add" => 1, "sub" => 2, "and" => 3, "or" => 4, "xor" => 5, "umax" => 6, "umin" => 7, _ => 99 }, _ => panic!() };
                let (_, p) = self.tyval(&mut lx);
                lx.expect(',');
                let (t, v) = self.tyval(&mut lx);
                let d = self.def(&dst.unwrap(), &t);
                self.insts.push(Inst::Sync { p, load: false });
                if o == 99 { self.insts.push(Inst::Unsupported("atomicrmw".into())); }
                self.insts.push(Inst::AtomicRmw { op: o, w: t.bits() as u8, d, p, v });
            }
            "cmpxchg" => {
                while let Some(T::Word("weak" | "volatile")) = lx.peek() { lx.next(); }
                let (_, p) = self.tyval(&mut lx);
                lx.expect(',');
                let (t, c) = self.tyval(&mut lx);
                lx.expect(',');
                let (_, n) = self.tyval(&mut lx);
                let rt = Rc::new(Ty::Struct(vec![t.clone(), Rc::new(Ty::Int(1))], false));
                let d = self.def(&dst.unwrap(), &rt);
                self.insts.push(Inst::Sync { p, load: false });
                self.insts.push(Inst::CmpXchg { w: t.bits() as u8, d, p, c, n });
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" | "fcmp" => {
                skip_fmf(&mut lx);
                let mut pred = FCmp::False;
                if op == "fcmp" {
                    pred = match lx.next() { Some(T::Word(w)) => match w { "oeq" => FCmp::Oeq, "ogt" => FCmp::Ogt, "oge" => FCmp::Oge, "olt" => FCmp::Olt, "ole" => FCmp::Ole, "one" => FCmp::One, "ord" => FCmp::Ord, "uno" => FCmp::Uno, "ueq" => FCmp::Ueq, "ugt" => FCmp::Ugt, "uge" => FCmp::Uge, "ult" => FCmp::Ult, "ule" => FCmp::Ule, "une" => FCmp::Une, "true" => FCmp::True, _ => FCmp::False }, _ => panic!() };
                }
                let t = self.p.ty(&mut lx);
                let a = self.val(&mut lx, &t);
                let b = if op == "fneg" { a } else { lx.expect(','); self.val(&mut lx, &t) };
                let rt = if op == "fcmp" { Rc::new(Ty::Int(1)) } else { t.clone() };
                let d = self.def(&dst.unwrap(), &rt);
                let o = match op { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, "frem" => FOp::Rem, "fneg" => FOp::Neg, _ => FOp::Cmp(pred) };
                self.insts.push(Inst::Float { op: o, w: t.bits() as u8, wt: t.bits() as u8, d, a, b });
            }
            "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                while let Some(T::Word("nneg")) = lx.peek() { lx.next(); }
                skip_fmf(&mut lx);
                let (t, a) = self.tyval(&mut lx);
                assert!(lx.eatw("to"));
                let t2 = self.p.ty(&mut lx);
                let d = self.def(&dst.unwrap(), &t2);
                let o = match op { "uitofp" => FOp::FromU, "sitofp" => FOp::FromS, "fptoui" => FOp::ToU, "fptosi" => FOp::ToS, "fpext" => FOp::Ext, _ => FOp::Trunc };
                self.insts.push(Inst::Float { op: o, w: t.bits() as u8, wt: t2.bits() as u8, d, a, b: a });
            }
            "br" => {
                if lx.eatw("label") {
                    if let Some(T::Local(n)) = lx.next() { let e = self.edge(&n); self.insts.push(Inst::Br(e)); }
                } else {
                    let (_, c) = self.tyval(&mut lx);
                    lx.expect(',');
                    lx.next();
                    let a = match lx.next() { Some(T::Local(n)) => n, _ => panic!() };
                    lx.expect(',');
                    lx.next();
                    let b = match lx.next() { Some(T::Local(n)) => n, _ => panic!() };
                    let t = self.edge(&a);
                    let f = self.edge(&b);
                    self.insts.push(Inst::CondBr { c, t, f });
                }
            }
            "switch" => {
                let (t, v) = self.tyval(&mut lx);
                lx.expect(',');
                lx.next();
                let dn = match lx.next() { Some(T::Local(n)) => n, _ => panic!() };
                let mut edges = vec![self.edge(&dn)];
                let mut cases = vec![];
                let mut seen: HashMap<String, u32> = HashMap::new();
                lx.expect('[');
                while !lx.eat(']') {
                    let t2 = self.p.ty(&mut lx);
                    let k = self.p.cint(&mut lx, &t2);
                    lx.expect(',');
                    lx.next();
                    let n = match lx.next() { Some(T::Local(n)) => n, _ => panic!() };
                    let ei = match seen.get(&n) { Some(e) => *e, None => { let e = self.edge(&n); edges.push(e); seen.insert(n, edges.len() as u32 - 1); edges.len() as u32 - 1 } };
                    cases.push((k, ei));
                }
                self.insts.push(Inst::Switch { v, w: t.bits() as u8, cases: cases.into_boxed_slice(), edges: edges.into_boxed_slice() });
            }
            "ret" => {
                let t = self.p.ty(&mut lx);
                let mut src = vec![];
                if *t != Ty::Void { let r = self.val(&mut lx, &t); for i in 0..t.slots() as R { src.push(r + i); } }
                self.insts.push(Inst::Ret { src: src.into_boxed_slice() });
            }
            "unreachable" => self.insts.push(Inst::Unreachable),
            "resume" => self.insts.push(Inst::Unsupported("resume".into())),
            "tail" | "musttail" | "notail" => { lx.next(); self.call(&mut lx, dst, false) }
            "call" => self.call(&mut lx, dst, false),
            "invoke" => self.call(&mut lx, dst, true),
            _ => { self.insts.push(Inst::Unsupported(op.to_string())); }
        }
    }
    fn agg_path(&mut self, lx: &mut Lex, t: &Rc<Ty>) -> (R, Rc<Ty>) {
        let mut off = 0;
        let mut cur = t.clone();
        while lx.eat(',') {
            match lx.peek() {
                Some(T::Int(_)) => { if let Some(T::Int(k)) = lx.next() { let k: usize = k.parse().unwrap(); for j in 0..k { off += cur.elem(j).slots() as R; } let n = cur.elem(k); cur = n; } }
                _ => break,
            }
        }
        (off, cur)
    }
    fn mem(&mut self, t: &Rc<Ty>, r: R, p: R, load: bool) {
        let mut fl = vec![];
        t.flatten(0, &mut fl);
        if let Ty::Vector(n, et) = &**t {
            if **et == Ty::Int(1) {
                // bit-packed
                let n = *n;
                let bytes = ((n + 7) / 8) as u8;
                let tmp = self.fresh(1);
                if load { self.insts.push(Inst::Load { d: tmp, p, off: 0, w: bytes * 8, bytes }); self.insts.push(Inst::Unpack { d: r, src: tmp, n, w: 1 }); }
                else { self.insts.push(Inst::Pack { d: tmp, src: r, n, w: 1 }); self.insts.push(Inst::Store { v: tmp, p, off: 0, w: bytes * 8, bytes }); }
                return;
            }
        }
        for (i, (st, off)) in fl.iter().enumerate() {
            let w = st.bits() as u8;
            let bytes = st.size() as u8;
            let bytes = if let Ty::Int(w) = **st { ((w + 7) / 8) as u8 } else { bytes };
            if load { self.insts.push(Inst::Load { d: r + i as R, p, off: *off as u32, w, bytes }); }
            else { self.insts.push(Inst::Store { v: r + i as R, p, off: *off as u32, w, bytes }); }
        }
    }

    fn call(&mut self, lx: &mut Lex, dst: Option<String>, invoke: bool) {
        // [fmf] [cc] [ret attrs] type
        Prog::skip_to_type(lx);
        let rt = self.p.ty(lx);
        if lx.is('(') { lx.next(); lx.skip_parens(); }
        let callee = match lx.next() {
            Some(T::Global(n)) => Ok(n),
            Some(T::Local(n)) => Err(n),
            Some(T::Word("asm")) => {
                let text = loop { match lx.next() { Some(T::Str(s)) => break String::from_utf8_lossy(&s).to_string(), None => panic!("asm"), _ => () } };
                loop { match lx.next() { Some(T::Str(_)) => break, None => panic!("asm"), _ => () } }
                let d = match &dst { Some(n) => self.def(n, &rt), None => self.fresh(rt.slots()) };
                let inner = text.trim();
                if inner.contains("cpuid") {
                    // a processor without optional features
                    for i in 0..rt.slots() as R { let z = self.opd(&C::Int(0), &Rc::new(Ty::Int(32))); self.insts.push(Inst::Mov { d: d + i, a: z }); }
                } else if inner.is_empty() || inner.starts_with("/*") && inner.ends_with("*/") && inner.matches("*/").count() == 1 {
                    // only hides a value from the optimiser
                    lx.expect('(');
                    if !lx.eat(')') {
                        let t = self.p.ty(lx);
                        Prog::skip_param_attrs(lx);
                        let c = self.p.constant(lx, &t);
                        let r = self.opd(&c, &t);
                        if dst.is_some() { for i in 0..rt.slots() as R { self.insts.push(Inst::Mov { d: d + i, a: r + i }); } }
                    }
                } else { self.insts.push(Inst::Unsupported(format!("inline asm {inner}"))); }
                return;
            }
            t => panic!("callee {:?} near {}", t, lx.ctx()),
        };
        lx.expect('(');
        let mut args: Vec<(Rc<Ty>, R)> = vec![];
        let mut kargs: Vec<Option<u128>> = vec![];
        if !lx.eat(')') {
            loop {
                let t = self.p.ty(lx);
                if *t == Ty::Meta {
                    let mut d = 0;
                    loop {
                        match lx.peek() { Some(T::P('(')) => d += 1, Some(T::P(')')) => { if d == 0 { break; } d -= 1 } Some(T::P(',')) if d == 0 => break, None => panic!(), _ => {} }
                        lx.next();
                    }
                } else {
                    Prog::skip_param_attrs(lx);
                    let c = self.p.constant(lx, &t);
                    kargs.push(match &c { C::Int(v) => Some(*v), C::Zero => Some(0), _ => None });
                    let r = self.opd(&c, &t);
                    args.push((t, r));
                }
                if lx.eat(')') { break; }
                lx.expect(',');
            }
        }
        let mut normal = None;
        if invoke {
            loop { match lx.next() { Some(T::Word("to")) => break, None => panic!(), _ => {} } }
            lx.next();
            if let Some(T::Local(n)) = lx.next() { normal = Some(n); }
        }
        let d = match &dst { Some(n) => self.def(n, &rt), None => self.fresh(rt.slots()) };
        if let Ok(n) = &callee { if let Some(name) = n.strip_prefix("llvm.") { self.intrinsic(name, d, &rt, &args, &kargs); if let Some(nn) = normal { let e = self.edge(&nn); self.insts.push(Inst::Br(e)); } return; } }
        let mut flat = vec![];
        for (t, r) in &args { for i in 0..t.slots() as R { flat.push(r + i); } }
        let callee = match callee {
            Ok(n) => Callee::Direct(self.p.resolve_fn(&n).unwrap_or_else(|| panic!("unknown function @{}", n))),
            Err(n) => { let pt = Rc::new(Ty::Ptr); Callee::Indirect(self.def(&n, &pt)) }
        };
        let nret = rt.slots() as u32;
        let normal = normal.map(|n| self.edge(&n));
        self.insts.push(Inst::Call(Box::new(CallI { callee, args: flat, dst: d, nret, normal })));
    }

    fn intrinsic(&mut self, name: &str, d: R, rt: &Rc<Ty>, args: &[(Rc<Ty>, R)], kargs: &[Option<u128>]) {
        let base = |p: &str| name.starts_with(p);
        if base("lifetime.") || base("experimental.noalias") || base("dbg.") || base("donothing") || base("prefetch") || base("invariant.") { return; }
        if base("x86.sse2.pause") { self.insts.push(Inst::Yield); return; }
        if base("assume") { self.insts.push(Inst::Assume { c: args[0].1 }); return; }
        if base("expect.") { self.insts.push(Inst::Mov { d, a: args[0].1 }); return; }
        if base("is.constant") { let z = self.kreg(0); self.insts.push(Inst::Mov { d, a: z }); return; }
        if base("trap") || base("debugtrap") || base("ubsantrap") { self.insts.push(Inst::Unreachable); return; }
        if base("memcpy.") || base("memmove.") { self.insts.push(Inst::MemCpy { d: args[0].1, s: args[1].1, n: args[2].1 }); return; }
        if base("memset.") { self.insts.push(Inst::MemSet { d: args[0].1, v: args[1].1, n: args[2].1 }); return; }
        if base("threadlocal.address") || base("launder.") || base("strip.") || base("ptrmask") && false { self.insts.push(Inst::Mov { d, a: args[0].1 }); return; }
        if base("load.relative") { self.insts.push(Inst::LoadRel { d, base: args[0].1, off: args[1].1 }); return; }
        if base("fabs.") { let w = rt.bits() as u8; self.insts.push(Inst::Float { op: FOp::Abs, w, wt: w, d, a: args[0].1, b: args[0].1 }); return; }
        if base("is.fpclass") { let w = args[0].0.bits() as u8; self.insts.push(Inst::Float { op: FOp::IsClass(kargs[1].unwrap() as u32), w, wt: 1, d, a: args[0].1, b: args[0].1 }); return; }
        let tbl: &[(&str, Intr)] = &[
            ("umax.", Intr::UMax), ("umin.", Intr::UMin), ("smax.", Intr::SMax), ("smin.", Intr::SMin),
            ("usub.sat.", Intr::USubSat), ("uadd.sat.", Intr::UAddSat), ("ssub.sat.", Intr::SSubSat), ("sadd.sat.", Intr::SAddSat),
            ("uadd.with", Intr::UAddO), ("usub.with", Intr::USubO), ("umul.with", Intr::UMulO), ("sadd.with", Intr::SAddO), ("ssub.with", Intr::SSubO), ("smul.with", Intr::SMulO),
            ("bswap.", Intr::BSwap), ("bitreverse.", Intr::BitReverse), ("ctlz.", Intr::Ctlz), ("cttz.", Intr::Cttz), ("ctpop.", Intr::Ctpop),
            ("fshl.", Intr::FShl), ("fshr.", Intr::FShr), ("abs.", Intr::Abs), ("ucmp.", Intr::UCmp), ("scmp.", Intr::SCmp),
        ];
        for (n, k) in tbl {
            if base(n) {
                let w = args[0].0.bits() as u8;
                let lanes = args[0].0.slots() as R;
                let wr = match **rt { Ty::Struct(..) => w, _ => rt.bits() as u8 };
                for i in 0..lanes {
                    let a = [args[0].1 + i, args.get(1).map(|x| if x.0.slots() as R == lanes { x.1 + i } else { x.1 }).unwrap_or(0), args.get(2).map(|x| x.1 + i).unwrap_or(0)];
                    self.insts.push(Inst::Intr { k: *k, w, d: d + i, a, wr });
                }
                return;
            }
        }
        if base("vector.reduce.or.") || base("vector.reduce.and.") || base("vector.reduce.add.") || base("vector.reduce.xor.") {
            let o = if base("vector.reduce.or.") { Op::Or } else if base("vector.reduce.and.") { Op::And } else if base("vector.reduce.xor.") { Op::Xor } else { Op::Add };
            let w = rt.bits() as u8;
            self.insts.push(Inst::Mov { d, a: args[0].1 });
            for i in 1..args[0].0.slots() as R { self.insts.push(Inst::Bin { op: o, w, d, a: d, b: args[0].1 + i }); }
            return;
        }
        self.insts.push(Inst::Unsupported(format!("intrinsic {}", name)));
    }
}

enum FlatV { K(u128), R(R) }
fn skip_fmf(lx: &mut Lex) { while let Some(T::Word("fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc")) = lx.peek() { lx.next(); } }
fn num_at(l: &[u8], mut i: usize) -> u32 { let mut v = 0; while i < l.len() && l[i].is_ascii_digit() { v = v * 10 + (l[i] - b'0') as u32; i += 1; } v }
fn find_last(t: &[u8], p: &[u8]) -> Option<usize> { if t.len() < p.len() { return None; } (0..=t.len() - p.len()).rev().find(|&i| &t[i..i + p.len()] == p) }
/// The entry block without a label is numbered after the unnamed parameters.
fn implicit_entry(_params: &[R], header: &[u8]) -> String {
    // count unnamed params = highest %N in header + 1
    let mut mx: i64 = -1;
    let mut i = 0;
    while i < header.len() {
        if header[i] == b'%' && i + 1 < header.len() && header[i + 1].is_ascii_digit() { mx = mx.max(num_at(header, i + 1) as i64); }
        i += 1;
    }
    (mx + 1).to_string()
}
