//! C01, C03, C05, C09: which chains are accepted, and what they are made of.
use crate::{sym::{self, check}, world::*};
use std::str::FromStr;
use ucan::{chain::ProofChain, Ucan};

/// Proofs of each token; token 0 is the presented one.
pub const SHAPES: &[&[&[usize]]] = &[
    &[&[]],
    &[&[1], &[]],
    &[&[1, 2], &[], &[]],
    &[&[1, 2, 3], &[], &[], &[]],
    &[&[1], &[2], &[]],
    &[&[1], &[2], &[3], &[]],
    &[&[1, 2], &[3], &[], &[]],
    &[&[1, 2], &[], &[3], &[]],
    &[&[1, 1], &[]],
    &[&[1, 2], &[3], &[3], &[]],
];
/// The (citing) parent of each token; in the diamond, one of them.
fn parent(shape: &[&[usize]], i: usize) -> usize { shape.iter().position(|p| p.contains(&i)).unwrap() }

fn accept(root: &Token, how: u64, now: Option<u64>, store: &mut Store) -> Option<ProofChain> { accept_by(&mut did_parser(), root, how, now, store) }
fn accept_by(parser: &mut ucan::crypto::did::DidParser, root: &Token, how: u64, now: Option<u64>, store: &mut Store) -> Option<ProofChain> {
    match how {
        0 => block_on(ProofChain::try_from_token_string(&root.text, now, parser, store)).ok(),
        1 => block_on(ProofChain::from_ucan(Ucan::from_str(&root.text).unwrap(), now, parser, store)).ok(),
        _ => { store.put(cid(99), &root.text); block_on(ProofChain::from_cid(&cid(99), now, parser, store)).ok() }
    }
}

/// Walks the accepted chain along the shape and compares every node.
fn same_tree(chain: &ProofChain, shape: &[&[usize]], i: usize, tokens: &[Token]) -> bool {
    let t = &tokens[i];
    chain.ucan().signed_data() == t.signed.as_bytes()
        && chain.ucan().signature() == t.spec.sig
        && chain.proofs().len() == shape[i].len()
        && shape[i].iter().enumerate().all(|(k, j)| same_tree(&chain.proofs()[k], shape, *j, tokens))
}

/// param: shape, variation (0: who issued, layout, claims, entry point; 1: windows;
/// 2: who issued, signatures that recur, presented twice to one parser)
#[no_mangle]
pub fn c01_tree() {
    let shape = SHAPES[sym::param(0) as usize];
    let vary = sym::param(1);
    let n = shape.len();
    let g = global();
    g.arbitrary_verdicts = true;
    let how = if vary == 0 { sym::choose(3) } else { 0 };
    let layout = if vary == 0 { sym::choose(2) as u8 } else { 0 };
    let issuer: Vec<usize> = (0..n).map(|i| if vary != 1 { sym::choose(2) as usize } else { i }).collect();
    // the citers of a shared proof must have one issuer for the chain to stand
    let issuer: Vec<usize> = (0..n).map(|i| if shape == SHAPES[9] && i == 2 { issuer[1] } else { issuer[i] }).collect();
    let claim = if vary == 0 && n > 1 { sym::choose(3) } else { 0 };
    let recurring = vary == 2 && sym::boolean();
    let twins = vary == 0 && n > 2 && sym::boolean();
    let now = if vary == 1 { Some(sym::u64()) } else { None };
    let mut specs: Vec<Spec> = (0..n).map(|i| {
        let mut s = Spec::new(&did(issuer[i]), &if i == 0 { did(7) } else { did(issuer[parent(shape, i)]) });
        if vary == 1 { s.exp = sym::opt_u64(); s.nbf = sym::opt_u64(); }
        if !shape[i].is_empty() { s.prf = Some(shape[i].iter().map(|j| cid(*j).to_string()).collect()); }
        s.sig = if recurring { vec![b's'] } else { vec![b's', i as u8, (i >> 8) as u8] };
        if vary == 2 { s.cap.push((format!("w:{i}"), "a/0".into(), empty_map())); }
        s.layout = layout;
        s
    }).collect();
    match claim {
        1 => specs[0].cap.push(("prf:0".into(), "ucan/DELEGATE".into(), empty_map())),
        2 => specs[0].cap.push(("prf:*".into(), "ucan/DELEGATE".into(), empty_map())),
        _ => (),
    }
    // tokens saying the same under different signatures
    if twins && shape[1].is_empty() && shape[2].is_empty() {
        let sig = specs[2].sig.clone();
        specs[2] = specs[1].clone();
        specs[2].sig = sig;
    }
    let tokens: Vec<Token> = specs.iter().map(|s| s.token()).collect();
    let mut store = Store::default();
    for i in 1..n { store.put(cid(i), &tokens[i].text); }
    let mut parser = did_parser();
    // whatever else the parser has seen
    if vary == 2 && sym::boolean() { let _ = accept_by(&mut parser, &tokens[sym::choose(n as u64) as usize], 0, now, &mut store); }
    let chain = accept_by(&mut parser, &tokens[0], how, now, &mut store);
    sym::observe(1, chain.is_some() as u64);
    if let Some(chain) = &chain {
        for t in tokens.iter() {
            let key = key_of(&t.spec.iss);
            check(verified(&key, t.signed.as_bytes(), &t.spec.sig), 1, "every token's signature was verified with its issuer's key over its own text");
        }
        check(same_tree(chain, shape, 0, &tokens), 2, "the chain holds the tokens that were verified");
        sym::reach(1);
    } else { sym::reach(2); }
}
pub fn key_of(did_text: &str) -> Vec<u8> {
    (0..512).find(|i| did(*i) == did_text).map(key_bytes).unwrap_or_default()
}

/// param: shape, token whose audience is arbitrary (0: none), length change + 2
#[no_mangle]
pub fn c03_links() {
    let shape = SHAPES[sym::param(0) as usize];
    let odd = sym::param(1) as usize;
    let n = shape.len();
    let now = sym::u64();
    let mut specs: Vec<Spec> = (0..n).map(|i| {
        let mut s = Spec::new(&did(i), &if i == 0 { did(7) } else { did(parent(shape, i)) });
        s.unique = true;
        if i == odd && i > 0 {
            let len = (s.aud.len() as u64 + sym::param(2) - 2) as usize;
            let b = sym::bytes(len);
            for x in b.iter() { sym::assume(*x < 0x80); }
            s.aud = unsafe { String::from_utf8_unchecked(b) };
        }
        // windows everywhere, except that big shapes only get them around the odd link
        if n <= 3 || i <= 1 || i == odd { s.exp = sym::opt_u64(); s.nbf = sym::opt_u64(); }
        if !shape[i].is_empty() { s.prf = Some(shape[i].iter().map(|j| cid(*j).to_string()).collect()); }
        s
    }).collect();
    if shape == SHAPES[9] { specs[2].iss = specs[1].iss.clone(); }
    let tokens: Vec<Token> = specs.iter().map(|s| s.token()).collect();
    let mut store = Store::default();
    for i in 1..n { store.put(cid(i), &tokens[i].text); }
    let got = accept(&tokens[0], 0, Some(now), &mut store).is_some();
    let mut want = specs[0].within(now);
    for i in 0..n {
        for j in shape[i].iter() {
            let (p, c) = (&specs[*j], &specs[i]);
            let addressed = if p.aud.len() == c.iss.len() { all(&p.aud.bytes().zip(c.iss.bytes()).map(|(a, b)| a == b).collect::<Vec<_>>()) } else { false };
            want &= p.within(now) & p.encompasses(c) & addressed;
        }
    }
    check(!got | want, 1, "accepted only if every proof is addressed to its citer and outlives it");
    check(got | !want, 2, "accepted if every proof is addressed to its citer and outlives it");
    sym::observe(1, got as u64);
    sym::reach(1 + got as u32);
}

// What the store holds under a cited identifier, and how the citation is spelt.
const GOOD: u64 = 0;
fn store_case(case: u64, i: usize, good: &str) -> (String, Held, bool) {
    let bytes = |s: &[u8]| Held::Bytes(s.to_vec());
    let c = cid(i).to_string();
    match case {
        GOOD => (c, bytes(good.as_bytes()), true),
        1 => (c, Held::Nothing, false),
        2 => (c, Held::Failure, false),
        3 => (c, bytes(&[0xff, 0xfe]), false),
        4 => (c, bytes(b""), false),
        5 => (c, bytes(b"a.b.c"), false),
        6 => (c, bytes(good[..good.len() / 2].as_bytes()), false),
        7 => (String::new(), bytes(good.as_bytes()), false),
        8 => (c[..c.len() - 1].into(), bytes(good.as_bytes()), false),
        9 => (format!("{c}a"), bytes(good.as_bytes()), false),
        10 => (cid::Cid::new_v1(0x71, *cid(i).hash()).to_string(), bytes(good.as_bytes()), false),
        11 => (cid(i).to_string_of_base(cid::multibase::Base::Base58Btc).unwrap(), bytes(good.as_bytes()), true),
        12 => (cid(60).to_string(), bytes(good.as_bytes()), false),
        13 => (c, bytes(&[good.as_bytes(), &[0xff]].concat()), false),
        14 => ("bafy not a cid".into(), bytes(good.as_bytes()), false),
        _ => (format!(" {c}"), bytes(good.as_bytes()), false),
    }
}

/// param: number of proofs, which of them (and whether one level down) is odd
#[no_mangle]
pub fn c05_resolve() {
    let n = sym::param(0) as usize;
    let odd = sym::param(1) as usize;
    let deep = sym::param(2) == 1;
    let case = sym::choose(16);
    // an identifier may be cited twice
    let repeat = n > 1 && odd != 1 && sym::boolean();
    let how = sym::choose(3);
    let claim = sym::boolean();
    let mut store = Store::default();
    let mut root = Spec::new(&did(0), &did(7));
    let mut cited = vec![];
    let mut nodes: Vec<Token> = vec![];
    let mut want = true;
    for i in 0..n {
        let k = if repeat && i == 1 { 0 } else { i };
        let mut s = Spec::new(&did(k + 1), &did(0));
        s.sig = vec![b'p', k as u8];
        if deep && k == 0 {
            let mut inner = Spec::new(&did(5), &did(1));
            inner.sig = vec![b'q'];
            let inner = inner.token();
            let (text, held, ok) = store_case(if odd == 0 { case } else { GOOD }, 20, &inner.text);
            want &= ok;
            if i == 0 { store.held.push((held_under(&text, cid(20)), held)); }
            s.prf = Some(vec![text]);
        }
        let t = s.token();
        let (text, held, ok) = store_case(if odd == k && !(deep && k == 0) { case } else { GOOD }, k, &t.text);
        want &= ok;
        if !(repeat && i == 1) { store.held.push((held_under(&text, cid(k)), held)); }
        cited.push(text);
        nodes.push(t);
    }
    root.prf = Some(cited);
    if claim { root.cap.push(("prf:*".into(), "ucan/DELEGATE".into(), empty_map())); }
    let root = root.token();
    let chain = accept(&root, how, None, &mut store);
    check(chain.is_some() == want, 1, "built exactly when every cited identifier resolves to a token");
    sym::observe(1, chain.is_some() as u64);
    if let Some(chain) = &chain {
        check(chain.proofs().len() == n, 2, "one proof node per cited identifier");
        for (p, t) in chain.proofs().iter().zip(nodes.iter()) {
            check(p.ucan().signed_data() == t.signed.as_bytes() && p.ucan().signature() == t.spec.sig, 3, "each node is the token held under its identifier, in order");
        }
        sym::reach(1);
    } else { sym::reach(2); }
}
/// A dag-cbor identifier has the token under it as well.
fn held_under(text: &str, c: cid::Cid) -> cid::Cid {
    match cid::Cid::try_from(text) { Ok(d) if d.codec() == 0x71 => d, _ => c }
}

/// One character of the cited identifier is arbitrary. param: its position
#[no_mangle]
pub fn c05_identifier() {
    let pos = sym::param(0) as usize;
    let mut store = Store::default();
    let t = Spec::new(&did(1), &did(0)).token();
    store.put(cid(0), &t.text);
    let mut text = cid(0).to_string().into_bytes();
    let pos = pos % text.len();
    let b = sym::bytes(1)[0];
    sym::assume(b < 0x80);
    text[pos] = b;
    let text = unsafe { String::from_utf8_unchecked(text) };
    let want = matches!(cid::Cid::try_from(text.as_str()), Ok(c) if c == cid(0));
    let mut root = Spec::new(&did(0), &did(7));
    root.unique = true;
    root.prf = Some(vec![text]);
    let root = root.token();
    let got = accept(&root, 0, None, &mut store);
    check(got.is_some() == want, 4, "an altered identifier resolves only if it is the same identifier");
    sym::observe(1, want as u64);
    sym::reach(3 + want as u32);
}


/// Larger trees, in which any one token is odd. what: 1 its signature, 2 its
/// audience, 3 windows, 4 what the store has.
/// params: form (0 wide, 1 deep, 2 wide below one proof), number of tokens
fn large(what: u64) {
    let (form, n) = (sym::param(0), sym::param(1) as usize);
    let shape: Vec<Vec<usize>> = match form {
        0 => (0..n).map(|i| if i == 0 { (1..n).collect() } else { vec![] }).collect(),
        1 => (0..n).map(|i| if i + 1 < n { vec![i + 1] } else { vec![] }).collect(),
        _ => (0..n).map(|i| match i { 0 => vec![1], 1 => (2..n).collect(), _ => vec![] }).collect(),
    };
    let up = |i: usize| shape.iter().position(|p| p.contains(&i)).unwrap();
    let odd = sym::place(n);
    let ok = match what { 1 => sym::boolean(), _ => true };
    let mut want = ok;
    let now = if what == 3 { sym::u64() } else { 5 };
    let (exp, nbf) = if what == 3 { (sym::opt_u64(), sym::opt_u64()) } else { (None, None) };
    let mut specs: Vec<Spec> = (0..n).map(|i| {
        let mut s = Spec::new(&did(i), &if i == 0 { did(425) } else { did(up(i)) });
        s.unique = what == 3;
        s.sig = vec![b's', i as u8, (i >> 8) as u8];
        if !shape[i].is_empty() { s.prf = Some(shape[i].iter().map(|j| cid(*j).to_string()).collect()); }
        s.exp = exp;
        s.nbf = nbf;
        s
    }).collect();
    if what == 3 { specs[odd].exp = sym::opt_u64(); specs[odd].nbf = sym::opt_u64(); }
    if what == 2 && odd > 0 && sym::boolean() { specs[odd].aud = did(426); want = false; }
    let tokens: Vec<Token> = specs.iter().map(|s| s.token()).collect();
    let mut store = Store::default();
    let missing = what == 4 && odd > 0 && sym::boolean();
    for i in 1..n {
        let held = if missing && i == odd { want = false; if sym::boolean() { Held::Nothing } else { Held::Failure } } else { Held::Bytes(tokens[i].text.as_bytes().to_vec()) };
        store.held.push((cid(i), held));
    }
    for (i, t) in tokens.iter().enumerate() {
        want &= t.spec.within(now);
        for j in shape[i].iter() { want &= specs[*j].encompasses(&t.spec); }
        global().verdicts.push(Verify { key: key_bytes(i), data: t.signed.as_bytes().to_vec(), signature: t.spec.sig.clone(), ok: i != odd || ok });
    }
    // no signature but these is good
    let mut parser = did_parser();
    let before = global().verdicts.len();
    let chain = block_on(ProofChain::try_from_token_string(&tokens[0].text, Some(now), &mut parser, &store));
    check(global().verdicts.len() == before, 10, "the keys are asked about these texts and signatures alone");
    check(!chain.is_ok() | want, 11, "accepted only if nothing is amiss with any token");
    check(chain.is_ok() | !want, 12, "accepted if nothing is amiss");
    sym::observe(1, chain.is_ok() as u64);
    let Ok(chain) = chain else { sym::reach(12); return };
    fn tree(chain: &ProofChain, shape: &[Vec<usize>], i: usize, tokens: &[Token]) -> bool {
        let t = &tokens[i];
        chain.ucan().signed_data() == t.signed.as_bytes() && chain.ucan().signature() == t.spec.sig && chain.proofs().len() == shape[i].len() && shape[i].iter().enumerate().all(|(k, j)| tree(&chain.proofs()[k], shape, *j, tokens))
    }
    check(tree(&chain, &shape, 0, &tokens), 13, "the chain holds every token in its place");
    sym::reach(11);
}
#[no_mangle]
pub fn c01_large() { large(1) }
#[no_mangle]
pub fn c02_large() { large(3) }
#[no_mangle]
pub fn c03_large() { large(if sym::boolean() { 2 } else { 3 }) }
#[no_mangle]
pub fn c05_large() { large(4) }

/// Two presentations to one parser: what was seen the first time changes nothing
/// about the second. what: 2 at another time, 3 cited by another token, 5 with
/// another store.
fn again(what: u64) {
    let mut q = Spec::new(&did(2), &did(1));
    let mut p = Spec::new(&did(1), &did(0));
    let mut root = Spec::new(&did(0), &did(7));
    let mut other = Spec::new(&did(if what == 3 && sym::boolean() { 0 } else { 3 }), &did(8));
    if what == 2 || what == 3 {
        let which = sym::boolean();
        for s in [&mut q, &mut p, &mut root, &mut other] { let t = sym::opt_u64(); if which { s.exp = t } else { s.nbf = t } s.unique = true; }
    }
    p.prf = Some(vec![cid(2).to_string()]);
    root.prf = Some(vec![cid(1).to_string()]);
    other.prf = Some(vec![cid(1).to_string()]);
    let t: Vec<Token> = [&q, &p, &root, &other].iter().map(|s| s.token()).collect();
    let mut parser = did_parser();
    let mut present = |second: bool| {
        let now = if what == 2 { sym::u64() } else { 5 };
        let mut store = Store::default();
        let mut there = [true; 3];
        for (i, text) in [(2, &t[0].text), (1, &t[1].text)] {
            let state = if what == 5 { sym::choose(4) } else { 0 };
            let held = match state { 0 => Held::Bytes(text.as_bytes().to_vec()), 1 => Held::Nothing, 2 => Held::Failure, _ => Held::Bytes(b"a.b.c".to_vec()) };
            there[i] = state == 0;
            store.held.push((cid(i), held));
        }
        let k = if second { match what { 3 => 3, _ => 2 } } else { sym::choose(4) as usize };
        let chain = accept_by(&mut parser, &t[k], sym::choose(3), Some(now), &mut store);
        let links = |s: &Spec| p.encompasses(s) & q.encompasses(&p) & p.within(now) & q.within(now) & (s.iss == p.aud);
        let want = match k { 0 => q.within(now), 1 => p.within(now) & q.within(now) & q.encompasses(&p), 2 => root.within(now) & links(&root), _ => other.within(now) & links(&other) } & (k == 0 || there[2]) & (k <= 1 || there[1]);
        check(chain.is_some() == want, 14, "accepted exactly when all is well this time");
        if let Some(c) = &chain { check(c.ucan().signed_data() == t[k].signed.as_bytes() && c.proofs().len() == (k > 0) as usize && c.proofs().iter().all(|x| x.ucan().signed_data() == t[1].signed.as_bytes() || k == 1), 15, "with the tokens in their places"); }
        chain.is_some()
    };
    present(false);
    let r = present(true);
    sym::observe(1, r as u64);
    sym::reach(1 + r as u32);
}
#[no_mangle]
pub fn c02_again() { again(2) }
#[no_mangle]
pub fn c03_again() { again(3) }
#[no_mangle]
pub fn c05_again() { again(5) }
