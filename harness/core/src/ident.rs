//! K01, I01, I02, I03: identities, IPLD signatures, principals and tokens.
use crate::{attenuate::{ascii, eq_bytes}, sym::{self, check}, text::{same_token, text, Pen}, world::*};
use anyhow::{anyhow, Result};
use async_trait::async_trait;
use cid::{multihash::{Code, MultihashDigest}, Cid};
use libipld_core::{ipld::Ipld, serde::{from_ipld, to_ipld}};
use serde_json::json;
use std::{collections::BTreeMap, str::FromStr};
use ucan::{builder::Signable, capability::{Capabilities, Capability}, crypto::{did::{BytesToKey, DidParser, DidPrefix}, JwtSignatureAlgorithm, KeyMaterial}, ipld::{Principle, Signature, UcanIpld, VarsigPrefix}, serde::Base64Encode, ucan::{UcanHeader, UcanPayload}, Ucan};

// K01 ------------------------------------------------------------------------

/// A key that tells which constructor made it, from which bytes.
struct Made { by: u8, bytes: Vec<u8> }
#[async_trait]
impl KeyMaterial for Made {
    fn get_jwt_algorithm_name(&self) -> String { format!("{}", self.by) }
    async fn get_did(&self) -> Result<String> { Ok(String::new()) }
    async fn sign(&self, _: &[u8]) -> Result<Vec<u8>> { Ok(self.bytes.clone()) }
    async fn verify(&self, _: &[u8], _: &[u8]) -> Result<()> { Ok(()) }
}
static mut REFUSALS: Vec<(u8, Vec<u8>, bool)> = vec![];
/// Whether a constructor takes these bytes: arbitrary, but always the same.
fn takes(by: u8, bytes: &[u8]) -> bool {
    let list = unsafe { &mut *std::ptr::addr_of_mut!(REFUSALS) };
    for (b, x, ok) in list.iter() { if *b == by && x == bytes { return *ok; } }
    let ok = sym::boolean();
    list.push((by, bytes.to_vec(), ok));
    ok
}
fn make(by: u8, bytes: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    global().ctor_log.push((by, bytes.clone()));
    if takes(by, &bytes) { Ok(Box::new(Made { by, bytes })) } else { Err(anyhow!("no such key")) }
}
fn make_0(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> { make(0, b) }
fn make_1(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> { make(1, b) }
fn make_2(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> { make(2, b) }
const MAKERS: [BytesToKey; 3] = [make_0, make_1, make_2];
fn forget() { unsafe { *std::ptr::addr_of_mut!(REFUSALS) = vec![] } global().ctor_log.clear(); }

/// (constructor, bytes) of the resolved key
fn resolve(p: &mut DidParser, did: &str) -> Option<(u8, Vec<u8>)> {
    match p.parse(did) {
        Ok(k) => Some((k.get_jwt_algorithm_name().parse().unwrap(), block_on(k.sign(b"")).unwrap())),
        Err(_) => None,
    }
}
fn multikey(b: &[u8]) -> String { format!("did:key:z{}", bs58::encode(b).into_string()) }
/// What a parser with this table should give, asking the constructor again if need be.
fn expect(table: &[(DidPrefix, usize)], did: &str) -> Option<(u8, Vec<u8>)> {
    let b = bs58::decode(did.strip_prefix("did:key:z")?).into_vec().ok()?;
    if b.len() < 2 { return None; }
    for (p, k) in table { if p.len() == 2 && all(&[p[0] == b[0], p[1] == b[1]]) { return if takes(*k as u8, &b[2..]) { Some((*k as u8, b[2..].to_vec())) } else { None }; } }
    None
}
fn keys() -> Vec<Vec<u8>> {
    let long: Vec<u8> = [0xed, 0x01].into_iter().chain((0..32).map(|i| i * 7 + 1)).collect();
    let mut near = long.clone();
    near[33] ^= 1;
    vec![
        vec![], vec![0xed], vec![0xed, 0x01], vec![0xed, 0x01, 5], vec![0xed, 0x02, 5], vec![0x80, 0x24, 0x01, 0x02], vec![0x80, 0x24, 0x80, 0x24], vec![0, 0, 7], vec![0, 0x01, 0xed], vec![0xed, 0x01, 0, 0],
        vec![1, 0xed, 9], vec![0x24, 0x80, 1, 2], long.clone(), near, long[..33].to_vec(),
    ]
}
fn same_key(a: &Option<(u8, Vec<u8>)>, b: &Option<(u8, Vec<u8>)>) -> bool {
    match (a, b) { (None, None) => true, (Some((x, v)), Some((y, w))) => x == y && eq_bytes(v, w), _ => false }
}
fn called_with(did: &str) -> bool {
    let rest = bs58::decode(&did["did:key:z".len()..]).into_vec().unwrap_or_default();
    global().ctor_log.iter().all(|(_, b)| rest.len() >= 2 && eq_bytes(b, &rest[2..]))
}
/// A table with two arbitrary prefixes, every identity of a list. param: identity
#[no_mangle]
pub fn k01_table() {
    forget();
    let k = keys().swap_remove(sym::param(0) as usize);
    let did = multikey(&k);
    let (p, q): (DidPrefix, DidPrefix) = (Box::leak(sym::bytes(2).into_boxed_slice()), Box::leak(sym::bytes(2).into_boxed_slice()));
    sym::assume(p != q);
    let odd: DidPrefix = if sym::boolean() { &[0xed] } else { &[0xed, 0x01, 5] };
    let mut list: Vec<(DidPrefix, BytesToKey)> = vec![(p, MAKERS[0]), (q, MAKERS[1]), (odd, MAKERS[2])];
    if sym::boolean() { list.reverse(); }
    let table = [(p, 0), (q, 1)];
    let mut parser = DidParser::new(&list);
    let got = resolve(&mut parser, &did);
    check(called_with(&did), 1, "a constructor is given the bytes after the prefix, complete and unaltered");
    let asked = global().ctor_log.len();
    let want = expect(&table, &did);
    check(same_key(&got, &want), 2, "the key of the constructor registered for the prefix, else an error");
    check(global().ctor_log.iter().all(|(by, _)| want.is_none() || *by == want.as_ref().unwrap().0), 3, "and of no other");
    check(asked <= 1, 4, "asked once");
    let again = resolve(&mut parser, &did);
    check(same_key(&again, &got), 5, "asking again gives the same");
    sym::observe(1, got.is_some() as u64);
    if got.is_some() { sym::reach(1); } else { sym::reach(2); }
}
/// A history of lookups, all pairs and triples of identities.
/// params: length, the first one, the second one
#[no_mangle]
pub fn k01_history() {
    forget();
    let n = sym::param(0) as usize;
    let long: Vec<u8> = [0xed, 0x01].into_iter().chain((0..32).map(|i| i * 7 + 1)).collect();
    let mut near = long.clone();
    near[33] ^= 1;
    let dids = [
        multikey(&long), multikey(&near), multikey(&[0xed, 0x01, 5]), multikey(&[0x80, 0x24, 5]), multikey(&[0xed, 0x02, 5]), multikey(&[0xed]), multikey(&[0, 0xed, 0x01, 5]),
        format!("did:key:Z{}", &multikey(&long)[9..]), multikey(&long)[..50].to_string(), format!("{}0", multikey(&[0xed, 0x01, 5])), multikey(&long).to_lowercase(), "did:web:x".to_string(),
    ];
    let list: Vec<(DidPrefix, BytesToKey)> = vec![(&[0xed, 0x01], MAKERS[0]), (&[0x80, 0x24], MAKERS[1])];
    let table: [(DidPrefix, usize); 2] = [(&[0xed, 0x01], 0), (&[0x80, 0x24], 1)];
    let mut parser = DidParser::new(&list);
    for i in 0..n {
        let d = &dids[if i < 2 { sym::param(1 + i as u32) as usize } else { sym::choose(dids.len() as u64) as usize }];
        let got = resolve(&mut parser, d);
        let fresh = resolve(&mut DidParser::new(&list), d);
        check(same_key(&got, &fresh), 1, "as a parser without a history would answer");
        check(same_key(&got, &expect(&table, d)), 2, "the key the identity names");
        sym::observe(1, got.is_some() as u64);
        if got.is_some() { sym::reach(2); }
    }
    sym::reach(1);
}
/// Many identities, then any one of them or its neighbour again. params: how many, length of the keys
#[no_mangle]
pub fn k01_many() {
    forget();
    let (n, len) = (sym::param(0) as usize, sym::param(1) as usize);
    let list: Vec<(DidPrefix, BytesToKey)> = vec![(&[0xed, 0x01], MAKERS[0]), (&[0x80, 0x24], MAKERS[1])];
    let table: [(DidPrefix, usize); 2] = [(&[0xed, 0x01], 0), (&[0x80, 0x24], 1)];
    let key = |i: usize, by: usize| { let mut b = if by == 0 { vec![0xed, 0x01] } else { vec![0x80, 0x24] }; b.extend((0..len).map(|k| (k * 11 + if k == len / 2 { i } else if k == len / 2 + 1 { i >> 8 } else { 0 }) as u8)); b };
    // one of them is refused
    let refused = sym::place(n);
    for i in 0..n { for by in 0..2 { unsafe { (*std::ptr::addr_of_mut!(REFUSALS)).push((by as u8, key(i, by)[2..].to_vec(), i != refused)) } } }
    let mut parser = DidParser::new(&list);
    let mut ask = |i: usize, by: usize| {
        let d = multikey(&key(i, by));
        let got = resolve(&mut parser, &d);
        check(same_key(&got, &expect(&table, &d)), 1, "the key the identity names, however many came before");
        got.is_some()
    };
    for i in 0..n { ask(i, i & 1); }
    for i in [refused, if n <= 100 { sym::place(n) } else { n / 3 }, 0, n - 1] { for by in 0..2 { sym::observe(1, ask(i, by) as u64); } }
    sym::reach(1);
}
/// Identities with arbitrary characters. params: what surrounds them, how many
#[no_mangle]
pub fn k01_text() {
    forget();
    let around = ["did:key:z", "did:key:z11", "did:key:zK", "did:key:", "did:", "", "did:key:z6Mk", "did:key:z2Dr"];
    let did = format!("{}{}", around[sym::param(0) as usize], text(sym::param(1) as usize));
    let list: Vec<(DidPrefix, BytesToKey)> = vec![(&[0xed, 0x01], MAKERS[0]), (&[0x80, 0x24], MAKERS[1]), (&[0x00, 0x00], MAKERS[2])];
    let table: [(DidPrefix, usize); 3] = [(&[0xed, 0x01], 0), (&[0x80, 0x24], 1), (&[0x00, 0x00], 2)];
    let mut parser = DidParser::new(&list);
    let got = resolve(&mut parser, &did);
    let want = expect(&table, &did);
    check(same_key(&got, &want), 1, "the key the identity names, else an error");
    sym::observe(1, got.is_some() as u64);
    if got.is_some() { sym::reach(2); }
    sym::reach(1);
}

// I01 ------------------------------------------------------------------------

const ALGS: &[(&str, u64)] = &[("EdDSA", 0xd0ed), ("RS256", 0xd01205), ("ES256", 0xd01200), ("ES384", 0xd01201), ("ES512", 0xd01202)];
const OTHERS: &[(VarsigPrefix, u64)] = &[
    (VarsigPrefix::EdDSA, 0xd0ed), (VarsigPrefix::RS256, 0xd01205), (VarsigPrefix::ES256, 0xd01200), (VarsigPrefix::ES384, 0xd01201), (VarsigPrefix::ES512, 0xd01202),
    (VarsigPrefix::ES256K, 0xd0e7), (VarsigPrefix::BLS12381G1, 0xd0ea), (VarsigPrefix::BLS12381G2, 0xd0eb), (VarsigPrefix::EIP191, 0xd191), (VarsigPrefix::NonStandard, 0xd000),
];
fn alg(k: usize) -> JwtSignatureAlgorithm { JwtSignatureAlgorithm::from_str(ALGS[k].0).unwrap() }
/// Unsigned varint.
fn varint(mut v: u64) -> Vec<u8> {
    let mut out = vec![];
    while v >= 0x80 { out.push(v as u8 | 0x80); v >>= 7; }
    out.push(v as u8);
    out
}
fn wrapping(k: usize, sig: &[u8]) -> Vec<u8> { [varint(ALGS[k].1), varint(sig.len() as u64), sig.to_vec()].concat() }
/// param: signature length
#[no_mangle]
pub fn i01_wrap() {
    let n = sym::param(0) as usize;
    let k = sym::choose(5) as usize;
    let sig = sym::bytes(n);
    let s = Signature::try_from((alg(k), &sig));
    check(s.is_ok(), 1, "every algorithm and signature can be wrapped");
    let s = s.unwrap();
    check(eq_bytes(&s.0, &wrapping(k, &sig)), 2, "as registered prefix, length and signature");
    let d = s.decode();
    check(d.is_ok(), 3, "and unwrapped");
    let (a, b) = d.unwrap();
    check(a == alg(k) && a.to_string() == ALGS[k].0, 4, "to the same algorithm");
    check(eq_bytes(&b, &sig), 5, "and signature");
    let mut longer = s.0.clone();
    longer.push(sym::bits(8) as u8);
    check(Signature(longer).decode().is_err(), 6, "an extra byte is rejected");
    check(Signature(s.0[..s.0.len() - 1].to_vec()).decode().is_err(), 7, "so is a missing one");
    let i = to_ipld(&s).unwrap();
    let back: Signature = from_ipld(i).unwrap();
    check(back == s, 8, "the wrapping itself survives IPLD");
    sym::reach(1);
}
/// Arbitrary bytes. param: number
#[no_mangle]
pub fn i01_bytes() {
    let b = sym::bytes(sym::param(0) as usize);
    unwrap(b);
}
/// An arbitrary header in front of a signature, or a mutated one. params: kind, signature length
#[no_mangle]
pub fn i01_header() {
    let n = sym::param(1) as usize;
    let k = sym::choose(5) as usize;
    let body = vec![7u8; n];
    let mut b = wrapping(k, &body);
    match sym::param(0) {
        0 => b[0] = sym::bits(8) as u8,
        1 => b[1] = sym::bits(8) as u8,
        2 => b[2] = sym::bits(8) as u8,
        3 => b[3] = sym::bits(8) as u8,
        4 => { b[3] = sym::bits(8) as u8; b[4] = sym::bits(8) as u8; }
        // the length, written with more bytes than needed
        5 => { let p = varint(ALGS[k].1).len(); let mut l = varint(n as u64); let e = l.len() - 1; l[e] |= 0x80; l.push(0); b = [b[..p].to_vec(), l, body].concat(); }
        // likewise the prefix
        6 => { let mut p = varint(ALGS[k].1); let q = p.len(); p[q - 1] |= 0x80; p.push(0); b = [p, b[q..].to_vec()].concat(); }
        // another length
        7 => { let p = varint(ALGS[k].1); let l = sym::bits(16); sym::assume(l < 128); b = [p, vec![l as u8], body].concat(); }
        _ => { let p = varint(ALGS[k].1); let l = sym::bytes(2); b = [p, l, body].concat(); }
    }
    unwrap(b);
}
fn unwrap(b: Vec<u8>) {
    let s = Signature(b.clone());
    let got = s.decode();
    sym::observe(1, got.is_ok() as u64);
    let possible = (0..5).fold(false, |a, k| {
        let p = varint(ALGS[k].1);
        if b.len() < p.len() + 1 { return a; }
        let rest = b.len() - p.len();
        let l1 = varint((rest - 1) as u64);
        // with a two byte length
        let l2 = if rest >= 2 { varint((rest - 2) as u64) } else { vec![] };
        let l3 = if rest >= 3 { varint((rest - 3) as u64) } else { vec![] };
        let here = eq_bytes(&b[..p.len()], &p);
        let fits = (l1.len() == 1 && eq_bytes(&b[p.len()..p.len() + 1], &l1)) | (l2.len() == 2 && eq_bytes(&b[p.len()..p.len() + 2], &l2)) | (l3.len() == 3 && eq_bytes(&b[p.len()..p.len() + 3], &l3));
        a | (here & fits)
    });
    check(got.is_ok() == possible, 10, "accepted exactly when it is a wrapping");
    if let Ok((a, sig)) = got {
        sym::reach(2);
        let again = Signature::try_from((a, &sig)).unwrap();
        check(eq_bytes(&again.0, &b), 11, "the unique one of what it unwraps to");
    }
    sym::reach(1);
}
/// Prefixes and algorithm names.
#[no_mangle]
pub fn i01_prefix() {
    if sym::boolean() {
        let v = sym::u64();
        let p = VarsigPrefix::try_from(v);
        let known = OTHERS.iter().fold(false, |a, (_, n)| a | (*n == v));
        check(p.is_ok() == known, 1, "exactly the registered prefixes are known");
        sym::observe(1, p.is_ok() as u64);
        if let Ok(p) = p {
            check(OTHERS.iter().any(|(x, n)| *x == p && *n == v), 2, "for what they are registered for");
            check(u64::from(p) == v, 3, "and converted back");
            sym::reach(1);
        }
    } else {
        for (k, (name, n)) in ALGS.iter().enumerate() {
            let p = VarsigPrefix::try_from(alg(k)).unwrap();
            check(OTHERS.iter().any(|(x, m)| *x == p && m == n), 4, "each algorithm has its prefix");
            let back = JwtSignatureAlgorithm::try_from(p);
            check(back.is_ok_and(|b| b == alg(k) && b.to_string() == *name), 5, "which names it");
            check(VarsigPrefix::from_str(name).is_ok_and(|p| u64::from(p) == *n), 6, "also from its name");
        }
        let t = ascii(5);
        let known = ALGS.iter().fold(false, |a, (name, _)| a | eq_bytes(name.as_bytes(), t.as_bytes()));
        let got = JwtSignatureAlgorithm::from_str(&t);
        check(got.is_ok() == known, 7, "exactly the known names are read");
        if let Ok(a) = got { check(eq_bytes(a.to_string().as_bytes(), t.as_bytes()), 8, "as what they name"); sym::reach(3); }
        for (p, n) in OTHERS { if !ALGS.iter().any(|(_, m)| m == n) { check(JwtSignatureAlgorithm::try_from(VarsigPrefix::try_from(u64::from(VarsigPrefix::try_from(*n).unwrap())).unwrap()).is_err(), 9, "prefixes of no JWT algorithm name none"); let _ = p; } }
    }
    sym::reach(2);
}

// I02 ------------------------------------------------------------------------

/// params: what surrounds the arbitrary text, how long it is
#[no_mangle]
pub fn i02_text() {
    const AROUND: &[(&str, &str)] = &[("did:key:z", ""), ("did:key:z1", ""), ("did:key:z", "1"), ("did:key:", ""), ("did:", ""), ("", ""), ("", "id:key:z2"), ("did:web:", "é"), ("did:key:z6Mk", "h"), ("did:key", "z2"), ("DID:", ""), ("did:key:zT", "Y")];
    let (pre, post) = AROUND[sym::param(0) as usize];
    let t = format!("{pre}{}{post}", text(sym::param(1) as usize));
    principal(&t);
}
fn principal(t: &str) {
    let got = Principle::from_str(t);
    sym::observe(1, got.is_ok() as u64);
    let is_did = t.len() >= 4 && eq_bytes(&t.as_bytes()[..4], b"did:");
    let is_key = t.len() >= 9 && eq_bytes(&t.as_bytes()[..9], b"did:key:z");
    check(got.is_err() | is_did, 1, "text that is not a DID is rejected");
    check(got.is_ok() | !is_did | is_key, 2, "every other DID is taken");
    match got {
        Ok(p) => {
            let s = p.to_string();
            check(eq_bytes(s.as_bytes(), t.as_bytes()), 3, "and given back identically");
            let q: Principle = from_ipld(to_ipld(&p).unwrap()).unwrap();
            check(q == p && eq_bytes(q.to_string().as_bytes(), t.as_bytes()), 4, "also through IPLD");
            sym::reach(1);
        }
        Err(_) => {
            if is_key {
                let b = bs58::decode(&t[9..]).into_vec();
                // such a key would read as another kind of DID
                check(match b { Ok(b) => b.starts_with(&[0x9d, 0x1a]), Err(_) => true }, 5, "only malformed keys are rejected");
            }
            sym::reach(2);
        }
    }
}
/// Whole identities with one arbitrary character. params: identity, position
#[no_mangle]
pub fn i02_mutate() {
    let long: Vec<u8> = [0xed, 0x01].into_iter().chain((0..32).map(|i| i * 7 + 1)).collect();
    let list = [multikey(&[0, 0, 0xed, 1, 2]), "did:web:example.com%3A3000:user:alice".to_string(), "did:pkh:eip155:1:0xab16a96D359eC26a11e2C2b3d8f8B8942d5Bfcdb".into(), multikey(&long), "did:key:".into(), "did:key:zé".into(), multikey(&[0x9d, 0x1a, 3])];
    let mut b = list[sym::param(0) as usize].clone().into_bytes();
    let p = sym::param(1) as usize % b.len();
    b[p] = sym::bits(8) as u8;
    let Ok(t) = String::from_utf8(b) else { sym::assume(false); return };
    principal(&t);
}
/// Two identities give equal principals exactly if they are the same.
/// params: the kinds, lengths
#[no_mangle]
pub fn i02_two() {
    const PRE: &[&str] = &["did:key:z", "did:", "did:key:z1", "did:key:"];
    let one = |k: u32| format!("{}{}", PRE[sym::param(k) as usize], text(sym::param(k + 1) as usize));
    let (a, b) = (one(0), one(2));
    let (Ok(p), Ok(q)) = (Principle::from_str(&a), Principle::from_str(&b)) else { sym::reach(3); return };
    check((p == q) == eq_bytes(a.as_bytes(), b.as_bytes()), 1, "equal exactly for the same DID");
    if a == b { sym::reach(1); } else { sym::reach(2); }
}
/// Any bytes can be shown, however they came. params: form, number
#[no_mangle]
pub fn i02_bytes() {
    let b = sym::bytes(sym::param(1) as usize);
    let b = match sym::param(0) { 0 => b, 1 => [&[0x9d, 0x1a], b.as_slice()].concat(), 2 => [&[0x9d], b.as_slice()].concat(), 3 => [&[0xed, 0x01], b.as_slice()].concat(), _ => [&[0x9d, 0x1a, b'k', b'e', b'y', b':', b'z'], b.as_slice()].concat() };
    let p: Principle = from_ipld(Ipld::List(b.iter().map(|x| Ipld::Integer(*x as i128)).collect())).unwrap();
    let s = p.to_string();
    check(s.len() >= 4 && eq_bytes(&s.as_bytes()[..4], b"did:"), 1, "any bytes can be shown, as a DID");
    if b.len() >= 2 && all(&[b[0] == 0x9d, b[1] == 0x1a]) {
        if let Ok(t) = std::str::from_utf8(&b[2..]) { check(eq_bytes(&s.as_bytes()[4..], t.as_bytes()), 2, "the one it stands for"); sym::reach(2); }
    } else {
        check(s.starts_with("did:key:z") && bs58::decode(&s[9..]).into_vec().is_ok_and(|v| eq_bytes(&v, &b)), 3, "a key, with exactly these bytes");
    }
    sym::reach(1);
}

// I03 ------------------------------------------------------------------------

fn cids() -> Vec<String> {
    let d = Code::Sha2_256.digest(b"x");
    vec![Cid::new_v1(0x55, Code::Blake3_256.digest(b"a")).to_string(), Cid::new_v1(0x71, d).to_string(), Cid::new_v0(d).unwrap().to_string(), Cid::new_v1(0x55, Code::Sha2_512.digest(b"b")).to_string()]
}
/// A token of this library, to IPLD and back. params: how it travels (0 as it
/// is, 1 as IPLD data), signature length
#[no_mangle]
pub fn i03_token() {
    if sym::is_symbolic() { opaque_json(); }
    let key = Pen {
        did: [did(0), "did:web:é".to_string(), "did:key".into()][sym::choose(3) as usize].clone(),
        alg: ALGS[sym::choose(5) as usize].0.into(),
        sig: sym::bytes(sym::param(1) as usize),
    };
    let mut s = Signable { issuer: &key, audience: did(1), capabilities: vec![], expiration: sym::opt_u64(), not_before: sym::opt_u64(), facts: BTreeMap::new(), proofs: vec![], add_nonce: false };
    match sym::choose(6) {
        0 => (),
        1 => s.add_nonce = true,
        2 => { s.facts.insert("k".into(), json!({ "n": sym::bits(63), "s": [sym::boolean(), "x", -1] })); s.facts.insert("a".into(), json!(0.5)); }
        3 => for c in ["w:2", "w:1", "w:2"] { s.capabilities.push(Capability::new(c.into(), "a".into(), json!({ "c": sym::bits(8) }))) },
        4 => { let c = cids(); s.proofs = vec![c[sym::choose(4) as usize].clone(), c[1].clone()]; }
        _ => s.audience = ["did:x", "did:", "did:key:z"][sym::choose(3) as usize].into(),
    }
    let u = block_on(s.sign()).unwrap();
    there_and_back(&u);
}
/// Tokens the builder does not make, but another library may.
/// param: as data or not
#[no_mangle]
pub fn i03_payload() {
    if sym::is_symbolic() { opaque_json(); }
    let header = UcanHeader { alg: ALGS[sym::choose(5) as usize].0.into(), typ: "JWT".into() };
    let payload = UcanPayload {
        ucv: ["0.10.0-canary", "", "0.8.1"][sym::choose(3) as usize].into(),
        iss: did(0), aud: "did:web:b".into(), exp: sym::opt_u64(), nbf: sym::opt_u64(),
        nnc: [None, Some(""), Some("n")][sym::choose(3) as usize].map(String::from),
        cap: Capabilities::try_from(&match sym::choose(4) { 0 => json!({}), 1 => json!({"w:0": {"a/0": []}}), 2 => json!({"": {"": [{}, {"": {}}]}}), _ => json!({"w:0": {"a/0": [{"x": [], "y": {}}, {}], "a/1": []}, "w:1": {"b": [{"n": 0}]}}) }).unwrap(),
        fct: match sym::choose(4) { 0 => None, 1 => Some(BTreeMap::new()), 2 => Some(BTreeMap::from([("".to_string(), json!({}))])), _ => Some(BTreeMap::from([("a".to_string(), json!([])), ("b".to_string(), json!(""))])) },
        prf: None,
    };
    let text = format!("{}.{}", header.jwt_base64_encode().unwrap(), payload.jwt_base64_encode().unwrap());
    there_and_back(&Ucan::new(header, payload, text.into_bytes(), vec![1, 2, 3]));
}
/// Much of everything, any one of which is odd. params: as data or not, what there is much of, how much
#[no_mangle]
pub fn i03_many() {
    if sym::is_symbolic() { opaque_json(); }
    let n = sym::param(2) as usize;
    let odd = sym::place(n);
    let key = Pen { did: did(0), alg: "EdDSA".into(), sig: if sym::param(1) == 0 { crate::text::long(n, 256) } else { b"sg".to_vec() } };
    let mut s = Signable { issuer: &key, audience: did(1), capabilities: vec![], expiration: None, not_before: None, facts: BTreeMap::new(), proofs: vec![], add_nonce: false };
    match sym::param(1) {
        0 => (),
        1 => for i in 0..n { s.facts.insert(format!("k{i}"), if i == odd { json!([sym::bits(8)]) } else { json!(i) }); },
        2 => for i in 0..n { s.proofs.push(if i == odd { cids()[sym::choose(4) as usize].clone() } else { cid(i).to_string() }); },
        3 => for i in 0..n { s.capabilities.push(Capability::new(format!("w:{}", if i == odd { 0 } else { i }), "a".into(), json!({ "c": if i == odd { sym::bits(8) } else { 1 } }))) },
        _ => for i in 0..n { s.capabilities.push(Capability::new("w:1".into(), format!("a/{}", i % 9), json!({ "c": if i == odd { sym::bits(8) } else { 1 } }))) },
    }
    there_and_back(&block_on(s.sign()).unwrap());
}
fn there_and_back(u: &Ucan) {
    let i = UcanIpld::try_from(u);
    check(i.is_ok(), 1, "the token can be converted");
    let mut i = i.unwrap();
    if sym::param(0) == 1 {
        let data = to_ipld(&i);
        check(data.is_ok(), 2, "to data");
        let again = from_ipld::<UcanIpld>(data.unwrap());
        check(again.is_ok(), 3, "and from it");
        let again = again.unwrap();
        check(again == i, 4, "unchanged");
        i = again;
    }
    let back = Ucan::try_from(&i);
    check(back.is_ok(), 5, "and back");
    let back = back.unwrap();
    same_token(&back, u, 10);
    check(eq_bytes(back.encode().unwrap().as_bytes(), u.encode().unwrap().as_bytes()), 6, "with the same text");
    let mut parser = did_parser();
    let (a, b) = (block_on(u.check_signature(&mut parser)).is_ok(), block_on(back.check_signature(&mut parser)).is_ok());
    check(a == b, 7, "so it still verifies");
    sym::reach(1);
}
/// Arbitrary text in a field, real JSON. params: 0, field, length
#[no_mangle]
pub fn i03_text() {
    let t = text(sym::param(2) as usize);
    let key = Pen { did: if sym::param(1) == 0 { format!("did:{t}") } else { did(0) }, alg: "EdDSA".into(), sig: b"sg".to_vec() };
    let mut s = Signable { issuer: &key, audience: did(1), capabilities: vec![], expiration: None, not_before: None, facts: BTreeMap::new(), proofs: vec![], add_nonce: false };
    sym::assume(t != "/");
    match sym::param(1) {
        0 => (),
        1 => s.audience = format!("did:{t}"),
        2 => { s.facts.insert(t.clone(), json!(t.clone())); }
        3 => s.capabilities.push(Capability::new(t.clone(), t.clone(), json!({ t.clone(): t.clone() }))),
        _ => (),
    }
    let mut u = block_on(s.sign()).unwrap();
    if sym::param(1) >= 4 {
        let mut p: UcanPayload = block_on(s.ucan_payload()).unwrap();
        if sym::param(1) == 4 { p.nnc = Some(t.clone()); } else { p.ucv = t.clone(); }
        let h = s.ucan_header();
        let signed = format!("{}.{}", h.jwt_base64_encode().unwrap(), p.jwt_base64_encode().unwrap());
        u = Ucan::new(h, p, signed.into_bytes(), b"q".to_vec());
    }
    there_and_back(&u);
}
/// Is this the one spelling of a proof identifier that a link can stand for?
fn canonical(t: &str) -> bool { Cid::try_from(t).is_ok_and(|c| eq_bytes(c.to_string().as_bytes(), t.as_bytes())) }
/// What cannot be represented is rejected. params: field, length of the arbitrary text
#[no_mangle]
pub fn i03_reject() {
    if sym::is_symbolic() { opaque_json(); }
    let t = text(sym::param(1) as usize);
    let mut key = Pen { did: did(0), alg: "EdDSA".into(), sig: b"sg".to_vec() };
    let good;
    match sym::param(0) {
        0 => { good = t.len() >= 4 && eq_bytes(&t.as_bytes()[..4], b"did:"); key.did = t.clone(); }
        1 => good = t.len() >= 4 && eq_bytes(&t.as_bytes()[..4], b"did:"),
        2 => { good = ALGS.iter().fold(false, |a, (n, _)| a | eq_bytes(n.as_bytes(), t.as_bytes())); key.alg = t.clone(); }
        3 | 4 => good = canonical(&t),
        5 => good = canonical(&format!("{}{t}", cids()[0])),
        _ => good = false,
    }
    let mut s = Signable { issuer: &key, audience: did(1), capabilities: vec![], expiration: None, not_before: None, facts: BTreeMap::new(), proofs: vec![], add_nonce: false };
    match sym::param(0) { 1 => s.audience = t.clone(), 3 => s.proofs = vec![t.clone()], 4 => s.proofs = vec![cids()[0].clone(), t.clone()], 5 => s.proofs = vec![format!("{}{t}", cids()[0])],
        // the same identifier, spelt in another way
        6 => {
            let c = Cid::try_from(cids()[sym::choose(2) as usize].as_str()).unwrap();
            let b = c.to_bytes();
            let hex: String = b.iter().map(|x| format!("{x:02x}")).collect();
            let list = [format!("z{}", bs58::encode(&b).into_string()), format!("f{hex}"), format!("F{}", hex.to_uppercase()), c.to_string().to_uppercase(), format!("/ipfs/{c}"), format!("f{hex}00"), format!("u{}", b64(&b)), format!("{c} ")];
            s.proofs = vec![list[sym::choose(list.len() as u64) as usize].clone()];
        }
        _ => () }
    let u = block_on(s.sign()).unwrap();
    let got = UcanIpld::try_from(&u);
    check(got.is_ok() == good, 1, "rejected when it has no representation, rather than altered");
    sym::observe(1, got.is_ok() as u64);
    if let Ok(i) = got { same_token(&Ucan::try_from(&i).unwrap(), &u, 10); sym::reach(2); }
    sym::reach(1);
}
