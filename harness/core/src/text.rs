//! T01 to T04: token text, its fields, hostile text, identifiers.
use crate::{attenuate::{ascii, eq_bytes, same}, reduce::SymSemantics, sym::{self, check}, world::*};
use cid::{multihash::{Code, MultihashDigest}, Cid};
use libipld_core::{ipld::Ipld, serde::from_ipld};
use serde_json::{json, Map, Value};
use std::{collections::BTreeMap, str::FromStr};
use ucan::{builder::Signable, capability::{proof::ProofDelegationSemantics, Capabilities, Capability, CapabilitySemantics, Caveat}, chain::ProofChain, crypto::JwtSignatureAlgorithm, ipld::{Principle, Signature, UcanIpld, VarsigPrefix}, serde::Base64Encode, store::{MemoryStore, UcanJwtStore}, ucan::{UcanHeader, UcanPayload}, Ucan};

/// Value of a base64url character and whether it is one, without branching.
fn digit(c: u8) -> (u8, bool) {
    let (up, lo, nu) = ((c >= b'A') & (c <= b'Z'), (c >= b'a') & (c <= b'z'), (c >= b'0') & (c <= b'9'));
    let (mi, un) = (c == b'-', c == b'_');
    let v = (up as u8).wrapping_mul(c.wrapping_sub(b'A')) | (lo as u8).wrapping_mul(c.wrapping_sub(71)) | (nu as u8).wrapping_mul(c.wrapping_add(4)) | (mi as u8).wrapping_mul(62) | (un as u8).wrapping_mul(63);
    (v, up | lo | nu | mi | un)
}
/// Unpadded URL-safe base64, and what it decodes to.
pub fn strict(s: &[u8]) -> (bool, Vec<u8>) {
    let mut ok = s.len() % 4 != 1;
    let mut out = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for c in s {
        let (v, good) = digit(*c);
        ok &= good;
        acc = acc << 6 | v as u32;
        n += 6;
        if n >= 8 { n -= 8; out.push((acc >> n) as u8); }
    }
    (ok & (acc & ((1 << n) - 1) == 0), out)
}

const HEADERS: &[&str] = &[r#"{"alg":"EdDSA","typ":"JWT"}"#, r#"{ "typ": "JWT", "alg":"RS256" }"#];
const PAYLOADS: &[&str] = &[
    r#"{"aud":"did:key:zb","cap":{},"exp":null,"iss":"did:key:za","ucv":"0.10.0-canary"}"#,
    r#" { "ucv":"0.9.1", "iss":"a\u0062\n", "aud":"","exp" : 10 , "cap":{"w:1":{"x/y":[{},{"z":[1,-2,0.5,true,null]}]}}}"#,
    r#"{"prf":["b"],"nbf":7,"nnc":"n","fct":{"k":{"a":[]}},"aud":"a","cap":{},"exp":1844674407,"iss":"i","ucv":"1"}"#,
    r#"{"ucv":"1","iss":"","aud":"","exp":12,"cap":{"my:*":{"a":[{"b":"c"}]}},"xyz":[],"prf":[],"nbf":null}"#,
];
fn base(which: u64) -> String {
    let sig: &[u8] = &[b"sgn".as_slice(), b"", b"\x00\xff", b"x"][which as usize % 4];
    format!("{}.{}.{}", b64(HEADERS[which as usize % 2].as_bytes()), b64(PAYLOADS[which as usize % 4].as_bytes()), b64(sig))
}

/// The three ways to read a token agree.
fn read(text: &str, how: u64) -> Option<Ucan> {
    match how {
        0 => Ucan::from_str(text).ok(),
        1 => Ucan::try_from(text).ok(),
        _ => Ucan::try_from(text.to_string()).ok(),
    }
}
fn t01(text: &str) -> Option<Ucan> {
    let got = read(text, sym::choose(3));
    let parts: Vec<&[u8]> = text.as_bytes().split(|b| *b == b'.').collect();
    let decoded: Vec<(bool, Vec<u8>)> = parts.iter().map(|p| strict(p)).collect();
    let well = decoded.iter().fold(parts.len() == 3, |a, (ok, _)| a & ok);
    check(got.is_none() | well, 1, "text that is not three unpadded base64url parts is rejected");
    if let Some(got) = &got {
        check(parts.len() == 3, 2, "three parts");
        let last = text.len() - parts[parts.len() - 1].len() - 1;
        check(eq_bytes(got.signed_data(), &text.as_bytes()[..last]), 3, "the signed data is the text before the last dot");
        check(eq_bytes(got.signature(), &decoded[decoded.len() - 1].1), 4, "the signature is the decoded third part");
        match got.encode() {
            Ok(e) => check(eq_bytes(e.as_bytes(), text.as_bytes()), 5, "encoding gives the text back"),
            Err(_) => check(false, 6, "an accepted token can be encoded"),
        }
        sym::reach(2);
    }
    sym::observe(1, got.is_some() as u64);
    sym::reach(1);
    got
}
/// One arbitrary character. param: which base text, position
#[no_mangle]
pub fn t01_mutate() {
    let mut b = base(sym::param(0)).into_bytes();
    let p = sym::param(1) as usize % b.len();
    b[p] = ascii(1).as_bytes()[0];
    let text = unsafe { String::from_utf8_unchecked(b) };
    t01(&text);
}
/// Arbitrary characters inserted. param: which base text, where (0 start, 1 and 2
/// before the dots, 3 and 4 after them, 5 end), how many
#[no_mangle]
pub fn t01_insert() {
    let b = base(sym::param(0));
    let (d1, d2) = (b.find('.').unwrap(), b.rfind('.').unwrap());
    let at = [0, d1, d2, d1 + 1, d2 + 1, b.len()][sym::param(1) as usize];
    let text = format!("{}{}{}", &b[..at], ascii(sym::param(2) as usize), &b[at..]);
    t01(&text);
}
/// The whole signature is arbitrary text. param: base, length
#[no_mangle]
pub fn t01_signature() {
    let b = base(sym::param(0));
    let sig = ascii(sym::param(1) as usize);
    let text = format!("{}{sig}", &b[..b.rfind('.').unwrap() + 1]);
    let got = t01(&text);
    let (ok, _) = strict(sig.as_bytes());
    check(got.is_some() == ok, 7, "any unpadded base64url signature is accepted, and nothing else");
}
/// Long parts, with one arbitrary character. params: which part (0 the payload's, 1
/// the signature's, 2 the header's), length of what is encoded, position by eights
#[no_mangle]
pub fn t01_long() {
    let (part, n) = (sym::param(0), sym::param(1) as usize);
    let run = |n: usize| (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect::<String>();
    let payload = PAYLOADS[0].replacen('{', &format!("{{\"fct\":{{\"k\":\"{}\"}},", run(if part == 0 { n } else { 3 })), 1);
    let header = HEADERS[0].replacen('{', &format!("{{\"x\":\"{}\",", run(if part == 2 { n } else { 3 })), 1);
    let sig: Vec<u8> = (0..if part == 1 { n } else { 5 }).map(|i| (i * 37) as u8).collect();
    let parts = [b64(payload.as_bytes()), b64(&sig), b64(header.as_bytes())];
    let (h, p, s) = (parts[2].len(), parts[0].len(), parts[1].len());
    let mut b = format!("{}.{}.{}", parts[2], parts[0], parts[1]).into_bytes();
    let (from, len) = [(h + 1, p), (h + p + 2, s), (0, h)][part as usize];
    let at = sym::param(2) as usize * 8 + sym::choose(8) as usize;
    sym::assume(at < len);
    b[from + at] = ascii(1).as_bytes()[0];
    t01(&unsafe { String::from_utf8_unchecked(b) });
}
/// Parts left out, repeated, padded, or in the standard alphabet.
#[no_mangle]
pub fn t01_table() {
    let b = base(sym::choose(4));
    let p: Vec<&str> = b.split('.').collect();
    let (h, y, s) = (p[0], p[1], p[2]);
    let list = [
        String::new(), ".".into(), "..".into(), "...".into(), h.into(), format!("{h}."), format!("{h}.{y}"), format!("{h}.{y}."), format!("{h}.{y}.{s}."), format!("{h}.{y}.{s}.{s}"),
        format!(".{h}.{y}.{s}"), format!("{h}..{s}"), format!(".{y}.{s}"), format!("{h}.{y}.{s}="), format!("{h}.{y}.{s}=="), format!("{h}=.{y}.{s}"), format!("{h}.{y}=.{s}"), format!("{h}.{y}==.{s}"),
        format!(" {h}.{y}.{s}"), format!("{h}.{y}.{s} "), format!("{h}.{y}.{s}\n"), format!("{h} .{y}.{s}"), format!("{h}.{y}.a+/b"), format!("{h}.{y}.a-_b"), format!("{h}.{y}.é"), format!("{h}.{y}.A"),
        format!("{h}.{y}.AB"), format!("{h}.{y}.AA"), format!("{h}.{y}.AAA"), format!("{h}.{y}.AAB"), format!("{h},{y},{s}"), format!("{y}.{h}.{s}"), format!("{h}.{h}.{s}"), format!("{h}.{y}.{s}.."), format!("Bearer {h}.{y}.{s}"),
    ];
    t01(&list[sym::choose(list.len() as u64) as usize]);
}

// T02 ------------------------------------------------------------------------

/// A key that signs with whatever it was told to.
#[derive(Clone)]
pub struct Pen { pub did: String, pub alg: String, pub sig: Vec<u8> }
#[async_trait::async_trait]
impl ucan::crypto::KeyMaterial for Pen {
    fn get_jwt_algorithm_name(&self) -> String { self.alg.clone() }
    async fn get_did(&self) -> anyhow::Result<String> { Ok(self.did.clone()) }
    async fn sign(&self, _payload: &[u8]) -> anyhow::Result<Vec<u8>> { Ok(self.sig.clone()) }
    async fn verify(&self, _payload: &[u8], _signature: &[u8]) -> anyhow::Result<()> { Ok(()) }
}
/// Many bytes, of which one (the first, one in the middle, or the last) is arbitrary below a limit.
pub fn long(n: usize, limit: u16) -> Vec<u8> {
    let mut b: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
    let x = sym::bytes(1)[0];
    sym::assume((x as u16) < limit);
    b[[0, n / 2 + 1, n - 1][sym::choose(3) as usize]] = x;
    b
}
/// As many arbitrary bytes, or if there are many, one.
pub fn some(n: usize) -> Vec<u8> { if n >= 100 { long(n, 256) } else { sym::bytes(n) } }
pub fn text(n: usize) -> String {
    if n >= 10 { return String::from_utf8(long(n, 0x80)).unwrap(); }
    let b = sym::bytes(n);
    // arbitrary text, non-ASCII included
    match String::from_utf8(b) { Ok(s) => s, Err(_) => { sym::assume(false); String::new() } }
}

fn same_strings(a: &Option<Vec<String>>, b: &Option<Vec<String>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.len() == b.len() && all(&a.iter().zip(b).map(|(x, y)| eq_bytes(x.as_bytes(), y.as_bytes())).collect::<Vec<_>>()),
        _ => false,
    }
}
fn same_facts(a: &Option<BTreeMap<String, Value>>, b: &Option<BTreeMap<String, Value>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.len() == b.len() && all(&a.iter().zip(b).map(|((k, x), (l, y))| eq_bytes(k.as_bytes(), l.as_bytes()) && same(x, y)).collect::<Vec<_>>()),
        _ => false,
    }
}
pub fn same_caps(a: &Ucan, b: &Ucan) -> bool {
    let (a, b): (Vec<Capability>, Vec<Capability>) = (a.capabilities().iter().collect(), b.capabilities().iter().collect());
    a.len() == b.len() && all(&a.iter().zip(b.iter()).map(|(x, y)| eq_bytes(x.resource.as_bytes(), y.resource.as_bytes()) && eq_bytes(x.ability.as_bytes(), y.ability.as_bytes()) && same(&x.caveat, &y.caveat)).collect::<Vec<_>>())
}
/// Field by field, so that a failure says which.
pub fn same_token(a: &Ucan, b: &Ucan, id: u32) {
    let t = |x: &str, y: &str| eq_bytes(x.as_bytes(), y.as_bytes());
    check(t(a.issuer(), b.issuer()), id, "issuer");
    check(t(a.audience(), b.audience()), id + 1, "audience");
    check(a.expires_at() == b.expires_at(), id + 2, "expiry");
    check(a.not_before() == b.not_before(), id + 3, "not-before");
    check(match (a.nonce(), b.nonce()) { (None, None) => true, (Some(x), Some(y)) => t(x, y), _ => false }, id + 4, "nonce");
    check(same_caps(a, b), id + 5, "capabilities");
    check(same_facts(a.facts(), b.facts()), id + 6, "facts");
    check(same_strings(a.proofs(), b.proofs()), id + 7, "proofs");
    check(t(a.version(), b.version()), id + 8, "version");
    check(t(a.algorithm(), b.algorithm()), id + 9, "algorithm");
    check(eq_bytes(a.signed_data(), b.signed_data()), id + 10, "signed data");
    check(eq_bytes(a.signature(), b.signature()), id + 11, "signature");
    check(a == b, id + 12, "equal");
}
fn roundtrip(u: &Ucan) {
    let encoded = u.encode();
    check(encoded.is_ok(), 10, "the token can be encoded");
    let back = Ucan::try_from(encoded.unwrap());
    check(back.is_ok(), 11, "and its encoding parsed");
    same_token(&back.unwrap(), u, 12);
    sym::reach(1);
}

fn signable<'a>(pen: &'a Pen) -> Signable<'a, Pen> {
    Signable { issuer: pen, audience: "did:key:zb".into(), capabilities: vec![], expiration: None, not_before: None, facts: BTreeMap::new(), proofs: vec![], add_nonce: false }
}
fn pen() -> Pen { Pen { did: "did:key:za".into(), alg: "EdDSA".into(), sig: b"sg".to_vec() } }

/// Any times, any presence of fields; JSON text opaque. param: none
#[no_mangle]
pub fn t02_fields() {
    if sym::is_symbolic() { opaque_json(); }
    let mut k = pen();
    if sym::boolean() { k.alg = "RS256".into(); }
    k.sig = sym::bytes(sym::choose(4) as usize);
    let mut s = signable(&k);
    s.expiration = sym::opt_u64();
    s.not_before = sym::opt_u64();
    s.add_nonce = sym::boolean();
    if sym::boolean() { s.proofs = vec!["b".into(), "a".into(), "b".into()]; }
    if sym::boolean() { s.facts.insert("k".into(), json!({ "n": sym::u64() & 0x7fff_ffff_ffff_ffff, "s": [true, "x"] })); }
    match sym::choose(3) {
        0 => (),
        1 => s.capabilities.push(Capability::new("w:1".into(), "a".into(), json!({ "c": sym::bits(8) }))),
        _ => for c in ["w:2", "w:1", "w:2"] { s.capabilities.push(Capability::new(c.into(), "a".into(), json!({ "c": sym::boolean() }))) },
    }
    let (exp, nbf, nonce, proofs, facts) = (s.expiration, s.not_before, s.add_nonce, !s.proofs.is_empty(), !s.facts.is_empty());
    let u = block_on(s.sign()).unwrap();
    check(*u.expires_at() == exp && *u.not_before() == nbf && u.nonce().is_some() == nonce && u.proofs().is_some() == proofs && u.facts().is_some() == facts, 30, "present exactly as asked for");
    roundtrip(&u);
}
/// Arbitrary text in one place, real JSON. param: place, length
#[no_mangle]
pub fn t02_text() {
    let t = if sym::param(0) == 14 { String::new() } else { text(sym::param(1) as usize) };
    let mut k = pen();
    if sym::param(0) == 14 { k.sig = some(sym::param(1) as usize); }
    match sym::param(0) { 0 => k.did = t.clone(), 1 => k.alg = t.clone(), _ => () }
    let mut s = signable(&k);
    // DAG-JSON reserves maps with the one key "/"
    let free = t != "/";
    match sym::param(0) {
        2 => s.audience = t.clone(),
        3 => { sym::assume(free); s.facts.insert(t.clone(), json!(true)); }
        4 => { s.facts.insert("k".into(), json!(t.clone())); }
        5 => s.proofs = vec!["a".into(), t.clone()],
        6 => { sym::assume(free); s.capabilities.push(Capability::new(t.clone(), "a".into(), json!({}))); }
        7 => { sym::assume(free); s.capabilities.push(Capability::new("w:1".into(), t.clone(), json!({}))); }
        8 => { sym::assume(free); s.capabilities.push(Capability::new("w:1".into(), "a".into(), json!({ t.clone(): 1 }))); }
        9 => s.capabilities.push(Capability::new("w:1".into(), "a".into(), json!({ "k": [t.clone()] }))),
        10 => { let i = s.capabilities.len() as u64; s.capabilities.push(Capability::new("w:1".into(), "a".into(), json!({ "i": i, "k": t.clone() }))); s.capabilities.push(Capability::new(t.clone(), "a".into(), json!({}))); }
        _ => (),
    }
    let u = match sym::param(0) {
        // nonce and version are not the signer's to choose
        11 | 12 => {
            let payload = block_on(s.ucan_payload()).unwrap();
            let payload = if sym::param(0) == 11 { UcanPayload { nnc: Some(t.clone()), ..payload } } else { UcanPayload { ucv: t.clone(), ..payload } };
            let header = s.ucan_header();
            let signed = format!("{}.{}", header.jwt_base64_encode().unwrap(), payload.jwt_base64_encode().unwrap());
            Ucan::new(header, payload, signed.into_bytes(), b"q".to_vec())
        }
        13 => {
            let payload = block_on(s.ucan_payload()).unwrap();
            let header = UcanHeader { alg: "EdDSA".into(), typ: t.clone() };
            let signed = format!("{}.{}", header.jwt_base64_encode().unwrap(), payload.jwt_base64_encode().unwrap());
            Ucan::new(header, payload, signed.into_bytes(), b"q".to_vec())
        }
        _ => block_on(s.sign()).unwrap(),
    };
    roundtrip(&u);
}
/// Numbers in real JSON: a base with an arbitrary small addend. param: place, base
#[no_mangle]
pub fn t02_numbers() {
    const BASES: &[u64] = &[0, 90, 250, 9_990, 65_530, 4_294_967_290, 9_007_199_254_740_990, 9_223_372_036_854_775_800, 18_446_744_073_709_551_600];
    let n = BASES[sym::param(1) as usize] + sym::bits(if sym::param(1) < 4 { 4 } else { 2 });
    sym::assume(n != 0 || sym::param(1) == 0);
    let k = pen();
    let mut s = signable(&k);
    match sym::param(0) {
        0 => s.expiration = Some(n),
        1 => s.not_before = Some(n),
        2 => { s.facts.insert("k".into(), json!(n)); }
        3 => { s.facts.insert("k".into(), json!([-((n & 0x7fff_ffff_ffff_ffff) as i64)])); }
        _ => s.capabilities.push(Capability::new("w:1".into(), "a".into(), json!({ "k": n }))),
    }
    let u = block_on(s.sign()).unwrap();
    roundtrip(&u);
}
/// Values of every kind in facts and caveats. param: 0 facts, 1 caveats
#[no_mangle]
pub fn t02_values() {
    let leaf = || match sym::choose(12) {
        0 => json!(sym::boolean()), 1 => json!(""), 2 => json!("é\u{10ffff}\u{0}\"\\/"), 3 => json!([]), 4 => json!({}), 5 => json!(0.5), 6 => json!(-1.25e-3), 7 => json!(1e300), 8 => json!(-1),
        9 => json!(i64::MIN), 10 => json!({ "a": { "b": [1, [2]] }, "/x": 1 }), _ => json!([true, [false], {}]),
    };
    let v = if sym::boolean() { leaf() } else { json!([leaf(), { "k": leaf() }]) };
    let k = pen();
    let mut s = signable(&k);
    if sym::param(0) == 0 { s.facts.insert("k".into(), v); } else { s.capabilities.push(Capability::new("w:1".into(), "a".into(), json!({ "k": v }))); }
    let u = block_on(s.sign()).unwrap();
    roundtrip(&u);
}
/// Text of another implementation: fields are what the JSON says. param: text
#[no_mangle]
pub fn t02_read() {
    let which = sym::param(0);
    let c = ascii(1);
    let x = c.as_bytes()[0];
    // "b" would repeat a key
    sym::assume((x >= b' ') & (x != b'"') & (x != b'\\') & (x != b'/') & (x != b'b'));
    let (h, p) = match which {
        0 => (r#"{"alg":"EdDSA","typ":"JWT"}"#.to_string(), format!(r#"{{"iss":"{c}i","aud":"a{c}","exp":null,"cap":{{}},"ucv":"{c}"}}"#)),
        1 => (format!(r#" {{"typ" : "JWT" ,"alg":"{c}"}} "#), format!("{{\"ucv\":\"1\",\r\n\t\"iss\":\"i\",\"aud\":\"a\",\"cap\":{{\"w:{c}\":{{\"{c}\":[{{\"{c}\":\"{c}\"}},{{}}],\"b\":[]}}}},\"exp\":3,\"nbf\":4}}")),
        2 => (r#"{"alg":"x","typ":"y","kid":"z"}"#.to_string(), format!(r#"{{"iss":"i","aud":"a","exp":3,"nbf":4,"nnc":"{c}","prf":["{c}","q"],"fct":{{"f{c}":["{c}"]}},"cap":{{}},"ucv":"1","other":{{"iss":"no"}}}}"#)),
        _ => (r#"{"alg":"EdDSA","typ":"JWT"}"#.to_string(), r#"{"iss":"i","aud":"a","exp":null,"nbf":null,"nnc":null,"prf":null,"fct":null,"cap":{},"ucv":"1"}"#.to_string()),
    };
    let text = format!("{}.{}.{}", b64(h.as_bytes()), b64(p.as_bytes()), b64(b"sig"));
    let got = Ucan::from_str(&text);
    check(got.is_ok(), 40, "well-formed token text is read, whatever its layout");
    let u = got.unwrap();
    let caps: Vec<Capability> = u.capabilities().iter().collect();
    let sc = |k: &str| Some(k.to_string());
    let (iss, aud, alg, ucv, exp, nbf, nnc, prf, fct) = match which {
        0 => (format!("{c}i"), format!("a{c}"), "EdDSA".to_string(), c.clone(), None, None, None, None, None),
        1 => ("i".to_string(), "a".to_string(), c.clone(), "1".to_string(), Some(3), Some(4), None, None, None),
        2 => ("i".to_string(), "a".to_string(), "x".to_string(), "1".to_string(), Some(3), Some(4), sc(&c), Some(vec![c.clone(), "q".to_string()]), Some(BTreeMap::from([(format!("f{c}"), json!([c.clone()]))]))),
        _ => ("i".to_string(), "a".to_string(), "EdDSA".to_string(), "1".to_string(), None, None, None, None, None),
    };
    check(eq_bytes(u.issuer().as_bytes(), iss.as_bytes()) && eq_bytes(u.audience().as_bytes(), aud.as_bytes()) && eq_bytes(u.algorithm().as_bytes(), alg.as_bytes()) && eq_bytes(u.version().as_bytes(), ucv.as_bytes()), 41, "issuer, audience, algorithm, version");
    check(*u.expires_at() == exp && *u.not_before() == nbf, 42, "times");
    check(*u.nonce() == nnc && same_strings(u.proofs(), &prf) && same_facts(u.facts(), &fct), 43, "nonce, proofs, facts");
    if which == 1 {
        let cav: Map<String, Value> = [(c.clone(), json!(c.clone()))].into_iter().collect();
        check(caps.len() == 2 && caps[0].resource == format!("w:{c}") && caps[0].ability == c && same(&caps[0].caveat, &Value::Object(cav)) && same(&caps[1].caveat, &json!({})), 44, "capabilities");
    } else { check(caps.is_empty(), 45, "no capabilities"); }
    sym::reach(1);
}

// W01 ------------------------------------------------------------------------

/// JSON text without white space, keys in order.
fn written(v: &Value, out: &mut Vec<u8>) {
    match v {
        Value::Null => out.extend(b"null"),
        Value::Bool(b) => out.extend(if *b { b"true".as_slice() } else { b"false" }),
        Value::Number(n) => out.extend(format!("{}", n.as_u64().unwrap()).bytes()),
        Value::String(s) => quoted(s, out),
        Value::Array(a) => {
            out.push(b'[');
            for (i, v) in a.iter().enumerate() { if i > 0 { out.push(b','); } written(v, out); }
            out.push(b']');
        }
        Value::Object(o) => {
            let o: BTreeMap<&String, &Value> = o.iter().collect();
            out.push(b'{');
            for (i, (k, v)) in o.into_iter().enumerate() { if i > 0 { out.push(b','); } quoted(k, out); out.push(b':'); written(v, out); }
            out.push(b'}');
        }
    }
}
fn quoted(s: &str, out: &mut Vec<u8>) {
    out.push(b'"');
    for b in s.bytes() {
        match b {
            b'"' => out.extend(b"\\\""), b'\\' => out.extend(b"\\\\"), b'\n' => out.extend(b"\\n"), b'\r' => out.extend(b"\\r"), b'\t' => out.extend(b"\\t"), 8 => out.extend(b"\\b"), 12 => out.extend(b"\\f"),
            b if b < 0x20 => { out.extend(b"\\u00"); out.push(b'0' + (b >> 4)); out.push(if b & 15 < 10 { b'0' + (b & 15) } else { b'a' - 10 + (b & 15) }); }
            b => out.push(b),
        }
    }
    out.push(b'"');
}
/// The layout of a token's text. params: what is arbitrary (0 to 9 a text, 10
/// presence of the fields, 11 and 12 the times), length of the text or the base of the times
#[no_mangle]
pub fn w01_layout() {
    const BASES: &[u64] = &[0, 90, 65_530, 4_294_967_290, 9_223_372_036_854_775_800, 18_446_744_073_709_551_600];
    let place = sym::param(0);
    let t = if place < 10 { text(sym::param(1) as usize) } else { "t".to_string() };
    let at = |k: u64, other: &str| if place == k { t.clone() } else { other.to_string() };
    let free = |k: u64| sym::assume(place != k || t != "/");
    let (many, exp, nbf, nonce) = if place == 10 { (sym::bits(3), sym::boolean(), sym::boolean(), sym::boolean()) } else { (7, place == 11 || place == 13, place == 12 || place == 13, true) };
    let n = if place > 10 { BASES[sym::param(1) as usize] + sym::bits(if sym::param(1) < 2 { 4 } else { 2 }) } else { 1_234_567 };
    let k = Pen { did: at(0, "did:key:za"), alg: at(1, "EdDSA"), sig: sym::bytes(3) };
    let mut s = signable(&k);
    s.audience = at(2, "did:key:zb");
    if exp { s.expiration = Some(n); }
    if nbf { s.not_before = Some(n); }
    s.add_nonce = nonce;
    let mut want = BTreeMap::<String, Value>::new();
    for k in [3, 6, 7, 8] { free(k); }
    if many & 1 != 0 {
        s.facts.insert(at(3, "z"), json!([true, at(4, "v")]));
        if place != 3 { s.facts.insert("f".into(), json!({ "b": 1, "a": [] })); }
        want.insert("fct".into(), Value::Object(s.facts.iter().map(|(k, v)| (k.clone(), v.clone())).collect()));
    }
    if many & 2 != 0 {
        s.proofs = vec!["q".into(), at(5, "p")];
        want.insert("prf".into(), json!(s.proofs));
    }
    let mut caps = BTreeMap::<String, BTreeMap<String, Vec<Value>>>::new();
    if many & 4 != 0 {
        for (r, a, c) in [("w:2".to_string(), "m/n".to_string(), json!({})), (at(6, "w:1"), at(7, "x"), json!({ at(8, "k"): at(9, "v") })), ("w:2".to_string(), "a".to_string(), json!({ "c": 1 })), ("w:2".to_string(), "m/n".to_string(), json!({ "d": [] }))] {
            caps.entry(r.clone()).or_default().entry(a.clone()).or_default().push(c.clone());
            s.capabilities.push(Capability::new(r, a, c));
        }
    }
    want.insert("cap".into(), json!(caps));
    want.insert("ucv".into(), json!(ucan::ucan::UCAN_VERSION));
    want.insert("iss".into(), json!(k.did));
    want.insert("aud".into(), json!(s.audience));
    want.insert("exp".into(), json!(s.expiration));
    if nbf { want.insert("nbf".into(), json!(n)); }
    let u = block_on(s.sign()).unwrap();
    if nonce { want.insert("nnc".into(), json!(u.nonce().clone().unwrap())); }
    let (mut head, mut body) = (vec![], vec![]);
    written(&json!({ "alg": k.alg, "typ": "JWT" }), &mut head);
    written(&json!(want), &mut body);
    let encoded = u.encode().unwrap();
    let parts: Vec<&[u8]> = encoded.as_bytes().split(|b| *b == b'.').collect();
    check(parts.len() == 3, 1, "three parts");
    let decoded: Vec<(bool, Vec<u8>)> = parts.iter().map(|p| strict(p)).collect();
    check(all(&decoded.iter().map(|d| d.0).collect::<Vec<_>>()), 2, "each of unpadded base64url");
    check(eq_bytes(&decoded[0].1, &head), 3, "the header is alg and typ in canonical DAG-JSON");
    check(eq_bytes(&decoded[1].1, &body), 4, "the payload is aud, cap, exp, fct, iss, nbf, nnc, prf, ucv in canonical DAG-JSON, what is not set being left out, but for exp");
    check(eq_bytes(&decoded[2].1, &k.sig), 5, "the signature comes last");
    sym::observe(1, decoded[1].1.len() as u64);
    sym::reach(1);
}

// T03 ------------------------------------------------------------------------

/// Of did(1) for did(0), with the claim w:1 a/1.
fn proof() -> String {
    let p = format!(r#"{{"iss":"{}","aud":"{}","exp":null,"cap":{{"w:1":{{"a/1":[{{}}]}}}},"ucv":"0.10.0-canary"}}"#, did(1), did(0));
    format!("{}.{}.{}", b64(HEADERS[0].as_bytes()), b64(p.as_bytes()), b64(b"sig"))
}
/// Everything one would do with a token received from a stranger.
fn use_token(text: &str) -> u64 {
    let Ok(u) = Ucan::from_str(text) else { return 0 };
    let mut r = 1;
    let mut parser = did_parser();
    r += 2 * block_on(u.validate(Some(5), &mut parser)).is_ok() as u64;
    r += 4 * block_on(u.check_signature(&mut parser)).is_ok() as u64;
    r += 8 * u.encode().is_ok() as u64;
    r += 16 * u.to_cid(Code::Blake3_256).is_ok() as u64;
    if let Ok(i) = UcanIpld::try_from(&u) {
        r += 32;
        r += 64 * Ucan::try_from(&i).is_ok() as u64;
    }
    // a proof that cannot be the token itself, which would be a broken store
    let mut store = Store::default();
    store.put(cid(1), &proof());
    if let Ok(chain) = block_on(ProofChain::try_from_token_string(text, Some(5), &mut parser, &store)) {
        r += 128;
        r += 256 * chain.reduce_capabilities(&SymSemantics).len() as u64;
    }
    let _ = u.lifetime_encompasses(&u);
    r
}
fn hostile() -> Vec<(String, String)> {
    let own = format!(r#"{{"iss":"{}","aud":"b","exp":9,"nbf":1,"cap":{{"w:0":{{"a/0":[{{}}]}},"prf:0":{{"ucan/DELEGATE":[{{}}]}}}},"prf":["{}"],"fct":{{}},"nnc":"n","ucv":"0.10.0-canary"}}"#, did(0), cid(1));
    let plain = format!(r#"{{"iss":"{}","aud":"did:web:b","exp":null,"cap":{{"my:*":{{"a":[{{"x":[0.5]}}]}},"as:did:key:z:w:1":{{"a/1":[{{}}]}}}},"ucv":"1"}}"#, did(0));
    vec![(HEADERS[0].into(), own), (HEADERS[1].into(), plain)]
}
/// Arbitrary bytes in the JSON of a token, which is then put to use.
/// param: text, position, how many bytes
#[no_mangle]
pub fn t03_json() {
    unsafe { crate::reduce::set_meaning(4) };
    let (h, p) = hostile().swap_remove(sym::param(0) as usize);
    let at = sym::param(1) as usize;
    let (mut h, mut p) = (h.into_bytes(), p.into_bytes());
    let new = sym::bytes(sym::param(2) as usize);
    let all = h.len() + p.len();
    for (k, b) in new.iter().enumerate() {
        let i = (at + k) % all;
        if i < h.len() { h[i] = *b; } else { let j = i - h.len(); p[j] = *b; }
    }
    let text = format!("{}.{}.{}", b64(&h), b64(&p), b64(b"sig"));
    let r = use_token(&text);
    sym::observe(1, r);
    sym::reach(1);
}
/// Whole short texts. param: what is read, template, number of bytes
#[no_mangle]
pub fn t03_text() {
    unsafe { crate::reduce::set_meaning(4) };
    const AROUND: &[(&str, &str)] = &[("", ""), ("did:key:z", ""), ("did:", ""), ("did:key:", "x"), ("as:did:key:", ""), ("as:", ":w:1"), ("prf:", ""), ("my:", ""), ("é", "é"), ("..", ""), ("b", "")];
    let (pre, post) = AROUND[sym::param(1) as usize];
    let t = format!("{pre}{}{post}", text(sym::param(2) as usize));
    let mut parser = did_parser();
    let r = match sym::param(0) {
        0 => use_token(&t),
        1 => parser.parse(&t).is_ok() as u64,
        2 => SymSemantics.parse(&t, "a/0", None).is_some() as u64 + 2 * SymSemantics.parse("w:0", &t, Some(&json!(t.clone()))).is_some() as u64,
        3 => ProofDelegationSemantics {}.parse(&t, "ucan/DELEGATE", None).is_some() as u64 + 2 * ProofDelegationSemantics {}.parse("prf:*", &t, None).is_some() as u64,
        4 => { let p = Principle::from_str(&t); if let Ok(p) = &p { let _ = p.to_string(); } p.is_ok() as u64 }
        5 => Cid::try_from(t.as_str()).is_ok() as u64,
        _ => {
            // as the issuer and the proof of a token
            let mut s = Spec::new(&t, "b");
            s.prf = Some(vec![t.clone()]);
            s.unique = true;
            s.cap.push((t.clone(), t.clone(), empty_map()));
            use_token(&s.token().text)
        }
    };
    sym::observe(1, r);
    sym::reach(1);
}
/// Long, wide and repetitive texts, after 0 to 2 arbitrary ASCII characters,
/// at every place a text can stand, also where something else belongs.
/// param: what repeats, what comes before, number of arbitrary characters, where it stands
#[no_mangle]
pub fn t03_wide() {
    unsafe { crate::reduce::set_meaning(4) };
    const REPEATED: &[(&str, usize)] = &[("\u{20ac}", 90), ("\u{1f511}", 70), ("x", 300), (":", 200), (".", 200), ("/", 200), ("1", 120), ("0", 300), ("%", 100), ("*", 100), ("did:key:z", 30), ("[", 200), ("\0", 40), ("z", 120), ("\u{e9}", 130)];
    const BEFORE: &[&str] = &["", "did:key:z", "did:", "as:did:key:z", "as:did:key:z:", "prf:", "w:", "my:", "b"];
    let (what, times) = REPEATED[sym::param(0) as usize];
    let t = format!("{}{}{}", BEFORE[sym::param(1) as usize], ascii(sym::param(2) as usize), what.repeat(times));
    let show = sym::param(2) == 0;
    let mut parser = did_parser();
    let mut r = 0;
    match sym::param(3) {
        0 => {
            r += use_token(&t);
            r += parser.parse(&t).is_ok() as u64;
            r += SymSemantics.parse(&t, "a/0", None).is_some() as u64 + SymSemantics.parse("w:0", &t, Some(&json!(t.clone()))).is_some() as u64;
            r += ProofDelegationSemantics {}.parse(&t, "ucan/DELEGATE", None).is_some() as u64 + ProofDelegationSemantics {}.parse("prf:*", &t, None).is_some() as u64;
            if let Ok(p) = Principle::from_str(&t) { r += p.to_string().len() as u64; }
            r += Cid::try_from(t.as_str()).is_ok() as u64;
            r += JwtSignatureAlgorithm::from_str(&t).is_ok() as u64 + VarsigPrefix::from_str(&t).is_ok() as u64;
            r += Signature(t.clone().into_bytes()).decode().is_ok() as u64;
        }
        1 => {
            let good = || json!([{}]);
            for v in [json!({t.clone(): {"a/0": good()}}), json!({"w:0": {t.clone(): good()}}), json!(t.clone()), json!({"w:0": t.clone()}), json!({"w:0": {"a/0": t.clone()}}), json!({"w:0": {"a/0": [t.clone()]}}),
                json!({"w:0": {"a/0": [{}, [t.clone()]]}}), json!({"w:0": {"a/0": [{t.clone(): t.clone()}]}}), json!({t.clone(): {}}), json!({t.clone(): {t.clone(): [t.clone()]}}), json!({t.clone(): {t.clone(): []}})] {
                let c = Capabilities::try_from(&v);
                r = 2 * r + c.is_ok() as u64;
                if show { let _ = format!("{c:?}"); }
                r = r % 1000003 + serde_json::from_value::<Capabilities>(v).is_ok() as u64;
            }
            for v in [json!(t.clone()), json!([t.clone()]), json!({t.clone(): t.clone()})] {
                r += Caveat::try_from(&v).is_ok() as u64;
                let c = Capabilities::try_from(vec![Capability::new(t.clone(), t.clone(), v.clone())]);
                r += c.is_ok() as u64;
                if let Some(v) = SymSemantics.parse("w:0", "a/0", Some(&v)) { r += v.enables(&v) as u64; if show { let _ = format!("{v:?}"); } }
            }
        }
        n => {
            // in place of one field of a token
            let field = (n - 2) as usize;
            let (h, p) = hostile().swap_remove(0);
            let mut h: Value = serde_json::from_str(&h).unwrap();
            let mut p: Value = serde_json::from_str(&p).unwrap();
            let v = json!(t.clone());
            match field {
                0 => h["alg"] = v,
                1 => h["typ"] = v,
                2 => p["iss"] = v,
                3 => p["aud"] = v,
                4 => p["exp"] = v,
                5 => p["nbf"] = v,
                6 => p["cap"] = v,
                7 => p["prf"] = v,
                8 => p["prf"] = json!([v]),
                9 => p["fct"] = v,
                10 => p["fct"] = json!({ t.clone(): v }),
                11 => p["nnc"] = v,
                12 => p["ucv"] = v,
                13 => p["cap"] = json!({ t.clone(): { "a/0": [{}] } }),
                14 => p["cap"] = json!({ "w:0": { t.clone(): [{}] } }),
                15 => p["cap"] = json!({ "w:0": { "a/0": [v] } }),
                16 => p["cap"] = json!({ "prf:0": { "ucan/DELEGATE": [{ t.clone(): v }] } }),
                17 => p[t.clone()] = v,
                18 => p["cap"] = json!({ "w:0": v }),
                _ => p["cap"] = json!({ "w:0": { "a/0": v } }),
            }
            let text = format!("{}.{}.{}", b64(h.to_string().as_bytes()), b64(p.to_string().as_bytes()), b64(b"sig"));
            r += use_token(&text);
            if show { if let Err(e) = Ucan::from_str(&text) { let _ = format!("{e:?} {e}"); } else if let Ok(u) = Ucan::from_str(&text) { let _ = format!("{u:?}"); } }
        }
    }
    sym::observe(1, r);
    sym::reach(1);
}
/// Arbitrary bytes as parts of an IPLD token. param: what, number of bytes
#[no_mangle]
pub fn t03_bytes() {
    let b = sym::bytes(sym::param(1) as usize);
    let list = |b: &[u8]| Ipld::List(b.iter().map(|x| Ipld::Integer(*x as i128)).collect());
    let r = match sym::param(0) {
        0 => { let s = Signature(b.clone()).decode(); s.map(|x| x.1.len() as u64 + 1).unwrap_or(0) }
        1 | 2 => {
            let prefixed = if sym::param(0) == 2 { [&[0x9d, 0x1a], b.as_slice()].concat() } else { b.clone() };
            let p: Principle = from_ipld(list(&prefixed)).unwrap();
            p.to_string().len() as u64
        }
        _ => {
            let bytes = |n: u64| if sym::param(0) == n { list(&b) } else { list(&[0x9d, 0x1a, b'x']) };
            let m = BTreeMap::from([
                ("v".to_string(), Ipld::String("1".into())), ("iss".to_string(), bytes(3)), ("aud".to_string(), bytes(4)),
                ("s".to_string(), if sym::param(0) == 5 { list(&b) } else { list(&[0xed, 0xa1, 0x03, 1, 7]) }), ("cap".to_string(), empty_map()),
            ]);
            match from_ipld::<UcanIpld>(Ipld::Map(m)) { Ok(i) => { let u = Ucan::try_from(&i); if let Ok(u) = &u { use_token(&u.encode().unwrap()); } 1 + u.is_ok() as u64 } Err(_) => 0 }
        }
    };
    sym::observe(1, r);
    sym::reach(1);
}

// T04 ------------------------------------------------------------------------

const CODES: &[Code] = &[Code::Sha2_256, Code::Sha2_512, Code::Sha3_224, Code::Sha3_256, Code::Sha3_384, Code::Sha3_512, Code::Keccak224, Code::Keccak256, Code::Keccak384, Code::Keccak512, Code::Blake2b256, Code::Blake2b512, Code::Blake2s128, Code::Blake2s256, Code::Blake3_256];
/// param: layout of the token, signature length
#[no_mangle]
pub fn t04_identifier() {
    let layout = sym::param(0) as u8;
    let n = sym::param(1) as usize;
    let code = CODES[sym::choose(CODES.len() as u64) as usize];
    let mut s = Spec::new(&did(0), "b");
    s.layout = layout;
    s.exp = sym::opt_u64();
    s.sig = some(n);
    let t = s.token();
    let u = Ucan::from_str(&t.text).unwrap();
    let c = u.to_cid(code);
    check(c.is_ok(), 1, "a token has an identifier");
    let c = c.unwrap();
    check(c == Cid::new_v1(0x55, code.digest(t.text.as_bytes())), 2, "the raw identifier with the chosen hash of the text");
    check(c.hash().code() == u64::from(code) && c.codec() == 0x55 && c.version() == cid::Version::V1, 3, "version, codec and hash");
    if code == Code::Blake3_256 {
        let mut store = MemoryStore::default();
        let w = block_on(store.write_token(&t.text)).unwrap();
        check(w == c, 4, "the identifier under which a store using that hash files the text");
        check(block_on(store.require_token(&c)).ok() == Some(t.text.clone()), 5, "and gives it back");
        sym::reach(2);
    }
    // a token with another signature
    let mut o = s.clone();
    o.sig = some(n);
    let other = Ucan::from_str(&o.token().text).unwrap().to_cid(code).unwrap();
    check((other == c) == eq_bytes(&s.sig, &o.sig), 6, "equal exactly for equal text");
    sym::reach(1);
}
