//! B01 to B04: building and signing tokens.
use crate::{attenuate::{eq_bytes, same}, reduce::{set_meaning, SymSemantics}, sym::{self, check}, text::{same_token, Pen}, world::*};
use anyhow::{anyhow, Result};
use base64::Engine;
use cid::{multihash::{Code, MultihashDigest}, Cid};
use serde_json::{json, Value};
use std::{cell::RefCell, collections::BTreeMap, sync::{Arc, Mutex}};
use ucan::{builder::{Signable, UcanBuilder}, capability::{Capability, CapabilityView, Resource, ResourceUri}, chain::{CapabilityInfo, ProofChain}, crypto::KeyMaterial, ucan::{UcanHeader, UcanPayload}, Ucan};

type Builder<'a> = UcanBuilder<'a, Pen>;
fn pens() -> (Pen, Pen) {
    (Pen { did: did(0), alg: "EdDSA".into(), sig: b"one".to_vec() }, Pen { did: did(1), alg: "ES256".into(), sig: b"two".to_vec() })
}
/// What was asked for so far.
#[derive(Clone, Default)]
struct Asked {
    issuer: Option<usize>,
    audience: Option<String>,
    lifetime: Option<u64>,
    expiration: Option<u64>,
    not_before: Option<u64>,
    facts: BTreeMap<String, Value>,
    proofs: Vec<String>,
    caps: Vec<(String, String, Value)>,
    nonce: bool,
}
impl Asked {
    fn expiry(&self, clock: u64) -> Option<u64> {
        match (self.expiration, self.lifetime) { (Some(e), _) => Some(e), (None, Some(l)) => Some(if l > u64::MAX - clock { u64::MAX } else { clock + l }), _ => None }
    }
    fn claim(&mut self, c: &Capability) { self.caps.push((c.resource.clone(), c.ability.clone(), c.caveat.clone())); }
    fn same_caps(&self, list: &[(String, String, Value)]) -> bool {
        list.len() == self.caps.len() && all(&list.iter().zip(self.caps.iter()).map(|(x, y)| x.0 == y.0 && x.1 == y.1 && same(&x.2, &y.2)).collect::<Vec<_>>())
    }
    /// In the order of a map: resources and abilities sorted, claim order within.
    fn grouped(&self) -> Vec<(String, String, Value)> {
        let mut v = self.caps.clone();
        v.sort_by(|a, b| (&a.0, &a.1).cmp(&(&b.0, &b.1)));
        v
    }
}
fn list(c: &[Capability]) -> Vec<(String, String, Value)> { c.iter().map(|c| (c.resource.clone(), c.ability.clone(), c.caveat.clone())).collect() }
fn same_list(a: &[(String, String, Value)], b: &[(String, String, Value)]) -> bool {
    a.len() == b.len() && all(&a.iter().zip(b).map(|(x, y)| x.0 == y.0 && x.1 == y.1 && same(&x.2, &y.2)).collect::<Vec<_>>())
}
fn same_facts(a: &BTreeMap<String, Value>, b: &BTreeMap<String, Value>) -> bool {
    a.len() == b.len() && all(&a.iter().zip(b).map(|((k, x), (l, y))| k == l && same(x, y)).collect::<Vec<_>>())
}

/// A value that cannot be written as JSON.
#[derive(Clone, serde::Serialize, serde::Deserialize)]
struct Odd(BTreeMap<Vec<u8>, u8>);

const CALLS: u64 = 14;
fn call<'a>(which: u64, b: Builder<'a>, w: &mut Asked, pens: &'a (Pen, Pen), tokens: &[Ucan]) -> Builder<'a> {
    let cap = |r: &str, a: &str| Capability::new(r.into(), a.into(), json!({ "v": sym::bits(8) }));
    match which {
        0 => { let k = sym::choose(2) as usize; w.issuer = Some(k); b.issued_by(if k == 0 { &pens.0 } else { &pens.1 }) }
        1 => { let a = ["did:key:zb", "", "c"][sym::choose(3) as usize]; w.audience = Some(a.into()); b.for_audience(a) }
        2 => { let l = sym::u64(); w.lifetime = Some(l); b.with_lifetime(l) }
        3 => { let e = sym::u64(); w.expiration = Some(e); b.with_expiration(e) }
        4 => { let n = sym::u64(); w.not_before = Some(n); b.not_before(n) }
        5 => { let v = sym::bits(8); w.facts.insert("k".into(), json!(v)); b.with_fact("k", v) }
        6 => { let v = json!([sym::boolean(), "x"]); w.facts.insert("l".into(), v.clone()); b.with_fact("l", v) }
        // a fact that is no JSON value cannot be added, and changes nothing
        7 => b.with_fact("k", Odd(BTreeMap::from([(vec![1], 2)]))),
        8 => { w.nonce = true; b.with_nonce() }
        9 => { let c = cap("w:2", "a/1"); w.claim(&c); b.claiming_capability(c) }
        10 => { let c = [cap("w:1", "a/2"), cap("w:2", "a/1")]; w.claim(&c[0]); w.claim(&c[1]); b.claiming_capabilities(&c) }
        11 => b.claiming_capabilities::<Capability>(&[]),
        12 => { let t = &tokens[sym::choose(2) as usize]; w.proofs.push(cid_text(t, Code::Blake3_256)); b.witnessed_by(t, None) }
        _ => {
            let t = &tokens[sym::choose(2) as usize];
            w.caps.push((format!("prf:{}", w.proofs.len()), "ucan/DELEGATE".into(), json!({})));
            w.proofs.push(cid_text(t, Code::Sha2_256));
            b.delegating_from(t, Some(Code::Sha2_256))
        }
    }
}
fn cid_text(t: &Ucan, code: Code) -> String { Cid::new_v1(0x55, code.digest(t.encode().unwrap().as_bytes())).to_string() }
fn tokens(n: usize) -> Vec<Ucan> {
    (0..n).map(|i| {
        let mut s = Spec::new(&did(i + 2), &did(0));
        s.cap.push((format!("w:{i}"), "a/0".into(), empty_map()));
        s.sig = vec![b's', i as u8, (i >> 8) as u8];
        Ucan::try_from(s.token().text).unwrap()
    }).collect()
}
fn configured(s: &Signable<Pen>, w: &Asked, clock: u64) {
    check(s.issuer.did == if w.issuer == Some(0) { did(0) } else { did(1) }, 3, "the last issuer");
    check(Some(&s.audience) == w.audience.as_ref(), 4, "the last audience");
    check(s.expiration == w.expiry(clock), 5, "the expiry");
    check(s.not_before == w.not_before, 6, "the last not-before");
    check(same_facts(&s.facts, &w.facts), 7, "all facts, the last for each key");
    check(s.proofs == w.proofs, 8, "all proofs");
    check(w.same_caps(&list(&s.capabilities)), 9, "all capabilities");
    check(s.add_nonce == w.nonce, 10, "a nonce only when asked for");
}
fn in_token(u: &Ucan, w: &Asked, clock: u64) {
    let (d, alg) = if w.issuer == Some(0) { (did(0), "EdDSA") } else { (did(1), "ES256") };
    check(u.issuer() == d && u.algorithm() == alg, 13, "issuer and algorithm");
    check(Some(u.audience()) == w.audience.as_deref(), 14, "audience");
    check(*u.expires_at() == w.expiry(clock) && *u.not_before() == w.not_before, 15, "times");
    let facts = if w.facts.is_empty() { u.facts().is_none() } else { u.facts().as_ref().is_some_and(|f| same_facts(f, &w.facts)) };
    check(facts, 16, "facts, absent if none");
    let proofs = if w.proofs.is_empty() { u.proofs().is_none() } else { u.proofs().as_ref() == Some(&w.proofs) };
    check(proofs, 17, "proofs, absent if none");
    let caps: Vec<Capability> = u.capabilities().iter().collect();
    check(same_list(&list(&caps), &w.grouped()), 18, "capabilities");
    check(u.nonce().is_some() == w.nonce, 19, "a nonce exactly when asked for");
    if let Some(n) = u.nonce() { check(!n.is_empty(), 20, "which is not empty"); }
}
/// Sequences of calls; the clock differs at every call. params: how many calls,
/// the first one, issuer and audience set before (0), after (1), or not (2)
#[no_mangle]
pub fn b01_calls() {
    let n = sym::param(0);
    let when = sym::param(2);
    if sym::is_symbolic() { opaque_json(); }
    let tokens = tokens(2);
    let pens = pens();
    let mut w = Asked::default();
    let mut b = UcanBuilder::default();
    if when == 0 {
        b = b.issued_by(&pens.0).for_audience("did:key:zx");
        w.issuer = Some(0); w.audience = Some("did:key:zx".into());
    }
    for i in 0..n {
        global().clock = 1_000_000 + i;
        let which = if i == 0 { sym::param(1) } else { sym::choose(CALLS) };
        b = call(which, b, &mut w, &pens, &tokens);
    }
    if when == 1 {
        b = b.for_audience("did:key:zx").issued_by(&pens.1);
        w.issuer = Some(1); w.audience = Some("did:key:zx".into());
    }
    let clock = sym::bits(62);
    global().clock = clock;
    let s = b.build();
    check(s.is_ok() == (w.issuer.is_some() && w.audience.is_some()), 1, "building succeeds exactly with issuer and audience");
    sym::observe(1, s.is_ok() as u64);
    let Ok(s) = s else { sym::reach(2); return };
    configured(&s, &w, clock);
    global().clock = clock / 2 + 5;
    let u = block_on(s.sign());
    check(u.is_ok(), 12, "signing succeeds");
    in_token(&u.unwrap(), &w, clock);
    sym::reach(1);
}
/// Many calls of one kind after any other call. params: the kind, how many
#[no_mangle]
pub fn b01_many() {
    if sym::is_symbolic() { opaque_json(); }
    let (kind, n) = (sym::param(0), sym::param(1) as usize);
    let tokens = tokens(2);
    let pens = pens();
    let mut w = Asked { issuer: Some(0), audience: Some("did:key:zx".into()), ..Default::default() };
    let mut b = UcanBuilder::default().issued_by(&pens.0).for_audience("did:key:zx");
    let first = sym::choose(CALLS);
    b = call(first, b, &mut w, &pens, &tokens);
    let odd = sym::place(n);
    let caps: Vec<Capability> = (0..n).map(|i| Capability::new(if i == odd { "w:0".into() } else { format!("w:{}", i * 7 % n) }, format!("a/{}", i % 3), json!({ "i": i, "v": if i == odd { sym::bits(8) } else { 0 } }))).collect();
    match kind {
        0 => for i in 0..n {
            let v = if i == odd { sym::u64() >> 1 } else { i as u64 };
            w.facts.insert(format!("f{i}"), json!(v));
            b = b.with_fact(&format!("f{i}"), v);
        },
        1 => for c in caps.iter() { w.claim(c); b = b.claiming_capability(c.clone()); },
        2 => { for c in caps.iter() { w.claim(c); } b = b.claiming_capabilities(&caps); }
        3 => for i in 0..n { let t = &tokens[(i == odd) as usize]; w.proofs.push(cid_text(t, Code::Blake3_256)); b = b.witnessed_by(t, None); },
        _ => for i in 0..n {
            let t = &tokens[(i == odd) as usize];
            w.caps.push((format!("prf:{}", w.proofs.len()), "ucan/DELEGATE".into(), json!({})));
            w.proofs.push(cid_text(t, Code::Blake3_256));
            b = b.delegating_from(t, None);
        },
    }
    let clock = sym::bits(62);
    global().clock = clock;
    let s = b.build().unwrap();
    configured(&s, &w, clock);
    let u = block_on(s.sign());
    check(u.is_ok(), 12, "signing succeeds");
    in_token(&u.unwrap(), &w, clock);
    sym::reach(1);
}
/// Cloning a builder gives an independent one. param: the call made on one
#[no_mangle]
pub fn b01_clone() {
    if sym::is_symbolic() { opaque_json(); }
    let tokens = tokens(2);
    let pens = pens();
    let mut w = Asked::default();
    let mut b = UcanBuilder::default().issued_by(&pens.0).for_audience("did:key:zx");
    w.issuer = Some(0); w.audience = Some("did:key:zx".into());
    let before = sym::choose(CALLS);
    b = call(before, b, &mut w, &pens, &tokens);
    let (c, v) = (b.clone(), w.clone());
    b = call(sym::param(0), b, &mut w, &pens, &tokens);
    let clock = sym::bits(62);
    global().clock = clock;
    let (s, t) = (b.build().unwrap(), c.build().unwrap());
    configured(&s, &w, clock);
    configured(&t, &v, clock);
    sym::reach(1);
}

/// Lifetimes and expiries in any order. params: number of calls, which of them
/// set the expiry (bits), when issuer and audience are set
#[no_mangle]
pub fn b02_expiry() {
    if sym::is_symbolic() { opaque_json(); }
    let n = sym::param(0);
    let pens = pens();
    let mut b = UcanBuilder::default();
    let (mut exp, mut life) = (None, None);
    for i in 0..=n {
        global().clock = sym::bits(62);
        if i == sym::param(2) { b = b.issued_by(&pens.0).for_audience("x"); }
        if i == n { break; }
        let v = sym::u64();
        if sym::param(1) >> i & 1 == 1 { exp = Some(v); b = b.with_expiration(v); } else { life = Some(v); b = b.with_lifetime(v); }
        if i == 0 && sym::boolean() { b = b.not_before(sym::u64()); }
    }
    let clock = sym::bits(62);
    global().clock = clock;
    let s = b.build().unwrap();
    global().clock = sym::bits(62);
    let u = block_on(s.sign()).unwrap();
    let got = *u.expires_at();
    check(got == s.expiration, 1, "the token expires when the signable does");
    match (exp, life) {
        (Some(e), _) => check(got == Some(e), 2, "the explicit expiry, whatever the order"),
        (None, Some(l)) => {
            let sum = clock as u128 + l as u128;
            let want = if sum > u64::MAX as u128 { u64::MAX } else { sum as u64 };
            check(got == Some(want), 3, "else the build time plus the lifetime, capped");
            check(got.is_some_and(|g| g >= clock), 4, "never before the build time");
            if l > u64::MAX - clock { sym::reach(2); }
        }
        (None, None) => check(got.is_none(), 5, "else never"),
    }
    let v = block_on(s.sign()).unwrap();
    check(*v.expires_at() == got, 6, "signing later does not move it");
    sym::observe(1, got.is_some() as u64);
    sym::reach(1);
}

/// Proofs and delegations of given tokens under given hashes.
/// params: number of calls, number of tokens, first call kind
#[no_mangle]
pub fn b03_proofs() {
    const CODES: &[Option<Code>] = &[None, Some(Code::Blake3_256), Some(Code::Sha2_256), Some(Code::Sha3_512)];
    if sym::is_symbolic() { opaque_json(); }
    unsafe { set_meaning(5) };
    let n = sym::param(0) as usize;
    let tokens = tokens(sym::param(1) as usize);
    let pens = pens();
    let mut b = UcanBuilder::default().issued_by(&pens.0).for_audience("did:key:zx");
    let (mut proofs, mut caps, mut store, mut passed) = (vec![], vec![], Store::default(), vec![false; 5]);
    let mut own = false;
    for i in 0..n {
        let what = if i == 0 { sym::param(2) } else { sym::choose(3) };
        if what == 2 {
            own = true;
            caps.push(("w:4".to_string(), "a/0".to_string(), json!({})));
            b = b.claiming_capability(Capability::new("w:4".into(), "a/0".into(), json!({})));
            continue;
        }
        let k = sym::choose(tokens.len() as u64) as usize;
        let code = CODES[sym::choose(4) as usize];
        let t = &tokens[k];
        let id = Cid::new_v1(0x55, code.unwrap_or(Code::Blake3_256).digest(t.encode().unwrap().as_bytes()));
        store.put(id, &t.encode().unwrap());
        if what == 1 {
            caps.push((format!("prf:{}", proofs.len()), "ucan/DELEGATE".to_string(), json!({})));
            passed[k] = true;
            b = b.delegating_from(t, code);
        } else { b = b.witnessed_by(t, code); }
        proofs.push(id.to_string());
    }
    let s = b.build().unwrap();
    check(s.proofs == proofs, 1, "one identifier for each call, in order");
    check(same_list(&list(&s.capabilities), &caps), 2, "and a claim for each delegation, naming its place");
    let u = block_on(s.sign()).unwrap();
    let mut parser = did_parser();
    let chain = block_on(ProofChain::from_ucan(u, None, &mut parser, &store));
    check(chain.is_ok(), 3, "the token cites tokens as the store files them");
    let infos: Vec<CapabilityInfo<_, _>> = chain.unwrap().reduce_capabilities(&SymSemantics);
    for k in 0..tokens.len() {
        let from: bool = infos.iter().any(|x| names(&x.capability, k) && x.originators.contains(&did(k + 2)));
        check(from == passed[k], 4, "the delegated tokens' capabilities and no others are handed on");
    }
    let others = infos.iter().filter(|x| names(&x.capability, 4)).count();
    check((others > 0) == own, 5, "beside its own");
    sym::observe(1, infos.len() as u64);
    sym::reach(1);
}
/// Many proofs, of which any one is delegated from. params: number, 1 if all others are too
#[no_mangle]
pub fn b03_many() {
    if sym::is_symbolic() { opaque_json(); }
    let (n, others) = (sym::param(0) as usize, sym::param(1) == 1);
    unsafe { set_meaning(n) };
    let tokens = tokens(n);
    let pens = pens();
    let odd = sym::place(n);
    let mut b = UcanBuilder::default().issued_by(&pens.0).for_audience("did:key:zx");
    let mut store = Store::default();
    for (i, t) in tokens.iter().enumerate() {
        let id = Cid::new_v1(0x55, Code::Blake3_256.digest(t.encode().unwrap().as_bytes()));
        store.put(id, &t.encode().unwrap());
        b = if (i == odd) != others { b.delegating_from(t, None) } else { b.witnessed_by(t, None) };
    }
    let u = block_on(b.build().unwrap().sign()).unwrap();
    let mut parser = did_parser();
    let chain = block_on(ProofChain::from_ucan(u, None, &mut parser, &store));
    check(chain.is_ok(), 3, "the token cites tokens as the store files them");
    let infos: Vec<CapabilityInfo<_, _>> = chain.unwrap().reduce_capabilities(&SymSemantics);
    let from: Vec<bool> = (0..n).map(|k| infos.iter().any(|x| names(&x.capability, k) && x.originators.contains(&did(k + 2)))).collect();
    check(from.iter().enumerate().all(|(i, f)| *f == ((i == odd) != others)), 4, "the delegated tokens' capabilities and no others are handed on");
    sym::observe(1, infos.len() as u64);
    sym::reach(1);
}
fn names(c: &CapabilityView<crate::reduce::Sc, crate::reduce::Ab>, k: usize) -> bool {
    matches!(&c.resource, Resource::Resource { kind: ResourceUri::Scoped(s) } if s.id == k)
}

/// A key that may fail, and remembers what it was given.
struct Moody { did: Option<String>, sig: Option<Vec<u8>>, alg: String, given: Mutex<RefCell<Vec<Vec<u8>>>> }
#[async_trait::async_trait]
impl KeyMaterial for Moody {
    fn get_jwt_algorithm_name(&self) -> String { self.alg.clone() }
    async fn get_did(&self) -> Result<String> { self.did.clone().ok_or_else(|| anyhow!("no identity")) }
    async fn sign(&self, payload: &[u8]) -> Result<Vec<u8>> {
        self.given.lock().unwrap().borrow_mut().push(payload.to_vec());
        self.sig.clone().ok_or_else(|| anyhow!("no signature"))
    }
    async fn verify(&self, _: &[u8], _: &[u8]) -> Result<()> { Err(anyhow!("not asked to")) }
}
/// params: what the claims are, length of the signature, through the builder or not
#[no_mangle]
pub fn b04_sign() {
    if sym::is_symbolic() { opaque_json(); }
    let key = Moody {
        did: if sym::boolean() { Some("did:key:zme".into()) } else { None },
        sig: if sym::boolean() { Some(crate::text::some(sym::param(1) as usize)) } else { None },
        alg: ["EdDSA", "ES256", "what\"ever"][sym::choose(3) as usize].into(),
        given: Mutex::new(RefCell::new(vec![])),
    };
    let claim = match sym::param(0) {
        0 => None,
        1 => Some(json!({})),
        2 => Some(json!({ "a": sym::bits(8) })),
        3 => Some(json!([sym::bits(4)])),
        4 => Some(json!(null)),
        5 => Some(json!("text")),
        6 => Some(json!(sym::bits(4))),
        _ => Some(json!(true)),
    };
    let fine = claim.as_ref().map(|c| c.is_object()).unwrap_or(true);
    let second = sym::boolean();
    let mut caps = vec![];
    if second { caps.push(Capability::new("w:0".into(), "a/1".into(), json!({}))); }
    if let Some(c) = claim { caps.push(Capability { resource: "w:1".into(), ability: "a/0".into(), caveat: c }); }
    let (nonce, fact) = (sym::boolean(), sym::boolean());
    let mut facts = BTreeMap::new();
    if fact { facts.insert("k".to_string(), json!(sym::bits(8))); }
    let exp = sym::opt_u64();
    let s = Signable { issuer: &key, audience: "did:key:zyou".into(), capabilities: caps.clone(), expiration: exp, not_before: None, facts: facts.clone(), proofs: vec![], add_nonce: nonce };
    let got = block_on(s.sign());
    let good = fine && key.did.is_some() && key.sig.is_some();
    check(got.is_ok() == good, 1, "signing succeeds exactly when the key does and every claim can be encoded");
    sym::observe(1, got.is_ok() as u64);
    let Ok(u) = got else { sym::reach(2); return };
    let given = key.given.lock().unwrap().borrow().clone();
    check(!given.is_empty() && all(&given.iter().map(|g| eq_bytes(g, u.signed_data())).collect::<Vec<_>>()), 2, "the signed data is what the key was given");
    check(eq_bytes(u.signature(), key.sig.as_ref().unwrap()), 3, "the signature is what the key returned");
    let text = u.encode();
    check(text.is_ok(), 4, "it can be encoded");
    let text = text.unwrap();
    let want = [u.signed_data(), b".", b64(u.signature()).as_bytes()].concat();
    check(eq_bytes(text.as_bytes(), &want), 5, "as signed data and signature");
    let signed = std::str::from_utf8(u.signed_data()).unwrap();
    let (h, p) = signed.split_once('.').unwrap();
    let decode = |x: &str| base64::engine::general_purpose::URL_SAFE_NO_PAD.decode(x).unwrap();
    let header: UcanHeader = libipld_core::serde::from_ipld(json_value(&decode(h))).unwrap();
    let payload: UcanPayload = libipld_core::serde::from_ipld(json_value(&decode(p))).unwrap();
    check(header.alg == key.alg && header.typ == "JWT", 6, "the first part is its header");
    check(payload.iss == "did:key:zme" && payload.aud == "did:key:zyou" && payload.exp == exp && payload.nbf.is_none() && payload.nnc.is_some() == nonce && payload.nnc == *u.nonce() && payload.prf.is_none() && payload.ucv == u.version(), 7, "the second its payload");
    check(payload.fct.is_some() == fact && payload.fct.as_ref().map(|f| same_facts(f, &facts)).unwrap_or(true), 8, "with its facts");
    let claims: Vec<Capability> = payload.cap.iter().collect();
    check(same_list(&list(&claims), &list(&caps)), 9, "and its claims");
    same_token(&Ucan::try_from(text).unwrap(), &u, 10);
    sym::reach(1);
}

// K02 ------------------------------------------------------------------------

/// What a key was asked, in order.
#[derive(Clone, Debug, PartialEq)]
enum Ask { Did, Sign(Vec<u8>), Verify(Vec<u8>, Vec<u8>) }
/// A key with a mind of its own, which writes down what it is asked.
#[derive(Clone)]
struct Scribe { alg: String, did: Option<String>, sig: Option<Vec<u8>>, good: bool, asked: Arc<Mutex<Vec<Ask>>> }
#[async_trait::async_trait]
impl KeyMaterial for Scribe {
    fn get_jwt_algorithm_name(&self) -> String { self.alg.clone() }
    async fn get_did(&self) -> Result<String> { self.asked.lock().unwrap().push(Ask::Did); self.did.clone().ok_or_else(|| anyhow!("no identity")) }
    async fn sign(&self, payload: &[u8]) -> Result<Vec<u8>> { self.asked.lock().unwrap().push(Ask::Sign(payload.to_vec())); self.sig.clone().ok_or_else(|| anyhow!("no signature")) }
    async fn verify(&self, payload: &[u8], signature: &[u8]) -> Result<()> {
        self.asked.lock().unwrap().push(Ask::Verify(payload.to_vec(), signature.to_vec()));
        if self.good { Ok(()) } else { Err(anyhow!("not by this key")) }
    }
}
fn wrapped<K: KeyMaterial>(k: K, own: &Scribe) {
    check(eq_bytes(k.get_jwt_algorithm_name().as_bytes(), own.alg.as_bytes()), 1, "the same algorithm");
    let fresh = || std::mem::take(&mut *own.asked.lock().unwrap());
    let did = block_on(k.get_did());
    check(match (&did, &own.did) { (Ok(a), Some(b)) => eq_bytes(a.as_bytes(), b.as_bytes()), (Err(e), None) => e.to_string() == "no identity", _ => false }, 2, "the same identity or failure");
    let asked = fresh();
    check(matches!(&asked[..], [Ask::Did]), 3, "asked once for its identity");
    let (p, g) = (sym::bytes(sym::param(1) as usize), sym::bytes(sym::param(2) as usize));
    let sig = block_on(k.sign(&p));
    check(match (&sig, &own.sig) { (Ok(a), Some(b)) => eq_bytes(a, b), (Err(e), None) => e.to_string() == "no signature", _ => false }, 4, "the same signature or failure");
    let asked = fresh();
    check(match &asked[..] { [Ask::Sign(x)] => eq_bytes(x, &p), _ => false }, 5, "asked once to sign exactly that");
    let verdict = block_on(k.verify(&p, &g));
    check(match &verdict { Ok(()) => own.good, Err(e) => !own.good && e.to_string() == "not by this key" }, 6, "the same verdict");
    let asked = fresh();
    check(match &asked[..] { [Ask::Verify(x, y)] => eq_bytes(x, &p) & eq_bytes(y, &g), _ => false }, 7, "asked once about exactly that payload and signature");
    // and so for a token that is signed with it
    let one = Signable { issuer: &k, audience: "did:key:zyou".into(), capabilities: vec![], expiration: sym::opt_u64(), not_before: None, facts: BTreeMap::new(), proofs: vec![], add_nonce: false };
    let two = Signable { issuer: own, audience: one.audience.clone(), capabilities: vec![], expiration: one.expiration, not_before: None, facts: BTreeMap::new(), proofs: vec![], add_nonce: false };
    match (block_on(one.sign()), block_on(two.sign())) {
        (Ok(a), Ok(b)) => { same_token(&a, &b, 10); sym::reach(1); }
        (Err(a), Err(b)) => { check(a.to_string() == b.to_string(), 8, "the same failure"); sym::reach(2); }
        _ => check(false, 9, "a token is signed or not, wrapped or not"),
    }
    sym::observe(1, verdict.is_ok() as u64 + 2 * did.is_ok() as u64 + 4 * sig.is_ok() as u64);
}
/// params: how the key is wrapped, lengths of payload and signature
#[no_mangle]
pub fn k02_wrapped() {
    if sym::is_symbolic() { opaque_json(); }
    let own = Scribe {
        alg: ["EdDSA", "ES256", ""][sym::choose(3) as usize].into(),
        did: if sym::boolean() { Some(format!("did:key:z{}", crate::attenuate::ascii(1))) } else { None },
        sig: if sym::boolean() { Some(sym::bytes(sym::param(2) as usize)) } else { None },
        good: sym::boolean(),
        asked: Default::default(),
    };
    let boxed = || -> Box<dyn KeyMaterial> { Box::new(own.clone()) };
    match sym::param(0) {
        0 => wrapped(boxed(), &own),
        1 => wrapped(Arc::new(own.clone()), &own),
        2 => wrapped(Arc::new(boxed()), &own),
        3 => wrapped(Arc::new(Arc::new(own.clone())), &own),
        _ => { let b: Box<dyn KeyMaterial> = Box::new(Arc::new(boxed())); wrapped(b, &own) }
    }
}
