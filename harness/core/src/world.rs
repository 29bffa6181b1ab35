//! The surroundings of the code under test: clock, hash, JSON text, keys, store.
use crate::sym;
use anyhow::{anyhow, Result};
use async_trait::async_trait;
use base64::Engine;
use cid::{multihash::MultihashGeneric, Cid};
use libipld_core::{codec::{Codec, Decode, Encode}, ipld::Ipld, raw::RawCodec};
use libipld_json::DagJsonCodec;
use std::{collections::BTreeMap, future::Future, io::Cursor, pin::pin, ptr::addr_of_mut, task::{Context, Poll, Waker}};
use ucan::{capability::Capabilities, crypto::{did::{BytesToKey, DidParser, DidPrefix}, KeyMaterial}, store::{UcanStore, UcanStoreConditionalSend}, ucan::{UcanHeader, UcanPayload}, Ucan};

pub struct Global {
    pub clock: u64,
    pub clock_reads: u64,
    hashed: Vec<(u64, Vec<u8>)>,
    jsons: Vec<Ipld>,
    pub json_on: bool,
    /// register every value that is encoded
    pub json_open: bool,
    pub verdicts: Vec<Verify>,
    pub verify_calls: u64,
    /// signatures verify unless this is set, in which case verdicts are arbitrary
    pub arbitrary_verdicts: bool,
    pub ctor_log: Vec<(u8, Vec<u8>)>,
}
#[derive(Clone, PartialEq)]
pub struct Verify { pub key: Vec<u8>, pub data: Vec<u8>, pub signature: Vec<u8>, pub ok: bool }

static mut GLOBAL: Option<Global> = None;
#[allow(static_mut_refs)]
pub fn global() -> &'static mut Global {
    unsafe {
        let g = &mut *addr_of_mut!(GLOBAL);
        if g.is_none() { reset(); }
        (*addr_of_mut!(GLOBAL)).as_mut().unwrap()
    }
}
pub fn reset() {
    unsafe {
        *addr_of_mut!(GLOBAL) = Some(Global { clock: 1_700_000_000, clock_reads: 0, hashed: vec![], jsons: vec![], json_on: false, json_open: false, verdicts: vec![], verify_calls: 0, arbitrary_verdicts: false, ctor_log: vec![] });
    }
}

/// The system clock, as the standard library reads it.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_clock: i32, ts: *mut i64) -> i32 {
    let g = &mut *addr_of_mut!(GLOBAL);
    let t = match g { Some(g) => { g.clock_reads += 1; g.clock } None => 1_700_000_000 };
    *ts = t as i64;
    *ts.add(1) = 0;
    0
}

/// Any injective function may stand for a hash function: equal inputs get equal
/// digests and different inputs different ones.
#[no_mangle]
pub fn __model_hash(algorithm: u64, input: &[u8], digest: &mut [u8]) {
    let g = global();
    let mut k = g.hashed.len();
    for (i, (a, h)) in g.hashed.iter().enumerate() {
        if *a == algorithm && h.len() == input.len() && h.as_slice() == input { k = i; break; }
    }
    if k == g.hashed.len() { g.hashed.push((algorithm, input.to_vec())); }
    for (i, d) in digest.iter_mut().enumerate() { *d = (k as u8).wrapping_mul(17).wrapping_add(i as u8).wrapping_add(algorithm as u8); }
    digest[0] = k as u8;
    digest[1] = (k >> 8) as u8;
}

/// Registered values have the opaque text 0xff 'J' index (two bytes) layout.
#[no_mangle]
pub fn __model_json_encode(ipld: &Ipld) -> Option<Vec<u8>> {
    let g = global();
    if !g.json_on { return None; }
    let k = match g.jsons.iter().position(|j| j == ipld) {
        Some(k) => k,
        None if g.json_open => { g.jsons.push(ipld.clone()); g.jsons.len() - 1 }
        None => return None,
    };
    Some(vec![0xff, b'J', k as u8, (k >> 8) as u8, 0])
}
#[no_mangle]
pub fn __model_json_decode(bytes: &[u8]) -> Option<Ipld> {
    let g = global();
    if bytes.len() != 5 || bytes[0] != 0xff || bytes[1] != b'J' { return None; }
    g.jsons.get(bytes[2] as usize | (bytes[3] as usize) << 8).cloned()
}
/// The JSON text of a value; a nonzero layout gives a text that says the same
/// but is not the one this library would write.
/// `unique` promises that no equal value was registered before.
pub fn json_text(ipld: &Ipld, layout: u8, unique: bool) -> Vec<u8> {
    if sym::is_symbolic() {
        let g = global();
        let same = if unique { None } else { g.jsons.iter().position(|j| j == ipld) };
        let k = match same {
            Some(k) => k,
            None => { g.jsons.push(ipld.clone()); g.jsons.len() - 1 }
        };
        g.json_on = true;
        vec![0xff, b'J', k as u8, (k >> 8) as u8, layout]
    } else {
        let mut v = vec![b' '; layout as usize];
        v.extend(DagJsonCodec.encode(ipld).unwrap());
        v
    }
}

/// What JSON text says.
pub fn json_value(text: &[u8]) -> Ipld { DagJsonCodec.decode(text).unwrap() }

/// From here on JSON text is opaque, whatever is encoded.
pub fn opaque_json() { let g = global(); g.json_on = true; g.json_open = true; }

pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    match f.as_mut().poll(&mut cx) { Poll::Ready(v) => v, Poll::Pending => panic!("the harness never suspends") }
}

/// Calls a predicate without letting the optimiser or a short circuit turn it
/// into a branch of the harness.
pub fn all(v: &[bool]) -> bool { v.iter().fold(true, |a, b| a & *b) }
pub fn any(v: &[bool]) -> bool { v.iter().fold(false, |a, b| a | *b) }

pub fn b64(v: &[u8]) -> String { base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(v) }

// Keys -----------------------------------------------------------------------

pub const PREFIX_A: &[u8] = &[0xed, 0x01];
pub const PREFIX_B: &[u8] = &[0x80, 0x24];

/// A public key whose verdict on a signature is arbitrary, but always the same
/// for the same key, text and signature.
pub struct Key { pub bytes: Vec<u8>, pub did: String }
#[async_trait]
impl KeyMaterial for Key {
    fn get_jwt_algorithm_name(&self) -> String { "EdDSA".into() }
    async fn get_did(&self) -> Result<String> { Ok(self.did.clone()) }
    async fn sign(&self, payload: &[u8]) -> Result<Vec<u8>> { Ok(signature_of(&self.bytes, payload)) }
    async fn verify(&self, payload: &[u8], signature: &[u8]) -> Result<()> {
        let g = global();
        g.verify_calls += 1;
        if verdict(&self.bytes, payload, signature) { Ok(()) } else { Err(anyhow!("bad signature")) }
    }
}
pub fn verdict(key: &[u8], data: &[u8], signature: &[u8]) -> bool {
    let g = global();
    for v in g.verdicts.iter() {
        if v.key == key && v.data == data && v.signature == signature { return v.ok; }
    }
    let ok = if g.arbitrary_verdicts { sym::boolean() } else { true };
    g.verdicts.push(Verify { key: key.to_vec(), data: data.to_vec(), signature: signature.to_vec(), ok });
    ok
}
/// Was this verified, and with success? Asks for no new verdict.
pub fn verified(key: &[u8], data: &[u8], signature: &[u8]) -> bool {
    global().verdicts.iter().any(|v| v.key == key && v.data == data && v.signature == signature && v.ok)
}
pub fn signature_of(key: &[u8], _payload: &[u8]) -> Vec<u8> { let mut v = b"sig-".to_vec(); v.extend_from_slice(key); v }

pub fn key_a(bytes: Vec<u8>) -> Result<Box<dyn KeyMaterial>> { Ok(Box::new(Key { did: did_of(PREFIX_A, &bytes), bytes })) }
pub fn did_of(prefix: &[u8], key: &[u8]) -> String {
    format!("did:key:z{}", bs58::encode([prefix, key].concat()).into_string())
}
pub fn key_bytes(i: usize) -> Vec<u8> { if i < 256 { vec![b'k', i as u8] } else { vec![b'k', i as u8, (i >> 8) as u8] } }
pub fn did(i: usize) -> String { did_of(PREFIX_A, &key_bytes(i)) }
pub fn key(i: usize) -> Key { Key { bytes: key_bytes(i), did: did(i) } }
pub fn did_parser() -> DidParser {
    let table: [(DidPrefix, BytesToKey); 1] = [(PREFIX_A, key_a)];
    DidParser::new(&table)
}

// Tokens ---------------------------------------------------------------------

#[derive(Clone)]
pub struct Spec {
    pub iss: String,
    pub aud: String,
    pub exp: Option<u64>,
    pub nbf: Option<u64>,
    pub cap: Vec<(String, String, Ipld)>,
    pub prf: Option<Vec<String>>,
    pub sig: Vec<u8>,
    pub layout: u8,
    pub unique: bool,
}
/// A token as text.
#[derive(Clone)]
pub struct Token { pub spec: Spec, pub signed: String, pub text: String }
impl Spec {
    pub fn new(iss: &str, aud: &str) -> Spec {
        Spec { iss: iss.into(), aud: aud.into(), exp: None, nbf: None, cap: vec![], prf: None, sig: b"s".to_vec(), layout: 0, unique: false }
    }
    pub fn payload(&self) -> Ipld {
        let mut m = BTreeMap::new();
        m.insert("ucv".to_string(), Ipld::String("0.10.0-canary".into()));
        m.insert("iss".to_string(), Ipld::String(self.iss.clone()));
        m.insert("aud".to_string(), Ipld::String(self.aud.clone()));
        m.insert("exp".to_string(), match self.exp { Some(e) => Ipld::Integer(e as i128), None => Ipld::Null });
        if let Some(n) = self.nbf { m.insert("nbf".to_string(), Ipld::Integer(n as i128)); }
        let mut cap: BTreeMap<String, Ipld> = BTreeMap::new();
        for (r, a, c) in self.cap.iter() {
            let abilities = cap.entry(r.clone()).or_insert_with(|| Ipld::Map(BTreeMap::new()));
            if let Ipld::Map(abilities) = abilities {
                let caveats = abilities.entry(a.clone()).or_insert_with(|| Ipld::List(vec![]));
                if let Ipld::List(caveats) = caveats { caveats.push(c.clone()); }
            }
        }
        m.insert("cap".to_string(), Ipld::Map(cap));
        if let Some(p) = &self.prf { m.insert("prf".to_string(), Ipld::List(p.iter().map(|x| Ipld::String(x.clone())).collect())); }
        Ipld::Map(m)
    }
    pub fn signed_text(&self) -> String {
        format!("{}.{}", b64(br#"{"alg":"EdDSA","typ":"JWT"}"#), b64(&json_text(&self.payload(), self.layout, self.unique)))
    }
    pub fn text(&self) -> String { format!("{}.{}", self.signed_text(), b64(&self.sig)) }
    pub fn token(&self) -> Token {
        let signed = self.signed_text();
        Token { spec: self.clone(), text: format!("{}.{}", signed, b64(&self.sig)), signed }
    }
    pub fn within(&self, t: u64) -> bool {
        (match self.nbf { Some(n) => n <= t, None => true }) & (match self.exp { Some(e) => t <= e, None => true })
    }
    pub fn encompasses(&self, b: &Spec) -> bool { self.start_ok(b) & self.end_ok(b) }
    pub fn start_ok(&self, b: &Spec) -> bool {
        match (self.nbf, b.nbf) { (None, _) => true, (Some(_), None) => false, (Some(x), Some(y)) => x <= y }
    }
    pub fn end_ok(&self, b: &Spec) -> bool {
        match (self.exp, b.exp) { (None, _) => true, (Some(_), None) => false, (Some(x), Some(y)) => x >= y }
    }
    pub fn build(&self, cap: Capabilities) -> Ucan {
        Ucan::new(
            UcanHeader { alg: "EdDSA".into(), typ: "JWT".into() },
            UcanPayload { ucv: "0.10.0-canary".into(), iss: self.iss.clone(), aud: self.aud.clone(), exp: self.exp, nbf: self.nbf, nnc: None, cap, fct: None, prf: self.prf.clone() },
            self.signed_text().into_bytes(),
            self.sig.clone(),
        )
    }
}
pub fn no_caps() -> Capabilities { Capabilities::try_from(vec![]).unwrap() }
pub fn empty_map() -> Ipld { Ipld::Map(BTreeMap::new()) }

/// The identifier under which the store holds the i-th token.
pub fn cid(i: usize) -> Cid {
    Cid::new_v1(0x55, { let mut d = [(i as u8).wrapping_add(1); 32]; if i > 255 { d[1] ^= 0x80 | (i >> 8) as u8; } MultihashGeneric::wrap(0x12, &d).unwrap() })
}

// Store ----------------------------------------------------------------------

#[derive(Clone)]
pub enum Held { Bytes(Vec<u8>), Nothing, Failure }
#[derive(Default)]
pub struct Store { pub held: Vec<(Cid, Held)> }
impl Store {
    pub fn put(&mut self, cid: Cid, text: &str) { self.held.push((cid, Held::Bytes(text.as_bytes().to_vec()))); }
}
#[async_trait]
impl UcanStore<RawCodec> for Store {
    async fn read<T: Decode<RawCodec>>(&self, cid: &Cid) -> Result<Option<T>> {
        for (c, h) in self.held.iter() {
            if c == cid {
                return match h {
                    Held::Bytes(b) => Ok(Some(T::decode(RawCodec, &mut Cursor::new(b))?)),
                    Held::Nothing => Ok(None),
                    Held::Failure => Err(anyhow!("store failure")),
                };
            }
        }
        Ok(None)
    }
    async fn write<T: Encode<RawCodec> + UcanStoreConditionalSend + core::fmt::Debug>(&mut self, token: T) -> Result<Cid> {
        let block = RawCodec.encode(&token)?;
        let c = cid(self.held.len() + 100);
        self.held.push((c, Held::Bytes(block)));
        Ok(c)
    }
}
