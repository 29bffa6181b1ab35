//! X01: the supported keys. Symbolically the elliptic curve, RSA and hash
//! primitives are ideal models (stubs/); natively they are the real ones, so
//! nothing here depends on what a signature looks like.
use anyhow::Result;
use harness_core::{sym::{self, *}, world::block_on};
pub use harness_core::reset;
use rsa::pkcs8::DecodePrivateKey;
use ucan::{builder::UcanBuilder, Ucan};
use ucan::crypto::{did::{DidParser, ED25519_MAGIC_BYTES, P256_MAGIC_BYTES, RSA_MAGIC_BYTES}, KeyMaterial};
use ucan_key_support::{ed25519::{bytes_to_ed25519_key, Ed25519KeyMaterial}, p256::{bytes_to_p256_key, P256KeyMaterial}, rsa::{bytes_to_rsa_key, RsaKeyMaterial}};

struct Numbers(Vec<(u64, Vec<u8>)>);
static mut NUMBERS: Numbers = Numbers(vec![]);
/// Equal inputs get equal numbers, different inputs different ones.
#[no_mangle]
#[allow(static_mut_refs)]
pub fn __model_number(tag: u64, bytes: &[u8]) -> u64 {
    let n = unsafe { &mut NUMBERS.0 };
    for (i, (t, b)) in n.iter().enumerate() {
        if *t == tag && b.len() == bytes.len() && b.as_slice() == bytes { return i as u64; }
    }
    n.push((tag, bytes.to_vec()));
    n.len() as u64 - 1
}

const KEYS: u64 = 3;
fn seed(i: u64) -> [u8; 32] {
    let mut s = [7u8; 32];
    for (k, b) in s.iter_mut().enumerate() { *b = (k as u8).wrapping_mul(29).wrapping_add(i as u8 * 113 + 5); }
    s
}
fn ed(i: u64) -> ed25519_zebra::SigningKey { ed25519_zebra::SigningKey::from(seed(i)) }
fn p256(i: u64) -> p256::ecdsa::SigningKey { p256::ecdsa::SigningKey::from_slice(&seed(i)).unwrap() }
fn rsa(i: u64) -> rsa::RsaPrivateKey {
    let der: &[u8] = match i { 0 => include_bytes!("rsa_0.pk8"), 1 => include_bytes!("rsa_1.pk8"), _ => include_bytes!("rsa_2.pk8") };
    rsa::RsaPrivateKey::from_pkcs8_der(der).unwrap()
}
/// A key with its private part, or without.
fn key(scheme: u64, i: u64, private: bool) -> Box<dyn KeyMaterial> {
    match scheme {
        0 => { let k = ed(i); Box::new(Ed25519KeyMaterial((&k).into(), if private { Some(k) } else { None })) }
        1 => { let k = p256(i); Box::new(P256KeyMaterial((&k).into(), if private { Some(k) } else { None })) }
        _ => { let k = rsa(i); Box::new(RsaKeyMaterial((&k).into(), if private { Some(k) } else { None })) }
    }
}
fn parser() -> DidParser {
    DidParser::new(&[(ED25519_MAGIC_BYTES, bytes_to_ed25519_key), (RSA_MAGIC_BYTES, bytes_to_rsa_key), (P256_MAGIC_BYTES, bytes_to_p256_key)])
}
fn name(scheme: u64) -> &'static str { match scheme { 0 => "EdDSA", 1 => "ES256", _ => "RS256" } }
fn sign(k: &dyn KeyMaterial, m: &[u8]) -> Result<Vec<u8>> { block_on(k.sign(m)) }
fn good(k: &dyn KeyMaterial, m: &[u8], s: &[u8]) -> bool { block_on(k.verify(m, s)).is_ok() }

/// A message of n bytes, w of them from place p on arbitrary.
fn message(n: usize, p: usize, w: usize) -> Vec<u8> {
    let mut m: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
    for b in m.iter_mut().skip(p).take(w) { *b = sym::bits(8) as u8; }
    m
}

/// params: scheme, key, length, place and number of arbitrary bytes.
#[no_mangle]
pub fn x01_own() {
    let (s, i) = (param(0), param(1));
    let m = message(param(2) as usize, param(3) as usize, param(4) as usize);
    let k = key(s, i, true);
    let did = block_on(k.get_did()).unwrap();
    check(k.get_jwt_algorithm_name() == name(s), 1, "the algorithm");
    let mut parser = parser();
    let r = block_on(async { parser.parse(&did) });
    check(r.is_ok(), 2, "a key's own identity resolves");
    let r = r.unwrap();
    check(block_on(r.get_did()).ok().as_deref() == Some(did.as_str()), 3, "the resolved key has the same identity");
    check(r.get_jwt_algorithm_name() == name(s), 4, "the resolved key has the same algorithm");
    let sig = sign(&*k, &m);
    check(sig.is_ok(), 5, "a private key signs");
    let sig = sig.unwrap();
    check(good(&*r, &m, &sig), 6, "the resolved key verifies the signature");
    check(good(&*k, &m, &sig), 7, "the signing key verifies its signature");
    check(good(&*key(s, i, false), &m, &sig), 8, "the public key verifies the signature");
    check(sign(&*r, &m).is_err(), 9, "a resolved key does not sign");
    check(sign(&*key(s, i, false), &m).is_err(), 10, "a public key does not sign");
    observe(1, sig.len() as u64);
    observe_bytes(2, did.as_bytes());
    reach(1);
}

/// A signature and another message. params: scheme, key, length, place and
/// number of arbitrary bytes of the message signed; and of the other message.
#[no_mangle]
pub fn x01_message() {
    let (s, i) = (param(0), param(1));
    let m = message(param(2) as usize, param(3) as usize, param(4) as usize);
    let o = message(param(5) as usize, param(6) as usize, param(7) as usize);
    let k = key(s, i, true);
    let r = parser().parse(&block_on(k.get_did()).unwrap()).unwrap();
    let sig = sign(&*k, &m).unwrap();
    let same = m == o;
    check(good(&*r, &o, &sig) == same, 1, "a signature verifies for the signed bytes alone");
    check(good(&*k, &o, &sig) == same, 2, "a signature verifies for the signed bytes alone, under the signing key too");
    observe(1, same as u64);
    reach(if same { 1 } else { 2 });
}

/// A message derived from the signed one: a byte put in, left out, doubled,
/// altered, or a part of it. params: scheme, key, length, kind, place.
#[no_mangle]
pub fn x01_edit() {
    let (s, i, n, kind, p) = (param(0), param(1), param(2) as usize, param(3), param(4) as usize);
    let p = p.min(n);
    let m = message(n, p.saturating_sub(1), 3);
    let mut o = m.clone();
    match kind {
        0 => { o.insert(p, sym::bits(8) as u8); }
        1 => { if p < n { o.remove(p); } }
        2 => { if p < n { let b = o[p]; o.insert(p, b); } }
        3 => { if p < n { o[p] = sym::bits(8) as u8; } }
        4 => { o.truncate(p); }
        5 => { o.drain(..p); }
        6 => { if p + 1 < n { o.swap(p, p + 1); } }
        _ => { if p < n { o[p] = o[p].to_ascii_lowercase(); } }
    }
    let k = key(s, i, true);
    let r = parser().parse(&block_on(k.get_did()).unwrap()).unwrap();
    let sig = sign(&*k, &m).unwrap();
    let same = m == o;
    check(good(&*r, &o, &sig) == same, 1, "a signature verifies for the signed bytes alone");
    observe(1, same as u64);
    reach(if same { 1 } else { 2 });
}

/// Another signature. params: scheme, key, kind, place, number.
#[no_mangle]
pub fn x01_signature() {
    let (s, i, kind, p, n) = (param(0), param(1), param(2), param(3) as usize, param(4) as usize);
    let m = b"header.payload".to_vec();
    let k = key(s, i, true);
    let r = parser().parse(&block_on(k.get_did()).unwrap()).unwrap();
    let sig = sign(&*k, &m).unwrap();
    let len = sig.len();
    let mut t = sig.clone();
    match kind {
        // one byte altered
        0 => {
            let p = p % len;
            let d = sym::bytes(n);
            let mut other = false;
            for (i, d) in d.iter().enumerate() { if p + i < len { t[p + i] = sig[p + i] ^ d; other |= *d != 0; } }
            assume(other);
        }
        // bytes put in
        1 => { let p = p.min(len); for b in sym::bytes(n) { t.insert(p, b); } }
        // bytes left out
        2 => { let p = p.min(len - n); t.drain(p..p + n); }
        // a short one
        3 => { t = sym::bytes(n); }
        // halves swapped, doubled, reversed, all zero, all ones
        _ => match n {
            0 => { t.rotate_left(len / 2); }
            1 => { t.extend_from_slice(&sig); }
            2 => { t.reverse(); }
            3 => { t = vec![0; len]; }
            4 => { t = vec![255; len]; }
            // the signature as text
            5 => { t = base64::Engine::encode(&base64::engine::general_purpose::URL_SAFE_NO_PAD, &sig).into_bytes(); }
            // for another message
            6 => { t = sign(&*k, b"header.payloae").unwrap(); }
            // by another key
            7 => { t = sign(&*key(s, (i + 1) % KEYS, true), &m).unwrap(); }
            // by a key of another scheme
            8 => { t = sign(&*key((s + 1) % 3, i, true), &m).unwrap(); }
            _ => { t = sign(&*key((s + 2) % 3, i, true), &m).unwrap(); }
        },
    }
    check(!good(&*r, &m, &t), 1, "no other signature verifies");
    check(!good(&*k, &m, &t), 2, "no other signature verifies under the signing key");
    observe(1, t.len() as u64);
    reach(1);
}

/// Another key. params: scheme, key, other scheme, other key, arbitrary bytes.
#[no_mangle]
pub fn x01_key() {
    let (s, i, s2, i2) = (param(0), param(1), param(2), param(3));
    let m = message(param(4) as usize, 0, param(4) as usize);
    let k = key(s, i, true);
    let o = key(s2, i2, true);
    let sig = sign(&*k, &m).unwrap();
    let same = (s, i) == (s2, i2);
    let mut p = parser();
    let (dk, d) = (block_on(k.get_did()).unwrap(), block_on(o.get_did()).unwrap());
    check((d == dk) == same, 1, "different keys have different identities");
    // both resolved through one parser, in either order
    let (rk, ro) = if boolean() { let a = p.parse(&dk).unwrap(); (a, p.parse(&d).unwrap()) } else { let b = p.parse(&d).unwrap(); (p.parse(&dk).unwrap(), b) };
    check(good(&*rk, &m, &sig), 2, "the key's own identity verifies");
    check(good(&*ro, &m, &sig) == same, 3, "no other key verifies");
    check(good(&*o, &m, &sig) == same, 4, "no other private key verifies");
    reach(1);
}

/// Hostile key and signature bytes never crash. params: scheme, kind, place, number.
#[no_mangle]
pub fn t03_keys() {
    let (s, kind, p, n) = (param(0), param(1), param(2) as usize, param(3) as usize);
    let k = key(s, 0, true);
    let did = block_on(k.get_did()).unwrap();
    let mut b = bs58::decode(&did["did:key:z".len()..]).into_vec().unwrap()[2..].to_vec();
    let make = match s { 0 => bytes_to_ed25519_key, 1 => bytes_to_p256_key, _ => bytes_to_rsa_key };
    let m = message(2, 0, 2);
    match kind {
        // a key of n arbitrary bytes
        0 => { b = sym::bytes(n); }
        // cut or lengthened
        1 => { b.truncate(p); b.extend(sym::bytes(n)); }
        // bytes put in, bytes left out
        2 => { let p = p.min(b.len()); for x in sym::bytes(n) { b.insert(p, x); } }
        3 => { let p = p.min(b.len() - n); b.drain(p..p + n); }
        // arbitrary bytes within
        4 => { for (i, x) in sym::bytes(n).into_iter().enumerate() { if p + i < b.len() { b[p + i] = x; } } }
        // a signature of n arbitrary bytes, before some more
        _ => { let mut t = sym::bytes(n); t.resize(n + p, 1); observe(2, good(&*k, &m, &t) as u64); }
    }
    match make(b) {
        Ok(k) => {
            let did = block_on(k.get_did());
            observe(1, did.is_ok() as u64);
            let _ = good(&*k, &m, b"no signature");
            let _ = k.get_jwt_algorithm_name();
            reach(2);
        }
        Err(e) => { let _ = e.to_string(); observe(1, 2); }
    }
    reach(1);
}

/// A whole token. params: scheme, key, place of an arbitrary character in its text.
#[no_mangle]
pub fn x01_token() {
    let (s, i, p) = (param(0), param(1), param(2) as usize);
    let k = key(s, i, true);
    let did = block_on(k.get_did()).unwrap();
    let to = block_on(key(0, 1, false).get_did()).unwrap();
    let u = UcanBuilder::default().issued_by(&k).for_audience(&to).with_expiration(1 << 40).with_fact("challenge", "abc".to_string());
    let u = block_on(u.build().unwrap().sign()).unwrap();
    let text = u.encode().unwrap();
    let mut parser = parser();
    let b = Ucan::try_from(text.as_str()).unwrap();
    check(b.issuer() == did && b.algorithm() == name(s), 1, "issuer and algorithm are the key's");
    check(block_on(b.check_signature(&mut parser)).is_ok(), 2, "the token's signature verifies");
    check(block_on(b.validate(None, &mut parser)).is_ok(), 3, "the token validates");
    // one character altered
    let p = p % text.len();
    let payload = text.find('.').unwrap() + 1;
    let signature = text.rfind('.').unwrap() + 1;
    if p >= payload && p < signature {
        // not within the issuer
        let json = base64::Engine::decode(&base64::engine::general_purpose::URL_SAFE_NO_PAD, &text[payload..signature - 1]).unwrap();
        let json = String::from_utf8(json).unwrap();
        let at = json.find(&format!("\"iss\":\"{did}\"")).unwrap();
        let (from, to) = (at + 7, at + 9 + did.len());
        let q = (p - payload) / 4 * 3;
        if q + 3 > from && q < to { reach(4); return; }
    }
    let mut t = text.clone().into_bytes();
    // a difference: natively the signature is another text
    let d = sym::bits(7) as u8;
    assume(d != 0);
    t[p] ^= d;
    if let Ok(c) = Ucan::try_from(String::from_utf8(t).unwrap().as_str()) {
        check(block_on(c.check_signature(&mut parser)).is_err(), 4, "an altered token does not verify");
        check(block_on(c.validate(None, &mut parser)).is_err(), 5, "an altered token does not validate");
        reach(2);
    } else { reach(3); }
    reach(1);
}

pub static ENTRIES: &[(&str, fn())] = &[
    ("x01_own", x01_own),
    ("x01_message", x01_message),
    ("x01_signature", x01_signature),
    ("x01_key", x01_key),
    ("x01_edit", x01_edit),
    ("x01_token", x01_token),
    ("t03_keys", t03_keys),
];
