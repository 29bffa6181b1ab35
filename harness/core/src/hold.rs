//! M01, M02: stores.
use crate::{attenuate::eq_bytes, sym::{self, check}, world::*};
use anyhow::{anyhow, Result};
use async_trait::async_trait;
use cid::{multihash::{Code, MultihashDigest, MultihashGeneric}, Cid};
use libipld_core::{codec::{Decode, Encode}, ipld::Ipld, raw::RawCodec};
use std::{io::Cursor, sync::Mutex};
use ucan::store::{MemoryStore, UcanJwtStore, UcanStore, UcanStoreConditionalSend};

fn holds(s: &MemoryStore, c: &Cid, content: &[u8], id: u32) {
    let got: Option<Ipld> = block_on(s.read(c)).unwrap();
    check(matches!(&got, Some(Ipld::Bytes(b)) if eq_bytes(b, content)), id, "what was written is read back");
    let got: Option<Vec<u8>> = block_on(s.read(c)).unwrap();
    check(got.is_some_and(|b| eq_bytes(&b, content)), id + 1, "in every form");
}
/// Writes of arbitrary content through a store and its clones.
/// params: number of writes, length of the contents (base 4
/// digits), how they are written (3: in every way)
#[no_mangle]
pub fn m01_history() {
    let n = sym::param(0) as usize;
    let mut stores = vec![MemoryStore::default()];
    let mut written: Vec<(Cid, Vec<u8>)> = vec![];
    let other = MemoryStore::default();
    for i in 0..n {
        let through = sym::choose(stores.len() as u64) as usize;
        let fresh = sym::bytes((sym::param(1) >> (2 * i) & 3) as usize);
        let content = if i > 0 && sym::boolean() { written[sym::choose(i as u64) as usize].1.clone() } else { fresh };
        let s = &mut stores[through];
        let how = if sym::param(2) == 3 { sym::choose(3) } else { (sym::param(2) + i as u64) % 3 };
        let c = match how {
            0 => block_on(s.write(Ipld::Bytes(content.clone()))),
            1 => block_on(s.write(content.clone())),
            _ => match std::str::from_utf8(&content) { Ok(t) => block_on(s.write_token(t)), Err(_) => block_on(s.write(content.clone().into_boxed_slice())) },
        };
        check(c.is_ok(), 1, "content can be written");
        let c = c.unwrap();
        check(c == Cid::new_v1(0x55, Code::Blake3_256.digest(&content)), 2, "its identifier is the hash of the content");
        for (d, x) in written.iter() { check((*d == c) == eq_bytes(x, &content), 3, "equal exactly for equal content"); }
        // something that is no block changes nothing
        if i == 1 { let r = block_on(stores[0].write(Ipld::Bool(true))); check(r.is_err(), 4, "what is no block cannot be written"); }
        written.push((c, content));
        for (k, (d, x)) in written.iter().enumerate() { holds(&stores[(k + i) % stores.len()], d, x, 5); }
        if stores.len() < 3 && sym::boolean() { let s = stores[sym::choose(stores.len() as u64) as usize].clone(); stores.push(s); }
    }
    for s in stores.iter() { for (c, x) in written.iter() { holds(s, c, x, 7); } }
    // identifiers never written: other content, codec, hash, version
    let new = sym::bytes(2);
    sym::assume(!any(&written.iter().map(|(_, x)| eq_bytes(x, &new)).collect::<Vec<_>>()));
    let mut unknown = vec![Cid::new_v1(0x55, Code::Blake3_256.digest(&new)), Cid::new_v1(0x55, Code::Sha2_256.digest(&new)), Cid::new_v0(Code::Sha2_256.digest(&new)).unwrap()];
    for (c, x) in written.iter() {
        unknown.push(Cid::new_v1(0x71, *c.hash()));
        unknown.push(Cid::new_v1(0x55, Code::Sha2_256.digest(x)));
        unknown.push(Cid::new_v1(0x55, MultihashGeneric::wrap(0x12, c.hash().digest()).unwrap()));
    }
    for c in unknown {
        let s = &stores[stores.len() - 1];
        let got: Result<Option<Ipld>> = block_on(s.read(&c));
        check(matches!(got, Ok(None)), 10, "an identifier never written yields nothing");
        check(block_on(s.require_token(&c)).is_err(), 11, "and no token");
    }
    for (c, _) in written.iter() { let got: Result<Option<Ipld>> = block_on(other.read(c)); check(matches!(got, Ok(None)), 12, "another store does not share it"); }
    sym::observe(1, written.len() as u64);
    sym::reach(1);
}

/// Many contents, or long ones, that differ in any one byte. params: how many, their length
#[no_mangle]
pub fn m01_large() {
    let (n, len) = (sym::param(0) as usize, sym::param(1) as usize);
    let mut store = MemoryStore::default();
    let place = len / 2 + sym::choose(4) as usize * (len / 2 - 1) / 3;
    let mut written: Vec<(Cid, Vec<u8>)> = vec![];
    for i in 0..n {
        let mut content: Vec<u8> = (0..len).map(|k| b'a' + (k % 23) as u8).collect();
        content[0] = i as u8 & 0x7f;
        content[1] = (i >> 7) as u8 & 0x7f;
        // the last differs from the first in one byte, if at all
        if i == n - 1 { content[0] = 0; content[1] = 0; content[place] = sym::bits(7) as u8; }
        let mut through = store.clone();
        let s = if i & 1 == 0 { &mut store } else { &mut through };
        let c = match i % 3 { 0 => block_on(s.write(Ipld::Bytes(content.clone()))), 1 => block_on(s.write(content.clone())), _ => block_on(s.write_token(std::str::from_utf8(&content).unwrap())) };
        written.push((c.unwrap(), content));
    }
    let (first, last) = (&written[0], &written[n - 1]);
    check((first.0 == last.0) == eq_bytes(&first.1, &last.1), 3, "equal exactly for equal content");
    for (c, x) in written.iter() {
        check(*c == Cid::new_v1(0x55, Code::Blake3_256.digest(x)), 2, "its identifier is the hash of the content");
        holds(&store, c, x, 7);
        check(block_on(store.require_token(c)).is_ok_and(|t| eq_bytes(t.as_bytes(), x)), 9, "also as text");
    }
    sym::observe(1, (first.0 == last.0) as u64);
    sym::reach(1);
}

/// A store that holds arbitrary bytes under one identifier, and notes what it
/// was asked for.
struct Shelf { cid: Cid, held: Held, asked: Mutex<Vec<Cid>> }
#[async_trait]
impl UcanStore<RawCodec> for Shelf {
    async fn read<T: Decode<RawCodec>>(&self, cid: &Cid) -> Result<Option<T>> {
        self.asked.lock().unwrap().push(*cid);
        if *cid != self.cid { return Ok(None); }
        match &self.held {
            Held::Bytes(b) => Ok(Some(T::decode(RawCodec, &mut Cursor::new(b))?)),
            Held::Nothing => Ok(None),
            Held::Failure => Err(anyhow!("store failure")),
        }
    }
    async fn write<T: Encode<RawCodec> + UcanStoreConditionalSend + core::fmt::Debug>(&mut self, _: T) -> Result<Cid> { Err(anyhow!("read only")) }
}
/// params: what is held (0 bytes, 1 nothing, 2 failure), length, how the
/// identifier asked for differs (0 not, 1 codec, 2 digest, 3 hash code, 4 version)
#[no_mangle]
pub fn m02_lookup() {
    let bytes = crate::text::some(sym::param(1) as usize);
    let codec = match sym::choose(5) { 0 => 0x55, 1 => 0x71, 2 => 0x70, 3 => 0, _ => sym::bits(62) };
    let digest = sym::bytes(4);
    let hash = |d: &[u8]| MultihashGeneric::wrap(0x12, d).unwrap();
    let held_under = Cid::new_v1(codec, hash(&digest));
    let asked = match sym::param(2) {
        0 => held_under,
        1 => { let c = sym::bits(62); sym::assume(c != codec); Cid::new_v1(c, hash(&digest)) }
        2 => { let d = sym::bytes(4); sym::assume(!eq_bytes(&d, &digest)); Cid::new_v1(codec, hash(&d)) }
        3 => Cid::new_v1(codec, MultihashGeneric::wrap(0x1e, &digest).unwrap()),
        _ => Cid::new_v0(hash(&sym::bytes(32))).unwrap(),
    };
    let held = match sym::param(0) { 0 => Held::Bytes(bytes.clone()), 1 => Held::Nothing, _ => Held::Failure };
    let s = Shelf { cid: held_under, held, asked: Mutex::new(vec![]) };
    let got = block_on(s.require_token(&asked));
    let utf8 = std::str::from_utf8(&bytes).is_ok();
    let want = sym::param(0) == 0 && sym::param(2) == 0 && asked.codec() == 0x55 && utf8;
    check(got.is_ok() == want, 1, "found exactly when raw text is held under this very identifier");
    if let Ok(t) = &got { check(eq_bytes(t.as_bytes(), &bytes), 2, "and then exactly that text"); sym::reach(2); }
    let read = block_on(s.read_token(&asked));
    check(matches!(&read, Ok(Some(t)) if eq_bytes(t.as_bytes(), &bytes)) == want, 3, "the other lookup agrees");
    check(want || !matches!(&read, Ok(Some(_))), 4, "and yields nothing else");
    check(s.asked.lock().unwrap().iter().all(|c| *c == asked), 5, "the store is asked for that identifier alone");
    sym::observe(1, got.is_ok() as u64);
    sym::reach(1);
}
/// The memory store: arbitrary bytes, looked up by their identifier or with
/// another codec. param: length
#[no_mangle]
pub fn m02_memory() {
    let mut s = MemoryStore::default();
    let bytes = crate::text::some(sym::param(0) as usize);
    let c = block_on(s.write(Ipld::Bytes(bytes.clone()))).unwrap();
    let utf8 = std::str::from_utf8(&bytes).is_ok();
    let got = block_on(s.require_token(&c));
    check(got.is_ok() == utf8, 1, "text is found, and nothing else");
    sym::observe(1, got.is_ok() as u64);
    if let Ok(t) = got { check(eq_bytes(t.as_bytes(), &bytes), 2, "exactly that text"); sym::reach(2); }
    for codec in [0x70, 0x71, 0, 0x56] { check(block_on(s.require_token(&Cid::new_v1(codec, *c.hash()))).is_err(), 3, "not under another codec"); }
    if let Ok(t) = std::str::from_utf8(&bytes) {
        let w = block_on(s.write_token(t)).unwrap();
        check(w == c, 4, "a token is filed as the bytes of its text");
        let mut fresh = MemoryStore::default();
        let w = block_on(fresh.write_token(t)).unwrap();
        check(w == c && block_on(fresh.require_token(&w)).ok().as_deref() == Some(t), 5, "in any store");
    }
    sym::reach(1);
}

/// What a thread did: contents written and their identifiers, and reads, with
/// what may be there and whether it must be.
#[derive(Default)]
struct Done { written: Vec<(Option<Cid>, Vec<u8>)>, reads: Vec<(Result<Option<Ipld>>, Vec<u8>, bool)> }
fn act(kind: u64, s: &mut MemoryStore, own: &[Vec<u8>; 2], others: &[u8], before: &(Cid, Vec<u8>), d: &mut Done) {
    let write = |s: &mut MemoryStore, x: &Vec<u8>, d: &mut Done| d.written.push((block_on(s.write(Ipld::Bytes(x.clone()))).ok(), x.clone()));
    let id = |x: &[u8]| Cid::new_v1(0x55, Code::Blake3_256.digest(x));
    match kind {
        0 => write(s, &own[0], d),
        1 => { write(s, &own[0], d); write(s, &own[1], d) }
        2 => d.reads.push((block_on(s.read(&before.0)), before.1.clone(), true)),
        3 => d.reads.push((block_on(s.read(&id(others))), others.to_vec(), false)),
        4 => { let mut c = s.clone(); write(&mut c, &own[0], d) }
        5 => { write(s, &own[0], d); d.reads.push((block_on(s.read(&id(&own[0]))), own[0].clone(), true)) }
        6 => { let c = block_on(s.write(own[0].clone())).ok(); d.written.push((c, own[0].clone())); d.reads.push((block_on(s.read(&before.0)), before.1.clone(), true)) }
        _ => {
            // once seen, always there
            let (a, b) = (block_on(s.read::<Ipld>(&id(others))), block_on(s.read::<Ipld>(&id(others))));
            let seen = matches!(&a, Ok(Some(_)));
            d.reads.push((a, others.to_vec(), false));
            d.reads.push((b, others.to_vec(), seen));
        }
    }
}
/// Two threads that use one store. params: what each does, how many times the
/// running one may be interrupted
#[no_mangle]
pub fn m03_race() {
    let (first, second) = (sym::param(0), sym::param(1));
    let n = sym::bytes(5);
    let x = [vec![n[0]], vec![n[1], 0]];
    let y = [vec![n[2]], vec![n[3], 1]];
    let mut rounds = 0;
    while sym::again(rounds) {
        rounds += 1;
        let mut store = MemoryStore::default();
        let before = (block_on(store.write(vec![n[4]])).unwrap(), vec![n[4]]);
        let (mut a, mut b) = (store.clone(), store.clone());
        let (mut p, mut q) = (Done::default(), Done::default());
        sym::race(|| act(first, &mut a, &x, &y[0], &before, &mut p), || act(second, &mut b, &y, &x[0], &before, &mut q), sym::param(2) as u32);
        for d in [p, q] {
            for (c, content) in d.written {
                check(c == Some(Cid::new_v1(0x55, Code::Blake3_256.digest(&content))), 1, "each write succeeds and gives the content's identifier");
                for s in [&store, &a, &b] { holds(s, &c.unwrap(), &content, 2); }
            }
            for (got, content, must) in d.reads {
                check(got.is_ok(), 4, "reading while another writes does not fail");
                match got.unwrap() {
                    Some(Ipld::Bytes(g)) => { check(eq_bytes(&g, &content), 5, "a read gives the content, whole"); sym::reach(2); }
                    Some(_) => check(false, 5, "a read gives the content, whole"),
                    None => { check(!must, 6, "what was there stays there"); sym::reach(3); }
                }
            }
        }
        for s in [&store, &a, &b] { holds(s, &before.0, &before.1, 7); }
    }
    sym::observe(1, first);
    sym::reach(1);
}
