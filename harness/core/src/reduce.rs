//! C06, C07, C08, C09: what reducing a chain reports.
//!
//! The resources and abilities in the tokens are plain text ("w:3", "a/3"), but
//! what they mean is arbitrary: the semantics gives every scope an arbitrary
//! bit set (containment is superset) and every ability an arbitrary rank, and
//! understands them or not as it pleases. With as many bits as there are
//! scopes this covers every containment preorder on them.
use crate::{sym::{self, check}, world::*};
use anyhow::{anyhow, Result};
use libipld_core::ipld::Ipld;
use std::collections::BTreeMap;
use ucan::{capability::{Ability, CapabilitySemantics, CapabilityView, Resource, ResourceUri, Scope}, chain::{CapabilityInfo, ProofChain}};
use url::Url;

#[derive(Clone, PartialEq)]
pub struct Sc { pub id: usize, pub mask: u64 }
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Ab { pub rank: u64 }
pub struct Meaning { pub mask: Vec<u64>, pub rank: Vec<u64>, pub scope_known: Vec<bool>, pub ability_known: Vec<bool> }
static mut MEANING: Option<Meaning> = None;
fn meaning() -> &'static Meaning { unsafe { (*std::ptr::addr_of!(MEANING)).as_ref().unwrap() } }

/// How scopes print: four bits for each set of atoms, if arbitrary.
static mut NAMES: Option<u64> = None;
/// From here on scopes print as one of four texts, arbitrarily.
pub fn arbitrary_names() { unsafe { NAMES = Some(sym::u64()) } }
impl ToString for Sc {
    fn to_string(&self) -> String {
        match unsafe { NAMES } {
            None => format!("w:{}", self.id),
            Some(n) => match sym::concrete(n >> (4 * (self.mask & 15)) & 3) { 0 => "w:0", 1 => "w:00", 2 => "w:*", _ => "*" }.to_string(),
        }
    }
}
impl ToString for Ab { fn to_string(&self) -> String { "ab".into() } }
impl Scope for Sc { fn contains(&self, other: &Self) -> bool { self.mask & other.mask == other.mask } }
impl Ability for Ab {}
impl TryFrom<Url> for Sc {
    type Error = anyhow::Error;
    fn try_from(u: Url) -> Result<Sc> {
        if !matches!(u.scheme(), "w" | "my") { return Err(anyhow!("scheme")); }
        let id: usize = u.path().parse()?;
        let m = meaning();
        if id >= m.mask.len() || !m.scope_known[id] { return Err(anyhow!("unknown scope")); }
        Ok(Sc { id, mask: m.mask[id] })
    }
}
impl TryFrom<String> for Ab {
    type Error = anyhow::Error;
    fn try_from(s: String) -> Result<Ab> {
        let id: usize = s.strip_prefix("a/").ok_or_else(|| anyhow!("ability"))?.parse()?;
        let m = meaning();
        if id >= m.rank.len() || !m.ability_known[id] { return Err(anyhow!("unknown ability")); }
        Ok(Ab { rank: m.rank[id] })
    }
}
/// Every scope and ability below n is understood, scopes are distinct.
pub unsafe fn set_meaning(n: usize) { NAMES = None; MEANING = Some(Meaning { mask: (0..n).map(|i| if n <= 64 { 1 << i } else { 1 << i % 31 | 1 << 31 + i / 31 }).collect(), rank: vec![0; n], scope_known: vec![true; n], ability_known: vec![true; n] }) }
pub struct SymSemantics;
impl CapabilitySemantics<Sc, Ab> for SymSemantics {}

pub fn spec_uri(a: &ResourceUri<Sc>, b: &ResourceUri<Sc>) -> bool {
    match (a, b) {
        (ResourceUri::Unscoped, _) => true,
        (ResourceUri::Scoped(a), ResourceUri::Scoped(b)) => (b.mask & !a.mask) == 0,
        _ => false,
    }
}
pub fn spec_resource(a: &Resource<Sc>, b: &Resource<Sc>) -> bool {
    match (a, b) {
        (Resource::Resource { kind: a }, Resource::Resource { kind: b }) => spec_uri(a, b),
        (Resource::My { kind: a }, Resource::My { kind: b }) => spec_uri(a, b),
        (Resource::As { did: d, kind: a }, Resource::As { did: e, kind: b }) => spec_uri(a, b) & (d == e),
        _ => false,
    }
}
/// What A01 says, without branching on the arbitrary parts.
pub fn spec_enables(a: &Cap, b: &Cap) -> bool {
    let caveat = match (a.caveat.as_object(), b.caveat.as_object()) {
        (Some(x), Some(y)) => x.iter().all(|(k, v)| y.get(k) == Some(v)),
        _ => false,
    };
    spec_resource(&a.resource, &b.resource) & (a.ability.rank >= b.ability.rank) & caveat
}
pub type Cap = CapabilityView<Sc, Ab>;
type Info = CapabilityInfo<Sc, Ab>;

/// A token of the tree as the oracle sees it.
pub struct Node { pub issuer: usize, pub claims: Vec<(bool, Cap)>, pub proofs: Vec<usize>, pub redelegated: Vec<bool> }

/// Does node n hand on x from the originator d?
fn delegates(tree: &[Node], n: usize, x: &Cap, d: usize) -> bool {
    let node = &tree[n];
    let mut r = false;
    for (known, c) in node.claims.iter() {
        let mut backed = node.issuer == d;
        for p in node.proofs.iter() { backed |= delegates(tree, *p, c, d); }
        r |= *known & spec_enables(c, x) & backed;
    }
    for (k, p) in node.proofs.iter().enumerate() {
        if node.redelegated[k] { r |= delegates(tree, *p, x, d); }
    }
    r
}

/// Everything the node holds: a claim or redelegated claim, whether it is
/// understood, and for each issuer whether it is an originator.
fn held(tree: &[Node], n: usize) -> Vec<(bool, Cap, Vec<bool>)> {
    let node = &tree[n];
    let below: Vec<Vec<(bool, Cap, Vec<bool>)>> = node.proofs.iter().map(|p| held(tree, *p)).collect();
    let ids = 1 + tree.iter().map(|n| n.issuer).max().unwrap();
    let mut out = vec![];
    for (known, c) in node.claims.iter() {
        let mut from = vec![false; ids];
        let mut some = false;
        for (k2, c2, o2) in below.iter().flatten() {
            let e = *k2 & spec_enables(c2, c);
            some |= e;
            for d in 0..ids { from[d] |= e & o2[d]; }
        }
        from[node.issuer] |= !some;
        out.push((*known, c.clone(), from));
    }
    for (k, b) in below.into_iter().enumerate() {
        if node.redelegated[k] { out.extend(b); }
    }
    out
}

/// Shape: proofs of each token, and how many claims each makes.
const SHAPES: &[(&[&[usize]], &[usize])] = &[
    (&[&[]], &[2]),
    (&[&[]], &[3]),
    (&[&[1], &[]], &[1, 1]),
    (&[&[1], &[]], &[2, 1]),
    (&[&[1], &[]], &[1, 2]),
    (&[&[1], &[]], &[2, 2]),
    (&[&[1, 2], &[], &[]], &[1, 1, 1]),
    (&[&[1, 2], &[], &[]], &[2, 1, 1]),
    (&[&[1], &[2], &[]], &[1, 1, 1]),
    (&[&[1], &[2], &[]], &[2, 1, 1]),
    (&[&[1, 2, 3], &[], &[], &[]], &[1, 1, 1, 1]),
    (&[&[1], &[2, 3], &[], &[]], &[1, 1, 1, 1]),
    (&[&[1], &[2], &[3], &[]], &[1, 1, 1, 1]),
    (&[&[1, 2], &[3], &[], &[]], &[1, 1, 1, 1]),
    (&[&[1], &[]], &[0, 2]),
    (&[&[1, 2], &[], &[]], &[0, 1, 1]),
    (&[&[1, 2], &[], &[]], &[0, 2, 1]),
    (&[&[1, 2], &[], &[]], &[1, 2, 2]),
    (&[&[1], &[]], &[3, 2]),
];

struct Built { tree: Vec<Node>, chain: ProofChain, specs: Vec<Spec> }

/// redelegation: bit k of the e-th group of three says that token e claims to
/// redelegate its k-th proof; group value 7 says all of them by "prf:*".
/// flags: 1 caveats vary, 2 understanding varies, 4 kinds of resource vary, 8 windows vary, 16 same issuer below and above
fn build(shape: u64, redelegation: u64, flags: u64) -> Built {
    if shape >= 100 { return build_large(shape, redelegation, flags as usize); }
    let (proofs, counts) = SHAPES[shape as usize];
    let n = proofs.len();
    let total: usize = counts.iter().sum();
    let width = if total <= 4 { total as u32 } else { 4 };
    arbitrary_names();
    let m = Meaning {
        mask: (0..total).map(|_| sym::bits(width)).collect(),
        rank: (0..total).map(|_| sym::bits(if total <= 4 { 2 } else { 3 })).collect(),
        scope_known: (0..total).map(|_| if flags & 2 != 0 { sym::boolean() } else { true }).collect(),
        ability_known: (0..total).map(|_| if flags & 2 != 0 { sym::boolean() } else { true }).collect(),
    };
    let mut next = 0;
    let mut specs = vec![];
    let mut tree = vec![];
    for i in 0..n {
        let up = proofs.iter().position(|p| p.contains(&i));
        let issuer = |k: usize| if flags & 16 != 0 && k == n - 1 { 0 } else { k };
        let mut s = Spec::new(&did(issuer(i)), &match up { Some(u) => did(issuer(u)), None => did(7) });
        s.unique = true;
        s.sig = vec![i as u8, (i >> 8) as u8];
        if flags & 8 != 0 { s.exp = sym::opt_u64(); s.nbf = sym::opt_u64(); }
        if !proofs[i].is_empty() { s.prf = Some(proofs[i].iter().map(|j| cid(*j).to_string()).collect()); }
        let mut claims = vec![];
        for _ in 0..counts[i] {
            let (text, resource) = {
                let scope = ResourceUri::Scoped(Sc { id: next, mask: m.mask[next] });
                match if flags & 4 != 0 { sym::choose(4) } else { 0 } {
                    0 => (format!("w:{next}"), Resource::Resource { kind: scope }),
                    1 => (format!("my:{next}"), Resource::My { kind: scope }),
                    2 => (format!("as:{}:w:{next}", did(3)), Resource::As { did: did(3), kind: scope }),
                    _ => ("w:*".to_string(), Resource::Resource { kind: ResourceUri::Unscoped }),
                }
            };
            let caveat = match if flags & 1 != 0 { sym::choose(3) } else { 0 } {
                0 => Ipld::Map(BTreeMap::new()),
                1 => Ipld::Map(BTreeMap::from([("x".to_string(), Ipld::Integer(1))])),
                _ => Ipld::Map(BTreeMap::from([("x".to_string(), Ipld::Integer(1)), ("y".to_string(), Ipld::Integer(2))])),
            };
            let json: serde_json::Value = match &caveat {
                Ipld::Map(m) => serde_json::Value::Object(m.iter().map(|(k, v)| (k.clone(), match v { Ipld::Integer(i) => serde_json::json!(*i as u64), _ => serde_json::Value::Null })).collect()),
                _ => serde_json::Value::Null,
            };
            let known = if matches!(resource, Resource::Resource { kind: ResourceUri::Unscoped }) { m.ability_known[next] } else { m.scope_known[next] & m.ability_known[next] };
            claims.push((known, CapabilityView::new_with_caveat(resource, Ab { rank: m.rank[next] }, json)));
            s.cap.push((text, format!("a/{next}"), caveat));
            next += 1;
        }
        let group = (redelegation >> (3 * i)) & 7;
        let mut redelegated = vec![false; proofs[i].len()];
        if group == 7 {
            s.cap.push(("prf:*".into(), "ucan/DELEGATE".into(), empty_map()));
            for r in redelegated.iter_mut() { *r = true; }
        } else {
            for k in 0..proofs[i].len() {
                if group >> k & 1 == 1 {
                    s.cap.push((format!("prf:{k}"), "ucan/DELEGATE".into(), empty_map()));
                    redelegated[k] = true;
                }
            }
        }
        tree.push(Node { issuer: issuer(i), claims, proofs: proofs[i].to_vec(), redelegated });
        specs.push(s);
    }
    unsafe { MEANING = Some(m) };
    let now = if flags & 8 != 0 { sym::u64() } else { 5 };
    let mut store = Store::default();
    let tokens: Vec<Token> = specs.iter().map(|s| s.token()).collect();
    for i in 1..n { store.put(cid(i), &tokens[i].text); }
    let mut parser = did_parser();
    let chain = block_on(ProofChain::try_from_token_string(&tokens[0].text, Some(now), &mut parser, &store));
    if flags & 8 != 0 { sym::assume(chain.is_ok()); }
    check(chain.is_ok(), 1, "the chain is accepted");
    Built { tree, chain: chain.unwrap(), specs }
}
/// Larger trees, in which any one claim means something else. shape: 100 deep,
/// 101 wide, 102 many claims; redelegation: 0 none, 1 all at once, 2 one by one; flags: number
fn build_large(shape: u64, redelegation: u64, n: usize) -> Built {
    let (proofs, counts): (Vec<Vec<usize>>, Vec<usize>) = match shape {
        100 => ((0..n).map(|i| if i + 1 < n { vec![i + 1] } else { vec![] }).collect(), vec![1; n]),
        101 => ((0..n).map(|i| if i == 0 { (1..n).collect() } else { vec![] }).collect(), vec![1; n]),
        _ => (vec![vec![1], vec![]], vec![n, n]),
    };
    let total: usize = counts.iter().sum();
    let odd = sym::place(total);
    let bit = |i: usize| if shape == 102 { 1 << (i % n & 63) } else { 1 };
    let mut m = Meaning { mask: (0..total).map(bit).collect(), rank: vec![1; total], scope_known: vec![true; total], ability_known: vec![true; total] };
    m.mask[odd] = if shape == 102 { bit(odd) | sym::bits(1) | sym::bits(1) << (n - 1 & 63) } else { sym::bits(2) };
    m.rank[odd] = sym::bits(2);
    m.scope_known[odd] = sym::boolean();
    unsafe { NAMES = None; }
    let (mut next, mut specs, mut tree) = (0, vec![], vec![]);
    for i in 0..proofs.len() {
        let mut s = Spec::new(&did(i), &match proofs.iter().position(|p| p.contains(&i)) { Some(u) => did(u), None => did(425) });
        s.sig = vec![i as u8, (i >> 8) as u8];
        if !proofs[i].is_empty() { s.prf = Some(proofs[i].iter().map(|j| cid(*j).to_string()).collect()); }
        let mut claims = vec![];
        for _ in 0..counts[i] {
            let resource = Resource::Resource { kind: ResourceUri::Scoped(Sc { id: next, mask: m.mask[next] }) };
            claims.push((m.scope_known[next], CapabilityView::new_with_caveat(resource, Ab { rank: m.rank[next] }, serde_json::json!({}))));
            s.cap.push((format!("w:{next}"), format!("a/{next}"), empty_map()));
            next += 1;
        }
        match redelegation {
            0 => (),
            1 => s.cap.push(("prf:*".into(), "ucan/DELEGATE".into(), empty_map())),
            _ => for k in 0..proofs[i].len() { s.cap.push((format!("prf:{k}"), "ucan/DELEGATE".into(), empty_map())) },
        }
        let redelegated = vec![redelegation > 0; proofs[i].len()];
        if redelegation == 1 && proofs[i].is_empty() { s.cap.pop(); }
        tree.push(Node { issuer: i, claims, proofs: proofs[i].clone(), redelegated });
        specs.push(s);
    }
    unsafe { MEANING = Some(m) };
    let mut store = Store::default();
    let tokens: Vec<Token> = specs.iter().map(|s| s.token()).collect();
    for i in 1..tokens.len() { store.put(cid(i), &tokens[i].text); }
    let mut parser = did_parser();
    let chain = block_on(ProofChain::try_from_token_string(&tokens[0].text, Some(5), &mut parser, &store));
    check(chain.is_ok(), 1, "the chain is accepted");
    Built { tree, chain: chain.unwrap(), specs }
}
fn flags() -> (u64, u64, u64) { (sym::param(0), sym::param(1), sym::param(2)) }

fn observe(infos: &[Info]) {
    sym::observe(1, infos.len() as u64);
    for i in infos {
        sym::observe(2, i.capability.ability.rank);
        sym::observe(3, i.originators.len() as u64);
    }
}

/// param: shape, redelegation, flags
#[no_mangle]
pub fn c06_originators() {
    let (shape, redelegation, f) = flags();
    let b = build(shape, redelegation, f);
    let infos: Vec<Info> = b.chain.reduce_capabilities(&SymSemantics);
    observe(&infos);
    let ids = b.tree.len();
    for info in infos.iter() {
        for name in info.originators.iter() {
            match (0..ids).find(|i| did(*i) == *name) {
                None => check(false, 2, "an originator is an issuer in the chain"),
                Some(d) => if d != b.tree[0].issuer {
                    sym::reach(1);
                    check(delegates(&b.tree, 0, &info.capability, d), 3, "the originator delegated the capability, link by link");
                },
            }
        }
    }
    sym::reach(2);
}

#[no_mangle]
pub fn c07_complete() {
    let (shape, redelegation, f) = flags();
    let b = build(shape, redelegation, f);
    let infos: Vec<Info> = b.chain.reduce_capabilities(&SymSemantics);
    observe(&infos);
    for (known, cap, from) in held(&b.tree, 0).iter() {
        let covers: Vec<bool> = infos.iter().map(|i| spec_enables(&i.capability, cap)).collect();
        check(!*known | any(&covers), 4, "every understood capability is reported");
        for (d, o) in from.iter().enumerate() {
            let name = did(d);
            let named: Vec<bool> = infos.iter().zip(covers.iter()).map(|(i, c)| i.originators.contains(&name) & *c).collect();
            check(!(*known & *o) | any(&named), 5, "with every originator who delegated it");
        }
        sym::reach(1);
    }
    // and nothing beyond what the token claims or redelegates
    let all_held = held(&b.tree, 0);
    for i in infos.iter() {
        let source: Vec<bool> = all_held.iter().map(|(k, c, _)| *k & spec_enables(c, &i.capability) & spec_enables(&i.capability, c)).collect();
        check(any(&source), 6, "nothing is reported that the token neither claims nor redelegates");
    }
    sym::reach(2);
}

#[no_mangle]
pub fn c08_window() {
    let (shape, redelegation, f) = flags();
    let b = build(shape, redelegation, f | 8);
    let infos: Vec<Info> = b.chain.reduce_capabilities(&SymSemantics);
    observe(&infos);
    let root = &b.specs[0];
    for info in infos.iter() {
        check(info.expires_at == root.exp, 7, "the expiry is the presented token's");
        check(info.not_before == root.nbf, 8, "the not-before time is the presented token's");
        let t = sym::u64();
        let inside = (match info.not_before { Some(n) => n <= t, None => true }) & (match info.expires_at { Some(e) => t <= e, None => true });
        for s in b.specs.iter() { check(!inside | s.within(t), 9, "the window is within every contributing token's"); }
        sym::reach(1);
    }
    sym::reach(2);
}

/// Claims of the presented token that do or do not select proofs.
/// param: number of proofs, kind of odd claim, flag: also claim w:0 and w:1 explicitly
#[no_mangle]
pub fn c09_selection() {
    let n = sym::param(0) as usize;
    let kind = sym::param(1);
    let explicit = sym::param(2) == 1;
    unsafe { set_meaning(4) };
    let mut root = Spec::new(&did(0), &did(7));
    root.unique = true;
    let mut store = Store::default();
    for i in 0..n {
        let mut p = Spec::new(&did(i + 1), &did(0));
        p.cap.push((format!("w:{i}"), "a/0".into(), empty_map()));
        store.put(cid(i), &p.token().text);
    }
    if n > 0 { root.prf = Some((0..n).map(|i| cid(i).to_string()).collect()); }
    if explicit { for i in 0..2 { root.cap.push((format!("w:{i}"), "a/0".into(), empty_map())); } }
    let ascii = |k: usize| { let b = sym::bytes(k); for x in b.iter() { sym::assume(*x < 0x80); } unsafe { String::from_utf8_unchecked(b) } };
    let delegate = || "ucan/DELEGATE".to_string();
    let mut claims: Vec<(String, String)> = match kind {
        0 => vec![],
        1 => vec![(format!("prf:{}", ascii(1)), delegate())],
        2 => vec![(format!("prf:{}", ascii(2)), delegate())],
        3 => vec![("prf:*".into(), ascii(13))],
        4 => vec![("prf:0".into(), ascii(13))],
        5 => vec![(format!("{}:0", ascii(3)), delegate())],
        6 => vec![(format!("{}:*", ascii(3)), delegate())],
        7 => vec![(format!("prf{}*", ascii(1)), delegate())],
        8 => ["my:0", "my:*", "my:prf:0", "my:prf:*"].iter().map(|x| (x.to_string(), delegate())).collect(),
        9 => ["prf:0", "prf:*", "0", "*", "w:0"].iter().map(|x| (format!("as:{}:{x}", did(0)), delegate())).collect(),
        10 => ["prf://0", "prf:/0", "prf:", "prf:**", "prf:*0", "prf:-1", "prf:0x1", "prf:18446744073709551616", "w:*", "ucan:*", "http://a/0", "prf:a"].iter().map(|x| (x.to_string(), delegate())).collect(),
        11 => vec![("prf:18446744073709551615".into(), delegate())],
        12 => ["ucan/delegate", "UCAN/DELEGATE", "ucan/DELEGATE ", "*", "ucan/*", "", "DELEGATE"].iter().map(|x| ("prf:*".to_string(), x.to_string())).collect(),
        // every combination of selectors
        _ => {
            let mut v = vec![];
            for s in ["prf:0", "prf:1", "prf:2", "prf:*"] { if sym::boolean() { v.push((s.to_string(), delegate())); } }
            v
        }
    };
    let repeated = kind == 13 && sym::boolean();
    if repeated { let c = claims.clone(); claims.extend(c); }
    // a selector with a caveat list that is empty claims nothing
    let mut selected = vec![false; n];
    let mut missing = false;
    for (r, a) in claims.iter() {
        root.cap.push((r.clone(), a.clone(), empty_map()));
        let Ok(u) = Url::parse(r) else { continue };
        if u.scheme() != "prf" || a.len() != 13 || !all(&a.bytes().zip(b"ucan/DELEGATE").map(|(x, y)| x == *y).collect::<Vec<_>>()) { continue; }
        if u.path() == "*" { for s in selected.iter_mut() { *s = true; } }
        else if let Ok(k) = u.path().parse::<usize>() {
            sym::assume(!u.path().starts_with('+'));
            if k < n { selected[k] = true; } else { missing = true; }
        }
    }
    let mut parser = did_parser();
    let chain = block_on(ProofChain::try_from_token_string(&root.token().text, None, &mut parser, &store));
    check(chain.is_ok() == !missing, 10, "the chain stands unless a proof number does not exist");
    sym::observe(1, chain.is_ok() as u64);
    let Ok(chain) = chain else { sym::reach(3); return };
    let infos: Vec<Info> = chain.reduce_capabilities(&SymSemantics);
    observe(&infos);
    for i in 0..n {
        let mine = did(i + 1);
        let passed = infos.iter().any(|x| matches!(&x.capability.resource, Resource::Resource { kind: ResourceUri::Scoped(s) } if s.mask >> i & 1 == 1) && x.originators.contains(&mine));
        check(passed == (selected[i] || explicit && i < 2), 11, "exactly the selected proofs' capabilities are passed on");
        if selected[i] { sym::reach(1); } else { sym::reach(2); }
    }
    let named = infos.iter().map(|x| x.originators.iter().filter(|o| **o != did(0)).count()).sum::<usize>();
    check(named == selected.iter().enumerate().filter(|(i, s)| **s || explicit && *i < 2).count(), 12, "and no others");
    // my:0 and my:* mean something to the semantics of this harness; only plain
    // resources could have come from the proofs
}

/// Many proofs, of which one number is handed on. param: number of proofs
#[no_mangle]
pub fn c09_large() {
    let n = sym::param(0) as usize;
    unsafe { set_meaning(n) };
    let mut root = Spec::new(&did(0), &did(425));
    let mut store = Store::default();
    for i in 0..n {
        let mut p = Spec::new(&did(i + 1), &did(0));
        p.cap.push((format!("w:{i}"), "a/0".into(), empty_map()));
        store.put(cid(i), &p.token().text);
    }
    root.prf = Some((0..n).map(|i| cid(i).to_string()).collect());
    let beyond = [n, n + 1, n + 255, n + 256, 1 << 16, (1 << 16) + 1, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63, usize::MAX - 255, usize::MAX - 1, usize::MAX];
    let k = if sym::boolean() { sym::place(n) } else { beyond[sym::choose(beyond.len() as u64) as usize] };
    root.cap.push((format!("prf:{k}"), "ucan/DELEGATE".into(), empty_map()));
    let mut parser = did_parser();
    let chain = block_on(ProofChain::try_from_token_string(&root.token().text, None, &mut parser, &store));
    check(chain.is_ok() == (k < n), 20, "the chain stands unless the proof number does not exist");
    sym::observe(1, chain.is_ok() as u64);
    let Ok(chain) = chain else { sym::reach(2); return };
    let infos: Vec<Info> = chain.reduce_capabilities(&SymSemantics);
    observe(&infos);
    check(infos.len() == 1, 21, "one proof's capability is passed on");
    check(infos.iter().all(|x| matches!(&x.capability.resource, Resource::Resource { kind: ResourceUri::Scoped(s) } if s.id == k) && x.originators.contains(&did(k + 1))), 22, "and it is that proof's");
    sym::reach(1);
}
