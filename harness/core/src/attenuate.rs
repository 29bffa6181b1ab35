//! A01 to A06: capabilities, caveats, resources and capability maps.
use crate::{reduce::{arbitrary_names, spec_enables, spec_resource, spec_uri, Ab, Cap, Sc}, sym::{self, check}, world::*};
use anyhow::{anyhow, Result};
use libipld_core::{ipld::Ipld, serde::{from_ipld, to_ipld}};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use ucan::{capability::{proof::{ProofDelegationSemantics, ProofSelection}, Ability, Capabilities, Capability, CapabilitySemantics, CapabilityView, Caveat, Resource, ResourceUri, Scope}, ipld::UcanIpld, Ucan};
use url::Url;

/// Text of the given length, each byte arbitrary ASCII.
pub fn ascii(n: usize) -> String {
    let b = sym::bytes(n);
    for x in b.iter() { sym::assume(*x < 0x80); }
    unsafe { String::from_utf8_unchecked(b) }
}
pub fn eq_bytes(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && all(&a.iter().zip(b).map(|(x, y)| x == y).collect::<Vec<_>>())
}
/// Equality of JSON values, without branching on arbitrary parts.
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Null, Value::Null) => true,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::Number(x), Value::Number(y)) => match (x.as_u64(), y.as_u64()) {
            (Some(x), Some(y)) => x == y,
            (None, None) => x == y,
            _ => false,
        },
        (Value::String(x), Value::String(y)) => eq_bytes(x.as_bytes(), y.as_bytes()),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && all(&x.iter().zip(y).map(|(x, y)| same(x, y)).collect::<Vec<_>>()),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && all(&x.iter().map(|(k, v)| y.get(k).map_or(false, |w| same(v, w))).collect::<Vec<_>>()),
        _ => false,
    }
}
fn scalar(kind: u64) -> Value {
    match kind {
        0 => Value::Null,
        1 => Value::Bool(sym::boolean()),
        2 => json!(sym::u64()),
        3 => Value::String(ascii(1)),
        4 => json!([sym::bits(8)]),
        5 => json!({ "k": sym::bits(8) }),
        6 => json!([]),
        7 => json!({}),
        8 => json!(""),
        9 => json!(-1),
        10 => json!(1.0),
        11 => json!({ "k": sym::bits(8), "l": sym::bits(8) }),
        _ => json!([sym::bits(8), sym::bits(8)]),
    }
}
/// An object with some of the keys, each with one of the value kinds.
fn object(keys: &[&str], kinds: &[u64]) -> Map<String, Value> {
    let mut m = Map::new();
    for k in keys {
        let c = sym::choose(kinds.len() as u64 + 1);
        if c > 0 { m.insert(k.to_string(), scalar(kinds[c as usize - 1])); }
    }
    m
}
fn allows(a: &Map<String, Value>, b: &Map<String, Value>) -> bool {
    all(&a.iter().map(|(k, v)| b.get(k).map_or(false, |w| same(v, w))).collect::<Vec<_>>())
}

const KINDS: &[&[u64]] = &[&[0, 1, 2], &[2, 3], &[4, 5, 6, 7], &[2, 9, 10, 8], &[5, 11, 7], &[4, 12, 6]];

/// param: which kinds of values, how many keys
#[no_mangle]
pub fn a02_pairs() {
    let kinds = KINDS[sym::param(0) as usize];
    let keys = &["a", "ab", ""][..sym::param(1) as usize];
    let (a, b) = (object(keys, kinds), object(keys, kinds));
    let (ca, cb) = (Caveat::try_from(Value::Object(a.clone())).unwrap(), Caveat::try_from(Value::Object(b.clone())).unwrap());
    let (ab, ba) = (ca.enables(&cb), cb.enables(&ca));
    check(ab == allows(&a, &b), 1, "a caveat allows another exactly when each of its entries is kept");
    check(!ab | !ba | same(&Value::Object(a.clone()), &Value::Object(b.clone())), 2, "never mutual on distinct caveats");
    check(ca.enables(&ca), 3, "reflexive");
    check(!b.is_empty() || ab == a.is_empty(), 4, "the empty caveat is allowed only by itself");
    sym::observe(1, ab as u64);
    sym::reach(1 + ab as u32);
}
/// Caveats arrive as JSON values; only objects are caveats.
#[no_mangle]
pub fn a02_kinds() {
    let v = scalar(sym::choose(13));
    let r = Caveat::try_from(&v);
    check(r.is_ok() == v.is_object(), 5, "only objects are caveats");
    if let Ok(c) = &r { check(same(&Value::Object((**c).clone()), &v), 6, "and are taken unaltered"); }
    check(Caveat::try_from(v.clone()).is_ok() == v.is_object(), 7, "by value as well");
    sym::observe(1, r.is_ok() as u64);
    sym::reach(1 + r.is_ok() as u32);
}
/// param: which kinds of values
#[no_mangle]
pub fn a02_triples() {
    let kinds = KINDS[sym::param(0) as usize];
    let c: Vec<Caveat> = (0..3).map(|_| Caveat::try_from(Value::Object(object(&["a", "b"], kinds))).unwrap()).collect();
    let (ab, bc, ac) = (c[0].enables(&c[1]), c[1].enables(&c[2]), c[0].enables(&c[2]));
    check(!ab | !bc | ac, 8, "transitive");
    sym::observe(1, ac as u64);
    if ab & bc { sym::reach(1); }
}

/// Large caveats that differ in any one place at most. params: number of entries, depth of the odd one
#[no_mangle]
pub fn a02_large() {
    let (n, depth) = (sym::param(0) as usize, sym::param(1));
    let odd = sym::place(n);
    let wrap = |mut v: Value, kind: u64| { for i in 0..depth { v = if kind + i & 1 == 0 { json!([1, v]) } else { json!({ "a": 1, "k": v }) }; } v };
    let side = || {
        let mut m: Map<String, Value> = (0..n).filter(|i| *i != odd).map(|i| (format!("key{i}"), json!({ "v": i }))).collect();
        let c = sym::choose(14);
        if c > 0 { m.insert(format!("key{odd}"), wrap(scalar(c - 1), 0)); }
        m
    };
    let (a, b) = (side(), side());
    let (ca, cb) = (Caveat::try_from(Value::Object(a.clone())).unwrap(), Caveat::try_from(Value::Object(b.clone())).unwrap());
    let ab = ca.enables(&cb);
    check(ab == allows(&a, &b), 1, "a caveat allows another exactly when each of its entries is kept");
    check(ca.enables(&ca), 3, "reflexive");
    sym::observe(1, ab as u64);
    sym::reach(1 + ab as u32);
}
fn scope() -> Sc { Sc { id: 0, mask: sym::bits(4) } }
fn uri(k: u64) -> ResourceUri<Sc> { if k == 0 { ResourceUri::Unscoped } else { ResourceUri::Scoped(scope()) } }
/// Six kinds of resource, the identity arbitrary text of the given length.
fn resource(k: u64, did: usize) -> Resource<Sc> {
    match k % 3 {
        0 => Resource::Resource { kind: uri(k / 3) },
        1 => Resource::My { kind: uri(k / 3) },
        _ => Resource::As { did: ascii(did), kind: uri(k / 3) },
    }
}
#[no_mangle]
pub fn a03_resources() {
    arbitrary_names();
    let (ka, kb) = (sym::choose(6), sym::choose(6));
    let (a, b) = (resource(ka, 2 + sym::choose(3) as usize), resource(kb, 2 + sym::choose(3) as usize));
    let got = a.contains(&b);
    check(got == spec_resource(&a, &b), 1, "same kind, same identity, and wildcard or containing scope");
    let (ua, ub) = (uri(ka / 3), uri(kb / 3));
    check(ua.contains(&ub) == spec_uri(&ua, &ub), 2, "wildcard or containing scope");
    check(a.contains(&a), 3, "reflexive");
    if ka / 3 == 1 && kb / 3 == 0 { check(!got, 4, "the specific never contains the wildcard"); }
    sym::observe(1, got as u64);
    sym::reach(1 + got as u32);
}
/// Long identities that differ in any one character at most. param: length
#[no_mangle]
pub fn a03_large() {
    let n = sym::param(0) as usize;
    let name: Vec<u8> = b"did:key:z".iter().copied().chain((0..n).map(|i| b'0' + (i * 7 % 10) as u8)).take(n).collect();
    let mut other = name.clone();
    other[sym::place(n)] = ascii(1).as_bytes()[0];
    match sym::choose(3) { 0 => (), 1 => { other.pop(); } _ => other.push(b'1') }
    let text = |b: &[u8]| String::from_utf8(b.to_vec()).unwrap();
    let k = sym::choose(2);
    let (a, b) = (Resource::As { did: text(&name), kind: uri(k) }, Resource::As { did: text(&other), kind: uri(sym::choose(2)) });
    let got = a.contains(&b);
    let same = if name.len() == other.len() { eq_bytes(&name, &other) } else { false };
    let kinds = match (&a, &b) { (Resource::As { kind: x, .. }, Resource::As { kind: y, .. }) => spec_uri(x, y), _ => false };
    check(got == (same & kinds), 7, "only resources of the very same identity are contained");
    sym::observe(1, got as u64);
    sym::reach(1 + got as u32);
}
#[no_mangle]
pub fn a03_triples() {
    arbitrary_names();
    let kind = sym::choose(3);
    let r: Vec<Resource<Sc>> = (0..3).map(|_| resource(kind + 3 * sym::choose(2), 2)).collect();
    let (ab, bc, ac) = (r[0].contains(&r[1]), r[1].contains(&r[2]), r[0].contains(&r[2]));
    check(!ab | !bc | ac, 5, "transitive");
    sym::observe(1, ac as u64);
    if ab & bc { sym::reach(1); }
}
#[no_mangle]
pub fn a03_selections() {
    let sel = || if sym::choose(2) == 0 { ProofSelection::All } else { ProofSelection::Index(sym::u64() as usize) };
    let (a, b) = (sel(), sel());
    let want = match (&a, &b) {
        (ProofSelection::All, _) => true,
        (ProofSelection::Index(x), ProofSelection::Index(y)) => x == y,
        _ => false,
    };
    check(a.contains(&b) == want, 6, "all contains any, a number only itself");
    sym::observe(1, want as u64);
    sym::reach(1 + want as u32);
}

fn caveat(k: u64) -> Value {
    match k {
        0 => json!({}),
        1 => json!({ "a": sym::bits(8) }),
        2 => json!({ "a": sym::bits(8), "b": sym::boolean() }),
        3 => json!({ "b": sym::boolean() }),
        4 => Value::Null,
        5 => json!([]),
        6 => json!("x"),
        _ => json!(sym::u64()),
    }
}
fn view(r: u64, c: u64) -> Cap {
    CapabilityView::new_with_caveat(resource(r, 2), Ab { rank: sym::u64() }, caveat(c))
}
fn spec_view(a: &Cap, b: &Cap) -> bool {
    let c = match (a.caveat.as_object(), b.caveat.as_object()) { (Some(x), Some(y)) => allows(x, y), _ => false };
    spec_resource(&a.resource, &b.resource) & (a.ability.rank >= b.ability.rank) & c
}
#[no_mangle]
pub fn a01_pairs() {
    arbitrary_names();
    let a = view(sym::choose(6), sym::choose(8));
    let b = view(sym::choose(6), sym::choose(8));
    let got = a.enables(&b);
    check(got == spec_view(&a, &b), 1, "enables exactly when resource, ability and caveat all do");
    check(a.enables(&a) == a.caveat.is_object(), 2, "reflexive on well-formed capabilities");
    sym::observe(1, got as u64);
    sym::reach(1 + got as u32);
}
#[no_mangle]
pub fn a01_triples() {
    arbitrary_names();
    let kind = sym::choose(3);
    let v: Vec<Cap> = (0..3).map(|_| view(kind + 3 * sym::choose(2), sym::choose(4))).collect();
    let (ab, bc, ac) = (v[0].enables(&v[1]), v[1].enables(&v[2]), v[0].enables(&v[2]));
    check(!ab | !bc | ac, 3, "transitive: attenuating never regains anything");
    sym::observe(1, ac as u64);
    if ab & bc { sym::reach(1); }
    let _ = spec_enables;
}
/// A capability without caveats is one with the empty caveat.
#[no_mangle]
pub fn a01_new() {
    let r = resource(sym::choose(6), 2);
    let v: Cap = CapabilityView::new(r.clone(), Ab { rank: sym::u64() });
    check(same(v.caveat(), &json!({})), 4, "no caveats means the empty caveat");
    check(*v.resource() == r, 5, "the resource is kept");
    sym::reach(1);
}

// URIs -----------------------------------------------------------------------

/// A scope that remembers the whole URL it was read from.
#[derive(Clone, PartialEq)]
pub struct Echo(pub String);
impl ToString for Echo { fn to_string(&self) -> String { self.0.clone() } }
impl Scope for Echo { fn contains(&self, other: &Self) -> bool { self == other } }
impl TryFrom<Url> for Echo {
    type Error = anyhow::Error;
    fn try_from(u: Url) -> Result<Echo> { if refuses(&u) { Err(anyhow!("refused")) } else { Ok(Echo(u.as_str().to_string())) } }
}
fn refuses(u: &Url) -> bool { u.path().as_bytes().last() == Some(&b'!') }
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Word(pub String);
impl ToString for Word { fn to_string(&self) -> String { self.0.clone() } }
impl Ability for Word {}
impl TryFrom<String> for Word {
    type Error = anyhow::Error;
    fn try_from(s: String) -> Result<Word> { if s.as_bytes().first() == Some(&b'!') { Err(anyhow!("refused")) } else { Ok(Word(s)) } }
}
struct EchoSemantics;
impl CapabilitySemantics<Echo, Word> for EchoSemantics {}

fn spec_part(u: &Url) -> Option<ResourceUri<Echo>> {
    if u.path() == "*" { Some(ResourceUri::Unscoped) } else if refuses(u) { None } else { Some(ResourceUri::Scoped(Echo(u.as_str().to_string()))) }
}
/// What A04 says about a resource URI.
fn spec_parse(text: &str) -> Option<Resource<Echo>> {
    let u = Url::parse(text).ok()?;
    match u.scheme() {
        "my" => Some(Resource::My { kind: spec_part(&u)? }),
        "as" => {
            let rest = u.path().strip_prefix("did:key:")?;
            let at = rest.find(':')?;
            sym::assume(at > 0);
            let (value, inner) = (&rest[..at], &rest[at + 1..]);
            let kind = if inner == "*" { ResourceUri::Unscoped } else { spec_part(&Url::parse(inner).ok()?)? };
            Some(Resource::As { did: format!("did:key:{value}"), kind })
        }
        _ => Some(Resource::Resource { kind: spec_part(&u)? }),
    }
}
const TEMPLATES: &[(&str, &str)] = &[
    ("", ""), ("my:", ""), ("w:", ""), ("as:", ""), ("as:did:key:", ""), ("as:did:key:z6:", ""), ("as:did:key:z6:w:", ""), ("as:did:", ":z6:w:1"),
    ("", ":did:key:z6:w:1"), ("", ":*"), ("as:did:key:z6", "w:1"), ("w://h/", ""), ("my", "*"), ("", "y:*"), ("as:did:key:z6:", ":*"), ("as:did:key:z6:w:1:", ":2"),
    ("as:did:key:z6:my:", ""), ("my:as:did:key:z6:", ""), ("as:did:key:z6:as:did:key:", ""),
];
/// param: template, number of arbitrary bytes in its gap
#[no_mangle]
pub fn a04_templates() {
    let (pre, post) = TEMPLATES[sym::param(0) as usize];
    let text = format!("{pre}{}{post}", ascii(sym::param(1) as usize));
    a04(&text);
}
const WHOLE: &[&str] = &["as:did:key:z6:w:1", "as:did:key:z6:w:*", "as:did:key:z6:*", "my:w:1", "my:*", "w:*", "w:a/b?c#d", "http://a.b/*", "w:a:*", "as:did:web:x:w:1", "as:did:key:z6:my:*", "ma:*"];
/// One byte of a whole URI is arbitrary. param: URI, position
#[no_mangle]
pub fn a04_mutations() {
    let mut b = WHOLE[sym::param(0) as usize].as_bytes().to_vec();
    let at = sym::param(1) as usize % b.len();
    b[at] = ascii(1).as_bytes()[0];
    a04(&unsafe { String::from_utf8_unchecked(b) });
}
/// One byte is put into a whole URI. param: URI, position
#[no_mangle]
pub fn a04_inserts() {
    let mut b = WHOLE[sym::param(0) as usize].as_bytes().to_vec();
    let at = sym::param(1) as usize % (b.len() + 1);
    b.insert(at, ascii(1).as_bytes()[0]);
    a04(&unsafe { String::from_utf8_unchecked(b) });
}
/// One byte is missing from a whole URI, or stands twice. param: URI
#[no_mangle]
pub fn a04_slips() {
    let whole = WHOLE[sym::param(0) as usize].as_bytes();
    for at in 0..whole.len() {
        let mut b = whole.to_vec();
        b.remove(at);
        a04(&unsafe { String::from_utf8_unchecked(b) });
        let mut b = whole.to_vec();
        b.insert(at, whole[at]);
        a04(&unsafe { String::from_utf8_unchecked(b) });
    }
}
fn a04(text: &str) {
    let want = spec_parse(text);
    let caveat = json!({ "x": 1 });
    let got = EchoSemantics.parse(text, "ability", Some(&caveat));
    check(got.is_some() == want.is_some(), 1, "understood exactly when it is a resource URI the semantics accepts");
    if let (Some(got), Some(want)) = (&got, &want) {
        match (&got.resource, want) {
            (Resource::Resource { kind: a }, Resource::Resource { kind: b }) => check(a == b, 2, "wildcard and scope of a plain resource"),
            (Resource::My { kind: a }, Resource::My { kind: b }) => check(a == b, 3, "wildcard and scope of an own resource"),
            (Resource::As { did: d, kind: a }, Resource::As { did: e, kind: b }) => {
                check(d == e, 4, "the very identity named");
                check(a == b, 5, "wildcard and scope of another identity's resource, read in full");
                sym::reach(3);
            }
            _ => check(false, 6, "kind of resource"),
        }
        check(got.caveat == caveat, 7, "caveat unaltered");
    }
    sym::observe(1, got.is_some() as u64);
    sym::reach(1 + got.is_some() as u32);
}
/// A long URI with one arbitrary character anywhere. params: which, position by
/// eights, how much longer
#[no_mangle]
pub fn a04_large() {
    let run = |n: usize| (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect::<String>();
    let more = sym::param(2) as usize;
    let mut b = match sym::param(0) {
        0 => format!("as:did:key:z{}:w:{}", run(90 + more), run(60 + more)),
        1 => format!("my:{}", run(150 + more)),
        2 => format!("{}://{}/*", run(40 + more), run(100 + more)),
        3 => format!("as:did:key:z{}:*", run(150 + more)),
        _ => format!("w:{}*", run(150 + more)),
    }.into_bytes();
    let at = sym::param(1) as usize * 8 + sym::choose(8) as usize;
    sym::assume(at < b.len());
    b[at] = ascii(1).as_bytes()[0];
    a04(&unsafe { String::from_utf8_unchecked(b) });
}
/// Abilities and caveats are passed on as they are. param: ability length
#[no_mangle]
pub fn a04_abilities() {
    let a = ascii(sym::param(0) as usize);
    let got = EchoSemantics.parse("w:1", &a, None);
    check(got.is_some() == (a.as_bytes().first() != Some(&b'!')), 8, "an ability the semantics rejects is not understood");
    if let Some(got) = got {
        check(got.ability.0 == a, 9, "the ability is read in full");
        check(got.caveat == json!({}), 10, "no caveat is the empty caveat");
    }
    let c = Capability::new("w:1".into(), a.clone(), json!({ "n": sym::u64() }));
    if let Some(got) = EchoSemantics.parse_capability(&c) {
        check(got.caveat == c.caveat && got.ability.0 == a, 11, "a capability's own ability and caveat are used");
        let back = Capability::from(&got);
        check(back == c, 12, "and turn back into the same capability");
        sym::reach(1);
    }
}
/// Capability views written out and read again are the same resource.
#[no_mangle]
pub fn a04_display() {
    let kind = |k: u64| if k == 0 { ResourceUri::Unscoped } else { ResourceUri::Scoped(Echo(format!("w:{}", { let t = ascii(1); let c = t.as_bytes()[0]; sym::assume(c.is_ascii_alphanumeric()); t }))) };
    // the plain wildcard prints as a lone asterisk, which is no URI; the others do
    let r = match sym::choose(3) {
        0 => Resource::As { did: "did:key:z6".into(), kind: kind(0) },
        1 => Resource::As { did: "did:key:z6".into(), kind: kind(1) },
        _ => Resource::Resource { kind: kind(1) },
    };
    let text = r.to_string();
    let got = EchoSemantics.parse(&text, "x", None);
    check(matches!(&got, Some(g) if g.resource == r), 13, "a resource written out reads as the same resource");
    sym::reach(1);
}
/// Proof selections are read from prf: URIs only. param: template, length
#[no_mangle]
pub fn a04_selectors() {
    let (pre, post) = [("", ""), ("prf:", ""), ("", ":0"), ("prf", "0"), ("", ":*"), ("prf:", "0"), ("my:", ""), ("as:did:key:z6:prf:", "")][sym::param(0) as usize];
    let text = format!("{pre}{}{post}", ascii(sym::param(1) as usize));
    let got = ProofDelegationSemantics {}.parse(&text, "ucan/DELEGATE", None);
    let number = |p: &str| { sym::assume(!p.starts_with('+')); if p == "*" { Some(ProofSelection::All) } else { p.parse::<usize>().ok().map(ProofSelection::Index) } };
    let want = Url::parse(&text).ok().filter(|u| u.scheme() == "prf").and_then(|u| number(u.path()));
    let plain = match &got { Some(CapabilityView { resource: Resource::Resource { kind: ResourceUri::Scoped(s) }, .. }) => Some(s.clone()), _ => None };
    check(plain == want, 14, "a plain proof selection exactly when the text is prf: with a number or asterisk");
    sym::observe(1, plain.is_some() as u64);
    sym::reach(1 + plain.is_some() as u32);
}

// Maps -----------------------------------------------------------------------

type Native = BTreeMap<String, BTreeMap<String, Vec<Value>>>;

/// Order of two capabilities in a map: by resource, then ability.
fn before(a: &Capability, b: &Capability) -> std::cmp::Ordering { (&a.resource, &a.ability).cmp(&(&b.resource, &b.ability)) }

/// param: number of capabilities, 1 if texts are two bytes long
#[no_mangle]
pub fn a05_sequence() {
    let n = sym::param(0) as usize;
    let len = 1 + sym::param(1) as usize;
    let caps: Vec<Capability> = (0..n).map(|_| Capability::new(ascii(len), ascii(1), match sym::choose(3) { 0 => json!({}), 1 => json!({ "c": sym::u64() }), _ => json!({ "c": null, "d": [sym::u64()] }) })).collect();
    sequence(caps);
}
/// Many capabilities, of which any one is odd. params: number, how many resources
#[no_mangle]
pub fn a05_large() {
    let (n, of) = (sym::param(0) as usize, sym::param(1) as usize);
    let odd = sym::place(n);
    let caps: Vec<Capability> = (0..n).map(|i| {
        let r = if i == odd { ascii(1) } else { ((b'a' + (i * 5 % of) as u8) as char).to_string() };
        let c = match i % 3 { 0 => json!({}), 1 => json!({ "c": i }), _ => json!({ "d": [] }) };
        Capability::new(r, ["x/y", "a", "m/n"][i % 3 * (i % 2)].to_string(), c)
    }).collect();
    sequence(caps);
}
fn sequence(caps: Vec<Capability>) {
    let map = Capabilities::try_from(caps.clone());
    check(map.is_ok(), 1, "well-formed capabilities make a map");
    let map = map.unwrap();
    let got: Vec<Capability> = map.iter().collect();
    let mut want = caps.clone();
    // a stable sort is exactly: grouped, claim order within a group
    for i in 1..want.len() { let mut j = i; while j > 0 && before(&want[j - 1], &want[j]).is_gt() { want.swap(j - 1, j); j -= 1; } }
    check(got.len() == want.len(), 2, "none lost, none invented");
    for (g, w) in got.iter().zip(want.iter()) {
        check(eq_bytes(g.resource.as_bytes(), w.resource.as_bytes()) & eq_bytes(g.ability.as_bytes(), w.ability.as_bytes()) & same(&g.caveat, &w.caveat), 3, "the same capabilities, grouped, in claim order");
    }
    let again = Capabilities::try_from(got).unwrap();
    check(again == map, 4, "iterating and rebuilding gives the map back");
    sym::observe(1, map.len() as u64);
    sym::reach(1);
}
/// param: two-bit size of each of the four caveat lists
#[no_mangle]
pub fn a05_maps() {
    let sizes = sym::param(0);
    let mut native: Native = BTreeMap::new();
    let mut full: Native = BTreeMap::new();
    let mut want = vec![];
    for (k, (r, a)) in [("r", "a"), ("r", "b"), ("s", "a"), ("s", "b")].iter().enumerate() {
        let list: Vec<Value> = (0..(sizes >> (2 * k)) & 3).map(|i| if i == k as u64 & 1 && sym::choose(2) == 1 { json!({}) } else { json!({ "c": sym::u64() }) }).collect();
        for c in list.iter() { want.push(Capability::new(r.to_string(), a.to_string(), c.clone())); }
        if !list.is_empty() { full.entry(r.to_string()).or_default().insert(a.to_string(), list.clone()); }
        native.entry(r.to_string()).or_default().insert(a.to_string(), list);
    }
    let map = Capabilities::try_from(native.clone());
    check(map.is_ok(), 5, "a well-formed native map is accepted");
    let map = map.unwrap();
    check(*map == native, 6, "unchanged");
    let got: Vec<Capability> = map.iter().collect();
    check(got == want, 7, "an empty caveat list contributes nothing, every other caveat one capability");
    let again = Capabilities::try_from(got).unwrap();
    check(*again == full, 8, "rebuilding drops only the caveat-less entries");
    sym::reach(1);
}

fn to_ipld_value(v: &Value) -> Ipld { to_ipld(v).unwrap_or(Ipld::Null) }

/// A map with one odd place. param: where the map comes from
#[no_mangle]
pub fn a06_maps() {
    let source = sym::param(0);
    let odd = sym::choose(3);
    // 1.. : kinds of value in place of the map, the abilities, the list, the caveat
    let place = sym::choose(5);
    let other = |k: u64| match k { 0 => Value::Null, 1 => json!(sym::boolean()), 2 => json!(sym::bits(8)), 3 => json!(ascii(1)), 4 => json!([]), 5 => json!([{}]), 6 => json!({}), _ => json!({ "x": { "y": 1 } }) };
    let kind = if place > 0 { sym::choose(8) } else { 0 };
    let caveat = |here: bool| if here && place == 4 { other(kind) } else { json!({ "c": sym::u64() }) };
    let list = |here: bool| if here && place == 3 { other(kind) } else { json!([{}, caveat(here)]) };
    let abilities = |here: bool| if here && place == 2 { other(kind) } else { json!({ "a": [{}], "b": list(here), "e": [] }) };
    let value = if place == 1 { other(kind) } else { json!({ "r": abilities(odd == 0), "s": abilities(odd == 1), "t": abilities(odd == 2) }) };
    well_formed(source, value);
}
/// Many resources, abilities and caveats, of which any one place is odd.
/// params: where the map comes from, what there are many of, how many
#[no_mangle]
pub fn a06_large() {
    let (source, many, n) = (sym::param(0), sym::param(1), sym::param(2));
    let odd = sym::place(n as usize) as u64;
    let bad = match sym::choose(7) { 0 => json!({}), 1 => json!([]), 2 => Value::Null, 3 => json!([{}]), 4 => json!([[]]),  5 => json!({ "a": [{}] }), _ => json!({ "a": [sym::bits(4)] }) };
    let list = |k: u64| if many == 2 && k == 0 { Value::Array((0..n).map(|i| if i == odd { bad.clone() } else { json!({ "i": i }) }).collect()) } else { json!([{}]) };
    let abilities = |k: u64| match many {
        1 if k == 1 => Value::Object((0..n).map(|i| (format!("a{i}"), if i == odd { bad.clone() } else { list(1) })).collect()),
        _ => json!({ "a": list(k), "b": [] }),
    };
    let value = match many {
        0 => Value::Object((0..n).map(|i| (format!("r{i}"), if i == odd { bad.clone() } else { abilities(0) })).collect()),
        _ => json!({ "q": abilities(0), "r": abilities(1) }),
    };
    well_formed(source, value);
}
fn well_formed(source: u64, value: Value) {
    let well = match value.as_object() {
        None => false,
        Some(m) => m.values().all(|a| match a.as_object() {
            None => false,
            Some(m) => !m.is_empty() && m.values().all(|l| match l.as_array() { None => false, Some(l) => l.iter().all(|c| c.is_object()) }),
        }),
    };
    let got: Option<Capabilities> = match source {
        0 => Capabilities::try_from(&value).ok(),
        1 => serde_json::from_value(value.clone()).ok(),
        2 => {
            // native maps can only be odd in their caveats or lack abilities
            let native: Result<Native, _> = serde_json::from_value(value.clone());
            let Ok(native) = native else { sym::assume(false); return };
            Capabilities::try_from(native).ok()
        }
        3 => {
            // as a sequence: only caveats can be odd
            let native: Result<Native, _> = serde_json::from_value(value.clone());
            let Ok(native) = native else { sym::assume(false); return };
            sym::assume(native.values().all(|a| !a.is_empty()));
            let mut v = vec![];
            for (r, m) in native.iter() { for (a, l) in m.iter() { for c in l.iter() { v.push(Capability::new(r.clone(), a.clone(), c.clone())); } } }
            let got = Capabilities::try_from(v).ok();
            check(got.is_some() == well, 1, "a sequence is rejected exactly when a caveat is not an object");
            sym::observe(1, got.is_some() as u64);
            sym::reach(1 + got.is_some() as u32);
            return;
        }
        4 => from_ipld(to_ipld_value(&value)).ok(),
        5 => {
            // inside a token
            sym::assume(!has_null(&value));
            let mut p = match Spec::new(&did(0), &did(1)).payload() { Ipld::Map(m) => m, _ => BTreeMap::new() };
            p.insert("cap".into(), to_ipld_value(&value));
            let text = format!("{}.{}.{}", b64(br#"{"alg":"EdDSA","typ":"JWT"}"#), b64(&json_text(&Ipld::Map(p), 0, true)), b64(b"s"));
            Ucan::try_from(text.as_str()).ok().map(|u| u.capabilities().clone())
        }
        _ => {
            sym::assume(!has_null(&value));
            let m = BTreeMap::from([
                ("v".to_string(), Ipld::String("0.10.0-canary".into())), ("iss".to_string(), Ipld::List(vec![Ipld::Integer(1)])), ("aud".to_string(), Ipld::List(vec![Ipld::Integer(1)])),
                ("s".to_string(), Ipld::List(vec![Ipld::Integer(1)])), ("cap".to_string(), to_ipld_value(&value)),
            ]);
            from_ipld::<UcanIpld>(Ipld::Map(m)).ok().map(|u| u.cap)
        }
    };
    check(got.is_some() == well, 2, "accepted exactly when well-formed");
    if let Some(got) = &got {
        let m = value.as_object().unwrap();
        let mut eq = vec![got.len() == m.len()];
        for (r, a) in m.iter() {
            let (g, a) = (&got[r], a.as_object().unwrap());
            eq.push(g.len() == a.len());
            for (k, l) in a.iter() { eq.push(same(&Value::Array(g[k].clone()), l)); }
        }
        check(all(&eq), 3, "and unchanged");
    }
    sym::observe(1, got.is_some() as u64);
    sym::reach(1 + got.is_some() as u32);
}
/// libipld cannot encode JSON nulls, so no token carries them.
fn has_null(v: &Value) -> bool {
    match v { Value::Null => true, Value::Array(a) => a.iter().any(has_null), Value::Object(m) => m.values().any(has_null), _ => false }
}
