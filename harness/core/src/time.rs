//! C02, C04: validity windows.
use crate::{sym::{self, check}, world::*};
use ucan::chain::ProofChain;

fn windowed(nbf: Option<u64>, exp: Option<u64>) -> Spec {
    let mut s = Spec::new(&did(0), &did(1));
    s.nbf = nbf;
    s.exp = exp;
    s
}
#[no_mangle]
pub fn c04_pairs() {
    let a = windowed(sym::opt_u64(), sym::opt_u64());
    let b = windowed(sym::opt_u64(), sym::opt_u64());
    let (ua, ub) = (a.build(no_caps()), b.build(no_caps()));
    check(ua.lifetime_begins_before(&ub) == a.start_ok(&b), 1, "begins_before is the comparison of start bounds");
    check(ua.lifetime_ends_after(&ub) == a.end_ok(&b), 2, "ends_after is the comparison of end bounds");
    let enc = ua.lifetime_encompasses(&ub);
    check(enc == (a.start_ok(&b) & a.end_ok(&b)), 3, "encompasses is both comparisons");
    let t = sym::u64();
    check(!enc | !b.within(t) | a.within(t), 4, "an encompassed lifetime has no instant outside the encompassing one");
    check(ua.lifetime_encompasses(&ua), 5, "reflexive");
    sym::observe(1, enc as u64);
    sym::reach(1);
}

#[no_mangle]
pub fn c04_triples() {
    let s: Vec<Spec> = (0..3).map(|_| windowed(sym::opt_u64(), sym::opt_u64())).collect();
    let u: Vec<_> = s.iter().map(|s| s.build(no_caps())).collect();
    let ab = u[0].lifetime_encompasses(&u[1]);
    let bc = u[1].lifetime_encompasses(&u[2]);
    let ac = u[0].lifetime_encompasses(&u[2]);
    check(!ab | !bc | ac, 6, "transitive");
    sym::observe(1, ac as u64);
    if ab & bc { sym::reach(2); }
}

#[no_mangle]
pub fn c02_single() {
    let s = windowed(sym::opt_u64(), sym::opt_u64());
    let now = sym::opt_u64();
    let clock = sym::bits(62);
    let g = global();
    g.clock = clock;
    let u = s.build(no_caps());
    let mut parser = did_parser();
    let r = block_on(u.validate(now, &mut parser)).is_ok();
    let t = now.unwrap_or(clock);
    check(r == s.within(t), 1, "validates exactly within the window");
    check(u.is_expired(now) == s.exp.map_or(false, |e| e < t), 2, "is_expired agrees with the expiry");
    check(u.is_too_early() == s.nbf.map_or(false, |n| n > clock), 3, "is_too_early agrees with the start and the clock");
    sym::observe(1, r as u64);
    sym::reach(1 + r as u32);
}

#[no_mangle]
pub fn c02_chain() {
    let depth = sym::param(0) as usize;
    let now = sym::opt_u64();
    let clock = sym::bits(62);
    global().clock = clock;
    let mut store = Store::default();
    let mut specs: Vec<Spec> = vec![];
    for i in 0..depth {
        let mut s = Spec::new(&did(i), &did(i + 1));
        s.nbf = sym::opt_u64();
        s.exp = sym::opt_u64();
        if i > 0 { s.prf = Some(vec![cid(i - 1).to_string()]); }
        store.put(cid(i), &s.text());
        specs.push(s);
    }
    let t = now.unwrap_or(clock);
    let mut parser = did_parser();
    let r = block_on(ProofChain::try_from_token_string(&specs[depth - 1].text(), now, &mut parser, &store)).is_ok();
    let mut want = true;
    for i in 0..depth {
        want &= specs[i].within(t);
        if i > 0 { want &= specs[i - 1].encompasses(&specs[i]); }
    }
    check(r == want, 4, "the chain is accepted exactly when the one time lies in every window");
    sym::observe(1, r as u64);
    sym::reach(1 + r as u32);
}
