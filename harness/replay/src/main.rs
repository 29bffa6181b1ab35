//! Runs a harness natively, against the real code, on recorded input values.
//! usage: replay ENTRY PARAM,PARAM,... < cases, one case of decimals per line
//! Prints one line per case: outcome and observations.
use std::cell::RefCell;
use std::io::BufRead;

#[derive(Default)]
struct Run { inputs: Vec<u128>, pos: usize, params: Vec<u64>, obs: Vec<(u32, u64)>, failed: Vec<u32>, discarded: bool, short: bool, noise: u64 }
thread_local! { static RUN: RefCell<Run> = RefCell::new(Run::default()); }
fn with<T>(f: impl FnOnce(&mut Run) -> T) -> T { RUN.with(|r| f(&mut r.borrow_mut())) }
struct Discard;

fn next() -> u128 {
    with(|r| { let v = r.inputs.get(r.pos).copied(); r.pos += 1; if v.is_none() { r.short = true } v.unwrap_or(0) })
}
#[no_mangle] extern "C" fn __sym_u64(bits: u32) -> u64 { let v = next() as u64; if bits >= 64 { v } else { v & ((1 << bits) - 1) } }
#[no_mangle] unsafe extern "C" fn __sym_bytes(p: *mut u8, n: usize) { for i in 0..n { *p.add(i) = next() as u8; } }
#[no_mangle] extern "C-unwind" fn __sym_assume(c: bool) { if !c { with(|r| r.discarded = true); std::panic::resume_unwind(Box::new(Discard)) } }
#[no_mangle] extern "C" fn __sym_check(c: bool, id: u32) { if !c { with(|r| r.failed.push(id)) } }
#[no_mangle] extern "C" fn __sym_observe(t: u32, v: u64) { with(|r| r.obs.push((t, v))) }
#[no_mangle] extern "C" fn __sym_reach(_: u32) {}
#[no_mangle] extern "C" fn __sym_concrete(v: u64) -> u64 { v }
#[no_mangle] extern "C" fn __sym_param(k: u32) -> u64 { with(|r| r.params.get(k as usize).copied().unwrap_or(0)) }
#[no_mangle] extern "C" fn __sym_is_symbolic() -> u32 { 0 }

/// Two real threads. What they do is tried again and again (`__sym_again`),
/// longer when a counterexample is looked for.
#[no_mangle] extern "C-unwind" fn __sym_race(f: extern "C-unwind" fn(*mut u8), a: *mut u8, g: extern "C-unwind" fn(*mut u8), b: *mut u8, _: u32) {
    use std::sync::{atomic::{AtomicU32, Ordering}, mpsc, Arc};
    struct P(*mut u8);
    unsafe impl Send for P {}
    let (tx, rx) = mpsc::channel();
    let start = Arc::new(AtomicU32::new(0));
    // one of them starts a little later
    let noise = with(|r| { r.noise = r.noise.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); r.noise >> 33 });
    let late = [if noise & 1 == 0 { noise >> 1 & 2047 } else { 0 }, if noise & 1 == 1 { noise >> 1 & 2047 } else { 0 }];
    for (f, a, late) in [(f, P(a), late[0]), (g, P(b), late[1])] {
        let (tx, start) = (tx.clone(), start.clone());
        std::thread::spawn(move || {
            let a = a;
            start.fetch_add(1, Ordering::SeqCst);
            while start.load(Ordering::SeqCst) < 2 {}
            for _ in 0..late { std::hint::spin_loop(); }
            let p = a.0;
            let _ = tx.send(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(p))).is_ok());
        });
    }
    for _ in 0..2 {
        match rx.recv_timeout(std::time::Duration::from_secs(20)) {
            Ok(true) => {}
            Ok(false) => panic!("a thread panicked"),
            Err(_) => panic!("deadlock"),
        }
    }
}
#[no_mangle] extern "C" fn __sym_again(done: u32) -> bool { with(|r| r.failed.is_empty()) && done < std::env::var("ROUNDS").ok().and_then(|r| r.parse().ok()).unwrap_or(3) }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let entry = harness_core::ENTRIES.iter().find(|e| e.0 == args[1]).expect("no such entry").1;
    let params: Vec<u64> = args.get(2).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    std::panic::set_hook(Box::new(|i| { println!("PANIC {}", i.to_string().replace('\n', " ")); }));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let inputs: Vec<u128> = line.split_whitespace().map(|x| x.parse().unwrap()).collect();
        with(|r| *r = Run { inputs, params: params.clone(), ..Default::default() });
        harness_core::reset();
        let res = std::panic::catch_unwind(|| entry());
        with(|r| {
            let outcome = if r.discarded { "discarded" } else if res.is_err() { "panic" } else if !r.failed.is_empty() { "check" } else { "ok" };
            println!("CASE {} failed={:?} short={} used={}/{} obs={}", outcome, r.failed, r.short, r.pos, r.inputs.len(),
                r.obs.iter().map(|(t, v)| format!("{}:{}", t, v)).collect::<Vec<_>>().join(","));
        });
    }
}
