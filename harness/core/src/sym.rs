//! What the harnesses ask of the engine. In the symbolic build these are the
//! symbolic executor's own; natively the replay program supplies them from a
//! recorded list of input values.
extern "C" {
    fn __sym_u64(bits: u32) -> u64;
    fn __sym_bytes(p: *mut u8, n: usize);
    fn __sym_check(c: bool, id: u32);
    fn __sym_observe(tag: u32, v: u64);
    fn __sym_reach(id: u32);
    fn __sym_concrete(v: u64) -> u64;
    fn __sym_param(k: u32) -> u64;
    fn __sym_is_symbolic() -> u32;
}

extern "C-unwind" {
    fn __sym_assume(c: bool);
    fn __sym_race(f: extern "C-unwind" fn(*mut u8), a: *mut u8, g: extern "C-unwind" fn(*mut u8), b: *mut u8, switches: u32);
    fn __sym_again(done: u32) -> bool;
}

/// An arbitrary value of the given width.
pub fn bits(n: u32) -> u64 { unsafe { __sym_u64(n) } }
pub fn u64() -> u64 { bits(64) }
pub fn boolean() -> bool { bits(1) != 0 }
pub fn opt_u64() -> Option<u64> { if choose(2) == 1 { Some(u64()) } else { None } }
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n == 0 { return v; }
    unsafe { __sym_bytes(v.as_mut_ptr(), n) };
    v
}
/// An arbitrary number below n, one path for each.
pub fn choose(n: u64) -> u64 {
    let width = if n <= 2 { 1 } else if n <= 4 { 2 } else if n <= 16 { 4 } else { 8 };
    let v = bits(width);
    if n != 1 << width { assume(v < n); }
    concrete(v)
}
/// Any place among a few, or one of several among many.
pub fn place(n: usize) -> usize {
    if n <= 100 { return choose(n as u64) as usize; }
    let list: Vec<usize> = [0, 1, 2, n / 3, n / 2, 126, 127, 128, 129, 254, 255, 256, 257, n - 2, n - 1].into_iter().filter(|i| *i < n).collect();
    list[choose(list.len() as u64) as usize]
}
pub fn concrete(v: u64) -> u64 { unsafe { __sym_concrete(v) } }
pub fn assume(c: bool) { unsafe { __sym_assume(c) } }
/// The assertion. The text is for the native replay, which prints it.
#[inline(never)]
pub fn check(c: bool, id: u32, text: &'static str) {
    if !is_symbolic() && !c { println!("FAILED {id} {text}"); }
    unsafe { __sym_check(c, id) }
}
pub fn observe(tag: u32, v: u64) { unsafe { __sym_observe(tag, v) } }
pub fn observe_bytes(tag: u32, v: &[u8]) {
    observe(tag, v.len() as u64);
    for b in v { observe(tag, *b as u64); }
}
/// Marks a place that some path must come to, or the harness is vacuous.
pub fn reach(id: u32) { unsafe { __sym_reach(id) } }
/// The k-th number given on the command line: the shape or size of this run.
pub fn param(k: u32) -> u64 { unsafe { __sym_param(k) } }
pub fn is_symbolic() -> bool { unsafe { __sym_is_symbolic() != 0 } }

/// Two threads: every schedule in which running threads are interrupted at
/// most so many times, or natively whatever happens.
pub fn race<F: FnMut() + Send, G: FnMut() + Send>(mut f: F, mut g: G, switches: u32) {
    extern "C-unwind" fn call<F: FnMut()>(p: *mut u8) { unsafe { (*(p as *mut F))() } }
    unsafe { __sym_race(call::<F>, &mut f as *mut F as *mut u8, call::<G>, &mut g as *mut G as *mut u8, switches) }
}
/// Once more? Natively, as often as told or until an assertion fails.
pub fn again(done: u32) -> bool { if is_symbolic() { done == 0 } else { unsafe { __sym_again(done) } } }
