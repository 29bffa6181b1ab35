use digest::{generic_array::GenericArray, typenum::U64};

// Stand-in, used only in the symbolic build. The harness supplies this function:
// equal (tag, bytes) get equal numbers, different ones different numbers.
extern "Rust" {
    fn __model_number(tag: u64, bytes: &[u8]) -> u64;
}

/// Injective: every (state, block) gets a state of its own.
fn compress(state: &mut [u32; 8], blocks: &[[u8; 64]]) {
    for block in blocks {
        let mut v = [0u8; 96];
        for i in 0..8 { v[4 * i..4 * i + 4].copy_from_slice(&state[i].to_be_bytes()); }
        v[32..].copy_from_slice(block);
        let k = unsafe { __model_number(256, &v) } as u32;
        for i in 0..8 { state[i] = (k + 1).wrapping_mul(0x0101_0301 + i as u32).wrapping_add(0x1100_0000 * i as u32); }
        state[7] = k;
    }
}

/// Raw SHA-256 compression function.
///
/// This is a low-level "hazmat" API which provides direct access to the core
/// functionality of SHA-256.
#[cfg_attr(docsrs, doc(cfg(feature = "compress")))]
pub fn compress256(state: &mut [u32; 8], blocks: &[GenericArray<u8, U64>]) {
    // SAFETY: GenericArray<u8, U64> and [u8; 64] have
    // exactly the same memory layout
    let p = blocks.as_ptr() as *const [u8; 64];
    let blocks = unsafe { core::slice::from_raw_parts(p, blocks.len()) };
    compress(state, blocks)
}
