// Stand-in for the hash functions, used only in the symbolic build: every hash
// function is modelled as an injective function of its input. The harness
// crate supplies __model_hash, which gives equal digests to equal inputs and
// different digests to different inputs.
use crate::hasher::Hasher;
use std::io;

extern "Rust" {
    fn __model_hash(algorithm: u64, input: &[u8], digest: &mut [u8]);
}

#[derive(Debug)]
pub struct ModelHasher<const ALG: u64, const S: usize> {
    input: Vec<u8>,
    digest: [u8; S],
}

impl<const ALG: u64, const S: usize> Default for ModelHasher<ALG, S> {
    fn default() -> Self {
        Self { input: Vec::new(), digest: [0; S] }
    }
}

impl<const ALG: u64, const S: usize> Hasher for ModelHasher<ALG, S> {
    fn update(&mut self, input: &[u8]) {
        self.input.extend_from_slice(input);
    }

    fn finalize(&mut self) -> &[u8] {
        unsafe { __model_hash(ALG, &self.input, &mut self.digest) };
        &self.digest
    }

    fn reset(&mut self) {
        self.input.clear();
    }
}

impl<const ALG: u64, const S: usize> io::Write for ModelHasher<ALG, S> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.update(buf);
        Ok(buf.len())
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub mod blake2b {
    pub type Blake2bHasher<const S: usize> = super::ModelHasher<0xb220, S>;
    pub type Blake2b256 = super::ModelHasher<0xb220, 32>;
    pub type Blake2b512 = super::ModelHasher<0xb240, 64>;
}
pub mod blake2s {
    pub type Blake2sHasher<const S: usize> = super::ModelHasher<0xb250, S>;
    pub type Blake2s128 = super::ModelHasher<0xb250, 16>;
    pub type Blake2s256 = super::ModelHasher<0xb260, 32>;
}
pub mod blake3 {
    pub type Blake3Hasher<const S: usize> = super::ModelHasher<0x1e, S>;
    pub type Blake3_256 = super::ModelHasher<0x1e, 32>;
}
pub mod sha2 {
    pub type Sha2_256 = super::ModelHasher<0x12, 32>;
    pub type Sha2_512 = super::ModelHasher<0x13, 64>;
}
pub mod sha3 {
    pub type Sha3_224 = super::ModelHasher<0x17, 28>;
    pub type Sha3_256 = super::ModelHasher<0x16, 32>;
    pub type Sha3_384 = super::ModelHasher<0x15, 48>;
    pub type Sha3_512 = super::ModelHasher<0x14, 64>;
    pub type Keccak224 = super::ModelHasher<0x1a, 28>;
    pub type Keccak256 = super::ModelHasher<0x1b, 32>;
    pub type Keccak384 = super::ModelHasher<0x1c, 48>;
    pub type Keccak512 = super::ModelHasher<0x1d, 64>;
}

pub mod identity {
    use super::*;

    /// Identity hasher with a maximum size.
    ///
    /// # Panics
    ///
    /// Panics if the input is bigger than the maximum size.
    #[derive(Debug)]
    pub struct IdentityHasher<const S: usize> {
        i: usize,
        bytes: [u8; S],
    }

    impl<const S: usize> Default for IdentityHasher<S> {
        fn default() -> Self {
            Self {
                i: 0,
                bytes: [0u8; S],
            }
        }
    }

    impl<const S: usize> Hasher for IdentityHasher<S> {
        fn update(&mut self, input: &[u8]) {
            let start = self.i.min(self.bytes.len());
            let end = (self.i + input.len()).min(self.bytes.len());
            self.bytes[start..end].copy_from_slice(input);
            self.i = end;
        }

        fn finalize(&mut self) -> &[u8] {
            &self.bytes[..self.i]
        }

        fn reset(&mut self) {
            self.i = 0
        }
    }


    /// 32 byte Identity hasher (constrained to 32 bytes).
    ///
    /// # Panics
    ///
    /// Panics if the input is bigger than 32 bytes.
    pub type Identity256 = IdentityHasher<32>;
}

