pub use harness_core::*;
