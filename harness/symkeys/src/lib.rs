pub use harness_keys::*;
