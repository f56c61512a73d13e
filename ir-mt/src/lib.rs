pub use harness_mt::*;
