pub use harness_fs::*;
