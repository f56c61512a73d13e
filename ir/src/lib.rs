pub use harness::*;
