pub use harness_srv::*;
