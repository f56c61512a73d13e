pub use harness_wire::*;
