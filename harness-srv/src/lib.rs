//! Harnesses over the start of the server program (P36).
pub mod start;

macro_rules! entries {
    ($($name:ident => $body:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $body })*
        #[cfg(feature = "native")]
        pub const ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}
entries! {
    p36_none => start::none();
    p36_image => start::image();
    p36_bad => start::bad();
    p36_rdb => start::rocksdb();
}
