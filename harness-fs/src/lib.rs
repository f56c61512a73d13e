//! Harnesses over modelled files (P16, P17).
pub mod image;
pub mod vfs;

macro_rules! entries {
    ($($name:ident => $body:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $body })*
        #[cfg(feature = "native")]
        pub const ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}
entries! {
    p16_mem => image::p16();
    p16k_mem => image::p16k();
    p16l_mem => { harness::world::odd(); image::p16() };
    p29f_mem => image::p29f();
    p16v_mem => image::p16v();
    p16i_mem => image::p16i();
    p16g_mem => image::p16g();
    p17_mem => image::p17();
}
