//! Concurrent harnesses (P24, P25, P26).
pub mod clock;
pub mod plugin;
pub mod shared;

macro_rules! entries {
    ($($name:ident => $body:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $body })*
    };
}
entries! {
    p24_mem => shared::p24(|_| harness::world::mem().db);
    p24_rdb => shared::p24(shared::disk);
    p24s_mem => shared::p24s(|_| harness::world::mem().db);
    p24s_rdb => shared::p24s(shared::disk);
    p25_all => clock::p25();
    p25w_all => clock::p25w();
    p25t_all => clock::p25t();
    p26_mem => plugin::p26(harness::world::mem().db);
    p26_rdb => plugin::p26(harness::world::rdb().db);
    p26f_rdb => plugin::p26f(harness::world::rdb().db);
    p26k_mem => plugin::p26k(harness::world::mem().db);
}
