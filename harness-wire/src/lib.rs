//! Harnesses over the wire messages (P22, P23).
pub mod cli;
pub mod plug;
pub mod server;
pub mod wire;

macro_rules! entries {
    ($($name:ident => $body:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $body })*
        #[cfg(feature = "native")]
        pub const ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}
entries! {
    p22_all => wire::p22();
    p22o_all => wire::p22o();
    p22b_all => wire::p22b();
    p23_all => wire::p23();
    p23o_all => wire::p23o();
    p23t_all => wire::p23t();
    p29wa_all => wire::p29(harness::number::texts(0), false);
    p29wb_all => wire::p29(harness::number::texts(1), false);
    p29wc_all => wire::p29(harness::number::texts(2), false);
    p29wd_all => wire::p29(harness::number::texts(3), false);
    p29we_all => wire::p29(harness::number::texts(4), true);
    p29s_mem => server::p29(harness::world::mem().db);
    p28_mem => server::p28(harness::world::mem().db, harness::world::mem2().db);
    p28v_mem => server::p28v(harness::world::mem().db);
    p28i_mem => server::p28i(harness::world::mem().db, harness::world::mem2().db);
    p28f_rdb => server::p28f(harness::world::rdb().db, harness::world::rdb2().db);
    p28w_mem => server::p28w(harness::world::mem().db);
    p28w_rdb => server::p28w(harness::world::rdb().db);
    p35_mem => cli::p35(harness::world::mem().db, harness::world::mem2().db);
    p35_rdb => cli::p35(harness::world::rdb().db, harness::world::rdb2().db);
    p35i_mem => cli::p35i(harness::world::mem().db, harness::world::mem2().db);
    p28g_mem => server::p28g(harness::world::mem().db);
    p28g_rdb => server::p28g(harness::world::rdb().db);
    p33_mem => plug::p33(harness::world::mem());
    p33_rdb => plug::p33(harness::world::rdb());
    p33h_mem => plug::p33h(harness::world::mem().db);
    p28_rdb => server::p28(harness::world::rdb().db, harness::world::rdb2().db);
}
