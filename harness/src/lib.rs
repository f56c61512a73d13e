//! The harnesses. Every entry point is one symbolic run: all its `sym::bytes`
//! are symbolic variables and all its `sym::choose` are explored.
pub mod big;
pub mod core;
pub mod dur;
pub mod eval;
pub mod number;
pub mod query;
pub mod same;
pub mod small;
pub mod txn;
pub mod wide;
pub mod world;

macro_rules! entries {
    ($($name:ident => $body:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $body })*
        #[cfg(feature = "native")]
        pub const ENTRIES: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}
entries! {
    p01_mem => core::p01(world::mem());
    p01_rdb => core::p01(world::rdb());
    p02_mem => core::p02(world::mem());
    p02_rdb => core::p02(world::rdb());
    p03_mem => core::p03(world::mem());
    p03_rdb => core::p03(world::rdb());
    p04_mem => core::p04(world::mem());
    p04_rdb => core::p04(world::rdb());
    p05_mem => core::p05(world::mem());
    p05_rdb => core::p05(world::rdb());
    p06_mem => core::p06(world::mem());
    p06_rdb => core::p06(world::rdb());
    p06k_mem => core::p06k(world::mem());
    p06k_rdb => core::p06k(world::rdb());
    p07_mem => core::p07(world::mem());
    p07_rdb => core::p07(world::rdb());
    p07k_mem => core::p07k(world::mem());
    p07k_rdb => core::p07k(world::rdb());
    p08_mem => core::p08(world::mem());
    p08_rdb => core::p08(world::rdb());
    p09_mem => core::p09(world::mem());
    p09_rdb => core::p09(world::rdb());
    p09c_mem => core::p09c(world::mem());
    p09c_rdb => core::p09c(world::rdb());
    p10_mem => core::p10(world::mem());
    p10_rdb => core::p10(world::rdb());
    p11_mem => core::p11(world::mem());
    p11_rdb => core::p11(world::rdb());
    p27_mem => core::p27(world::mem());
    p27_rdb => core::p27(world::rdb());
    p12_both => core::p12();
    p13_mem => core::p13(world::mem(), world::mem2());
    p13_rdb => core::p13(world::rdb(), world::rdb2());
    p14_rdb => dur::p14();
    p14c_rdb => dur::p14c();
    p15_rdb => dur::p15();
    p30_rdb => dur::p30();
    p31_rdb => dur::p31();
    p30r_rdb => dur::p30r();
    p18_all => small::p18();
    p18e_rdb => small::p18e(world::rdb());
    p18l_all => small::p18l();
    p18el_rdb => small::p18el(world::rdb());
    p19_all => small::p19();
    p20_all => small::p20();
    p20o_all => small::p20o();
    p21_all => small::p21();
    p21n_all => small::p21n();
    p21t_all => small::p21t();
    p21m_all => small::p21m();
    p02l_mem => { world::odd(); core::p02(world::mem()) };
    p02l_rdb => { world::odd(); core::p02(world::rdb()) };
    p03l_mem => { world::odd(); core::p03(world::mem()) };
    p03l_rdb => { world::odd(); core::p03(world::rdb()) };
    p04l_mem => { world::odd(); core::p04(world::mem()) };
    p04l_rdb => { world::odd(); core::p04(world::rdb()) };
    p05l_mem => { world::odd(); core::p05(world::mem()) };
    p05l_rdb => { world::odd(); core::p05(world::rdb()) };
    p06l_mem => { world::odd(); core::p06(world::mem()) };
    p06l_rdb => { world::odd(); core::p06(world::rdb()) };
    p07l_mem => { world::odd(); core::p07(world::mem()) };
    p07l_rdb => { world::odd(); core::p07(world::rdb()) };
    p08l_mem => { world::odd(); core::p08(world::mem()) };
    p08l_rdb => { world::odd(); core::p08(world::rdb()) };
    p09l_mem => { world::odd(); core::p09(world::mem()) };
    p09l_rdb => { world::odd(); core::p09(world::rdb()) };
    p10l_mem => { world::odd(); core::p10(world::mem()) };
    p10l_rdb => { world::odd(); core::p10(world::rdb()) };
    p11l_mem => { world::odd(); core::p11(world::mem()) };
    p11l_rdb => { world::odd(); core::p11(world::rdb()) };
    p12q_both => core::p12q();
    p12l_both => { world::odd(); core::p12() };
    p13l_mem => { world::odd(); core::p13(world::mem(), world::mem2()) };
    p13l_rdb => { world::odd(); core::p13(world::rdb(), world::rdb2()) };
    p14l_rdb => { world::odd(); dur::p14() };
    p14co_rdb => { world::options(); dur::p14c() };
    p15o_rdb => { world::options(); dur::p15() };
    p15l_rdb => { world::odd(); dur::p15() };
    p29_mem => number::p29(world::mem(), number::any(), true, |d| d);
    p29a_rdb => number::p29(world::rdb(), number::texts(0), false, dur::reopen);
    p29b_rdb => number::p29(world::rdb(), number::texts(1), false, dur::reopen);
    p29c_rdb => number::p29(world::rdb(), number::texts(2), false, dur::reopen);
    p29d_rdb => number::p29(world::rdb(), number::texts(3), false, dur::reopen);
    p29e_rdb => number::p29(world::rdb(), number::texts(4), true, dur::reopen);
    p32_all => query::p32();
    p32x_all => query::p32x();
    p32d_all => query::p32d();
    p30l_rdb => { world::odd(); dur::p30() };
    p34_mem => txn::p34(world::mem());
    p34_rdb => txn::p34(world::rdb());
    p34l_mem => { world::odd(); txn::p34(world::mem()) };
    p34l_rdb => { world::odd(); txn::p34(world::rdb()) };
    p34w_mem => txn::p34w(world::mem());
    p34w_rdb => txn::p34w(world::rdb());
    p03g_mem => big::ops(world::mem(), &[0, 1, 2]);
    p03g_rdb => big::ops(world::rdb(), &[0, 1, 2]);
    p04g_mem => big::ops(world::mem(), &[3, 4, 5, 6, 7]);
    p04g_rdb => big::ops(world::rdb(), &[3, 4, 5, 6, 7]);
    p07g_mem => big::ops(world::mem(), &[8, 9, 10]);
    p07g_rdb => big::ops(world::rdb(), &[8, 9, 10]);
    p06g_mem => big::names(world::mem());
    p06g_rdb => big::names(world::rdb());
    p08g_mem => big::limits(world::mem(), &[0]);
    p08g_rdb => big::limits(world::rdb(), &[0]);
    p09g_mem => big::limits(world::mem(), &[1, 2]);
    p09g_rdb => big::limits(world::rdb(), &[1, 2]);
    p13g_mem => big::bulk(world::mem());
    p13g_rdb => big::bulk(world::rdb());
    p14g_rdb => big::broken(true);
    p06v_mem => wide::wide(world::mem(), false, |w| w);
    p06v_rdb => wide::wide(world::rdb(), false, |w| w);
    p07v_mem => wide::wide(world::mem(), true, |w| w);
    p07v_rdb => wide::wide(world::rdb(), true, |w| w);
    p15v_rdb => wide::wide(world::rdb(), true, wide::through);
    p07i_mem => wide::indexes(world::mem(), |w| w);
    p07i_rdb => wide::indexes(world::rdb(), |w| w);
    p15i_rdb => wide::indexes(world::rdb(), wide::through);
    p15g_rdb => big::reload(world::rdb(), dur::reopen);
    p30g_rdb => big::broken(false);
}
