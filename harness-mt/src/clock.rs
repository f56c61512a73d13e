//! P25: generated UUIDs. The C library's clock is replaced by symbolic
//! readings that never run backwards.
use indradb::util::generate_uuid_v1;
use indradb::{Identifier, Vertex};
use std::cell::UnsafeCell;
use sym::choose;
use uuid::Uuid;

struct Clock(UnsafeCell<(u64, u64, bool, u32)>);
unsafe impl Sync for Clock {}
static NOW: Clock = Clock(UnsafeCell::new((1_700_000_000, 1000, false, 0)));
#[allow(clippy::mut_from_ref)]
fn now() -> &'static mut (u64, u64, bool, u32) {
    unsafe { &mut *NOW.0.get() }
}
/// Replaces the C function: a new reading, not before the last one.
#[no_mangle]
pub extern "C" fn clock_gettime(_id: i32, p: *mut [u64; 2]) -> i32 {
    let c = now();
    if c.2 {
        let s = sym::u64_("seconds");
        let n = sym::u32_("nanoseconds") as u64;
        // from 1970 to 2100
        sym::assume(n < 1_000_000_000 && s < 4_102_444_800);
        sym::assume((s > c.0) | ((s == c.0) & (n >= c.1)));
        c.0 = s;
        c.1 = n;
    }
    c.3 += 1;
    unsafe { *p = [c.0, c.1] };
    0
}
fn start() {
    let c = now();
    (c.0, c.1, c.2) = (0, 0, true);
}
fn gen(how: u32, t: Identifier) -> Uuid {
    if how == 0 {
        generate_uuid_v1()
    } else {
        Vertex::new(t).id
    }
}
fn good(u: &Uuid) {
    let b = u.as_bytes();
    sym::check(b[6] >> 4 == 1, "a generated UUID does not carry version 1");
    sym::check(b[8] >> 6 == 2, "a generated UUID does not carry the RFC variant");
}
fn distinct(l: &[Uuid]) {
    for i in 0..l.len() {
        for j in 0..i {
            sym::check(l[i] != l[j], "a generated UUID repeats");
        }
    }
}
/// Consecutive generations.
pub fn p25() {
    let t = harness::world::ident("t");
    start();
    let mut l = vec![];
    for _ in 0..if sym::tier() > 0 { 5 } else { 4 } {
        let u = gen(choose(2), t);
        good(&u);
        l.push(u);
    }
    distinct(&l);
    sym::reach("end");
}
/// After many generations in the same tick: the counter comes round.
pub fn p25w() {
    let t = harness::world::ident("t");
    let c = now();
    (c.0, c.1, c.2) = (1_700_000_000, 1000, false);
    // generated in earlier ticks
    let before = [0u32, 1, 255, 256, 16_380, 65_533][choose(6) as usize];
    for _ in 0..before {
        generate_uuid_v1();
    }
    // the clock moves on, and then the counter has its whole range
    c.1 = 1200;
    let first = gen(0, t);
    let within = [1u32, 254, 255, 256, 4094, 16_381][choose(6) as usize];
    let mut last = first;
    for _ in 0..within {
        let u = gen(0, t);
        sym::check(u != first && u != last, "a generated UUID repeats within a clock tick");
        last = u;
    }
    c.2 = true;
    let mut l = vec![first, last];
    // (one tick is 100 ns: readings within it may differ)
    for _ in 0..2 {
        l.push(gen(1, t));
    }
    distinct(&l);
    for u in &l {
        good(u);
    }
    sym::reach("end");
}
/// Two threads generate.
pub fn p25t() {
    let t = harness::world::ident("t");
    start();
    let out: &'static mut [Vec<Uuid>; 2] = Box::leak(Box::new([vec![], vec![]]));
    let [x, y] = out;
    let (px, py) = (x as *mut Vec<Uuid> as usize, y as *mut Vec<Uuid> as usize);
    let run = move |p: usize| {
        let l = unsafe { &mut *(p as *mut Vec<Uuid>) };
        for i in 0..2 {
            l.push(gen(i, t));
        }
    };
    let a = sym::spawn(Box::new(move || run(px)));
    let b = sym::spawn(Box::new(move || run(py)));
    sym::join(a);
    sym::join(b);
    let mut l = x.clone();
    l.extend_from_slice(y);
    sym::check(l.len() == 4, "harness: results");
    distinct(&l);
    for u in &l {
        good(u);
    }
    sym::reach("end");
}
