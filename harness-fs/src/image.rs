//! P16, P17: the image file of the memory datastore.
use crate::vfs::{self, Fault};
use harness::dur::Scene;
use harness::world::*;
use indradb::*;
use sym::choose;

const IMG: &str = "/vfs/data/image";
fn deep() -> bool {
    sym::tier() > 0
}
fn load() -> Database<MemoryDatastore> {
    vfs::arm(Fault::None);
    match MemoryDatastore::read_msgpack_db(IMG) {
        Ok(d) => d,
        Err(_) => sym::fail("the image does not load"),
    }
}
fn over(db: Database<MemoryDatastore>, w: &World<MemoryDatastore>) -> World<MemoryDatastore> {
    World { db, m: w.m.clone(), names: w.names.clone(), vals: w.vals.clone() }
}
fn fresh() -> World<MemoryDatastore> {
    vfs::init();
    vfs::arm(Fault::None);
    World::over(MemoryDatastore::create_msgpack_db(IMG))
}
/// One step of a history, applied to model and database.
fn step(w: &mut World<MemoryDatastore>, s: &Scene) {
    let (a, b, c) = (s.ids[0], s.ids[1], s.ids[2]);
    let (p, q) = (s.names[0], s.names[1]);
    match choose(if deep() { 12 } else { 9 }) {
        0 => {
            w.create_vertex(c, s.t[1]);
        }
        1 => {
            w.create_edge(&Edge::new(b, s.t[1], a));
        }
        2 => w.set_vp(a, p, &val(1)),
        3 => w.set_ep(&s.es[0], p, &val(1)),
        4 => w.delete_vertex(a),
        5 => w.delete_edge(&s.es[0]),
        6 => w.index(q),
        7 => w.del_vp(b, p),
        8 => w.del_ep(&s.es[1], p),
        9 => w.set_vp(b, q, &val(2)),
        10 => w.set_ep(&s.es[1], q, &val(2)),
        _ => w.delete_vertex(b),
    }
}
fn populate(w: &mut World<MemoryDatastore>, s: &Scene) {
    let (a, b) = (s.ids[0], s.ids[1]);
    let (p, q) = (s.names[0], s.names[1]);
    w.create_vertex(a, s.t[0]);
    w.index(p);
    w.create_vertex(b, s.t[1]);
    for e in &s.es {
        w.create_edge(e);
    }
    w.set_vp(a, p, &val(0));
    w.set_vp(b, p, &val(0));
    w.set_vp(a, q, &val(1));
    w.set_ep(&s.es[0], p, &val(0));
    w.set_ep(&s.es[1], p, &val(1));
    w.set_ep(&s.es[0], q, &val(3));
}
fn sync(w: &World<MemoryDatastore>) {
    sym::check(w.db.sync().is_ok(), "sync failed");
}

/// P16: the image of a sync gives the same database back.
pub fn p16() {
    let s = Scene::new();
    if !deep() {
        sym::assume(s.ids[0] <= s.ids[1]);
    }
    let mut w = fresh();
    if choose(2) == 1 {
        populate(&mut w, &s);
    }
    step(&mut w, &s);
    if deep() {
        step(&mut w, &s);
    }
    sync(&w);
    w.observe();
    let mut r = over(load(), &w);
    r.observe();
    // both go on, and the image is written again
    step(&mut r, &s);
    r.observe();
    sync(&r);
    over(load(), &r).observe();
    sym::reach("end");
}

/// P16: values of every kind.
pub fn p16k() {
    let mut w = fresh();
    let (a, b) = (uuid("a"), uuid("b"));
    sym::assume(a < b);
    let (t, p, q) = (ident("t"), ident("p"), ident(""));
    let ks = harness::core::kinds();
    let v = ks[choose(ks.len() as u32) as usize].clone();
    w.create_vertex(a, t);
    w.create_vertex(b, q);
    let e = Edge::new(b, q, a);
    w.create_edge(&e);
    if choose(2) == 1 {
        w.index(p);
    }
    w.set_vp(b, p, &v);
    w.set_ep(&e, p, &v);
    w.set_ep(&e, q, &v);
    sync(&w);
    let mut r = over(load(), &w);
    r.observe();
    r.index(q);
    r.set_vp(a, p, &v);
    r.observe();
    sym::reach("end");
}

fn through(w: World<MemoryDatastore>) -> World<MemoryDatastore> {
    sync(&w);
    let db = load();
    World { db, m: w.m, names: w.names, vals: w.vals }
}
/// P16: large values, many indexed names.
pub fn p16v() {
    harness::wide::wide(fresh(), true, through);
}
pub fn p16i() {
    harness::wide::indexes(fresh(), through);
}

/// P17: a fault at any call of a sync.
pub fn p17() {
    let s = Scene::new();
    sym::assume((s.ids[0] < s.ids[1]) & (s.ids[0] != s.ids[2]) & (s.ids[1] != s.ids[2]));
    let mut w = fresh();
    let had = choose(2) == 1;
    if had {
        w.create_vertex(s.ids[0], s.t[0]);
        w.index(s.names[0]);
        w.set_vp(s.ids[0], s.names[0], &val(1));
        sync(&w);
    }
    let old = over(MemoryDatastore::new_db(), &w);
    if choose(2) == 1 {
        populate(&mut w, &s);
    }
    let big = choose(2) == 1;
    if big {
        // more than fits any buffer
        let v = json(serde_json::Value::from("0123456789abcdef".repeat(600)));
        w.create_vertex(s.ids[2], s.t[0]);
        w.set_vp(s.ids[2], s.names[1], &v);
    }
    let n = if deep() { 20 } else { 10 };
    let at = choose(n);
    let f = match choose(5) {
        0 => Fault::Fail(at, libc::EIO),
        1 => Fault::Fail(at, libc::ENOSPC),
        2 => Fault::Short(at),
        3 => Fault::Intr(at),
        _ => Fault::Die(at),
    };
    vfs::arm(f);
    let r = w.db.sync();
    let (hit, dead) = (vfs::fs().hit, vfs::fs().dead);
    vfs::arm(Fault::None);
    if !hit {
        sym::check(r.is_ok(), "a sync without any failure reports one");
    }
    // what is at the path now
    let now = vfs::content(IMG);
    if now.is_none() {
        sym::check(!had, "the image is gone after a failed sync");
        sym::check(r.is_err() | dead, "a sync that reports success has written no image");
    } else {
        let db = load();
        let nv = count(db.get(AllVertexQuery.count().unwrap()), "vertex count: no result");
        // old and new differ in the number of vertices, if at all
        if (r.is_ok() && !dead) || nv == w.m.vs.len() as u64 {
            over(db, &w).observe();
        } else {
            sym::check(had, "a failed sync left something at the path where nothing was");
            over(db, &old).observe();
        }
    }
    if hit {
        sym::reach(if dead { "died" } else { "failed" });
    }
    if !dead {
        // the database is unharmed, and the next sync works
        w.observe();
        sync(&w);
        over(load(), &w).observe();
    }
    sym::reach("end");
}

/// P29: numbers in the image.
pub fn p29f() {
    harness::number::p29(fresh(), harness::number::any(), true, |db| {
        sym::check(db.sync().is_ok(), "sync failed");
        load()
    });
}

/// P16: a large database.
pub fn p16g() {
    harness::big::reload(fresh(), |db| {
        sym::check(db.sync().is_ok(), "sync failed");
        load()
    });
}
