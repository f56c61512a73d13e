//! P36: what the server program serves, by its arguments (shims/clap), over
//! modelled files and the modelled storage engine.
use harness::dur::Scene;
use harness::world::{new_db, val, World};
use harness_fs::vfs::{self, Fault};
use indradb::*;
use std::future::Future;
use std::pin::pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use sym::{check, choose, fail, pick};

const IMG: &str = "/vfs/data/image";
const DB: &str = "/vfs/data/db";

/// Runs the server program; whether it ended well, and what it served.
fn run(args: &[&str]) -> (bool, Vec<indradb_proto::Served>) {
    let mut l = vec!["indradb-server".into()];
    l.extend(args.iter().map(|a| a.into()));
    clap::argv::set(l);
    let f = pin!(server_cli::main());
    match f.poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(r) => (r.is_ok(), indradb_proto::served()),
        Poll::Pending => fail("the server program waits for something"),
    }
}
/// Runs the server program, which must serve one database of kind D.
fn serve<D: Datastore + 'static>(args: &[&str], addr: &str, plugins: Option<&str>) -> Database<D> {
    let (ok, mut s) = run(args);
    check(ok, "the server does not start");
    if s.len() != 1 {
        fail("the server does not serve one database");
    }
    let s = s.remove(0);
    check(s.addr.to_string() == addr, "the server listens on another address");
    check(s.plugins.as_deref() == plugins, "the server looks for other plugins");
    match s.db.downcast::<Arc<Database<D>>>() {
        Ok(d) => match Arc::try_unwrap(*d) {
            Ok(d) => d,
            Err(_) => fail("harness: shared"),
        },
        Err(_) => fail("the server serves another kind of datastore"),
    }
}
fn init() {
    vfs::init();
    vfs::arm(Fault::None);
}
/// The general options, the address and the plugins they mean.
fn options() -> (Vec<&'static str>, &'static str, Option<&'static str>) {
    let (mut l, a) = pick(&[
        (vec![], "127.0.0.1:27615"),
        (vec!["-a", "127.0.0.1:1"], "127.0.0.1:1"),
        (vec!["--address", "10.1.2.3:65535"], "10.1.2.3:65535"),
        (vec!["--address=[::1]:27615"], "[::1]:27615"),
    ]);
    let p = pick(&[None, Some("/vfs/p/*.so")]);
    if let Some(p) = p {
        l.extend([pick(&["-p", "--plugins"]), p]);
    }
    (l, a, p)
}
fn over<D: Datastore>(db: Database<D>, w: &World<D>) -> World<D> {
    World { db, m: w.m.clone(), names: w.names.clone(), vals: w.vals.clone() }
}
/// The scene, through the model.
fn populate<D: Datastore>(w: &mut World<D>, s: &Scene) {
    let (a, b) = (s.ids[0], s.ids[1]);
    let (p, q) = (s.names[0], s.names[1]);
    w.create_vertex(a, s.t[0]);
    w.index(p);
    w.create_vertex(b, s.t[1]);
    for e in &s.es {
        w.create_edge(e);
    }
    w.set_vp(a, p, &val(0));
    w.set_vp(b, q, &val(1));
    w.set_ep(&s.es[0], p, &val(1));
    w.set_ep(&s.es[1], q, &val(0));
}
fn step<D: Datastore>(w: &mut World<D>, s: &Scene) {
    match choose(5) {
        0 => {
            w.create_vertex(s.ids[2], s.t[1]);
        }
        1 => w.delete_vertex(s.ids[0]),
        2 => w.set_vp(s.ids[1], s.names[0], &val(1)),
        3 => w.del_ep(&s.es[0], s.names[0]),
        _ => {}
    }
}
fn scene() -> Scene {
    let s = Scene::new();
    if sym::tier() == 0 {
        sym::assume(s.ids[0] < s.ids[1]);
    }
    s
}

/// In memory without a file.
pub fn none() {
    init();
    let s = scene();
    let (mut l, addr, plugins) = options();
    if choose(2) == 1 {
        l.push("memory");
    }
    let mut w = World::over(serve::<MemoryDatastore>(&l, addr, plugins));
    w.observe();
    populate(&mut w, &s);
    check(w.db.sync().is_ok(), "sync failed");
    w.observe();
    check(vfs::list().is_empty(), "a server without a path writes a file");
    // the next one starts anew
    let w = World::over(serve::<MemoryDatastore>(&l, addr, plugins));
    w.observe();
    sym::reach("end");
}
/// In memory with an image.
pub fn image() {
    init();
    let s = scene();
    let (mut l, addr, plugins) = options();
    l.push("memory");
    let eq = format!("--persist-path={IMG}");
    match choose(2) {
        0 => l.extend(["--persist-path", IMG]),
        _ => l.push(&eq),
    }
    let before = choose(2) == 1;
    let mut w = if before {
        // there is an image already
        let mut w = World::over(MemoryDatastore::create_msgpack_db(IMG));
        populate(&mut w, &s);
        check(w.db.sync().is_ok(), "sync failed");
        let db = serve::<MemoryDatastore>(&l, addr, plugins);
        over(db, &w)
    } else {
        let mut w = World::over(serve::<MemoryDatastore>(&l, addr, plugins));
        w.observe();
        populate(&mut w, &s);
        w
    };
    w.observe();
    step(&mut w, &s);
    check(w.db.sync().is_ok(), "sync failed");
    check(vfs::list() == [IMG.as_bytes().to_vec()], "the image is not at the given path");
    let db = serve::<MemoryDatastore>(&l, addr, plugins);
    let w = over(db, &w);
    w.observe();
    sym::reach("end");
}
/// An image that is none: an error, and it stays as it is.
pub fn bad() {
    init();
    let s = scene();
    let mut w = World::over(MemoryDatastore::create_msgpack_db(IMG));
    populate(&mut w, &s);
    check(w.db.sync().is_ok(), "sync failed");
    drop(w);
    let Some(mut c) = vfs::content(IMG) else { fail("no image") };
    match choose(3) {
        0 => c.clear(),
        1 => {
            c.truncate(c.len() / 2);
        }
        _ => c = b"{}".to_vec(),
    }
    vfs::put_file(IMG, &c);
    let (ok, served) = run(&["memory", "--persist-path", IMG]);
    check(!ok, "a server starts on a damaged image");
    check(served.is_empty(), "a server serves a damaged image");
    check(vfs::content(IMG) == Some(c), "the start of a server changes the image");
    sym::reach("end");
}
/// On RocksDB.
pub fn rocksdb() {
    init();
    let s = scene();
    let (mut l, addr, plugins) = options();
    l.push("rocksdb");
    match choose(3) {
        0 => l.push(DB),
        1 => l.extend(["--max-open-files", "17", DB]),
        _ => l.extend([DB, "--max-open-files=-1"]),
    }
    let mut w = if choose(2) == 1 {
        // there is a database already
        let mut w = match new_db(DB) {
            Ok(d) => World::over(d),
            Err(_) => fail("the database does not open"),
        };
        populate(&mut w, &s);
        let (m, names, vals) = (w.m.clone(), w.names.clone(), w.vals.clone());
        drop(w);
        World { db: serve::<RocksdbDatastore>(&l, addr, plugins), m, names, vals }
    } else {
        let mut w = World::over(serve::<RocksdbDatastore>(&l, addr, plugins));
        w.observe();
        populate(&mut w, &s);
        w
    };
    w.observe();
    step(&mut w, &s);
    let (m, names, vals) = (w.m.clone(), w.names.clone(), w.vals.clone());
    drop(w);
    if choose(2) == 1 {
        let (ok, served) = run(&["rocksdb", DB, pick(&["--repair", "-r"])]);
        check(ok, "a repair fails");
        check(served.is_empty(), "a repair serves a database");
    }
    let w = World { db: serve::<RocksdbDatastore>(&l, addr, plugins), m, names, vals };
    w.observe();
    check(vfs::list().is_empty(), "the server writes another file");
    sym::reach("end");
}
