//! P26: mapping over all vertices with a pool of real threads.
use harness::world::{ident, uuid};
use indradb::*;
use indradb_plugin_host as host;
use std::sync::Arc;
use sym::choose;
use uuid::Uuid;

struct Log {
    ids: Vec<Uuid>,
    fail: Vec<bool>,
    calls: Vec<u32>,
    open: u32,
    other: bool,
}
struct Mapper {
    log: *mut Log,
    threads: usize,
    t: Identifier,
}
unsafe impl Send for Mapper {}
unsafe impl Sync for Mapper {}
impl host::util::VertexMapper for Mapper {
    fn num_threads(&self) -> usize {
        self.threads
    }
    fn map(&self, v: Vertex) -> std::result::Result<(), host::Error> {
        let l = unsafe { &mut *self.log };
        l.open += 1;
        sym::yield_point();
        let i = l.ids.iter().position(|x| *x == v.id);
        l.open -= 1;
        match i {
            Some(i) => {
                l.calls[i] += 1;
                l.other |= v.t != self.t;
                if l.fail[i] {
                    return Err(host::Error::InvalidArgument(["0", "1", "2"][i].into()));
                }
            }
            None => l.other = true,
        }
        Ok(())
    }
}
fn setup<D: Datastore>(db: &Database<D>, max: u32) -> (Vec<Uuid>, Identifier) {
    let t = ident("t");
    let ids = [uuid("a"), uuid("b"), uuid("c")];
    sym::assume((ids[0] != ids[1]) & (ids[0] != ids[2]) & (ids[1] != ids[2]));
    let ids = ids[..choose(max + 1) as usize].to_vec();
    for u in &ids {
        sym::check(matches!(db.create_vertex(&Vertex::with_id(*u, t)), Ok(true)), "harness: setup");
    }
    (ids, t)
}
fn log(ids: &[Uuid]) -> &'static mut Log {
    Box::leak(Box::new(Log {
        ids: ids.to_vec(),
        fail: ids.iter().map(|_| choose(2) == 1).collect(),
        calls: vec![0; ids.len()],
        open: 0,
        other: false,
    }))
}
pub fn p26<D: Datastore>(db: Database<D>) {
    let deep = sym::tier() > 0;
    let (ids, t) = setup(&db, if deep { 3 } else { 2 });
    let l = log(&ids);
    let m = Arc::new(Mapper { log: l, threads: choose(if deep { 4 } else { 3 }) as usize, t });
    let txn = db.datastore.transaction();
    let r = host::util::map(&txn, m);
    sym::check(l.open == 0, "the mapping returns while a call is running");
    sym::check(!l.other, "the mapper is called with something that is not a vertex of the database");
    sym::check(l.calls.iter().all(|n| *n == 1), "the mapper is not called exactly once with each vertex");
    outcome(l, &r);
    drop(txn);
    sym::reach("end");
}
fn outcome(l: &Log, r: &std::result::Result<(), host::Error>) {
    match r {
        Ok(()) => sym::check(l.fail.iter().all(|f| !f), "a call failed and the mapping reports success"),
        Err(host::Error::InvalidArgument(s)) => {
            let i = ["0", "1", "2"].iter().position(|x| x == s);
            sym::check(matches!(i, Some(i) if l.fail[i]), "an error is reported that no call returned");
        }
        Err(_) => sym::fail("an error is reported that no call returned"),
    }
}
/// The vertices cannot be read; the counting plugin.
pub fn p26f(db: Database<RocksdbDatastore>) {
    use host::Plugin;
    use rocksdb::ctl;
    let (ids, t) = setup(&db, 2);
    ctl::reset();
    if choose(2) == 0 {
        let k = choose(4);
        ctl::get().fail_read_at = Some(k);
        let l = log(&ids);
        let m = Arc::new(Mapper { log: l, threads: 1, t });
        let txn = db.datastore.transaction();
        let r = host::util::map(&txn, m);
        let failed = ctl::get().reads > k;
        ctl::reset();
        sym::check(l.open == 0 && !l.other && l.calls.iter().all(|n| *n <= 1), "the mapper is called in another way");
        if failed {
            match r {
                Ok(()) => sym::fail("the vertices cannot be read and the mapping reports success"),
                Err(host::Error::IndraDB(_)) => sym::reach("failed"),
                r => outcome(l, &r),
            }
        } else {
            sym::check(l.calls.iter().all(|n| *n == 1), "the mapper is not called exactly once with each vertex");
            outcome(l, &r);
        }
    } else {
        let k = choose(5);
        if k < 4 {
            ctl::get().fail_read_at = Some(k);
        }
        let p = naive::NaiveVertexCountPlugin {};
        let mut txn = db.datastore.transaction();
        let r = p.call(&mut txn, Json::new(serde_json::Value::Null));
        let failed = k < 4 && ctl::get().reads > k;
        ctl::reset();
        match r {
            Ok(j) => {
                sym::check(!failed, "the vertices cannot be read and the plugin answers");
                sym::check(j.as_u64() == Some(ids.len() as u64), "the plugin returns another number");
                sym::reach("counted");
            }
            Err(_) => sym::check(failed, "the plugin fails"),
        }
    }
}
/// Many vertices: more than a thousand, one call failing or none.
pub fn p26k<D: Datastore>(db: Database<D>) {
    let t = ident("t");
    let n = [999u32, 1000, 1001, 2001][choose(if sym::tier() > 0 { 4 } else { 3 }) as usize];
    let mut items = vec![];
    for i in 0..n {
        items.push(BulkInsertItem::Vertex(Vertex::with_id(Uuid::from_u128(i as u128 + 1), t)));
    }
    sym::check(db.bulk_insert(items).is_ok(), "harness: setup");
    struct M {
        calls: std::cell::UnsafeCell<Vec<u8>>,
        bad: u128,
        threads: usize,
    }
    unsafe impl Sync for M {}
    impl host::util::VertexMapper for M {
        fn num_threads(&self) -> usize {
            self.threads
        }
        fn map(&self, v: Vertex) -> std::result::Result<(), host::Error> {
            let l = unsafe { &mut *self.calls.get() };
            l[v.id.as_u128() as usize] += 1;
            if v.id.as_u128() == self.bad {
                return Err(host::Error::InvalidArgument("0".into()));
            }
            Ok(())
        }
    }
    let bad = [0u128, 1, 998][choose(3) as usize];
    let m = Arc::new(M { calls: std::cell::UnsafeCell::new(vec![0; n as usize + 1]), bad, threads: 1 });
    let txn = db.datastore.transaction();
    let r = host::util::map(&txn, m.clone());
    let l = unsafe { &*m.calls.get() };
    sym::check(l.iter().all(|x| *x <= 1), "the mapper is called twice with a vertex");
    if bad == 0 {
        sym::check(r.is_ok(), "an error is reported that no call returned");
        sym::check(l[1..].iter().all(|x| *x == 1), "the mapper is not called with each vertex");
    } else {
        sym::check(matches!(r, Err(host::Error::InvalidArgument(_))), "a call failed and the mapping reports success");
    }
    drop(txn);
    sym::reach("end");
}
