//! P14, P15, P30: durability of the RocksDB datastore.
use crate::core::{count_of, pipe, props, se, sv};
use crate::world::*;
use indradb::*;
use rocksdb::ctl;
use sym::{choose, pick};
use uuid::Uuid;

fn deep() -> bool {
    sym::tier() > 0
}

/// Everything a user can read, as bytes.
pub fn snap<D: Datastore>(db: &Database<D>, ids: &[Uuid], names: &[Identifier], vals: &[Json]) -> Vec<u8> {
    let mut o = vec![];
    let mut put = |q: Query| put(db, q, &mut o);
    put(AllVertexQuery.into());
    put(AllEdgeQuery.into());
    put(count_of(AllVertexQuery.into()));
    put(count_of(AllEdgeQuery.into()));
    put(props(AllVertexQuery.into(), None));
    put(props(AllEdgeQuery.into(), None));
    for id in ids {
        for d in [EdgeDirection::Outbound, EdgeDirection::Inbound] {
            put(pipe(sv(&[*id]), d, None, None));
        }
    }
    for n in names {
        put(VertexWithPropertyPresenceQuery::new(*n).into());
        put(EdgeWithPropertyPresenceQuery::new(*n).into());
        for v in vals {
            put(VertexWithPropertyValueQuery::new(*n, v.clone()).into());
            put(EdgeWithPropertyValueQuery::new(*n, v.clone()).into());
        }
    }
    o
}
/// The answer to a query, as bytes.
pub fn put<D: Datastore>(db: &Database<D>, q: Query, o: &mut Vec<u8>) {
    match db.get(q) {
        Err(Error::NotIndexed) => o.push(255),
        Err(_) => sym::fail("a valid query failed"),
        Ok(vs) => {
            for v in &vs {
                write(o, v);
            }
        }
    }
}
/// The order of results is only specified in parts (P08, P09); natively the
/// memory datastore really has another one every time.
fn list<T>(o: &mut Vec<u8>, l: &[T], f: impl Fn(&mut Vec<u8>, &T)) {
    o.push(l.len() as u8);
    if cfg!(feature = "native") {
        let mut parts: Vec<Vec<u8>> = l
            .iter()
            .map(|x| {
                let mut p = vec![];
                f(&mut p, x);
                p
            })
            .collect();
        parts.sort();
        o.extend(parts.concat());
    } else {
        for x in l {
            f(o, x);
        }
    }
}
fn write(o: &mut Vec<u8>, v: &QueryOutputValue) {
    let id = |o: &mut Vec<u8>, i: &Identifier| {
        o.push(i.len() as u8);
        o.extend_from_slice(i.as_bytes());
    };
    let edge = |o: &mut Vec<u8>, e: &Edge| {
        o.extend_from_slice(e.outbound_id.as_bytes());
        id(o, &e.t);
        o.extend_from_slice(e.inbound_id.as_bytes());
    };
    let prop = |o: &mut Vec<u8>, ps: &[NamedProperty]| {
        list(o, ps, |o, p| {
            id(o, &p.name);
            o.extend_from_slice(p.value.to_string().as_bytes());
            o.push(0);
        });
    };
    match v {
        QueryOutputValue::Vertices(l) => {
            o.push(1);
            list(o, l, |o, x| {
                o.extend_from_slice(x.id.as_bytes());
                id(o, &x.t);
            });
        }
        QueryOutputValue::Edges(l) => {
            o.push(2);
            list(o, l, |o, x| edge(o, x));
        }
        QueryOutputValue::Count(n) => {
            o.push(3);
            o.extend_from_slice(&n.to_le_bytes());
        }
        QueryOutputValue::VertexProperties(l) => {
            o.push(4);
            list(o, l, |o, x| {
                o.extend_from_slice(x.vertex.id.as_bytes());
                prop(o, &x.props);
            });
        }
        QueryOutputValue::EdgeProperties(l) => {
            o.push(5);
            list(o, l, |o, x| {
                edge(o, &x.edge);
                prop(o, &x.props);
            });
        }
    }
}

/// One operation of the database.
#[derive(Clone)]
pub enum Do {
    Vertex(Uuid, Identifier),
    Edge(Edge),
    Set(Query, Identifier, Json),
    Delete(Query),
    Index(Identifier),
    Bulk(Vec<BulkInsertItem>),
    Sync,
}
pub fn exec<D: Datastore>(db: &Database<D>, d: &Do) -> Result<()> {
    match d.clone() {
        Do::Vertex(id, t) => db.create_vertex(&Vertex::with_id(id, t)).map(|_| ()),
        Do::Edge(e) => db.create_edge(&e).map(|_| ()),
        Do::Set(q, n, v) => db.set_properties(q, n, &v),
        Do::Delete(q) => db.delete(q),
        Do::Index(n) => db.index_property(n),
        Do::Bulk(i) => db.bulk_insert(i),
        Do::Sync => db.sync(),
    }
}
pub struct Scene {
    pub ids: Vec<Uuid>,
    pub t: [Identifier; 2],
    pub names: Vec<Identifier>,
    pub es: Vec<Edge>,
}
impl Scene {
    pub fn new() -> Scene {
        let (a, b, c) = (uuid("a"), uuid("b"), uuid("c"));
        if !deep() {
            sym::assume((a != c) & (b != c));
        }
        let t = [nm("t"), nm("tt")];
        Scene {
            ids: vec![a, b, c],
            t,
            names: vec![nm("p"), nm("q")],
            es: vec![Edge::new(a, t[0], b), Edge::new(b, t[0], a), Edge::new(a, t[1], a)],
        }
    }
    pub fn vals(&self) -> Vec<Json> {
        vec![val(0), val(1)]
    }
    pub fn populate<D: Datastore>(&self, db: &Database<D>) {
        let (p, q) = (self.names[0], self.names[1]);
        let mut l = vec![Do::Vertex(self.ids[0], self.t[0]), Do::Index(p), Do::Vertex(self.ids[1], self.t[0])];
        for e in &self.es {
            l.push(Do::Edge(e.clone()));
        }
        l.push(Do::Set(AllVertexQuery.into(), p, val(0)));
        l.push(Do::Set(AllVertexQuery.into(), q, val(1)));
        l.push(Do::Set(AllEdgeQuery.into(), p, val(0)));
        l.push(Do::Set(se(&self.es[..1]), q, val(1)));
        for d in &l {
            if exec(db, d).is_err() {
                sym::fail("a valid operation failed");
            }
        }
    }
    pub fn op(&self) -> Do {
        let (a, b, c) = (self.ids[0], self.ids[1], self.ids[2]);
        let (p, q) = (self.names[0], self.names[1]);
        let e = &self.es;
        match choose(15) {
            0 => Do::Vertex(c, self.t[1]),
            1 => Do::Edge(Edge::new(b, self.t[1], a)),
            2 => Do::Set(AllVertexQuery.into(), p, val(1)),
            3 => Do::Set(se(e), p, val(1)),
            4 => Do::Set(sv(&[a]), q, val(0)),
            5 => Do::Delete(sv(&[pick(&[a, b])])),
            6 => Do::Delete(AllVertexQuery.into()),
            7 => Do::Delete(se(&[pick(e)])),
            8 => Do::Delete(AllEdgeQuery.into()),
            9 => Do::Delete(props(AllVertexQuery.into(), Some(p))),
            10 => Do::Delete(props(AllEdgeQuery.into(), None)),
            11 => Do::Index(q),
            12 => Do::Bulk(vec![
                BulkInsertItem::Vertex(Vertex::with_id(c, self.t[0])),
                BulkInsertItem::Edge(Edge::new(c, self.t[0], a)),
                BulkInsertItem::VertexProperty(c, p, val(0)),
                BulkInsertItem::VertexProperty(a, p, val(1)),
                BulkInsertItem::EdgeProperty(e[0].clone(), p, val(1)),
            ]),
            13 => Do::Delete(VertexWithPropertyValueQuery::new(p, val(0)).into()),
            _ => Do::Sync,
        }
    }
    pub fn snap<D: Datastore>(&self, db: &Database<D>) -> Vec<u8> {
        snap(db, &self.ids, &self.names, &self.vals())
    }
}
pub fn reopen(db: Database<RocksdbDatastore>) -> Database<RocksdbDatastore> {
    drop(db);
    ctl::power_on();
    open_rdb()
}

/// P14: the process dies at any storage write of any operation.
pub fn p14() {
    let s = Scene::new();
    let (db, twin) = (open_rdb(), rdb2().db);
    s.populate(&db);
    s.populate(&twin);
    let n = if deep() { 1 + choose(2) } else { 1 };
    for _ in 1..n {
        let d = s.op();
        let (x, y) = (exec(&db, &d), exec(&twin, &d));
        sym::check(x.is_ok() && y.is_ok(), "a valid operation failed");
    }
    let before = s.snap(&db);
    let d = s.op();
    if exec(&twin, &d).is_err() {
        sym::fail("a valid operation failed");
    }
    let after = s.snap(&twin);
    // the process dies just before the n-th storage write from here
    ctl::reset();
    let at = choose(if deep() { 6 } else { 4 });
    ctl::get().die_at = Some(at);
    let r = exec(&db, &d);
    let total = ctl::get().writes;
    let dead = ctl::get().dead;
    let db = reopen(db);
    let now = s.snap(&db);
    sym::check((now == before) | (now == after), "after a crash an operation is half applied");
    if !dead {
        // it returned: its effect is durable
        sym::check(r.is_ok(), "a valid operation failed");
        sym::check(now == after, "the effect of a completed operation is lost in a crash");
        sym::reach("done");
    } else {
        sym::check(total > at, "harness");
        sym::reach("died");
    }
    // and the database goes on from there
    let mut l = vec![Do::Vertex(s.ids[2], s.t[0]), Do::Set(sv(&s.ids), s.names[0], val(1)), Do::Delete(sv(&s.ids[..1]))];
    if !deep() {
        l.truncate(2);
    }
    let twin = if now == after { twin } else { return };
    for d in &l {
        let (x, y) = (exec(&db, d), exec(&twin, d));
        sym::check(x.is_ok() && y.is_ok(), "a valid operation failed after a crash");
    }
    sym::check(s.snap(&db) == s.snap(&twin), "after a crash the database goes on differently");
    sym::reach("end");
}

/// P14: the process dies while the database is first created.
pub fn p14c() {
    ctl::reset();
    let at = choose(10);
    ctl::get().die_at = Some(at);
    let r = new_db(PATH);
    let dead = ctl::get().dead;
    if !dead {
        sym::check(r.is_ok(), "creating a database failed");
    }
    drop(r);
    ctl::power_on();
    let s = Scene::new();
    let db = match new_db(PATH) {
        Ok(d) => d,
        Err(_) => sym::fail("after a crash during its creation, a database cannot be opened"),
    };
    let twin = rdb2().db;
    s.populate(&db);
    s.populate(&twin);
    sym::check(s.snap(&db) == s.snap(&twin), "after a crash during its creation, a database answers differently");
    sym::reach(if dead { "died" } else { "done" });
}

/// P15: close and reopen, sync.
pub fn p15() {
    let s = Scene::new();
    if !deep() {
        sym::assume(s.ids[0] <= s.ids[1]);
    }
    let (db, twin) = (open_rdb(), rdb2().db);
    let both = |x: &Database<RocksdbDatastore>, y: &Database<RocksdbDatastore>, d: &Do| {
        let (r, q) = (exec(x, d), exec(y, d));
        // (an operation that selects by a name that is not indexed is refused)
        sym::check(r.is_ok() == q.is_ok(), "an operation fails in one of two equal databases");
    };
    let full = choose(2);
    if full == 1 {
        s.populate(&db);
        s.populate(&twin);
    } else {
        for d in [Do::Vertex(s.ids[0], s.t[0]), Do::Vertex(s.ids[1], s.t[1]), Do::Edge(s.es[0].clone())] {
            both(&db, &twin, &d);
        }
    }
    let d = s.op();
    both(&db, &twin, &d);
    let before = s.snap(&db);
    // (in the quick tier, the short history goes without a sync)
    let how = if deep() { choose(3) } else { 1 + full };
    if how != 1 {
        sym::check(db.sync().is_ok(), "sync failed");
        sym::check(s.snap(&db) == before, "synchronising changed an answer");
    }
    let db = if how == 0 { db } else { reopen(db) };
    sym::check(s.snap(&db) == before, "a reopened database answers differently");
    // further writes keep everything as in a database that was never closed
    let d = if deep() {
        s.op()
    } else {
        match choose(4) {
            0 => Do::Set(AllVertexQuery.into(), s.names[0], val(1)),
            1 => Do::Set(se(&s.es), s.names[1], val(0)),
            2 => Do::Delete(sv(&[s.ids[0]])),
            _ => Do::Vertex(s.ids[2], s.t[1]),
        }
    };
    both(&db, &twin, &d);
    sym::check(s.snap(&db) == s.snap(&twin), "after reopening, writes have other effects");
    let db = reopen(db);
    sym::check(s.snap(&db) == s.snap(&twin), "a database reopened twice answers differently");
    sym::reach("end");
}

/// P30: a storage write fails.
pub fn p30() {
    let s = Scene::new();
    let db = open_rdb();
    s.populate(&db);
    let before = s.snap(&db);
    let d = s.op();
    ctl::reset();
    let at = choose(if deep() { 4 } else { 2 });
    ctl::get().fail_at = Some(at);
    let r = exec(&db, &d);
    let failed = ctl::get().writes > at;
    ctl::reset();
    if failed {
        sym::check(r.is_err(), "a failed write is reported as success");
        sym::check(s.snap(&db) == before, "an operation that failed has an effect");
        let db = reopen(db);
        sym::check(s.snap(&db) == before, "an operation that failed has an effect after reopening");
        // and can be repeated
        let twin = rdb2().db;
        s.populate(&twin);
        sym::check(exec(&db, &d).is_ok() && exec(&twin, &d).is_ok(), "an operation fails after an earlier failure");
        sym::check(s.snap(&db) == s.snap(&twin), "an operation has another effect after an earlier failure");
        sym::reach("failed");
    } else {
        sym::check(r.is_ok(), "a valid operation failed");
    }
    sym::reach("end");
}
/// P30: the failed operation is repeated without reopening.
pub fn p30r() {
    let s = Scene::new();
    let (db, twin) = (open_rdb(), rdb2().db);
    s.populate(&db);
    s.populate(&twin);
    let d = s.op();
    ctl::get().fail_at = Some(ctl::get().writes);
    let _ = exec(&db, &d);
    ctl::reset();
    sym::check(exec(&db, &d).is_ok() && exec(&twin, &d).is_ok(), "an operation fails after an earlier failure");
    sym::check(s.snap(&db) == s.snap(&twin), "an operation has another effect after an earlier failure");
    let d = s.op();
    sym::check(exec(&db, &d).is_ok() && exec(&twin, &d).is_ok(), "an operation fails after an earlier failure");
    sym::check(s.snap(&db) == s.snap(&twin), "an operation has another effect after an earlier failure");
    sym::reach("end");
}

fn queries(s: &Scene) -> Query {
    let e = &s.es;
    let p = s.names[0];
    match choose(16) {
        0 => AllVertexQuery.into(),
        1 => AllEdgeQuery.into(),
        2 => RangeVertexQuery::new().into(),
        3 => sv(&s.ids),
        4 => se(e),
        5 => pipe(sv(&s.ids[..1]), EdgeDirection::Outbound, None, None),
        6 => pipe(sv(&s.ids[..1]), EdgeDirection::Inbound, Some(s.t[0]), Some(1)),
        7 => pipe(AllEdgeQuery.into(), EdgeDirection::Outbound, None, None),
        8 => VertexWithPropertyPresenceQuery::new(p).into(),
        9 => EdgeWithPropertyPresenceQuery::new(p).into(),
        10 => VertexWithPropertyValueQuery::new(p, val(0)).into(),
        11 => EdgeWithPropertyValueQuery::new(p, val(0)).into(),
        12 => props(sv(&s.ids), Some(p)),
        13 => props(se(e), None),
        14 => PipeWithPropertyPresenceQuery::new(Box::new(sv(&s.ids)), p, choose(2) == 1).unwrap().into(),
        _ => PipeWithPropertyValueQuery::new(Box::new(se(e)), p, val(0), choose(2) == 1).unwrap().into(),
    }
}
/// P31: a storage read fails.
pub fn p31() {
    let s = Scene::new();
    sym::assume(s.ids[0] < s.ids[1]);
    let db = open_rdb();
    s.populate(&db);
    let max = if deep() { 24 } else { 8 };
    if choose(2) == 0 {
        let q = queries(&s);
        let count = choose(2) == 1;
        let all = matches!(q, Query::AllVertex | Query::AllEdge);
        let q = if count { count_of(q) } else { q };
        ctl::reset();
        ctl::get().fail_read_at = Some(choose(max));
        let r = db.get(q);
        let failed = ctl::get().fail_read_at.is_some_and(|n| ctl::get().reads > n);
        ctl::reset();
        if failed {
            if count && all && r.is_ok() && sym::known("a count query whose storage read failed is answered") {
                return;
            }
            sym::check(r.is_err(), "a query whose storage read failed is answered");
            sym::reach("query");
        } else {
            sym::check(r.is_ok(), "a valid query failed");
        }
    } else {
        let before = s.snap(&db);
        let d = s.op();
        ctl::reset();
        ctl::get().fail_read_at = Some(choose(max));
        let r = exec(&db, &d);
        let failed = ctl::get().fail_read_at.is_some_and(|n| ctl::get().reads > n);
        ctl::reset();
        if failed {
            sym::check(r.is_err(), "an operation whose storage read failed is reported as success");
            sym::check(s.snap(&db) == before, "an operation whose storage read failed has an effect");
            let twin = rdb2().db;
            s.populate(&twin);
            sym::check(exec(&db, &d).is_ok() && exec(&twin, &d).is_ok(), "an operation fails after an earlier failure");
            sym::check(s.snap(&db) == s.snap(&twin), "an operation has another effect after an earlier failure");
            sym::reach("op");
        }
    }
}
