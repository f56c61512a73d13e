//! P28: the gRPC service, called through the generated client in-process:
//! message encoding, routing, handlers, worker threads and response streams
//! are the real ones; only the HTTP/2 connection is left out.
use crate::wire::Damage;
use harness::same::o_eq;
use harness::core::{count_of, pipe, props, se, sv};
use harness::dur::snap;
use harness::world::{ident, uuid, val};
use indradb::*;
use indradb_proto as proto;
use proto::indra_db_server::IndraDbServer;
use std::sync::Arc;
use sym::{choose, pick};
use tonic::Code;
use tower::{util::BoxService, ServiceExt};
use uuid::Uuid;

pub type Raw<D> = proto::ProtoClient<IndraDbServer<proto::Server<D>>>;

pub struct Net<D: Datastore + Send + Sync + 'static> {
    pub db: Arc<Database<D>>,
    /// the client of the library, over its own connection
    pub c: proto::Client,
    /// the generated client, for messages the library would not send
    pub raw: Raw<D>,
    pub rt: tokio::runtime::Runtime,
}
impl<D: Datastore + Send + Sync + 'static> Net<D> {
    fn new(db: Database<D>) -> Self {
        let db = Arc::new(db);
        let s = proto::Server::new(db.clone());
        Self::over(db, s)
    }
    /// A client of the given server.
    pub fn over(db: Arc<Database<D>>, s: proto::Server<D>) -> Self {
        let rt = match tokio::runtime::Builder::new_current_thread().build() {
            Ok(r) => r,
            Err(_) => sym::fail("harness: no runtime"),
        };
        let s = IndraDbServer::new(s);
        let raw = Raw::new(s.clone());
        let s = ServiceExt::<tonic::codegen::http::Request<tonic::body::BoxBody>>::map_err(s, |e| -> tonic::codegen::StdError { match e {} });
        let s = BoxService::new(s);
        match tonic::transport::channel::in_process::SERVICE.lock() {
            Ok(mut l) => *l = Some(s),
            Err(_) => sym::fail("harness: lock"),
        }
        let c = rt.block_on(proto::Client::new(tonic::transport::Endpoint::from_static("http://h")));
        let c = match c {
            Ok(c) => c,
            Err(_) => sym::fail("harness: no connection"),
        };
        Net { db, c, raw, rt }
    }
}
pub type Res<T> = std::result::Result<T, proto::ClientError>;
pub fn status<T>(r: &Res<T>) -> Option<Code> {
    match r {
        Ok(_) => None,
        Err(proto::ClientError::Grpc { inner }) => Some(inner.code()),
        Err(_) => sym::fail("a valid request fails in the client"),
    }
}
pub struct Scene {
    pub ids: Vec<Uuid>,
    pub t: [Identifier; 3],
    pub names: Vec<Identifier>,
    pub es: Vec<Edge>,
}
pub fn scene() -> Scene {
    let (a, b, c) = (uuid("a"), uuid("b"), uuid("c"));
    sym::assume((a < b) & (b < c));
    scene_of(a, b, c)
}
/// UUIDs with few symbolic bytes, where their text matters.
pub fn scene_text() -> Scene {
    let (x, y) = (sym::u8_("x"), sym::u8_("y"));
    let id = |n: u8| Uuid::from_bytes([0x0f, x, 0x9a, 0x55, 1, 0x20, 0xbc, 0xde, y, 7, 0xff, 0, 0x81, 3, n, 0x10 + n]);
    scene_of(id(1), id(0x6c), id(0xd2))
}
fn scene_of(a: Uuid, b: Uuid, c: Uuid) -> Scene {
    let t = [ident("t"), ident("tt"), ident("")];
    Scene {
        ids: vec![a, b, c],
        t,
        names: vec![ident("p"), ident("q")],
        es: vec![Edge::new(a, t[0], b), Edge::new(b, t[1], a), Edge::new(a, t[2], a)],
    }
}
pub fn populate<D: Datastore>(s: &Scene, db: &Database<D>) {
    let r = (|| -> Result<()> {
        db.create_vertex(&Vertex::with_id(s.ids[0], s.t[0]))?;
        db.create_vertex(&Vertex::with_id(s.ids[1], s.t[1]))?;
        db.index_property(s.names[0])?;
        for e in &s.es {
            db.create_edge(e)?;
        }
        db.set_properties(AllVertexQuery, s.names[0], &val(0))?;
        db.set_properties(AllEdgeQuery, s.names[1], &val(1))?;
        Ok(())
    })();
    sym::check(r.is_ok(), "a valid operation failed");
}
fn q(s: &Scene) -> Query {
    let (p, r) = (s.names[0], s.names[1]);
    match choose(12) {
        0 => AllVertexQuery.into(),
        1 => sv(&[s.ids[1], s.ids[2], s.ids[0]]),
        2 => se(&s.es),
        3 => pipe(sv(&s.ids), pick(&[EdgeDirection::Outbound, EdgeDirection::Inbound]), Some(s.t[0]), Some(sym::u32_("limit"))),
        4 => props(AllVertexQuery.into(), None),
        5 => props(se(&s.es), Some(r)),
        6 => VertexWithPropertyValueQuery::new(p, val(choose(2))).into(),
        // not indexed: refused
        7 => EdgeWithPropertyPresenceQuery::new(r).into(),
        8 => count_of(AllEdgeQuery.into()),
        9 => pipe(Query::Include(IncludeQuery { inner: Box::new(sv(&s.ids)) }), EdgeDirection::Outbound, None, None),
        // only reachable over the wire: a traversal from properties
        10 => Query::Pipe(PipeQuery {
            inner: Box::new(props(AllVertexQuery.into(), None)),
            direction: EdgeDirection::Outbound,
            limit: 1,
            t: None,
        }),
        _ => RangeVertexQuery::new().start_id(s.ids[1]).limit(sym::u32_("limit")).into(),
    }
}
/// ... and with something around it.
fn qq(s: &Scene) -> Query {
    let x = q(s);
    let inner = || match choose(2) {
        0 => Box::new(x.clone()),
        _ => Box::new(Query::Include(IncludeQuery { inner: Box::new(x.clone()) })),
    };
    let r = match choose(7) {
        0 => return x,
        1 => Query::Pipe(PipeQuery { inner: inner(), direction: EdgeDirection::Outbound, limit: u32::MAX, t: pick(&[None, Some(s.t[2])]) }),
        2 => Query::Pipe(PipeQuery { inner: inner(), direction: EdgeDirection::Inbound, limit: u32::MAX, t: None }),
        3 => Query::PipeProperty(PipePropertyQuery { inner: inner(), name: pick(&[None, Some(s.names[0]), Some(s.names[1])]) }),
        4 => Query::PipeWithPropertyPresence(PipeWithPropertyPresenceQuery { inner: inner(), name: s.names[0], exists: choose(2) == 1 }),
        5 => Query::PipeWithPropertyValue(PipeWithPropertyValueQuery { inner: inner(), name: s.names[0], value: val(choose(2)), equal: choose(2) == 1 }),
        _ => Query::Count(CountQuery { inner: inner() }),
    };
    if choose(2) == 1 {
        return Query::Include(IncludeQuery { inner: Box::new(r) });
    }
    r
}
const OTHER: &str = "a request has another result than the local operation";
const CODE: &str = "a failure is reported with another status";
fn same_unit(r: &Res<()>, l: &Result<()>) {
    sym::check(r.is_ok() == l.is_ok(), OTHER);
    sym::check(status(r).map_or(true, |c| c == Code::Internal), CODE);
}
/// One operation, as a request and locally.
enum Op {
    Vertex(Vertex),
    Edge(Edge),
    Get(Query),
    Delete(Query),
    Set(Query, Identifier, Json),
    Index(Identifier),
    Bulk(Vec<BulkInsertItem>),
    Sync,
}
fn op(s: &Scene, wrapped: bool) -> Op {
    match choose(8) {
        0 => Op::Vertex(Vertex::with_id(pick(&s.ids[1..]), s.t[0])),
        1 => Op::Edge(pick(&[
            Edge::new(s.ids[1], s.t[1], s.ids[1]),
            Edge::new(s.ids[0], s.t[1], s.ids[2]),
            s.es[0].clone(),
        ])),
        2 => Op::Get(if wrapped { qq(s) } else { q(s) }),
        3 => Op::Delete(q(s)),
        4 => Op::Set(q(s), pick(&s.names), val(choose(2))),
        5 => Op::Index(s.names[1]),
        6 => {
            let all = items(s);
            let k = choose(all.len() as u32 + 1) as usize;
            Op::Bulk(all[..k].to_vec())
        }
        _ => Op::Sync,
    }
}
fn items(s: &Scene) -> Vec<BulkInsertItem> {
    vec![
        BulkInsertItem::Vertex(Vertex::with_id(s.ids[2], s.t[1])),
        BulkInsertItem::Edge(Edge::new(s.ids[2], s.t[0], s.ids[0])),
        BulkInsertItem::VertexProperty(s.ids[2], s.names[0], val(0)),
        BulkInsertItem::EdgeProperty(s.es[1].clone(), s.names[1], val(0)),
    ]
}
fn one<D: Datastore + Send + Sync + 'static>(d: &Op, n: &mut Net<D>, twin: &Database<D>) {
    let Net { c, rt, .. } = n;
    match d {
        Op::Vertex(v) => {
            let r = rt.block_on(c.create_vertex(v));
            let l = twin.create_vertex(v);
            sym::check(matches!((&r, &l), (Ok(x), Ok(y)) if x == y), OTHER);
        }
        Op::Edge(e) => {
            let r = rt.block_on(c.create_edge(e));
            let l = twin.create_edge(e);
            sym::check(matches!((&r, &l), (Ok(x), Ok(y)) if x == y), OTHER);
        }
        Op::Get(x) => {
            let r = rt.block_on(c.get(x.clone()));
            match twin.get(x.clone()) {
                Ok(l) => {
                    let r = match r {
                        Ok(r) => r,
                        Err(_) => sym::fail(OTHER),
                    };
                    sym::check(r.len() == l.len(), OTHER);
                    for (x, y) in r.iter().zip(&l) {
                        sym::check(o_eq(x, y), OTHER);
                    }
                }
                Err(_) => sym::check(status(&r) == Some(Code::Internal), "a query that fails is answered"),
            }
        }
        Op::Delete(x) => same_unit(&rt.block_on(c.delete(x.clone())), &twin.delete(x.clone())),
        Op::Set(x, m, v) => same_unit(&rt.block_on(c.set_properties(x.clone(), *m, v)), &twin.set_properties(x.clone(), *m, v)),
        Op::Index(m) => same_unit(&rt.block_on(c.index_property(*m)), &twin.index_property(*m)),
        Op::Bulk(i) => same_unit(&rt.block_on(c.bulk_insert(i.clone())), &twin.bulk_insert(i.clone())),
        Op::Sync => {
            same_unit(&rt.block_on(c.sync()), &twin.sync());
            sym::check(rt.block_on(c.ping()).is_ok(), "ping failed");
        }
    }
}
/// The same request while the storage engine fails: an error status.
fn failing<D: Datastore + Send + Sync + 'static>(d: &Op, n: &mut Net<D>) -> bool {
    let Net { c, rt, .. } = n;
    let code = match d {
        Op::Vertex(v) => status(&rt.block_on(c.create_vertex(v))),
        Op::Edge(e) => status(&rt.block_on(c.create_edge(e))),
        Op::Get(x) => status(&rt.block_on(c.get(x.clone()))),
        Op::Delete(x) => status(&rt.block_on(c.delete(x.clone()))),
        Op::Set(x, m, v) => status(&rt.block_on(c.set_properties(x.clone(), *m, v))),
        Op::Index(m) => status(&rt.block_on(c.index_property(*m))),
        Op::Bulk(i) => status(&rt.block_on(c.bulk_insert(i.clone()))),
        Op::Sync => status(&rt.block_on(c.sync())),
    };
    sym::check(code.map_or(true, |c| c == Code::Internal), CODE);
    code.is_some()
}
pub fn same_state<D: Datastore>(s: &Scene, a: &Database<D>, b: &Database<D>, what: &str) {
    let vals = [val(0), val(1)];
    sym::check(snap(a, &s.ids, &s.names, &vals) == snap(b, &s.ids, &s.names, &vals), what);
}
/// Valid requests: result and effect are those of the local operation.
pub fn p28<D: Datastore + Send + Sync + 'static>(db: Database<D>, twin: Database<D>) {
    let s = scene();
    populate(&s, &db);
    populate(&s, &twin);
    let mut n = Net::new(db);
    let k = if sym::tier() > 0 { 2 } else { 1 };
    for _ in 0..k {
        one(&op(&s, true), &mut n, &twin);
    }
    same_state(&s, &n.db, &twin, "a request has another effect than the local operation");
    sym::reach("end");
}

/// A client-made vertex, and a plugin that does not exist.
pub fn p28v<D: Datastore + Send + Sync + 'static>(db: Database<D>) {
    let s = scene();
    for u in &s.ids {
        // no vertex has a time-based UUID yet
        sym::assume(u.as_bytes()[6] >> 4 != 1);
    }
    populate(&s, &db);
    let Net { mut c, rt, db, .. } = Net::new(db);
    let r = rt.block_on(c.execute_plugin("x", val(0)));
    sym::check(status(&r) == Some(Code::NotFound), "an unknown plugin is not reported");
    let mut l: Vec<Uuid> = vec![];
    for _ in 0..2 {
        match rt.block_on(c.create_vertex_from_type(s.t[1])) {
            Ok(u) => {
                sym::check(!l.contains(&u), "a generated UUID is used twice");
                l.push(u);
                match db.get(sv(&[u])) {
                    Ok(v) => sym::check(
                        matches!(&v[..], [QueryOutputValue::Vertices(v)] if v.len() == 1 && v[0].id == u && v[0].t == s.t[1]),
                        "a created vertex is not there",
                    ),
                    Err(_) => sym::fail("a valid query failed"),
                }
            }
            Err(_) => sym::fail("a valid request fails"),
        }
    }
    match db.get(count_of(AllVertexQuery.into())) {
        Ok(v) => sym::check(matches!(v[..], [QueryOutputValue::Count(4)]), "another number of vertices is there"),
        Err(_) => sym::fail("a valid query failed"),
    }
    sym::reach("end");
}
/// Malformed requests are refused as such and change nothing.
pub fn p28i<D: Datastore + Send + Sync + 'static>(db: Database<D>, twin: Database<D>) {
    let s = scene();
    populate(&s, &db);
    populate(&s, &twin);
    let mut n = Net::new(db);
    let mut dm = Damage::new(choose(10));
    let Net { raw: c, rt, .. } = &mut n;
    let r = match choose(7) {
        0 => {
            let mut m: proto::Vertex = Vertex::with_id(s.ids[2], s.t[0]).into();
            dm.vertex(&mut m);
            sym::assume(dm.hit);
            rt.block_on(c.create_vertex(m)).map(|_| ())
        }
        1 => {
            let mut m: proto::Edge = Edge::new(s.ids[1], s.t[1], s.ids[1]).into();
            dm.edge(&mut m);
            sym::assume(dm.hit);
            rt.block_on(c.create_edge(m)).map(|_| ())
        }
        2 => {
            let mut m: proto::Query = pipe(sv(&[s.ids[0]]), EdgeDirection::Outbound, Some(s.t[0]), None).into();
            dm.query(&mut m);
            sym::assume(dm.hit);
            let get = choose(2) == 0;
            if get {
                rt.block_on(c.get(m)).map(|_| ())
            } else {
                rt.block_on(c.delete(m)).map(|_| ())
            }
        }
        3 => {
            let mut m: proto::SetPropertiesRequest = (sv(&s.ids), s.names[0], val(1)).into();
            if let Some(q) = &mut m.q {
                dm.query(q);
            }
            if dm.here() {
                m.q = None;
            }
            dm.ident(&mut m.name, true);
            dm.json(&mut m.value);
            sym::assume(dm.hit);
            rt.block_on(c.set_properties(m)).map(|_| ())
        }
        4 => {
            let mut m = proto::IndexPropertyRequest { name: Some(s.names[1].into()) };
            dm.ident(&mut m.name, true);
            sym::assume(dm.hit);
            rt.block_on(c.index_property(m)).map(|_| ())
        }
        5 => {
            // one malformed item among well-formed ones
            let mut l: Vec<proto::BulkInsertItem> = items(&s).into_iter().map(|x| x.into()).collect();
            let i = choose(l.len() as u32) as usize;
            dm.item(&mut l[i]);
            sym::assume(dm.hit);
            rt.block_on(c.bulk_insert(tokio_stream::iter(l))).map(|_| ())
        }
        _ => {
            let mut m = proto::Identifier { value: "t".into() };
            sym::assume(dm.at == 0);
            dm.bad_ident(&mut m);
            rt.block_on(c.create_vertex_from_type(m)).map(|_| ())
        }
    };
    sym::check(matches!(r, Err(e) if e.code() == Code::InvalidArgument), "a malformed request is not refused as such");
    same_state(&s, &n.db, &twin, "a malformed request has an effect");
    sym::reach("end");
}
/// The storage engine fails during a request.
fn counts_all(q: &Query) -> bool {
    match q {
        Query::Include(q) => counts_all(&q.inner),
        Query::Count(c) => {
            let mut q = &*c.inner;
            while let Query::Include(i) = q {
                q = &i.inner;
            }
            matches!(q, Query::AllVertex | Query::AllEdge)
        }
        Query::Pipe(q) => counts_all(&q.inner),
        Query::PipeProperty(q) => counts_all(&q.inner),
        Query::PipeWithPropertyPresence(q) => counts_all(&q.inner),
        Query::PipeWithPropertyValue(q) => counts_all(&q.inner),
        _ => false,
    }
}
pub fn p28f(db: Database<RocksdbDatastore>, twin: Database<RocksdbDatastore>) {
    use rocksdb::ctl;
    let s = scene();
    populate(&s, &db);
    populate(&s, &twin);
    let mut n = Net::new(db);
    let d = op(&s, sym::tier() > 0);
    // (a count of everything cannot report a failed read: known finding of P31)
    if matches!(&d, Op::Get(q) if counts_all(q)) {
        return;
    }
    ctl::reset();
    let write = choose(2) == 0;
    let k = choose(if write { 2 } else { 6 });
    if write {
        ctl::get().fail_at = Some(k);
    } else {
        ctl::get().fail_read_at = Some(k);
    }
    let err = failing(&d, &mut n);
    let failed = if write { ctl::get().writes > k } else { ctl::get().reads > k };
    ctl::reset();
    if failed {
        sym::check(err, "a request whose storage access failed is reported as success");
        same_state(&s, &n.db, &twin, "a request that failed has an effect");
        sym::reach("failed");
    }
}

/// P29: a number from one client to another.
pub fn p29<D: Datastore + Send + Sync + 'static>(db: Database<D>) {
    let v = harness::number::nest(harness::number::texts(4));
    let single = choose(2) == 0;
    let Net { mut c, rt, .. } = Net::new(db);
    let (a, t, p) = (Uuid::from_u128(1), ident("t"), ident("p"));
    let r = rt.block_on(c.create_vertex(&Vertex::with_id(a, t)));
    sym::check(matches!(r, Ok(true)), "a valid request fails");
    let j = Json::new(v.clone());
    let r = if single {
        rt.block_on(c.set_properties(sv(&[a]), p, &j))
    } else {
        rt.block_on(c.bulk_insert(vec![BulkInsertItem::VertexProperty(a, p, j)]))
    };
    sym::check(r.is_ok(), "a valid request fails");
    match rt.block_on(c.get(props(sv(&[a]), None))).as_deref() {
        Ok([QueryOutputValue::VertexProperties(l)]) if l.len() == 1 && l[0].props.len() == 1 => harness::number::compare(&l[0].props[0].value, &v),
        _ => sym::fail("a stored number is not found"),
    }
    sym::reach("end");
}

/// Large requests and answers.
/// Large values.
pub fn p28w<D: Datastore + Send + Sync + 'static>(db: Database<D>) {
    let s = scene();
    populate(&s, &db);
    let vs = harness::wide::huge();
    let v = vs[choose(vs.len() as u32) as usize].clone();
    let p = s.names[0];
    let Net { mut c, rt, db, .. } = Net::new(db);
    sym::check(rt.block_on(c.set_properties(sv(&[s.ids[0]]), p, &v)).is_ok(), "a valid request fails");
    let l = vec![BulkInsertItem::EdgeProperty(s.es[0].clone(), p, v.clone())];
    sym::check(rt.block_on(c.bulk_insert(l)).is_ok(), "a valid request fails");
    for q in [props(sv(&[s.ids[0]]), Some(p)), props(se(&s.es[..1]), Some(p)), VertexWithPropertyValueQuery::new(p, v.clone()).into()] {
        match (rt.block_on(c.get(q.clone())), db.get(q)) {
            (Ok(x), Ok(y)) => {
                sym::check(x.len() == 1 && y.len() == 1 && o_eq(&x[0], &y[0]), OTHER);
                match &y[0] {
                    QueryOutputValue::Vertices(l) => sym::check(l.len() == 1 && l[0].id == s.ids[0], "a large value is another one after a request"),
                    QueryOutputValue::VertexProperties(l) => {
                        sym::check(l.len() == 1 && l[0].props.len() == 1, OTHER);
                        sym::check(harness::same::j_eq(&l[0].props[0].value, &v), "a large value is another one after a request");
                    }
                    QueryOutputValue::EdgeProperties(l) => {
                        sym::check(l.len() == 1 && l[0].props.len() == 1, OTHER);
                        sym::check(harness::same::j_eq(&l[0].props[0].value, &v), "a large value is another one after a request");
                    }
                    _ => sym::fail(OTHER),
                }
            }
            _ => sym::fail(OTHER),
        }
    }
    sym::reach("end");
}
pub fn p28g<D: Datastore + Send + Sync + 'static>(db: Database<D>) {
    let mut b = harness::big::Big::new(if sym::tier() > 0 { 300 } else { 60 });
    let l = b.items();
    let k = choose(4);
    let Net { mut c, rt, db, .. } = Net::new(db);
    sym::check(rt.block_on(c.bulk_insert(l)).is_ok(), "a valid request fails");
    b.observe(&db);
    let q: Query = match k {
        0 => AllVertexQuery.into(),
        1 => AllEdgeQuery.into(),
        2 => props(AllVertexQuery.into(), None),
        _ => pipe(Query::Include(IncludeQuery { inner: Box::new(AllVertexQuery.into()) }), EdgeDirection::Outbound, None, None),
    };
    match (rt.block_on(c.get(q.clone())), db.get(q)) {
        (Ok(x), Ok(y)) => {
            sym::check(x.len() == y.len(), OTHER);
            for (x, y) in x.iter().zip(&y) {
                sym::check(o_eq(x, y), OTHER);
            }
        }
        _ => sym::fail(OTHER),
    }
    use harness::dur::Do;
    let r = match b.op([2, 5, 8, 10][k as usize]) {
        Do::Delete(q) => rt.block_on(c.delete(q)),
        Do::Set(q, n, v) => rt.block_on(c.set_properties(q, n, &v)),
        Do::Bulk(l) => rt.block_on(c.bulk_insert(l)),
        _ => sym::fail("harness"),
    };
    sym::check(r.is_ok(), "a valid request fails");
    b.observe(&db);
    sym::reach("end");
}
