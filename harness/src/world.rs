//! The reference model and the database under test, driven in lockstep.
//!
//! The model is deliberately naive: lists, linear scans. Every operation is
//! applied to both and the results compared; `observe` compares everything a
//! user can read.
use indradb::*;
use serde_json::Value;
use uuid::Uuid;

pub fn ident(s: &str) -> Identifier {
    match Identifier::new(s) {
        Ok(i) => i,
        Err(_) => sym::fail("a valid identifier was rejected"),
    }
}
static ODD: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);
/// From here on, types and names are the shortest and longest ones there are.
pub fn odd() {
    ODD.store(true, core::sync::atomic::Ordering::Relaxed);
}
/// A type or name of a scenario.
pub fn nm(s: &str) -> Identifier {
    if !ODD.load(core::sync::atomic::Ordering::Relaxed) {
        return ident(s);
    }
    match s {
        "t" => ident(""),
        "" => ident("-"),
        "tt" | "p" => ident(&"n".repeat(255)),
        "pp" => ident("-"),
        _ => ident(""),
    }
}
pub fn uuid(name: &str) -> Uuid {
    Uuid::from_bytes(sym::bytes16(name))
}
pub fn json(v: Value) -> Json {
    Json::new(v)
}
/// The property values used with stored data: all kinds, pairwise different.
pub fn val(i: u32) -> Json {
    json(match i {
        0 => Value::from(1u64),
        1 => Value::from("x"),
        2 => Value::Null,
        3 => Value::from(true),
        4 => Value::from(vec![Value::from(1u64)]),
        5 => Value::from(-1i64),
        6 => serde_json::json!({"k": 1}),
        _ => Value::from(2u64),
    })
}
pub fn any_val(n: u32) -> Json {
    val(sym::choose(n))
}

pub struct VProp {
    pub id: Uuid,
    pub name: Identifier,
    pub value: Json,
}
#[derive(Clone)]
pub struct EProp {
    pub e: Edge,
    pub name: Identifier,
    pub value: Json,
}
impl Clone for VProp {
    fn clone(&self) -> Self {
        VProp { id: self.id, name: self.name, value: self.value.clone() }
    }
}
#[derive(Clone, Default)]
pub struct Model {
    pub vs: Vec<(Uuid, Identifier)>,
    pub es: Vec<Edge>,
    pub vp: Vec<VProp>,
    pub ep: Vec<EProp>,
    pub idx: Vec<Identifier>,
}
pub fn edge_eq(a: &Edge, b: &Edge) -> bool {
    a.t == b.t && a.outbound_id == b.outbound_id && a.inbound_id == b.inbound_id
}
pub fn json_eq(a: &Json, b: &Json) -> bool {
    // structural and exact, not indradb's own equality
    crate::number::same(&a.0, &b.0)
}
impl Model {
    pub fn vtype(&self, id: Uuid) -> Option<Identifier> {
        self.vs.iter().find(|v| v.0 == id).map(|v| v.1)
    }
    pub fn has_v(&self, id: Uuid) -> bool {
        self.vtype(id).is_some()
    }
    pub fn has_e(&self, e: &Edge) -> bool {
        self.es.iter().any(|x| edge_eq(x, e))
    }
    pub fn create_vertex(&mut self, id: Uuid, t: Identifier) -> bool {
        if self.has_v(id) {
            return false;
        }
        self.vs.push((id, t));
        true
    }
    pub fn create_edge(&mut self, e: &Edge) -> bool {
        if !self.has_v(e.outbound_id) || !self.has_v(e.inbound_id) {
            return false;
        }
        if !self.has_e(e) {
            self.es.push(e.clone());
        }
        true
    }
    pub fn del_edge(&mut self, e: &Edge) {
        self.es.retain(|x| !edge_eq(x, e));
        self.ep.retain(|p| !edge_eq(&p.e, e));
    }
    pub fn del_vertex(&mut self, id: Uuid) {
        self.vs.retain(|v| v.0 != id);
        self.vp.retain(|p| p.id != id);
        self.es.retain(|e| e.outbound_id != id && e.inbound_id != id);
        self.ep.retain(|p| p.e.outbound_id != id && p.e.inbound_id != id);
    }
    pub fn set_vp(&mut self, id: Uuid, name: Identifier, value: &Json) {
        self.del_vp(id, name);
        self.vp.push(VProp { id, name, value: value.clone() });
    }
    pub fn del_vp(&mut self, id: Uuid, name: Identifier) {
        self.vp.retain(|p| !(p.name == name && p.id == id));
    }
    pub fn set_ep(&mut self, e: &Edge, name: Identifier, value: &Json) {
        self.del_ep(e, name);
        self.ep.push(EProp { e: e.clone(), name, value: value.clone() });
    }
    pub fn del_ep(&mut self, e: &Edge, name: Identifier) {
        self.ep.retain(|p| !(p.name == name && edge_eq(&p.e, e)));
    }
    pub fn get_vp(&self, id: Uuid, name: Identifier) -> Option<&Json> {
        self.vp.iter().find(|p| p.name == name && p.id == id).map(|p| &p.value)
    }
    pub fn get_ep(&self, e: &Edge, name: Identifier) -> Option<&Json> {
        self.ep.iter().find(|p| p.name == name && edge_eq(&p.e, e)).map(|p| &p.value)
    }
}

// ---- comparison of outputs -------------------------------------------------

pub fn vertices(r: Result<Vec<QueryOutputValue>>, what: &str) -> Vec<Vertex> {
    match r {
        Ok(mut o) => match o.pop() {
            Some(QueryOutputValue::Vertices(v)) => v,
            _ => sym::fail(what),
        },
        Err(_) => sym::fail(what),
    }
}
pub fn edges(r: Result<Vec<QueryOutputValue>>, what: &str) -> Vec<Edge> {
    match r {
        Ok(mut o) => match o.pop() {
            Some(QueryOutputValue::Edges(v)) => v,
            _ => sym::fail(what),
        },
        Err(_) => sym::fail(what),
    }
}
pub fn count(r: Result<Vec<QueryOutputValue>>, what: &str) -> u64 {
    match r {
        Ok(mut o) => match o.pop() {
            Some(QueryOutputValue::Count(v)) => v,
            _ => sym::fail(what),
        },
        Err(_) => sym::fail(what),
    }
}
pub fn vprops(r: Result<Vec<QueryOutputValue>>, what: &str) -> Vec<VertexProperties> {
    match r {
        Ok(mut o) => match o.pop() {
            Some(QueryOutputValue::VertexProperties(v)) => v,
            _ => sym::fail(what),
        },
        Err(_) => sym::fail(what),
    }
}
pub fn eprops(r: Result<Vec<QueryOutputValue>>, what: &str) -> Vec<EdgeProperties> {
    match r {
        Ok(mut o) => match o.pop() {
            Some(QueryOutputValue::EdgeProperties(v)) => v,
            _ => sym::fail(what),
        },
        Err(_) => sym::fail(what),
    }
}
/// `got` and `want` are equal as multisets.
pub fn same<A, B>(got: &[A], want: &[B], eq: impl Fn(&A, &B) -> bool, what: &str) {
    if got.len() != want.len() {
        sym::fail(what);
    }
    let mut used = vec![false; got.len()];
    for w in want {
        let mut hit = false;
        for (i, g) in got.iter().enumerate() {
            if !used[i] && eq(g, w) {
                used[i] = true;
                hit = true;
                break;
            }
        }
        if !hit {
            sym::fail(what);
        }
    }
}
pub fn same_v(got: &[Vertex], want: &[(Uuid, Identifier)], what: &str) {
    same(got, want, |g, w| g.t == w.1 && g.id == w.0, what)
}
pub fn same_e(got: &[Edge], want: &[Edge], what: &str) {
    same(got, want, edge_eq, what)
}
pub fn same_props(got: &[NamedProperty], want: &[(Identifier, Json)], what: &str) {
    same(got, want, |g, w| g.name == w.0 && json_eq(&g.value, &w.1), what)
}

// ---- database + model ------------------------------------------------------

pub struct World<D: Datastore> {
    pub db: Database<D>,
    pub m: Model,
    /// property names that exist in this scenario
    pub names: Vec<Identifier>,
    /// values that exist in this scenario
    pub vals: Vec<Json>,
}
pub fn mem() -> World<MemoryDatastore> {
    World::over(MemoryDatastore::new_db())
}
pub const PATH: &str = "/verif-no-such-dir/db";
static OPTIONS: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);
/// From here on, databases are opened with explicit options, as the server does.
pub fn options() {
    OPTIONS.store(1 + sym::choose(2), core::sync::atomic::Ordering::Relaxed);
}
pub fn new_db(path: &str) -> Result<Database<RocksdbDatastore>> {
    let n = match OPTIONS.load(core::sync::atomic::Ordering::Relaxed) {
        0 => return RocksdbDatastore::new_db(path),
        1 => None,
        _ => Some(512),
    };
    RocksdbDatastore::new_db_with_options(path, &RocksdbDatastore::get_options(n))
}
pub fn open_rdb() -> Database<RocksdbDatastore> {
    match new_db(PATH) {
        Ok(d) => d,
        Err(_) => sym::fail("the database does not open"),
    }
}
pub fn rdb() -> World<RocksdbDatastore> {
    World::over(open_rdb())
}
pub fn mem2() -> World<MemoryDatastore> {
    mem()
}
/// A second, separate RocksDB database.
pub fn rdb2() -> World<RocksdbDatastore> {
    match new_db("/verif-no-such-dir/db2") {
        Ok(d) => World::over(d),
        Err(_) => sym::fail("the database does not open"),
    }
}
fn ok<T>(r: Result<T>, what: &str) -> T {
    match r {
        Ok(x) => x,
        Err(_) => sym::fail(what),
    }
}
impl<D: Datastore> World<D> {
    pub fn over(db: Database<D>) -> Self {
        World { db, m: Model::default(), names: vec![], vals: vec![] }
    }
    pub fn create_vertex(&mut self, id: Uuid, t: Identifier) -> bool {
        let got = ok(self.db.create_vertex(&Vertex::with_id(id, t)), "create_vertex failed");
        let want = self.m.create_vertex(id, t);
        sym::check(got == want, "create_vertex result");
        got
    }
    pub fn create_edge(&mut self, e: &Edge) -> bool {
        let got = ok(self.db.create_edge(e), "create_edge failed");
        let want = self.m.create_edge(e);
        sym::check(got == want, "create_edge result");
        got
    }
    pub fn delete_vertex(&mut self, id: Uuid) {
        ok(self.db.delete(SpecificVertexQuery::single(id)), "delete of a vertex failed");
        self.m.del_vertex(id);
    }
    pub fn delete_edge(&mut self, e: &Edge) {
        ok(self.db.delete(SpecificEdgeQuery::single(e.clone())), "delete of an edge failed");
        if self.m.has_e(e) {
            self.m.del_edge(e);
        }
    }
    pub fn note_prop(&mut self, name: Identifier, v: &Json) {
        if !self.names.contains(&name) {
            self.names.push(name);
        }
        if !self.vals.iter().any(|x| json_eq(x, v)) {
            self.vals.push(v.clone());
        }
    }
    pub fn set_vp(&mut self, id: Uuid, name: Identifier, v: &Json) {
        ok(self.db.set_properties(SpecificVertexQuery::single(id), name, v), "set_properties failed");
        self.note_prop(name, v);
        if self.m.has_v(id) {
            self.m.set_vp(id, name, v);
        }
    }
    pub fn set_ep(&mut self, e: &Edge, name: Identifier, v: &Json) {
        ok(self.db.set_properties(SpecificEdgeQuery::single(e.clone()), name, v), "set_properties failed");
        self.note_prop(name, v);
        if self.m.has_e(e) {
            self.m.set_ep(e, name, v);
        }
    }
    pub fn del_vp(&mut self, id: Uuid, name: Identifier) {
        let q = SpecificVertexQuery::single(id).properties().unwrap().name(name);
        ok(self.db.delete(q), "delete of a property failed");
        self.m.del_vp(id, name);
    }
    pub fn del_ep(&mut self, e: &Edge, name: Identifier) {
        let q = SpecificEdgeQuery::single(e.clone()).properties().unwrap().name(name);
        ok(self.db.delete(q), "delete of a property failed");
        self.m.del_ep(e, name);
    }
    pub fn index(&mut self, name: Identifier) {
        ok(self.db.index_property(name), "index_property failed");
        if !self.m.idx.contains(&name) {
            self.m.idx.push(name);
        }
        if !self.names.contains(&name) {
            self.names.push(name);
        }
    }
    pub fn bulk(&mut self, items: Vec<BulkInsertItem>) {
        for i in &items {
            match i {
                BulkInsertItem::Vertex(v) => {
                    self.m.create_vertex(v.id, v.t);
                }
                BulkInsertItem::Edge(e) => {
                    self.m.create_edge(e);
                }
                BulkInsertItem::VertexProperty(id, n, v) => {
                    self.m.set_vp(*id, *n, v);
                    let (n, v) = (*n, v.clone());
                    self.note_prop(n, &v);
                }
                BulkInsertItem::EdgeProperty(e, n, v) => {
                    self.m.set_ep(e, *n, v);
                    let (n, v) = (*n, v.clone());
                    self.note_prop(n, &v);
                }
            }
        }
        ok(self.db.bulk_insert(items), "bulk_insert failed");
    }

    // -- observations --------------------------------------------------------
    pub fn obs_vertices(&self) {
        let v = vertices(self.db.get(AllVertexQuery), "all vertices: no result");
        same_v(&v, &self.m.vs, "the set of all vertices is wrong");
        let n = count(self.db.get(AllVertexQuery.count().unwrap()), "vertex count: no result");
        sym::check(n == self.m.vs.len() as u64, "the vertex count is wrong");
    }
    pub fn obs_vertex(&self, id: Uuid) {
        let v = vertices(self.db.get(SpecificVertexQuery::single(id)), "specific vertex: no result");
        match self.m.vtype(id) {
            None => sym::check(v.is_empty(), "a vertex is returned that does not exist"),
            Some(t) => {
                sym::check(v.len() == 1, "an existing vertex is not returned exactly once");
                sym::check(v[0].id == id && v[0].t == t, "a vertex has the wrong id or type");
            }
        }
    }
    pub fn obs_edges(&self) {
        let e = edges(self.db.get(AllEdgeQuery), "all edges: no result");
        same_e(&e, &self.m.es, "the set of all edges is wrong");
        let n = count(self.db.get(AllEdgeQuery.count().unwrap()), "edge count: no result");
        sym::check(n == self.m.es.len() as u64, "the edge count is wrong");
    }
    pub fn obs_adjacent(&self) {
        for &(id, _) in &self.m.vs {
            let q = || SpecificVertexQuery::single(id);
            let o = edges(self.db.get(q().outbound().unwrap()), "outbound: no result");
            let w: Vec<Edge> = self.m.es.iter().filter(|e| e.outbound_id == id).cloned().collect();
            same_e(&o, &w, "the outbound edges of a vertex are wrong");
            let o = edges(self.db.get(q().inbound().unwrap()), "inbound: no result");
            let w: Vec<Edge> = self.m.es.iter().filter(|e| e.inbound_id == id).cloned().collect();
            same_e(&o, &w, "the inbound edges of a vertex are wrong");
        }
    }
    pub fn obs_edge(&self, e: &Edge) {
        let got = edges(self.db.get(SpecificEdgeQuery::single(e.clone())), "specific edge: no result");
        if self.m.has_e(e) {
            sym::check(got.len() == 1 && edge_eq(&got[0], e), "an existing edge is not returned exactly once");
        } else {
            sym::check(got.is_empty(), "an edge is returned that does not exist");
        }
    }
    pub fn obs_vprops(&self) {
        for &(id, t) in &self.m.vs {
            let mut want = vec![];
            for p in &self.m.vp {
                if p.id == id {
                    want.push((p.name, p.value.clone()));
                }
            }
            let q = SpecificVertexQuery::single(id).properties().unwrap();
            let o = vprops(self.db.get(q), "vertex properties: no result");
            if want.is_empty() {
                sym::check(o.is_empty(), "properties are returned for a vertex that has none");
            } else {
                sym::check(o.len() == 1, "the properties of a vertex are not returned once");
                sym::check(o[0].vertex.id == id && o[0].vertex.t == t, "properties with the wrong vertex");
                same_props(&o[0].props, &want, "the properties of a vertex are wrong");
            }
            for &n in &self.names {
                let q = SpecificVertexQuery::single(id).properties().unwrap().name(n);
                let o = vprops(self.db.get(q), "vertex property: no result");
                match self.m.get_vp(id, n) {
                    None => sym::check(o.is_empty(), "a property is returned that does not exist"),
                    Some(v) => {
                        sym::check(o.len() == 1 && o[0].vertex.id == id, "a property is not returned once");
                        same_props(&o[0].props, &[(n, v.clone())], "the value of a vertex property is wrong");
                    }
                }
            }
        }
    }
    pub fn obs_eprops(&self) {
        for e in &self.m.es {
            let mut want = vec![];
            for p in &self.m.ep {
                if edge_eq(&p.e, e) {
                    want.push((p.name, p.value.clone()));
                }
            }
            let q = SpecificEdgeQuery::single(e.clone()).properties().unwrap();
            let o = eprops(self.db.get(q), "edge properties: no result");
            if want.is_empty() {
                sym::check(o.is_empty(), "properties are returned for an edge that has none");
            } else {
                sym::check(o.len() == 1, "the properties of an edge are not returned once");
                sym::check(edge_eq(&o[0].edge, e), "properties with the wrong edge");
                same_props(&o[0].props, &want, "the properties of an edge are wrong");
            }
            for &n in &self.names {
                let q = SpecificEdgeQuery::single(e.clone()).properties().unwrap().name(n);
                let o = eprops(self.db.get(q), "edge property: no result");
                match self.m.get_ep(e, n) {
                    None => sym::check(o.is_empty(), "a property is returned that does not exist"),
                    Some(v) => {
                        sym::check(o.len() == 1 && edge_eq(&o[0].edge, e), "a property is not returned once");
                        same_props(&o[0].props, &[(n, v.clone())], "the value of an edge property is wrong");
                    }
                }
            }
        }
    }
    /// Every index query over the names and values of the scenario.
    pub fn obs_index(&self) {
        for &n in &self.names {
            if !self.m.idx.contains(&n) {
                sym::check(
                    matches!(self.db.get(VertexWithPropertyPresenceQuery::new(n)), Err(Error::NotIndexed)),
                    "a presence query on a name that is not indexed is not refused",
                );
                continue;
            }
            let mut wv = vec![];
            for p in &self.m.vp {
                if p.name == n {
                    if let Some(t) = self.m.vtype(p.id) {
                        wv.push((p.id, t));
                    }
                }
            }
            let mut we = vec![];
            for p in &self.m.ep {
                if p.name == n && self.m.has_e(&p.e) {
                    we.push(p.e.clone());
                }
            }
            let v = vertices(self.db.get(VertexWithPropertyPresenceQuery::new(n)), "vertex presence: no result");
            same_v(&v, &wv, "vertices with an indexed property are wrong");
            let e = edges(self.db.get(EdgeWithPropertyPresenceQuery::new(n)), "edge presence: no result");
            same_e(&e, &we, "edges with an indexed property are wrong");
            for x in &self.vals {
                let mut wv = vec![];
                for p in &self.m.vp {
                    if p.name == n && json_eq(&p.value, x) {
                        if let Some(t) = self.m.vtype(p.id) {
                            wv.push((p.id, t));
                        }
                    }
                }
                let mut we = vec![];
                for p in &self.m.ep {
                    if p.name == n && json_eq(&p.value, x) && self.m.has_e(&p.e) {
                        we.push(p.e.clone());
                    }
                }
                let v = vertices(self.db.get(VertexWithPropertyValueQuery::new(n, x.clone())), "vertex value: no result");
                same_v(&v, &wv, "vertices with an indexed property value are wrong");
                let e = edges(self.db.get(EdgeWithPropertyValueQuery::new(n, x.clone())), "edge value: no result");
                same_e(&e, &we, "edges with an indexed property value are wrong");
            }
        }
    }
    /// Everything a user can read.
    pub fn observe(&self) {
        self.obs_vertices();
        self.obs_edges();
        self.obs_adjacent();
        self.obs_vprops();
        self.obs_eprops();
        self.obs_index();
    }
}
