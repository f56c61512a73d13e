//! P22, P23: conversion between the models and their wire messages.
use harness::core::kinds;
use harness::same::*;
use harness::small::any_ident;
use harness::world::uuid;
use indradb::*;
use indradb_proto as proto;
use prost::Message;
use std::sync::atomic::{AtomicU32, Ordering};
use sym::{choose, pick};

fn deep() -> bool {
    sym::tier() > 0
}

// ---- values -----------------------------------------------------------------

/// Texts are symbolic of a fixed length per place, so that a mix-up of two
/// places of equal length still has a model that tells them apart.
fn id_(n: &str) -> Identifier {
    match LEN.load(Ordering::Relaxed) {
        0 => any_ident_len(0, n),
        1 => any_ident_len(1, n),
        l => {
            let mut t = harness::small::any_text(1, n);
            t.push_str(&"x".repeat(l as usize - 1));
            unsafe { Identifier::new_unchecked(t) }
        }
    }
}
/// The length of all identifiers in one run.
static LEN: AtomicU32 = AtomicU32::new(1);
fn lengths() {
    LEN.store([1, 0, 255][choose(3) as usize], Ordering::Relaxed);
}
fn any_ident_len(l: usize, n: &str) -> Identifier {
    unsafe { Identifier::new_unchecked(harness::small::any_text(l, n)) }
}
fn oid(n: &str) -> Option<Identifier> {
    if choose(2) == 1 {
        Some(id_(n))
    } else {
        None
    }
}
fn jv() -> Json {
    let k = kinds();
    if deep() {
        pick(&k)
    } else {
        k[[0, 3, 6, 9][choose(4) as usize]].clone()
    }
}
fn edge(n: &str) -> Edge {
    Edge::new(uuid(&format!("{n}o")), id_(n), uuid(&format!("{n}i")))
}
fn edges(n: &str) -> Vec<Edge> {
    let k = choose(3) as usize;
    [edge(&format!("{n}0")), edge(&format!("{n}1"))][..k].to_vec()
}
fn leaf(n: &str) -> Query {
    match choose(8) {
        0 => Query::AllVertex,
        1 => Query::AllEdge,
        2 => Query::RangeVertex(RangeVertexQuery {
            limit: sym::u32_("limit"),
            t: oid("t"),
            start_id: if choose(2) == 1 { Some(uuid("start")) } else { None },
        }),
        3 => {
            let ids = [uuid("id0"), uuid("id1")];
            SpecificVertexQuery::new(ids[..choose(3) as usize].to_vec()).into()
        }
        4 => SpecificEdgeQuery::new(edges(n)).into(),
        5 => {
            if choose(2) == 0 {
                VertexWithPropertyPresenceQuery::new(id_(n)).into()
            } else {
                EdgeWithPropertyPresenceQuery::new(id_(n)).into()
            }
        }
        6 => VertexWithPropertyValueQuery::new(id_(n), jv()).into(),
        _ => EdgeWithPropertyValueQuery::new(id_(n), jv()).into(),
    }
}
fn flag(n: &str) -> bool {
    sym::u8_(n) & 1 == 1
}
/// Any query, suitable or not: the conversion does not look at that.
fn wrap(inner: Query, n: &str) -> Query {
    let inner = Box::new(inner);
    match choose(6) {
        0 => Query::Pipe(PipeQuery {
            inner,
            direction: if flag("dir") { EdgeDirection::Inbound } else { EdgeDirection::Outbound },
            limit: sym::u32_("limit"),
            t: oid(n),
        }),
        1 => Query::PipeProperty(PipePropertyQuery { inner, name: oid(n) }),
        2 => Query::PipeWithPropertyPresence(PipeWithPropertyPresenceQuery { inner, name: id_(n), exists: flag("exists") }),
        3 => Query::PipeWithPropertyValue(PipeWithPropertyValueQuery { inner, name: id_(n), value: jv(), equal: flag("equal") }),
        4 => Query::Include(IncludeQuery { inner }),
        _ => Query::Count(CountQuery { inner }),
    }
}
fn query() -> Query {
    let d = choose(if deep() { 4 } else { 3 });
    let mut q = if d < 2 {
        leaf("l")
    } else {
        match choose(3) {
            0 => Query::AllVertex,
            1 => SpecificEdgeQuery::new(vec![edge("l")]).into(),
            _ => VertexWithPropertyPresenceQuery::new(id_("l")).into(),
        }
    };
    for i in 0..d {
        q = wrap(q, &format!("w{i}"));
    }
    q
}
fn vertex(n: &str) -> Vertex {
    Vertex::with_id(uuid(n), id_(n))
}
fn nprops(n: &str) -> Vec<NamedProperty> {
    let k = choose(3);
    (0..k).map(|i| NamedProperty::new(id_(&format!("{n}{i}")), if i == 0 { jv() } else { kinds()[1].clone() })).collect()
}
fn output() -> QueryOutputValue {
    match choose(5) {
        0 => QueryOutputValue::Vertices([vertex("v0"), vertex("v1")][..choose(3) as usize].to_vec()),
        1 => QueryOutputValue::Edges(edges("e")),
        2 => QueryOutputValue::Count(sym::u64_("count")),
        3 => {
            let mut l = vec![];
            for i in 0..choose(3) {
                l.push(VertexProperties::new(vertex(&format!("v{i}")), if i == 0 { nprops("p") } else { vec![] }));
            }
            QueryOutputValue::VertexProperties(l)
        }
        _ => {
            let mut l = vec![];
            for i in 0..choose(3) {
                l.push(EdgeProperties::new(edge(&format!("e{i}")), if i == 0 { nprops("p") } else { vec![] }));
            }
            QueryOutputValue::EdgeProperties(l)
        }
    }
}
fn item() -> BulkInsertItem {
    match choose(4) {
        0 => BulkInsertItem::Vertex(vertex("v")),
        1 => BulkInsertItem::Edge(edge("e")),
        2 => BulkInsertItem::VertexProperty(uuid("i"), id_("n"), jv()),
        _ => BulkInsertItem::EdgeProperty(edge("e"), id_("n"), jv()),
    }
}
/// Through the bytes of the message as well.
fn sent<M: Message + Default>(m: M, bytes: bool) -> M {
    if !bytes {
        return m;
    }
    let b = m.encode_to_vec();
    match M::decode(&b[..]) {
        Ok(m) => m,
        Err(_) => sym::fail("an encoded message cannot be decoded"),
    }
}
fn back<M, T>(m: M, bytes: bool) -> T
where
    M: Message + Default + TryInto<T>,
{
    match sent(m, bytes).try_into() {
        Ok(t) => t,
        Err(_) => sym::fail("a well-formed message is rejected"),
    }
}

/// P22: queries.
pub fn p22() {
    lengths();
    let q = query();
    let r: Query = back::<proto::Query, _>(q.clone().into(), false);
    sym::check(q_eq(&q, &r), "a query is another one after the conversion to its message and back");
    sym::reach("end");
}
fn other(bytes: bool) {
    lengths();
    match choose(9) {
        0 => {
            let o = output();
            let r: QueryOutputValue = back::<proto::QueryOutputValue, _>(o.clone().into(), bytes);
            sym::check(o_eq(&o, &r), "a query result is another one after the conversion to its message and back");
        }
        1 => {
            let o = item();
            let r: BulkInsertItem = back::<proto::BulkInsertItem, _>(o.clone().into(), bytes);
            sym::check(b_eq(&o, &r), "a bulk insert item is another one after the conversion to its message and back");
        }
        2 => {
            let (q, n, v) = (leaf("l"), id_("n"), jv());
            let m: proto::SetPropertiesRequest = (q.clone(), n, v.clone()).into();
            let (a, b, c): (Query, Identifier, Json) = back(m, bytes);
            sym::check(q_eq(&q, &a) & i_eq(&n, &b) & j_eq(&v, &c), "a property request is another one after the conversion");
        }
        3 => {
            let o = vertex("v");
            let r: Vertex = back::<proto::Vertex, _>(o.clone().into(), bytes);
            sym::check(v_eq(&o, &r), "a vertex is another one after the conversion to its message and back");
        }
        4 => {
            let o = edge("e");
            let r: Edge = back::<proto::Edge, _>(o.clone().into(), bytes);
            sym::check(e_eq(&o, &r), "an edge is another one after the conversion to its message and back");
        }
        5 => {
            let (u, v) = (uuid("u"), jv());
            let r: VertexProperty = back::<proto::VertexProperty, _>(VertexProperty::new(u, v.clone()).into(), bytes);
            sym::check((r.id == u) & j_eq(&r.value, &v), "a vertex property is another one after the conversion");
        }
        6 => {
            let (e, v) = (edge("e"), jv());
            let r: EdgeProperty = back::<proto::EdgeProperty, _>(EdgeProperty::new(e.clone(), v.clone()).into(), bytes);
            sym::check(e_eq(&r.edge, &e) & j_eq(&r.value, &v), "an edge property is another one after the conversion");
        }
        7 => {
            let i = any_ident(if deep() { 4 } else { 2 }, "i");
            let r: Identifier = back::<proto::Identifier, _>(i.into(), bytes);
            sym::check(i_eq(&r, &i), "an identifier is another one after the conversion");
            let m = proto::IndexPropertyRequest { name: Some(i.into()) };
            let r: Identifier = back(m, bytes);
            sym::check(i_eq(&r, &i), "an index request names another property after the conversion");
        }
        _ => {
            let v = pick(&kinds());
            let r: Json = back::<proto::Json, _>(v.clone().into(), bytes);
            sym::check(j_eq(&r, &v), "a value is another one after the conversion");
            for d in [EdgeDirection::Outbound, EdgeDirection::Inbound] {
                let p: proto::EdgeDirection = d.into();
                let r: EdgeDirection = p.into();
                sym::check(r == d, "a direction is another one after the conversion");
                sym::check((p as i32 == 1) == (d == EdgeDirection::Inbound), "a direction has another number on the wire");
            }
        }
    }
}
/// P22: everything else.
pub fn p22o() {
    other(false);
    sym::reach("end");
}
/// P22: through the encoded bytes.
pub fn p22b() {
    if choose(2) == 0 {
        let q = if choose(2) == 0 { leaf("l") } else { wrap(SpecificVertexQuery::single(uuid("u")).into(), "w") };
        let r: Query = back::<proto::Query, _>(q.clone().into(), true);
        sym::check(q_eq(&q, &r), "a query is another one after being sent");
    } else {
        other(true);
    }
    sym::reach("end");
}

/// P29: numbers in messages.
pub fn p29(v: serde_json::Value, all: bool) {
    let v = if all { harness::number::nest(v) } else { v };
    let j = || Json::new(v.clone());
    let n = harness::world::ident("n");
    let u = uuid::Uuid::from_u128(7);
    let q = || -> Query { SpecificVertexQuery::single(u).into() };
    let got: Json = match if all { choose(6) } else { 0 } {
        0 => back::<proto::Json, _>(j().into(), true),
        1 => {
            let (_, _, r): (Query, Identifier, Json) = back::<proto::SetPropertiesRequest, _>((q(), n, j()).into(), true);
            r
        }
        2 => match back::<proto::Query, Query>({ let q: Query = VertexWithPropertyValueQuery::new(n, j()).into(); q.into() }, true) {
            Query::VertexWithPropertyValue(q) => q.value,
            _ => sym::fail("a query is another one after being sent"),
        },
        3 => back::<proto::NamedProperty, NamedProperty>(NamedProperty { name: n, value: j() }.into(), true).value,
        4 => match back::<proto::BulkInsertItem, BulkInsertItem>(BulkInsertItem::VertexProperty(u, n, j()).into(), true) {
            BulkInsertItem::VertexProperty(_, _, r) => r,
            _ => sym::fail("an item is another one after being sent"),
        },
        _ => {
            let o = QueryOutputValue::EdgeProperties(vec![EdgeProperties::new(Edge::new(u, n, u), vec![NamedProperty::new(n, j())])]);
            match back::<proto::QueryOutputValue, QueryOutputValue>(o.into(), true) {
                QueryOutputValue::EdgeProperties(mut l) if l.len() == 1 && l[0].props.len() == 1 => l.remove(0).props.remove(0).value,
                _ => sym::fail("a result is another one after being sent"),
            }
        }
    };
    harness::number::compare(&got, &v);
    sym::reach("end");
}

// ---- P23 --------------------------------------------------------------------

/// Walks a message and damages the `at`-th place that can be damaged.
pub struct Damage {
    pub at: u32,
    n: u32,
    pub hit: bool,
}
impl Damage {
    pub fn new(at: u32) -> Damage {
        Damage { at, n: 0, hit: false }
    }
    pub fn here(&mut self) -> bool {
        self.n += 1;
        let h = self.n - 1 == self.at;
        self.hit |= h;
        h
    }
    fn bad_uuid(&mut self, u: &mut proto::Uuid) {
        let l = match choose(5) {
            0 => 0,
            1 => 1,
            2 => 15,
            3 => 17,
            _ => 32,
        };
        let mut b = vec![0u8; l];
        sym::bytes(&mut b, "bad");
        u.value = b;
    }
    fn uuid(&mut self, u: &mut Option<proto::Uuid>, required: bool) {
        if let Some(u) = u {
            if self.here() {
                self.bad_uuid(u);
            }
        }
        if required && self.here() {
            *u = None;
        }
    }
    pub fn bad_ident(&mut self, i: &mut proto::Identifier) {
        i.value = match choose(4) {
            0 => {
                // one symbolic ASCII character that is not allowed, somewhere
                let c = sym::u8_("c");
                let low = c | 0x20;
                sym::assume(c < 128);
                sym::assume(!((c == b'-') | (c == b'_') | ((c >= b'0') & (c <= b'9')) | ((low >= b'a') & (low <= b'z'))));
                let mut b = vec![b'a', b'b', b'c'];
                b[choose(3) as usize] = c;
                unsafe { String::from_utf8_unchecked(b) }
            }
            1 => "a".repeat(256),
            2 => "a\u{2603}".into(),
            _ => " ".into(),
        };
    }
    pub fn ident(&mut self, i: &mut Option<proto::Identifier>, required: bool) {
        if let Some(i) = i {
            if self.here() {
                self.bad_ident(i);
            }
        }
        if required && self.here() {
            *i = None;
        }
    }
    pub fn json(&mut self, j: &mut Option<proto::Json>) {
        if let Some(j) = j {
            if self.here() {
                j.value = pick(&["", " ", "{", "nul", "1 2", "[1,]", "\"", "{\"a\"}", "+1", "01", "NaN", "'a'"]).into();
            }
        }
        if self.here() {
            *j = None;
        }
    }
    pub fn edge(&mut self, e: &mut proto::Edge) {
        self.uuid(&mut e.outbound_id, true);
        self.ident(&mut e.t, true);
        self.uuid(&mut e.inbound_id, true);
    }
    fn oedge(&mut self, e: &mut Option<proto::Edge>) {
        if let Some(e) = e {
            self.edge(e);
        }
        if self.here() {
            *e = None;
        }
    }
    pub fn vertex(&mut self, e: &mut proto::Vertex) {
        self.uuid(&mut e.id, true);
        self.ident(&mut e.t, true);
    }
    fn inner(&mut self, q: &mut Option<Box<proto::Query>>) {
        if let Some(q) = q {
            self.query(q);
        }
        if self.here() {
            *q = None;
        }
    }
    pub fn query(&mut self, q: &mut proto::Query) {
        use proto::QueryVariant as V;
        match &mut q.query {
            Some(V::AllVertex(_)) | Some(V::AllEdge(_)) | None => {}
            Some(V::RangeVertex(x)) => {
                self.ident(&mut x.t, false);
                self.uuid(&mut x.start_id, false);
            }
            Some(V::SpecificVertex(x)) => {
                for u in &mut x.ids {
                    if self.here() {
                        self.bad_uuid(u);
                    }
                }
            }
            Some(V::SpecificEdge(x)) => {
                for e in &mut x.edges {
                    self.edge(e);
                }
            }
            Some(V::VertexWithPropertyPresence(x)) => self.ident(&mut x.name, true),
            Some(V::EdgeWithPropertyPresence(x)) => self.ident(&mut x.name, true),
            Some(V::VertexWithPropertyValue(x)) => {
                self.ident(&mut x.name, true);
                self.json(&mut x.value);
            }
            Some(V::EdgeWithPropertyValue(x)) => {
                self.ident(&mut x.name, true);
                self.json(&mut x.value);
            }
            Some(V::Pipe(x)) => {
                self.inner(&mut x.inner);
                self.ident(&mut x.t, false);
                if self.here() {
                    let d = sym::u32_("direction") as i32;
                    sym::assume((d != 0) & (d != 1));
                    x.direction = d;
                }
            }
            Some(V::PipeProperty(x)) => {
                self.inner(&mut x.inner);
                self.ident(&mut x.name, false);
            }
            Some(V::PipeWithPropertyPresence(x)) => {
                self.inner(&mut x.inner);
                self.ident(&mut x.name, true);
            }
            Some(V::PipeWithPropertyValue(x)) => {
                self.inner(&mut x.inner);
                self.ident(&mut x.name, true);
                self.json(&mut x.value);
            }
            Some(V::Include(x)) => self.inner(&mut x.inner),
            Some(V::Count(x)) => self.inner(&mut x.inner),
        }
        if self.here() {
            q.query = None;
        }
    }
    fn nprop(&mut self, p: &mut proto::NamedProperty) {
        self.ident(&mut p.name, true);
        self.json(&mut p.value);
    }
    fn output(&mut self, o: &mut proto::QueryOutputValue) {
        use proto::QueryOutputValueVariant as V;
        match &mut o.value {
            Some(V::Vertices(l)) => l.vertices.iter_mut().for_each(|v| self.vertex(v)),
            Some(V::Edges(l)) => l.edges.iter_mut().for_each(|v| self.edge(v)),
            Some(V::Count(_)) | None => {}
            Some(V::VertexProperties(l)) => {
                for p in &mut l.vertex_properties {
                    if let Some(v) = &mut p.vertex {
                        self.vertex(v);
                    }
                    if self.here() {
                        p.vertex = None;
                    }
                    p.props.iter_mut().for_each(|v| self.nprop(v));
                }
            }
            Some(V::EdgeProperties(l)) => {
                for p in &mut l.edge_properties {
                    self.oedge(&mut p.edge);
                    p.props.iter_mut().for_each(|v| self.nprop(v));
                }
            }
        }
        if self.here() {
            o.value = None;
        }
    }
    pub fn item(&mut self, i: &mut proto::BulkInsertItem) {
        use proto::BulkInsertItemVariant as V;
        match &mut i.item {
            Some(V::Vertex(v)) => self.vertex(v),
            Some(V::Edge(e)) => self.edge(e),
            Some(V::VertexProperty(p)) => {
                self.uuid(&mut p.id, true);
                self.ident(&mut p.name, true);
                self.json(&mut p.value);
            }
            Some(V::EdgeProperty(p)) => {
                self.oedge(&mut p.edge);
                self.ident(&mut p.name, true);
                self.json(&mut p.value);
            }
            None => {}
        }
        if self.here() {
            i.item = None;
        }
    }
}
const MSG: &str = "a malformed message is accepted";
/// Damages each place in turn; ends the path when there is no such place.
fn damaged(max: u32, f: impl FnOnce(&mut Damage)) {
    let mut d = Damage { at: choose(max), n: 0, hit: false };
    f(&mut d);
    sym::check(d.n <= max, "harness: more places than expected");
    sym::assume(d.hit);
}
/// P23: queries.
pub fn p23() {
    let mut m: proto::Query = query().into();
    damaged(24, |d| d.query(&mut m));
    let r: std::result::Result<Query, proto::ConversionError> = m.try_into();
    sym::check(r.is_err(), MSG);
    sym::reach("end");
}
/// P23: everything else.
pub fn p23o() {
    match choose(8) {
        0 => {
            let mut m: proto::QueryOutputValue = output().into();
            damaged(32, |d| d.output(&mut m));
            let r: std::result::Result<QueryOutputValue, _> = m.try_into();
            sym::check(r.is_err(), MSG);
        }
        1 => {
            let mut m: proto::BulkInsertItem = item().into();
            damaged(24, |d| d.item(&mut m));
            let r: std::result::Result<BulkInsertItem, _> = m.try_into();
            sym::check(r.is_err(), MSG);
        }
        2 => {
            let mut m: proto::SetPropertiesRequest = (leaf("l"), id_("n"), jv()).into();
            damaged(24, |d| {
                if let Some(q) = &mut m.q {
                    d.query(q);
                }
                if d.here() {
                    m.q = None;
                }
                d.ident(&mut m.name, true);
                d.json(&mut m.value);
            });
            let r: std::result::Result<(Query, Identifier, Json), _> = m.try_into();
            sym::check(r.is_err(), MSG);
        }
        3 => {
            let mut m: proto::Vertex = vertex("v").into();
            damaged(8, |d| d.vertex(&mut m));
            let r: std::result::Result<Vertex, _> = m.try_into();
            sym::check(r.is_err(), MSG);
        }
        4 => {
            let mut m: proto::Edge = edge("e").into();
            damaged(8, |d| d.edge(&mut m));
            let r: std::result::Result<Edge, _> = m.try_into();
            sym::check(r.is_err(), MSG);
        }
        5 => {
            let mut m: proto::VertexProperty = VertexProperty::new(uuid("u"), jv()).into();
            damaged(8, |d| {
                d.uuid(&mut m.id, true);
                d.json(&mut m.value);
            });
            let r: std::result::Result<VertexProperty, _> = m.try_into();
            sym::check(r.is_err(), MSG);
        }
        6 => {
            let mut m: proto::EdgeProperty = EdgeProperty::new(edge("e"), jv()).into();
            damaged(12, |d| {
                d.oedge(&mut m.edge);
                d.json(&mut m.value);
            });
            let r: std::result::Result<EdgeProperty, _> = m.try_into();
            sym::check(r.is_err(), MSG);
        }
        _ => {
            let mut m = proto::IndexPropertyRequest { name: Some(id_("n").into()) };
            damaged(4, |d| d.ident(&mut m.name, true));
            let r: std::result::Result<Identifier, _> = m.try_into();
            sym::check(r.is_err(), MSG);
        }
    }
    sym::reach("end");
}
/// P23: the leaf messages over symbolic content: accepted exactly if valid,
/// and then with that content.
pub fn p23t() {
    match choose(3) {
        0 => {
            let n = choose(34) as usize;
            let mut b = vec![0u8; n];
            sym::bytes(&mut b, "u");
            let r: std::result::Result<uuid::Uuid, _> = proto::Uuid { value: b.clone() }.try_into();
            match r {
                Ok(u) => {
                    sym::check(n == 16, "a UUID that is not 16 bytes long is accepted");
                    sym::check(u.as_bytes()[..] == b[..], "a UUID is accepted as another one");
                }
                Err(_) => sym::check(n != 16, "a well-formed UUID is rejected"),
            }
        }
        1 => {
            let n = choose(if deep() { 4 } else { 3 }) as usize;
            let mut b = vec![0u8; n];
            sym::bytes(&mut b, "i");
            let mut valid = true;
            for c in &b {
                let c = *c;
                sym::assume(c < 128);
                let low = c | 0x20;
                valid &= (c == b'-') | (c == b'_') | ((c >= b'0') & (c <= b'9')) | ((low >= b'a') & (low <= b'z'));
            }
            let r: std::result::Result<Identifier, _> = proto::Identifier { value: unsafe { String::from_utf8_unchecked(b.clone()) } }.try_into();
            match r {
                Ok(i) => {
                    sym::check(valid, "an invalid identifier is accepted");
                    sym::check(i.as_bytes() == &b[..], "an identifier is accepted as another one");
                }
                Err(_) => sym::check(!valid, "a valid identifier is rejected"),
            }
        }
        _ => {
            // every ASCII text of up to two bytes
            let n = choose(3) as usize;
            let mut b = vec![0u8; n];
            sym::bytes(&mut b, "j");
            for c in &b {
                sym::assume(*c < 128);
            }
            let ws = |c: u8| (c == b' ') | (c == b'\n') | (c == b'\t') | (c == b'\r');
            let dig = |c: u8| (c >= b'0') & (c <= b'9');
            let valid = match n {
                0 => false,
                1 => dig(b[0]),
                _ => {
                    let (x, y) = (b[0], b[1]);
                    (ws(x) & dig(y))
                        | (dig(x) & ws(y))
                        | (dig(x) & (x != b'0') & dig(y))
                        | ((x == b'-') & dig(y))
                        | ((x == b'"') & (y == b'"'))
                        | ((x == b'[') & (y == b']'))
                        | ((x == b'{') & (y == b'}'))
                }
            };
            let r: std::result::Result<Json, _> = proto::Json { value: unsafe { String::from_utf8_unchecked(b) } }.try_into();
            sym::check(r.is_ok() == valid, "the wrong JSON texts are accepted");
        }
    }
    sym::reach("end");
}
