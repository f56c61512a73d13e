//! P01-P13, P27: the graph operations on both datastores.
use crate::eval::*;
use crate::world::*;
use indradb::*;
use sym::{choose, pick};
use uuid::Uuid;

fn t2() -> [Identifier; 2] {
    [nm("t"), nm("tt")]
}

/// P01: creation, deletion and re-creation of vertices.
pub fn p01<D: Datastore>(mut w: World<D>) {
    let t = t2();
    let (a, b) = (uuid("a"), uuid("b"));
    w.create_vertex(a, t[0]);
    let deco = choose(2) == 1;
    let p = nm("p");
    let e = Edge::new(a, t[0], a);
    if deco {
        w.index(p);
        w.set_vp(a, p, &val(0));
        w.create_edge(&e);
        w.set_ep(&e, p, &val(1));
    }
    w.create_vertex(b, pick(&t));
    if deco {
        w.create_edge(&Edge::new(b, t[1], a));
    }
    w.observe();
    let c = uuid("c");
    match choose(3) {
        0 => {
            w.create_vertex(c, pick(&t));
        }
        1 => w.delete_vertex(c),
        _ => {
            sym::check(w.db.delete(AllVertexQuery).is_ok(), "delete of all vertices failed");
            w.m = Model { idx: w.m.idx.clone(), ..Model::default() };
        }
    }
    let d = pick(&[a, b, c]);
    w.create_vertex(d, t[1]);
    w.observe();
    w.obs_vertex(a);
    w.obs_vertex(c);
    w.obs_vertex(uuid("q"));
    sym::reach("end");
}

fn name_p() -> Identifier {
    nm("p")
}
pub fn sv(ids: &[Uuid]) -> Query {
    SpecificVertexQuery::new(ids.to_vec()).into()
}
pub fn se(es: &[Edge]) -> Query {
    SpecificEdgeQuery::new(es.to_vec()).into()
}
pub fn props(q: Query, name: Option<Identifier>) -> Query {
    let p = match PipePropertyQuery::new(Box::new(q)) {
        Ok(p) => p,
        Err(_) => sym::fail("a property read on vertices or edges is rejected"),
    };
    match name {
        Some(n) => p.name(n).into(),
        None => p.into(),
    }
}
pub fn pipe(q: Query, d: EdgeDirection, t: Option<Identifier>, limit: Option<u32>) -> Query {
    let mut p = match PipeQuery::new(Box::new(q), d) {
        Ok(p) => p,
        Err(_) => sym::fail("a traversal from vertices or edges is rejected"),
    };
    if let Some(t) = t {
        p = p.t(t);
    }
    if let Some(l) = limit {
        p = p.limit(l);
    }
    p.into()
}
pub fn count_of(q: Query) -> Query {
    match CountQuery::new(Box::new(q)) {
        Ok(q) => q.into(),
        Err(_) => sym::fail("a count is rejected"),
    }
}
pub fn deep() -> bool {
    sym::tier() > 0
}

/// P02: creation of edges.
pub fn p02<D: Datastore>(mut w: World<D>) {
    let t = t2();
    let (a, b, c) = (uuid("a"), uuid("b"), uuid("c"));
    w.create_vertex(a, t[0]);
    w.create_vertex(b, t[1]);
    let p = name_p();
    w.index(p);
    let ids = [a, b, c];
    let mut made: Vec<Edge> = vec![];
    let n = if deep() { 3 } else { 2 };
    for i in 0..n {
        let e = if i > 0 && choose(3) == 0 {
            // the last one again, or turned around
            let l = made[i - 1].clone();
            if choose(2) == 0 {
                l
            } else {
                l.reversed()
            }
        } else {
            Edge::new(pick(&ids), pick(&t), pick(&ids))
        };
        let ok = w.create_edge(&e);
        w.obs_edge(&e);
        if ok {
            w.set_ep(&e, p, &val(i as u32));
        } else {
            // an edge that was refused has no properties either
            w.set_ep(&e, p, &val(7));
        }
        made.push(e);
    }
    let f = made[choose(n as u32) as usize].clone();
    w.create_edge(&f);
    w.observe();
    w.obs_edge(&f);
    w.obs_edge(&f.reversed());
    w.obs_edge(&Edge::new(a, t[1], c));
    sym::reach("end");
}

/// A small graph with everything a deletion has to clean up.
fn furnish<D: Datastore>(w: &mut World<D>, ids: &[Uuid], es: &[Edge]) {
    let (p, q) = (name_p(), nm("q"));
    w.index(p);
    for (i, id) in ids.iter().enumerate() {
        w.set_vp(*id, p, &val(i as u32));
        w.set_vp(*id, q, &val(3));
    }
    for (i, e) in es.iter().enumerate() {
        w.set_ep(e, p, &val(i as u32));
        w.set_ep(e, q, &val(4));
    }
}

/// P03: deletion of vertices.
pub fn p03<D: Datastore>(mut w: World<D>) {
    let t = t2();
    let (a, b, c) = (uuid("a"), uuid("b"), uuid("c"));
    for id in [a, b, c] {
        w.create_vertex(id, t[0]);
    }
    let ids = [a, b, c];
    let e1 = Edge::new(pick(&ids), t[0], pick(&ids));
    let e2 = Edge::new(pick(&ids[..2]), t[1], pick(&ids));
    let es = [e1.clone(), e2.clone()];
    for e in &es {
        w.create_edge(e);
    }
    furnish(&mut w, &ids, &es);
    let p = name_p();
    match choose(if deep() { 8 } else { 6 }) {
        0 => w.delete(sv(&[a])),
        1 => w.delete(sv(&[b, a])),
        2 => w.delete(AllVertexQuery.into()),
        3 => w.delete(RangeVertexQuery::new().limit(1).into()),
        4 => w.delete(pipe(se(&[e1.clone()]), EdgeDirection::Inbound, None, None)),
        5 => w.delete(VertexWithPropertyValueQuery::new(p, val(1)).into()),
        6 => w.delete(RangeVertexQuery::new().start_id(b).into()),
        _ => w.delete(VertexWithPropertyPresenceQuery::new(p).into()),
    }
    w.observe();
    // nothing comes back with the same ids
    for id in ids {
        w.create_vertex(id, t[1]);
    }
    for e in &es {
        w.create_edge(e);
    }
    w.observe();
    sym::reach("end");
}

/// P04: deletion of edges and properties.
pub fn p04<D: Datastore>(mut w: World<D>) {
    let t = t2();
    let (a, b) = (uuid("a"), uuid("b"));
    w.create_vertex(a, t[0]);
    w.create_vertex(b, t[0]);
    let ids = [a, b];
    let e1 = Edge::new(a, t[0], b);
    let e2 = Edge::new(pick(&ids), pick(&t), pick(&ids));
    let es = [e1.clone(), e2.clone()];
    for e in &es {
        w.create_edge(e);
    }
    furnish(&mut w, &ids, &es);
    let (p, q) = (name_p(), nm("q"));
    let d = match choose(13) {
        0 => se(&[Edge::new(pick(&ids), pick(&t), pick(&ids))]),
        1 => pipe(sv(&[a]), EdgeDirection::Outbound, Some(t[0]), None),
        2 => AllEdgeQuery.into(),
        3 => EdgeWithPropertyValueQuery::new(p, val(0)).into(),
        4 => se(&[e1.clone(), e1.clone(), e2.clone()]),
        5 => props(se(&[e1.clone()]), Some(p)),
        6 => props(AllEdgeQuery.into(), None),
        7 => props(sv(&[a]), None),
        8 => props(AllVertexQuery.into(), Some(q)),
        9 => pipe(sv(&[b]), EdgeDirection::Inbound, None, None),
        10 => props(sv(&[b, b]), Some(p)),
        11 => EdgeWithPropertyPresenceQuery::new(p).into(),
        _ => props(se(&[e2.clone(), e1.clone()]), Some(q)),
    };
    w.delete(d.clone());
    w.observe();
    w.delete(d);
    if deep() {
        w.observe();
    }
    for e in &es {
        w.create_edge(e);
    }
    w.observe();
    sym::reach("end");
}

/// P05: outbound and inbound views after any history.
pub fn p05<D: Datastore>(mut w: World<D>) {
    let t = t2();
    let (a, b) = (uuid("a"), uuid("b"));
    w.create_vertex(a, t[0]);
    w.create_vertex(b, t[0]);
    let es = [
        Edge::new(a, t[0], b),
        Edge::new(b, t[0], a),
        Edge::new(a, t[0], a),
        Edge::new(a, t[1], b),
    ];
    w.create_edge(&es[0]);
    for _ in 0..if deep() { 4 } else { 3 } {
        match choose(6) {
            0 => {
                w.create_edge(&pick(&es));
            }
            1 => w.delete(se(&[pick(&es)])),
            2 => w.delete(sv(&[pick(&[a, b])])),
            3 => {
                w.create_vertex(pick(&[a, b]), t[1]);
            }
            4 => {
                let e = pick(&es);
                if w.m.has_v(e.outbound_id) && w.m.has_v(e.inbound_id) {
                    w.bulk(vec![BulkInsertItem::Edge(e.clone()), BulkInsertItem::Edge(e)]);
                }
            }
            _ => w.delete(pipe(sv(&[a]), EdgeDirection::Inbound, None, None)),
        }
    }
    w.obs_edges();
    w.obs_adjacent();
    for e in &es {
        w.obs_edge(e);
    }
    w.obs_vertices();
    sym::reach("end");
}

/// P06: reading back the last value written.
pub fn p06<D: Datastore>(mut w: World<D>) {
    let t = t2();
    let (a, b) = (uuid("a"), uuid("b"));
    w.create_vertex(a, t[0]);
    w.create_vertex(b, t[1]);
    let es = [Edge::new(a, t[0], b), Edge::new(b, t[0], a), Edge::new(a, t[1], b)];
    for e in &es {
        w.create_edge(e);
    }
    let names = [nm("p"), nm("pp"), nm("")];
    if choose(2) == 1 {
        w.index(names[0]);
    }
    // everything written once, with pairwise different values
    for (i, n) in names.iter().enumerate() {
        if i == 1 {
            continue;
        }
        w.set_vp(a, *n, &json(serde_json::Value::from(10 + i as u64)));
        w.set_vp(b, *n, &json(serde_json::Value::from(20 + i as u64)));
        for (j, e) in es.iter().enumerate() {
            w.set_ep(e, *n, &json(serde_json::Value::from((30 + 10 * j + i) as u64)));
        }
    }
    for k in 0..if deep() { 3 } else { 2 } {
        let v = json(serde_json::Value::from(100 + k as u64));
        let n = pick(&names);
        match choose(8) {
            0 => w.set_vp(pick(&[a, b]), n, &v),
            1 => w.set_ep(&pick(&es), n, &v),
            2 => w.del_vp(pick(&[a, b]), n),
            3 => w.del_ep(&pick(&es), n),
            4 => w.set(AllVertexQuery.into(), n, &v),
            5 => w.set(pipe(sv(&[a]), EdgeDirection::Outbound, None, None), n, &v),
            6 => {
                // the owner goes and comes back
                let e = pick(&es);
                w.delete(se(&[e.clone()]));
                w.create_edge(&e);
            }
            _ => {
                let u = json(serde_json::Value::from(200 + k as u64));
                let e = pick(&es);
                w.bulk(vec![
                    BulkInsertItem::VertexProperty(a, n, u),
                    BulkInsertItem::EdgeProperty(e, n, v.clone()),
                    BulkInsertItem::VertexProperty(a, n, v),
                ]);
            }
        }
    }
    w.obs_vprops();
    w.obs_eprops();
    sym::reach("end");
}
/// P06: every kind of value reads back as written.
pub fn p06k<D: Datastore>(mut w: World<D>) {
    let t = t2();
    let a = uuid("a");
    w.create_vertex(a, t[0]);
    let e = Edge::new(a, t[0], a);
    w.create_edge(&e);
    let (p, q) = (nm("p"), nm("q"));
    if choose(2) == 1 {
        w.index(p);
    }
    let n = kinds().len() as u32;
    let (v, u) = (choose(n) as usize, choose(n) as usize);
    w.set_vp(a, p, &kinds()[v]);
    w.set_vp(a, q, &kinds()[u]);
    w.set_ep(&e, p, &kinds()[v]);
    w.set_ep(&e, p, &kinds()[u]);
    w.obs_vprops();
    w.obs_eprops();
    sym::reach("end");
}
pub fn kinds() -> Vec<Json> {
    use serde_json::{json as j, Value};
    vec![
        json(Value::Null),
        json(j!(true)),
        json(j!(false)),
        json(Value::from(0u64)),
        json(Value::from(u64::MAX)),
        json(Value::from(i64::MIN)),
        json(j!("")),
        json(j!("a\u{e9}\"\\\n\u{0}")),
        json(j!([])),
        json(j!({})),
        json(j!([[], []])),
        json(j!([[[]]])),
        json(j!([[], {"a": [null, false, "x"]}, 3])),
        json(j!({"b": 1, "a": {"b": -2}})),
    ]
}

/// P07: index queries.
pub fn p07<D: Datastore>(mut w: World<D>) {
    let t = t2();
    let (a, b) = (uuid("a"), uuid("b"));
    w.create_vertex(a, t[0]);
    w.create_vertex(b, t[1]);
    let e = Edge::new(a, t[0], b);
    w.create_edge(&e);
    let (p, q) = (nm("p"), nm("pp"));
    let when = choose(3);
    if when == 0 {
        w.index(p);
    }
    w.set_vp(a, p, &val(0));
    w.set_ep(&e, p, &val(0));
    w.set_vp(b, q, &val(0));
    if when == 1 {
        w.index(p);
    }
    if choose(2) == 1 {
        w.index(q);
    }
    for _ in 0..if deep() { 3 } else { 2 } {
        match choose(10) {
            0 => w.set_vp(pick(&[a, b]), p, &val(choose(2))),
            1 => w.set_ep(&e, p, &val(choose(2))),
            2 => w.delete(props(sv(&[pick(&[a, b])]), Some(p))),
            3 => w.delete(props(se(&[e.clone()]), None)),
            4 => w.delete(sv(&[a])),
            5 => {
                w.create_vertex(a, t[0]);
                w.create_edge(&e);
            }
            6 => w.index(p),
            7 => {
                if w.m.has_v(a) {
                    let (x, y) = (val(1), val(choose(2)));
                    w.bulk(vec![
                        BulkInsertItem::VertexProperty(a, p, x),
                        BulkInsertItem::VertexProperty(b, p, y.clone()),
                        BulkInsertItem::VertexProperty(a, p, y),
                    ]);
                }
            }
            8 => {
                if w.m.has_e(&e) {
                    let (x, y) = (val(2), val(choose(2)));
                    w.bulk(vec![BulkInsertItem::EdgeProperty(e.clone(), p, x), BulkInsertItem::EdgeProperty(e.clone(), p, y)]);
                }
            }
            _ => w.set(AllVertexQuery.into(), pick(&[p, q]), &val(1)),
        }
    }
    if when == 2 {
        w.index(p);
    }
    w.obs_index();
    w.obs_vprops();
    w.obs_eprops();
    sym::reach("end");
}
/// P07: values of every kind, each found by exactly its own value.
pub fn p07k<D: Datastore>(mut w: World<D>) {
    let t = t2();
    let (a, b) = (uuid("a"), uuid("b"));
    w.create_vertex(a, t[0]);
    w.create_vertex(b, t[0]);
    let e = Edge::new(a, t[0], b);
    w.create_edge(&e);
    let p = name_p();
    let first = choose(2) == 0;
    if first {
        w.index(p);
    }
    let ks = kinds();
    let (i, j) = (choose(ks.len() as u32) as usize, choose(ks.len() as u32) as usize);
    w.set_vp(a, p, &ks[i]);
    w.set_vp(b, p, &ks[j]);
    w.set_ep(&e, p, &ks[j]);
    if !first {
        w.index(p);
    }
    w.vals = if deep() { kinds() } else { vec![ks[i].clone(), ks[j].clone()] };
    w.obs_index();
    w.set_vp(a, p, &ks[j]);
    w.obs_index();
    sym::reach("end");
}

/// P08: range and specific vertex queries.
pub fn p08<D: Datastore>(mut w: World<D>) {
    let t = t2();
    let n = if deep() { 4 } else { 3 };
    let mut ids = vec![];
    for i in 0..n {
        let id = uuid(["a", "b", "c", "d"][i]);
        w.create_vertex(id, pick(&t));
        ids.push(id);
    }
    match choose(3) {
        0 => {
            let mut q = RangeVertexQuery::new();
            let start = choose(2) == 1;
            if start {
                q = q.start_id(uuid("start"));
            }
            let tt = choose(3);
            if tt > 0 {
                q = q.t(t[tt as usize - 1]);
            }
            if choose(2) == 1 {
                q = q.limit(sym::u32_("limit"));
            }
            let got = vertices(w.db.get(q.clone()), "range query: no result");
            let mut o = vec![];
            if eval(&w.m, &q.into(), &mut o).is_err() {
                sym::fail("oracle");
            }
            if let Some(Out::V(want)) = o.pop() {
                sym::check(got.len() == want.len(), "a range query returns the wrong number of vertices");
                for (g, x) in got.iter().zip(&want) {
                    sym::check(g.id == x.0 && g.t == x.1, "a range query returns the wrong vertex");
                }
            }
        }
        1 => {
            let mut l = ids.clone();
            l.insert(choose(2) as usize, uuid("free"));
            if choose(2) == 1 {
                l.push(ids[0]);
            }
            // every id that exists, in the order asked for; a repeated id may be reported once or twice
            let got = vertices(w.db.get(SpecificVertexQuery::new(l.clone())), "specific vertices: no result");
            for g in &got {
                sym::check(l.contains(&g.id) && w.m.vtype(g.id) == Some(g.t), "a vertex is returned that was not asked for");
            }
            for id in &l {
                if w.m.has_v(*id) {
                    sym::check(got.iter().any(|g| g.id == *id), "an existing vertex is not returned");
                }
            }
        }
        _ => {
            w.delete(sv(&[pick(&ids)]));
            w.obs_vertices();
            w.query(RangeVertexQuery::new().start_id(ids[0]).into(), "a range query after a deletion");
        }
    }
    w.obs_vertices();
    sym::reach("end");
}

/// P09: traversals, stage by stage.
pub fn p09<D: Datastore>(mut w: World<D>) {
    let t = [nm("t"), nm("tt"), nm("")];
    let (a, b, c) = (uuid("a"), uuid("b"), uuid("c"));
    w.create_vertex(a, t[0]);
    w.create_vertex(b, t[1]);
    w.create_vertex(c, t[0]);
    let shape = choose(if deep() { 5 } else { 3 });
    let es: Vec<Edge> = match shape {
        0 => vec![Edge::new(a, t[0], b), Edge::new(a, t[1], b), Edge::new(b, t[0], c), Edge::new(c, t[2], a)],
        1 => vec![Edge::new(a, t[1], a), Edge::new(a, t[0], c), Edge::new(b, t[0], a)],
        2 => vec![Edge::new(a, t[2], b), Edge::new(a, t[0], c), Edge::new(a, t[0], b), Edge::new(b, t[1], b)],
        3 => vec![Edge::new(c, t[0], a), Edge::new(b, t[0], a), Edge::new(a, t[0], a)],
        _ => vec![],
    };
    for e in &es {
        w.create_edge(e);
    }
    let d = if choose(2) == 0 { EdgeDirection::Outbound } else { EdgeDirection::Inbound };
    let tt = choose(4);
    let tsel = if tt > 0 { Some(t[tt as usize - 1]) } else { None };
    let src: Query = match choose(6) {
        0 => sv(&[a]),
        1 => sv(&[b, a]),
        2 => AllVertexQuery.into(),
        3 => AllEdgeQuery.into(),
        4 => se(&es),
        _ => sv(&[]),
    };
    // without a limit, everything
    let q = pipe(src.clone(), d, tsel, None);
    w.query(q.clone(), "a traversal returns the wrong elements");
    // with a limit, the first ones: relative to what the source query yields
    let l = sym::u32_("limit");
    let lq = pipe(src.clone(), d, tsel, Some(l));
    let full = match w.db.get(q) {
        Ok(mut o) => o.pop().unwrap(),
        Err(_) => sym::fail("a valid traversal failed"),
    };
    let cut = match w.db.get(lq) {
        Ok(mut o) => o.pop().unwrap(),
        Err(_) => sym::fail("a valid traversal with a limit failed"),
    };
    match (full, cut) {
        (QueryOutputValue::Edges(f), QueryOutputValue::Edges(c)) => {
            let n = if (l as usize) < f.len() { l as usize } else { f.len() };
            sym::check(c.len() == n, "a limited traversal returns the wrong number of edges");
            // in source order: the groups of the full result, cut at n
            for i in 0..n {
                sym::check(edge_eq(&f[i], &c[i]), "a limited traversal does not return the first edges");
            }
            // the full result is grouped by source, in source order
            let srcs = vertices(w.db.get(src), "source");
            let mut pos = 0;
            for s in &srcs {
                let end = |e: &Edge| if d == EdgeDirection::Outbound { e.outbound_id } else { e.inbound_id };
                while pos < f.len() && end(&f[pos]) == s.id {
                    pos += 1;
                }
            }
            sym::check(pos == f.len(), "the edges of a traversal are not in source order");
        }
        (QueryOutputValue::Vertices(f), QueryOutputValue::Vertices(c)) => {
            let n = if (l as usize) < f.len() { l as usize } else { f.len() };
            sym::check(c.len() == n, "a limited traversal returns the wrong number of vertices");
            for i in 0..n {
                sym::check(f[i].id == c[i].id && f[i].t == c[i].t, "a limited traversal does not return the first vertices");
            }
        }
        _ => sym::fail("a traversal returns the wrong kind of output"),
    }
    sym::reach("end");
}
/// P09: two and three traversals in a row.
pub fn p09c<D: Datastore>(mut w: World<D>) {
    let t = t2();
    let (a, b) = (uuid("a"), uuid("b"));
    w.create_vertex(a, t[0]);
    w.create_vertex(b, t[1]);
    for e in [Edge::new(a, t[0], b), Edge::new(b, t[1], a), Edge::new(a, t[1], a)] {
        w.create_edge(&e);
    }
    let mut q: Query = match choose(3) {
        0 => sv(&[a]),
        1 => AllEdgeQuery.into(),
        _ => AllVertexQuery.into(),
    };
    for _ in 0..if deep() { 4 } else { 3 } {
        let d = if choose(2) == 0 { EdgeDirection::Outbound } else { EdgeDirection::Inbound };
        let tt = choose(3);
        q = pipe(q, d, if tt > 0 { Some(t[tt as usize - 1]) } else { None }, None);
    }
    w.query(q.clone(), "a chain of traversals returns the wrong elements");
    w.query(count_of(q), "the count of a chain of traversals is wrong");
    sym::reach("end");
}

/// P10: filters, include and count.
pub fn p10<D: Datastore>(mut w: World<D>) {
    let t = t2();
    let (a, b) = (uuid("a"), uuid("b"));
    w.create_vertex(a, t[0]);
    w.create_vertex(b, t[1]);
    let es = [Edge::new(a, t[0], b), Edge::new(b, t[0], a), Edge::new(a, t[1], a)];
    for e in &es {
        w.create_edge(e);
    }
    let (p, q) = (nm("p"), nm("q"));
    w.index(p);
    let k = choose(3);
    if k > 0 {
        w.set_vp(a, p, &val(k - 1));
        w.set_ep(&es[0], p, &val(k - 1));
    }
    w.set_vp(b, p, &val(1));
    w.set_vp(b, q, &val(1));
    w.set_ep(&es[2], p, &val(1));
    w.set_ep(&es[1], q, &val(0));
    let inc = choose(2) == 1;
    let wrap = |q: Query| if inc { Query::Include(IncludeQuery::new(Box::new(q))) } else { q };
    let src: Query = match choose(11) {
        0 => AllVertexQuery.into(),
        1 => AllEdgeQuery.into(),
        2 => sv(&[b, a]),
        3 => pipe(wrap(sv(&[a])), EdgeDirection::Outbound, None, None),
        4 => pipe(wrap(AllEdgeQuery.into()), EdgeDirection::Inbound, None, None),
        // without results
        8 => VertexWithPropertyValueQuery::new(p, val(2)).into(),
        9 => se(&[]),
        10 => pipe(wrap(sv(&[a])), EdgeDirection::Outbound, Some(nm("none")), None),
        5 => VertexWithPropertyPresenceQuery::new(p).into(),
        6 => EdgeWithPropertyValueQuery::new(p, val(1)).into(),
        _ => pipe(pipe(wrap(sv(&[b])), EdgeDirection::Outbound, None, None), EdgeDirection::Inbound, None, None),
    };
    let own = |r: Result<Vec<QueryOutputValue>>| match r {
        Ok(mut o) => o.pop().unwrap(),
        Err(_) => sym::fail("a valid query failed"),
    };
    match choose(5) {
        m @ (0 | 1) => {
            let f = |yes: bool| -> Query {
                if m == 0 {
                    match PipeWithPropertyPresenceQuery::new(Box::new(wrap(src.clone())), p, yes) {
                        Ok(q) => q.into(),
                        Err(_) => sym::fail("a filter is rejected"),
                    }
                } else {
                    match PipeWithPropertyValueQuery::new(Box::new(wrap(src.clone())), p, val(1), yes) {
                        Ok(q) => q.into(),
                        Err(_) => sym::fail("a filter is rejected"),
                    }
                }
            };
            for yes in [true, false] {
                w.query(f(yes), "a filter returns the wrong elements");
                w.query(count_of(f(yes)), "the count of a filter is wrong");
            }
            // the two together are the input, in order
            let (y, n, all) = (own(w.db.get(f(true))), own(w.db.get(f(false))), own(w.db.get(src.clone())));
            match (y, n, all) {
                (QueryOutputValue::Vertices(y), QueryOutputValue::Vertices(n), QueryOutputValue::Vertices(all)) => {
                    let (mut i, mut j) = (0, 0);
                    for v in &all {
                        if i < y.len() && y[i].id == v.id && y[i].t == v.t {
                            i += 1;
                        } else if j < n.len() && n[j].id == v.id && n[j].t == v.t {
                            j += 1;
                        } else {
                            sym::fail("a filter and its negation do not split the input in order");
                        }
                    }
                    sym::check(i == y.len() && j == n.len(), "a filter and its negation do not split the input");
                }
                (QueryOutputValue::Edges(y), QueryOutputValue::Edges(n), QueryOutputValue::Edges(all)) => {
                    let (mut i, mut j) = (0, 0);
                    for v in &all {
                        if i < y.len() && edge_eq(&y[i], v) {
                            i += 1;
                        } else if j < n.len() && edge_eq(&n[j], v) {
                            j += 1;
                        } else {
                            sym::fail("a filter and its negation do not split the input in order");
                        }
                    }
                    sym::check(i == y.len() && j == n.len(), "a filter and its negation do not split the input");
                }
                _ => sym::fail("a filter changes the kind of its input"),
            }
        }
        2 => {
            w.query(count_of(wrap(src.clone())), "the count of a query is wrong");
            w.query(count_of(props(wrap(src.clone()), None)), "the count of properties is wrong");
            w.query(count_of(wrap(props(wrap(src.clone()), None))), "the count of properties is wrong");
            let d = if choose(2) == 0 { EdgeDirection::Outbound } else { EdgeDirection::Inbound };
            w.query(wrap(count_of(wrap(pipe(wrap(src.clone()), d, None, None)))), "the count of a traversal is wrong");
        }
        3 => {
            w.query(props(wrap(src.clone()), pick(&[Some(p), Some(q), None])), "the properties of a query are wrong");
        }
        _ => {
            let d = if choose(2) == 0 { EdgeDirection::Outbound } else { EdgeDirection::Inbound };
            let t = pick(&[None, Some(t[0])]);
            w.query(pipe(wrap(src.clone()), d, t, None), "a traversal with an included source is wrong");
            let one = pipe(wrap(src.clone()), d, t, None);
            let two = match PipeWithPropertyPresenceQuery::new(Box::new(wrap(one)), p, true) {
                Ok(q) => q.into(),
                Err(_) => sym::fail("a filter is rejected"),
            };
            w.query(two, "a filter on an included traversal is wrong");
        }
    }
    sym::reach("end");
}

/// P11: rejected operations.
pub fn p11<D: Datastore>(mut w: World<D>) {
    let t = t2();
    let (a, b) = (uuid("a"), uuid("b"));
    if !deep() {
        sym::assume(a <= b);
    }
    w.create_vertex(a, t[0]);
    w.create_vertex(b, t[0]);
    let e = Edge::new(a, t[0], b);
    w.create_edge(&e);
    let (p, n) = (nm("p"), nm("n"));
    w.index(p);
    w.set_vp(a, p, &val(0));
    w.set_vp(a, n, &val(0));
    w.set_ep(&e, n, &val(1));
    w.set_ep(&e, p, &val(0));
    let vsrc: Query = match if deep() { choose(3) } else { 1 } {
        0 => AllVertexQuery.into(),
        1 => sv(&[a]),
        _ => pipe(se(&[e.clone()]), EdgeDirection::Inbound, None, None),
    };
    let esrc: Query = match if deep() { choose(2) } else { 1 } {
        0 => AllEdgeQuery.into(),
        _ => pipe(sv(&[a]), EdgeDirection::Outbound, None, None),
    };
    let src = match choose(4) {
        0 => vsrc,
        1 => esrc,
        // without results
        2 => sv(&[]),
        _ => pipe(sv(&[a]), EdgeDirection::Outbound, Some(n), None),
    };
    let pq = props(src.clone(), if deep() { pick(&[None, Some(p)]) } else { None });
    let flag = choose(2) == 1;
    let not_indexed: Vec<Query> = vec![
        VertexWithPropertyPresenceQuery::new(n).into(),
        VertexWithPropertyValueQuery::new(n, val(0)).into(),
        EdgeWithPropertyPresenceQuery::new(n).into(),
        EdgeWithPropertyValueQuery::new(n, val(1)).into(),
        Query::PipeWithPropertyPresence(PipeWithPropertyPresenceQuery { inner: Box::new(src.clone()), name: n, exists: flag }),
        Query::PipeWithPropertyValue(PipeWithPropertyValueQuery {
            inner: Box::new(src.clone()),
            name: n,
            value: val(0),
            equal: flag,
        }),
    ];
    // built by hand, as a wire message can be
    let unsuitable: Vec<Query> = {
        let mut v = vec![];
        for inner in [pq.clone(), count_of(src.clone())] {
            let b = || Box::new(inner.clone());
            v.push(Query::Pipe(PipeQuery { inner: b(), direction: EdgeDirection::Outbound, limit: 5, t: None }));
            v.push(Query::PipeProperty(PipePropertyQuery { inner: b(), name: None }));
            v.push(Query::PipeWithPropertyPresence(PipeWithPropertyPresenceQuery { inner: b(), name: p, exists: true }));
            v.push(Query::PipeWithPropertyValue(PipeWithPropertyValueQuery { inner: b(), name: p, value: val(0), equal: true }));
        }
        v.push(Query::Count(CountQuery { inner: Box::new(count_of(src.clone())) }));
        v
    };
    match choose(3) {
        0 => {
            let q = pick(&not_indexed);
            let q = if choose(2) == 0 { q } else { Query::Include(IncludeQuery::new(Box::new(q))) };
            match choose(4) {
                0 => sym::check(matches!(w.db.get(q), Err(Error::NotIndexed)), "a query by a name that is not indexed is not refused"),
                1 => sym::check(matches!(w.db.delete(q), Err(Error::NotIndexed)), "a delete by a name that is not indexed is not refused"),
                2 => sym::check(
                    matches!(w.db.set_properties(q, p, &val(5)), Err(Error::NotIndexed)),
                    "a set by a name that is not indexed is not refused",
                ),
                _ => sym::check(
                    matches!(w.db.get(count_of(q)), Err(Error::NotIndexed)),
                    "a count by a name that is not indexed is not refused",
                ),
            }
        }
        1 => {
            let q = pick(&unsuitable);
            match choose(3) {
                0 => sym::check(matches!(w.db.get(q), Err(Error::OperationOnQuery)), "an unsuitable query is not refused"),
                1 => sym::check(matches!(w.db.delete(q), Err(Error::OperationOnQuery)), "an unsuitable delete is not refused"),
                _ => sym::check(
                    matches!(w.db.set_properties(q, p, &val(5)), Err(Error::OperationOnQuery)),
                    "an unsuitable set is not refused",
                ),
            }
        }
        _ => match choose(2) {
            0 => {
                // deleting or setting on the output of a count; setting on properties
                let c = count_of(src.clone());
                sym::check(matches!(w.db.delete(c.clone()), Err(Error::OperationOnQuery)), "deleting a count is not refused");
                sym::check(
                    matches!(w.db.set_properties(c, p, &val(5)), Err(Error::OperationOnQuery)),
                    "setting properties of a count is not refused",
                );
                sym::check(
                    matches!(w.db.set_properties(pq.clone(), p, &val(5)), Err(Error::OperationOnQuery)),
                    "setting properties of properties is not refused",
                );
            }
            _ => {
                // constructors
                for bad in [pq.clone(), count_of(src.clone()), Query::Include(IncludeQuery::new(Box::new(pq.clone())))] {
                    let b = || Box::new(bad.clone());
                    sym::check(PipeQuery::new(b(), EdgeDirection::Inbound).is_err(), "a traversal from unsuitable output is built");
                    sym::check(PipePropertyQuery::new(b()).is_err(), "a property read from unsuitable output is built");
                    sym::check(PipeWithPropertyPresenceQuery::new(b(), p, true).is_err(), "a filter of unsuitable output is built");
                    sym::check(
                        PipeWithPropertyValueQuery::new(b(), p, val(0), true).is_err(),
                        "a filter of unsuitable output is built",
                    );
                }
                sym::check(CountQuery::new(Box::new(count_of(src.clone()))).is_err(), "a count of a count is built");
            }
        },
    }
    w.observe();
    // still usable
    w.set_vp(b, p, &val(2));
    w.observe();
    sym::reach("end");
}

/// P12: the same history on both datastores.
pub fn p12() {
    let (mut x, mut y) = (mem(), rdb());
    let t = t2();
    let (a, b) = (uuid("a"), uuid("b"));
    if !deep() {
        sym::assume(a < b);
    }
    let (p, q) = (nm("p"), nm("q"));
    let es = [Edge::new(a, t[0], b), Edge::new(b, t[1], a), Edge::new(b, t[0], b)];
    if choose(2) == 1 {
        // start from a populated database
        for (i, id) in [a, b].into_iter().enumerate() {
            x.create_vertex(id, t[i]);
            y.create_vertex(id, t[i]);
        }
        x.index(p);
        y.index(p);
        for e in &es[..2] {
            x.create_edge(e);
            y.create_edge(e);
            x.set_ep(e, p, &val(0));
            y.set_ep(e, p, &val(0));
        }
    }
    for k in 0..if deep() { 4 } else { 3 } {
        macro_rules! twice {
            (|$w:ident| $e:expr) => {{
                let r1 = { let $w = &mut x; $e };
                let r2 = { let $w = &mut y; $e };
                sym::check(r1 == r2, "the two datastores answer differently");
            }};
        }
        match choose(9) {
            0 => {
                let id = if deep() || k == 0 { pick(&[a, b]) } else { a };
                twice!(|w| w.create_vertex(id, t[k as usize % 2]))
            }
            1 => {
                let e = pick(&es);
                twice!(|w| w.create_edge(&e))
            }
            2 => {
                let id = pick(&[a, b]);
                twice!(|w| w.set_vp(id, p, &val(k)))
            }
            3 => {
                let e = pick(&es);
                twice!(|w| w.set(se(&[e.clone()]), p, &val(k)))
            }
            4 => {
                let id = pick(&[a, b]);
                twice!(|w| w.delete(sv(&[id])))
            }
            5 => {
                let d = match choose(4) {
                    0 => AllEdgeQuery.into(),
                    1 => VertexWithPropertyValueQuery::new(p, val(k)).into(),
                    2 => props(AllEdgeQuery.into(), Some(p)),
                    _ => EdgeWithPropertyPresenceQuery::new(q).into(),
                };
                twice!(|w| w.delete(d.clone()))
            }
            6 => twice!(|w| w.index(p)),
            7 => {
                // a failed operation, then go on
                let f: Query = pick(&[VertexWithPropertyPresenceQuery::new(q).into(), count_of(AllEdgeQuery.into())]);
                twice!(|w| w.delete(f.clone()))
            }
            _ => {
                let m = &x.m;
                if m.has_v(a) && m.has_v(b) {
                    twice!(|w| w.bulk(vec![
                        BulkInsertItem::Edge(es[2].clone()),
                        BulkInsertItem::EdgeProperty(es[2].clone(), p, val(1)),
                        BulkInsertItem::VertexProperty(a, p, val(k)),
                        BulkInsertItem::VertexProperty(a, p, val(1)),
                    ]))
                }
            }
        }
    }
    x.observe();
    y.observe();
    for d in [EdgeDirection::Outbound, EdgeDirection::Inbound] {
        let q = || pipe(AllVertexQuery.into(), d, None, Some(2));
        let (r, s) = (edges(x.db.get(q()), "limited"), edges(y.db.get(q()), "limited"));
        sym::check(r.len() == s.len(), "the two datastores return different numbers of edges");
    }
    sym::reach("end");
}

/// P12: programs of queries (three, thorough four, steps on a source) on both.
pub fn p12q() {
    let (mut x, mut y) = (mem(), rdb());
    let t = t2();
    let (a, b) = (uuid("a"), uuid("b"));
    if !deep() {
        sym::assume(a < b);
    }
    let (p, q) = (nm("p"), nm("q"));
    // two parallel edges, one back, one from b to itself
    let es = [Edge::new(a, t[0], b), Edge::new(a, t[1], b), Edge::new(b, t[0], a), Edge::new(b, t[0], b)];
    let k = choose(2);
    macro_rules! setup {
        ($w:ident) => {
            $w.create_vertex(a, t[0]);
            $w.create_vertex(b, t[1]);
            for e in &es {
                $w.create_edge(e);
            }
            $w.index(p);
            $w.set_vp(a, p, &val(0));
            $w.set_vp(b, p, &val(k));
            $w.set_vp(b, q, &val(1));
            $w.set_ep(&es[0], p, &val(0));
            $w.set_ep(&es[1], p, &val(k));
            $w.set_ep(&es[3], q, &val(0));
        };
    }
    setup!(x);
    setup!(y);
    let mut s: Query = match choose(8) {
        0 => AllVertexQuery.into(),
        1 => sv(&[a]),
        2 => sv(&[b, a, b]),
        3 => VertexWithPropertyValueQuery::new(p, val(0)).into(),
        4 => AllEdgeQuery.into(),
        5 => se(&[es[1].clone(), es[0].clone(), es[1].clone()]),
        6 => EdgeWithPropertyPresenceQuery::new(p).into(),
        _ => RangeVertexQuery::new().t(t[1]).into(),
    };
    let yes = choose(2) == 1;
    for _ in 0..if deep() { 4 } else { 3 } {
        s = match choose(6) {
            0 => pipe(s, EdgeDirection::Outbound, None, None),
            1 => pipe(s, EdgeDirection::Inbound, None, None),
            2 => pipe(s, EdgeDirection::Inbound, Some(t[0]), None),
            3 => match PipeWithPropertyPresenceQuery::new(Box::new(s), p, yes) {
                Ok(q) => q.into(),
                Err(_) => sym::fail("a filter is rejected"),
            },
            4 => match PipeWithPropertyValueQuery::new(Box::new(s), p, val(0), yes) {
                Ok(q) => q.into(),
                Err(_) => sym::fail("a filter is rejected"),
            },
            _ => Query::Include(IncludeQuery::new(Box::new(s))),
        };
    }
    let s = match choose(4) {
        0 => s,
        1 => count_of(s),
        2 => props(s, None),
        _ => count_of(props(s, Some(q))),
    };
    x.query(s.clone(), "the memory datastore answers a query wrongly");
    y.query(s, "the RocksDB datastore answers a query wrongly");
    sym::reach("end");
}

/// P13: a bulk insert against the items one by one.
pub fn p13<D: Datastore>(mut w: World<D>, mut s: World<D>) {
    let t = t2();
    let (a, b) = (uuid("a"), uuid("b"));
    let (p, q) = (nm("p"), nm("q"));
    let e = [Edge::new(a, t[0], b), Edge::new(b, t[0], a), Edge::new(a, t[1], a)];
    let stored = choose(2) == 1;
    for x in [&mut w, &mut s] {
        x.index(p);
        if stored {
            x.create_vertex(a, t[0]);
            x.create_vertex(b, t[0]);
            x.create_edge(&e[0]);
            x.set_vp(a, p, &val(0));
            x.set_vp(b, q, &val(0));
            x.set_ep(&e[0], p, &val(0));
            x.set_ep(&e[0], q, &val(0));
        }
    }
    let mut items: Vec<BulkInsertItem> = vec![];
    if !stored {
        items.push(BulkInsertItem::Vertex(Vertex::with_id(a, t[0])));
        items.push(BulkInsertItem::Vertex(Vertex::with_id(b, t[0])));
        items.push(BulkInsertItem::Edge(e[0].clone()));
    }
    let mut m = w.m.clone();
    let len = if deep() {
        4
    } else if a < b {
        3
    } else {
        2
    };
    for k in 0..len {
        let it = match choose(6) {
            0 => {
                let id = pick(&[a, b]);
                BulkInsertItem::Vertex(Vertex::with_id(id, t[0]))
            }
            1 => BulkInsertItem::Edge(pick(&e)),
            2 => BulkInsertItem::VertexProperty(pick(&[a, b]), p, val(choose(2))),
            3 => BulkInsertItem::VertexProperty(a, q, val(k)),
            4 => BulkInsertItem::EdgeProperty(pick(&e[..2]), p, val(choose(2))),
            _ => BulkInsertItem::EdgeProperty(e[0].clone(), q, val(k)),
        };
        if let BulkInsertItem::EdgeProperty(x, _, _) = &it {
            // its owner exists, earlier in the batch or stored
            let known = m.has_e(x) || items.iter().any(|i| matches!(i, BulkInsertItem::Edge(y) if edge_eq(x, y)));
            sym::assume(known);
        }
        items.push(it);
    }
    m.vs.clear();
    for i in &items {
        match i.clone() {
            BulkInsertItem::Vertex(v) => {
                s.create_vertex(v.id, v.t);
            }
            BulkInsertItem::Edge(x) => {
                s.create_edge(&x);
            }
            BulkInsertItem::VertexProperty(id, n, v) => s.set_vp(id, n, &v),
            BulkInsertItem::EdgeProperty(x, n, v) => s.set_ep(&x, n, &v),
        }
    }
    w.bulk(items);
    if deep() {
        w.observe();
        s.observe();
    }
    same_v(
        &vertices(w.db.get(AllVertexQuery), "all vertices"),
        &s.m.vs,
        "a bulk insert leaves other vertices than single inserts",
    );
    same_e(&edges(w.db.get(AllEdgeQuery), "all edges"), &s.m.es, "a bulk insert leaves other edges than single inserts");
    w.m = s.m.clone();
    w.observe();
    sym::reach("end");
}

/// P27: no input makes the database panic or unusable.
pub fn p27<D: Datastore>(mut w: World<D>) {
    let ex = [Uuid::nil(), Uuid::from_bytes([0xff; 16])];
    let a = if choose(2) == 0 { ex[choose(2) as usize] } else { uuid("a") };
    let b = if deep() { pick(&ex) } else { ex[1] };
    let long = "x".repeat(255);
    let names = [ident(""), ident(&long), ident("-_z")];
    let t = pick(&names[..if deep() { 3 } else { 2 }]);
    let n = if deep() { pick(&names) } else { t };
    w.create_vertex(a, t);
    w.create_vertex(b, t);
    let e = Edge::new(a, t, b);
    w.create_edge(&e);
    if choose(2) == 1 {
        w.index(n);
    }
    w.set_vp(a, n, &val(6));
    w.set_ep(&e, n, &val(4));
    let l = if deep() { pick(&[u32::MAX, 0, 1]) } else { pick(&[u32::MAX, 0]) };
    let src: Query = match choose(8) {
        0 => AllVertexQuery.into(),
        1 => RangeVertexQuery::new().start_id(pick(&[a, b])).limit(l).into(),
        2 => sv(&[]),
        3 => sv(&[b, a, b]),
        4 => AllEdgeQuery.into(),
        5 => se(&[e.clone(), e.reversed(), e.clone()]),
        6 => VertexWithPropertyPresenceQuery::new(n).into(),
        _ => EdgeWithPropertyValueQuery::new(n, val(4)).into(),
    };
    let d = if choose(2) == 0 { EdgeDirection::Outbound } else { EdgeDirection::Inbound };
    let q = match choose(5) {
        0 => src,
        1 => pipe(src, d, pick(&[None, Some(t)]), Some(l)),
        2 => props(pipe(src, d, None, None), pick(&[None, Some(n)])),
        3 => Query::PipeWithPropertyValue(PipeWithPropertyValueQuery { inner: Box::new(src), name: n, value: val(4), equal: false }),
        _ => Query::Include(IncludeQuery::new(Box::new(props(src, None)))),
    };
    match choose(5) {
        0 => {
            let _ = w.db.get(q);
        }
        1 => {
            let _ = w.db.get(Query::Count(CountQuery { inner: Box::new(q) }));
        }
        2 => {
            let _ = w.db.set_properties(q, n, &val(2));
        }
        3 => {
            let _ = w.db.delete(q);
        }
        _ => {
            let _ = w.db.bulk_insert(vec![]);
            let _ = w.db.index_property(n);
            let _ = w.db.sync();
            let _ = w.db.get(q);
        }
    }
    // the database still works
    let c = Uuid::from_bytes([7; 16]);
    sym::assume(a != c);
    sym::check(w.db.create_vertex(&Vertex::with_id(c, t)).is_ok(), "the database does not accept writes any more");
    let v = vertices(w.db.get(SpecificVertexQuery::single(c)), "the database does not answer any more");
    sym::check(v.len() == 1, "the database lost a vertex");
    let _ = vprops(w.db.get(props(AllVertexQuery.into(), None)), "the database does not answer any more");
    let _ = eprops(w.db.get(props(AllEdgeQuery.into(), None)), "the database does not answer any more");
    sym::check(w.db.delete(AllVertexQuery).is_ok(), "the database does not accept deletes any more");
    sym::check(count(w.db.get(AllVertexQuery.count().unwrap()), "count") == 0, "vertices remain");
    sym::check(count(w.db.get(AllEdgeQuery.count().unwrap()), "count") == 0, "edges remain");
    sym::reach("end");
}
