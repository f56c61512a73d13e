//! P34: the transaction interface, which plugins work with.
use crate::core::deep;
use crate::world::*;
use indradb::*;
use sym::{check, choose, fail, pick};
use uuid::Uuid;

fn all<T>(r: Result<DynIter<'_, T>>) -> Vec<T> {
    let r: Result<Vec<T>> = match r {
        Ok(i) => i.collect(),
        Err(e) => Err(e),
    };
    match r {
        Ok(l) => l,
        Err(_) => fail("a read of a transaction failed"),
    }
}
fn maybe<T>(r: Result<Option<DynIter<'_, T>>>) -> Option<Vec<T>> {
    match r {
        Ok(Some(i)) => Some(all(Ok(i))),
        Ok(None) => None,
        Err(_) => fail("a read of a transaction failed"),
    }
}
fn one<T>(r: Result<T>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => fail("a transaction fails"),
    }
}
struct S {
    ids: Vec<Uuid>,
    t: [Identifier; 3],
    p: Identifier,
    q: Identifier,
    es: Vec<Edge>,
}
fn scene<D: Datastore>(w: &mut World<D>) -> S {
    let ids = vec![uuid("a"), uuid("b"), uuid("c")];
    let t = [nm("t"), nm("tt"), nm("")];
    let (a, b) = (ids[0], ids[1]);
    if !deep() {
        sym::assume(a < b);
    }
    let (p, q) = (nm("p"), nm("q"));
    let es = vec![Edge::new(a, t[0], b), Edge::new(a, t[1], b), Edge::new(b, t[0], a), Edge::new(a, t[0], a)];
    w.create_vertex(a, t[0]);
    w.create_vertex(b, t[1]);
    w.index(p);
    for e in &es {
        w.create_edge(e);
    }
    w.set_vp(a, p, &val(0));
    w.set_vp(a, q, &val(1));
    w.set_vp(b, p, &val(1));
    w.set_ep(&es[0], p, &val(0));
    w.set_ep(&es[1], p, &val(0));
    w.set_ep(&es[1], q, &val(3));
    // c may be a, b or unknown
    S { ids, t, p, q, es }
}
/// What a range from `o` gives: the rest of the order of all edges.
fn suffix(full: &[Edge], got: &[Edge], o: &Edge) {
    let what = "a range of edges is not the rest of all edges in order";
    check(got.len() <= full.len(), what);
    let at = full.len() - got.len();
    for (g, f) in got.iter().zip(&full[at..]) {
        check(edge_eq(g, f), what);
    }
    let what = "a range of edges starts at the wrong place";
    for (i, e) in full.iter().enumerate() {
        let inside = i >= at;
        if e.outbound_id > o.outbound_id {
            check(inside, what);
        } else if e.outbound_id < o.outbound_id {
            check(!inside, what);
        } else if e.t == o.t {
            check(inside == (e.inbound_id >= o.inbound_id), what);
        }
    }
}
/// By outbound id, then in one group per type, then by inbound id.
fn ordered(full: &[Edge]) {
    let what = "edges are not in order";
    for (i, e) in full.iter().enumerate() {
        let Some(f) = full.get(i + 1) else { break };
        check(e.outbound_id <= f.outbound_id, what);
        if e.outbound_id == f.outbound_id {
            if e.t == f.t {
                check(e.inbound_id < f.inbound_id, what);
            } else {
                for g in &full[i + 2..] {
                    check(g.outbound_id != e.outbound_id || g.t != e.t, what);
                }
            }
        }
    }
}
pub fn p34<D: Datastore>(mut w: World<D>) {
    let s = scene(&mut w);
    let db = &w.db;
    let txn = db.datastore.transaction();
    let t = unsafe { &*(&txn as *const D::Transaction<'_>) };
    let m = &w.m;
    let some: Vec<Edge> = vec![s.es[0].clone(), Edge::new(s.ids[2], s.t[2], s.ids[0]), s.es[1].clone(), s.es[0].clone()];
    match choose(9) {
        0 => {
            let mut want = m.vs.clone();
            want.sort_by(|x, y| x.0.cmp(&y.0));
            let got = all(t.all_vertices());
            check(got.len() == want.len() && got.iter().zip(&want).all(|(g, v)| g.id == v.0 && g.t == v.1), "all vertices are others");
            check(t.vertex_count() == want.len() as u64, "the number of vertices is wrong");
        }
        1 => {
            let o = uuid("from");
            let mut want = m.vs.clone();
            want.retain(|v| v.0 >= o);
            want.sort_by(|x, y| x.0.cmp(&y.0));
            let got = all(t.range_vertices(o));
            check(got.len() == want.len() && got.iter().zip(&want).all(|(g, v)| g.id == v.0 && g.t == v.1), "a range of vertices is another");
        }
        2 => {
            let l = vec![s.ids[1], s.ids[2], s.ids[0], s.ids[1]];
            let want: Vec<_> = l.iter().filter_map(|i| m.vtype(*i).map(|t| (*i, t))).collect();
            let got = all(t.specific_vertices(l));
            check(got.len() == want.len() && got.iter().zip(&want).all(|(g, v)| g.id == v.0 && g.t == v.1), "specific vertices are others");
        }
        3 => {
            let got = all(t.all_edges());
            same_e(&got, &m.es, "all edges are others");
            ordered(&got);
            check(t.edge_count() == m.es.len() as u64, "the number of edges is wrong");
        }
        4 => {
            let full = all(t.all_edges());
            let o = Edge::new(uuid("from"), pick(&s.t), uuid("to"));
            suffix(&full, &all(t.range_edges(o.clone())), &o);
        }
        5 => {
            let full = all(t.range_reversed_edges(Edge::new(Uuid::nil(), ident(""), Uuid::nil())));
            let back: Vec<Edge> = full.iter().map(|e| e.reversed()).collect();
            same_e(&back, &m.es, "the reversed edges are others");
            ordered(&full);
            let o = Edge::new(uuid("from"), pick(&s.t), uuid("to"));
            suffix(&full, &all(t.range_reversed_edges(o.clone())), &o);
        }
        6 => {
            let want: Vec<_> = some.iter().filter(|e| m.has_e(e)).cloned().collect();
            let got = all(t.specific_edges(some));
            check(got.len() == want.len() && got.iter().zip(&want).all(|(g, e)| edge_eq(g, e)), "specific edges are others");
        }
        7 => {
            let n = pick(&[s.p, s.q, s.t[2]]);
            let x = choose(3);
            let (v, e) = if x == 2 {
                (maybe(t.vertex_ids_with_property(n)), maybe(t.edges_with_property(n)))
            } else {
                (maybe(t.vertex_ids_with_property_value(n, &val(x))), maybe(t.edges_with_property_value(n, &val(x))))
            };
            let what = "an index read gives other elements";
            check(v.is_some() == m.idx.contains(&n) && e.is_some() == v.is_some(), "an index read on an unindexed name, or none on an indexed one");
            if let (Some(v), Some(e)) = (v, e) {
                let wv: Vec<Uuid> = m.vp.iter().filter(|p| p.name == n && (x == 2 || json_eq(&p.value, &val(x)))).map(|p| p.id).collect();
                let we: Vec<Edge> =
                    m.ep.iter().filter(|p| p.name == n && (x == 2 || json_eq(&p.value, &val(x)))).map(|p| p.e.clone()).collect();
                same(&v, &wv, |x, y| x == y, what);
                same_e(&e, &we, what);
            }
        }
        _ => {
            let n = pick(&[s.p, s.q, s.t[2]]);
            let id = pick(&s.ids);
            let e = pick(&some);
            let v = Vertex::with_id(id, s.t[0]);
            let eq = |g: &Option<Json>, w: Option<&Json>| match (g, w) {
                (None, None) => true,
                (Some(g), Some(w)) => json_eq(g, w),
                _ => false,
            };
            let what = "a transaction reads another property";
            check(eq(&one(t.vertex_property(&v, n)), m.get_vp(id, n)), what);
            check(eq(&one(t.edge_property(&e, n)), m.get_ep(&e, n)), what);
            let want: Vec<_> = m.vp.iter().filter(|p| p.id == id).map(|p| (p.name, p.value.clone())).collect();
            let got = all(t.all_vertex_properties_for_vertex(&v));
            same(&got, &want, |g, w| g.0 == w.0 && json_eq(&g.1, &w.1), what);
            let want: Vec<_> = m.ep.iter().filter(|p| edge_eq(&p.e, &e)).map(|p| (p.name, p.value.clone())).collect();
            let got = all(t.all_edge_properties_for_edge(&e));
            same(&got, &want, |g, w| g.0 == w.0 && json_eq(&g.1, &w.1), what);
        }
    }
    sym::reach("end");
}
/// Writes, several in one transaction.
pub fn p34w<D: Datastore>(mut w: World<D>) {
    let s = scene(&mut w);
    let (a, b, c) = (s.ids[0], s.ids[1], s.ids[2]);
    let (p, q) = (s.p, s.q);
    let es = s.es;
    w.note_prop(p, &val(2));
    w.note_prop(q, &val(2));
    let gone = Edge::new(c, s.t[2], c);
    let World { db, mut m, names, vals } = w;
    let mut t = db.datastore.transaction();
    for _ in 0..if deep() { 3 } else { 2 } {
        match choose(11) {
            0 => {
                let got = one(t.create_vertex(&Vertex::with_id(c, s.t[1])));
                check(got == m.create_vertex(c, s.t[1]), "a transaction creates a vertex with another result");
            }
            1 => {
                let x = Edge::new(c, s.t[2], a);
                check(one(t.create_edge(&x)) == m.create_edge(&x), "a transaction creates an edge with another result");
            }
            2 => {
                // repeated, unknown
                let l = [a, c, a];
                one(t.delete_vertices(l.iter().map(|i| Vertex::with_id(*i, s.t[0])).collect()));
                l.iter().for_each(|i| m.del_vertex(*i));
            }
            3 => {
                let l = [es[1].clone(), gone.clone(), es[3].clone(), es[1].clone()];
                one(t.delete_edges(l.to_vec()));
                l.iter().for_each(|e| m.del_edge(e));
            }
            4 => {
                let l = [(a, p), (c, q), (a, p), (b, s.t[2])];
                one(t.delete_vertex_properties(l.to_vec()));
                l.iter().for_each(|x| m.del_vp(x.0, x.1));
            }
            5 => {
                let l = [(es[0].clone(), p), (gone.clone(), p), (es[1].clone(), q), (es[0].clone(), p)];
                one(t.delete_edge_properties(l.to_vec()));
                l.iter().for_each(|x| m.del_ep(&x.0, x.1));
            }
            6 => {
                let l: Vec<Uuid> = [a, b, a].into_iter().filter(|i| m.has_v(*i)).collect();
                let n = pick(&[p, q]);
                one(t.set_vertex_properties(l.clone(), n, &val(2)));
                l.iter().for_each(|i| m.set_vp(*i, n, &val(2)));
            }
            7 => {
                let l: Vec<Edge> = [&es[1], &es[3], &es[1]].into_iter().filter(|e| m.has_e(e)).cloned().collect();
                let n = pick(&[p, q]);
                one(t.set_edge_properties(l.clone(), n, &val(2)));
                l.iter().for_each(|e| m.set_ep(e, n, &val(2)));
            }
            8 => {
                one(t.index_property(q));
                if !m.idx.contains(&q) {
                    m.idx.push(q);
                }
            }
            9 => {
                let x = Edge::new(b, s.t[2], c);
                let mut l = vec![];
                if m.create_vertex(c, s.t[0]) {
                    l.push(BulkInsertItem::Vertex(Vertex::with_id(c, s.t[0])));
                }
                if m.create_edge(&x) {
                    l.push(BulkInsertItem::Edge(x.clone()));
                    l.push(BulkInsertItem::EdgeProperty(x.clone(), p, val(2)));
                    m.set_ep(&x, p, &val(2));
                }
                l.push(BulkInsertItem::VertexProperty(c, p, val(2)));
                l.push(BulkInsertItem::VertexProperty(c, p, val(0)));
                m.set_vp(c, p, &val(0));
                one(t.bulk_insert(l));
            }
            _ => one(t.sync()),
        }
    }
    drop(t);
    World { db, m, names, vals }.observe();
    sym::reach("end");
}
