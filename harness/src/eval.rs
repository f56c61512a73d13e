//! A naive evaluator of queries over the model: the oracle for query results.
use crate::world::*;
use indradb::*;
use uuid::Uuid;

pub enum Out {
    V(Vec<(Uuid, Identifier)>),
    E(Vec<Edge>),
    C(u64),
    VP(Vec<((Uuid, Identifier), Vec<(Identifier, Json)>)>),
    EP(Vec<(Edge, Vec<(Identifier, Json)>)>),
}
pub enum Bad {
    NotIndexed,
    OnQuery,
}
impl Out {
    fn copy(&self) -> Out {
        match self {
            Out::V(v) => Out::V(v.clone()),
            Out::E(e) => Out::E(e.clone()),
            Out::C(c) => Out::C(*c),
            Out::VP(p) => Out::VP(p.clone()),
            Out::EP(p) => Out::EP(p.clone()),
        }
    }
}

/// Evaluates `q`; the last element of `outs` is the query's own output, the
/// others are those of included sub-queries. Limits of pipes from vertices are
/// not modelled here (which edges survive is only partly specified); every
/// caller that uses one checks it separately.
pub fn eval(m: &Model, q: &Query, outs: &mut Vec<Out>) -> std::result::Result<(), Bad> {
    let r = match q {
        Query::AllVertex => Out::V(sorted(m)),
        Query::RangeVertex(q) => {
            let mut v = sorted(m);
            if let Some(s) = q.start_id {
                v.retain(|x| x.0 >= s);
            }
            if let Some(t) = q.t {
                v.retain(|x| x.1 == t);
            }
            v.truncate(q.limit as usize);
            Out::V(v)
        }
        Query::SpecificVertex(q) => Out::V(look(m, q.ids.iter().copied())),
        Query::AllEdge => Out::E(m.es.clone()),
        Query::SpecificEdge(q) => Out::E(q.edges.iter().filter(|e| m.has_e(e)).cloned().collect()),
        Query::VertexWithPropertyPresence(q) => {
            Out::V(look(m, with_v(m, q.name, None)?.into_iter()))
        }
        Query::VertexWithPropertyValue(q) => Out::V(look(m, with_v(m, q.name, Some(&q.value))?.into_iter())),
        Query::EdgeWithPropertyPresence(q) => Out::E(with_e(m, q.name, None)?),
        Query::EdgeWithPropertyValue(q) => Out::E(with_e(m, q.name, Some(&q.value))?),
        Query::Include(q) => {
            eval(m, &q.inner, outs)?;
            outs.pop().unwrap()
        }
        Query::Pipe(p) => {
            let i = sub(m, &p.inner, outs)?;
            match i {
                Out::E(es) => {
                    let ids = es.iter().map(|e| match p.direction {
                        EdgeDirection::Outbound => e.outbound_id,
                        EdgeDirection::Inbound => e.inbound_id,
                    });
                    let mut v = look(m, ids);
                    if let Some(t) = p.t {
                        v.retain(|x| x.1 == t);
                    }
                    v.truncate(p.limit as usize);
                    Out::V(v)
                }
                Out::V(vs) => {
                    let mut r = vec![];
                    for (id, _) in vs {
                        for e in &m.es {
                            let end = match p.direction {
                                EdgeDirection::Outbound => e.outbound_id,
                                EdgeDirection::Inbound => e.inbound_id,
                            };
                            if end == id && p.t.map_or(true, |t| e.t == t) {
                                r.push(e.clone());
                            }
                        }
                    }
                    Out::E(r)
                }
                _ => return Err(Bad::OnQuery),
            }
        }
        Query::PipeProperty(p) => {
            let i = sub(m, &p.inner, outs)?;
            let keep = |n: Identifier| p.name.map_or(true, |x| x == n);
            match i {
                Out::V(vs) => {
                    let mut r = vec![];
                    for v in vs {
                        let mut ps = vec![];
                        for x in &m.vp {
                            if keep(x.name) && x.id == v.0 {
                                ps.push((x.name, x.value.clone()));
                            }
                        }
                        if !ps.is_empty() {
                            r.push((v, ps));
                        }
                    }
                    Out::VP(r)
                }
                Out::E(es) => {
                    let mut r = vec![];
                    for e in es {
                        let mut ps = vec![];
                        for x in &m.ep {
                            if keep(x.name) && edge_eq(&x.e, &e) {
                                ps.push((x.name, x.value.clone()));
                            }
                        }
                        if !ps.is_empty() {
                            r.push((e, ps));
                        }
                    }
                    Out::EP(r)
                }
                _ => return Err(Bad::OnQuery),
            }
        }
        Query::PipeWithPropertyPresence(p) => {
            let i = sub(m, &p.inner, outs)?;
            filter(m, i, p.name, None, p.exists)?
        }
        Query::PipeWithPropertyValue(p) => {
            let i = sub(m, &p.inner, outs)?;
            filter(m, i, p.name, Some(&p.value), p.equal)?
        }
        Query::Count(c) => {
            let i = sub(m, &c.inner, outs)?;
            Out::C(match i {
                Out::V(v) => v.len(),
                Out::E(v) => v.len(),
                Out::VP(v) => v.len(),
                Out::EP(v) => v.len(),
                Out::C(_) => return Err(Bad::OnQuery),
            } as u64)
        }
    };
    outs.push(r);
    Ok(())
}
fn sub(m: &Model, q: &Query, outs: &mut Vec<Out>) -> std::result::Result<Out, Bad> {
    eval(m, q, outs)?;
    let o = outs.pop().unwrap();
    if let Query::Include(_) = q {
        outs.push(o.copy());
    }
    Ok(o)
}
fn filter(m: &Model, i: Out, n: Identifier, v: Option<&Json>, want: bool) -> std::result::Result<Out, Bad> {
    Ok(match i {
        Out::V(mut vs) => {
            let has = with_v(m, n, v)?;
            vs.retain(|x| has.contains(&x.0) == want);
            Out::V(vs)
        }
        Out::E(mut es) => {
            let has = with_e(m, n, v)?;
            es.retain(|x| has.iter().any(|h| edge_eq(h, x)) == want);
            Out::E(es)
        }
        _ => return Err(Bad::OnQuery),
    })
}
fn sorted(m: &Model) -> Vec<(Uuid, Identifier)> {
    let mut v: Vec<(Uuid, Identifier)> = vec![];
    for x in &m.vs {
        let mut i = 0;
        while i < v.len() && v[i].0 < x.0 {
            i += 1;
        }
        v.insert(i, *x);
    }
    v
}
fn look(m: &Model, ids: impl Iterator<Item = Uuid>) -> Vec<(Uuid, Identifier)> {
    let mut r = vec![];
    for id in ids {
        if let Some(t) = m.vtype(id) {
            r.push((id, t));
        }
    }
    r
}
fn with_v(m: &Model, n: Identifier, v: Option<&Json>) -> std::result::Result<Vec<Uuid>, Bad> {
    if !m.idx.contains(&n) {
        return Err(Bad::NotIndexed);
    }
    let mut r = vec![];
    for p in &m.vp {
        if p.name == n && v.map_or(true, |v| json_eq(v, &p.value)) && m.has_v(p.id) {
            r.push(p.id);
        }
    }
    Ok(r)
}
fn with_e(m: &Model, n: Identifier, v: Option<&Json>) -> std::result::Result<Vec<Edge>, Bad> {
    if !m.idx.contains(&n) {
        return Err(Bad::NotIndexed);
    }
    let mut r = vec![];
    for p in &m.ep {
        if p.name == n && v.map_or(true, |v| json_eq(v, &p.value)) && m.has_e(&p.e) {
            r.push(p.e.clone());
        }
    }
    Ok(r)
}

/// One output of the database against one of the oracle, as multisets.
pub fn same_out(got: &QueryOutputValue, want: &Out, what: &str) {
    match (got, want) {
        (QueryOutputValue::Vertices(g), Out::V(w)) => same_v(g, w, what),
        (QueryOutputValue::Edges(g), Out::E(w)) => same_e(g, w, what),
        (QueryOutputValue::Count(g), Out::C(w)) => sym::check(g == w, what),
        (QueryOutputValue::VertexProperties(g), Out::VP(w)) => {
            // sources may repeat, so pair up owner by owner
            same(g, w, |g, w| g.vertex.t == w.0 .1 && g.vertex.id == w.0 .0 && props_eq(&g.props, &w.1), what)
        }
        (QueryOutputValue::EdgeProperties(g), Out::EP(w)) => {
            same(g, w, |g, w| edge_eq(&g.edge, &w.0) && props_eq(&g.props, &w.1), what)
        }
        _ => sym::fail(what),
    }
}
fn props_eq(g: &[NamedProperty], w: &[(Identifier, Json)]) -> bool {
    g.len() == w.len() && w.iter().all(|w| g.iter().filter(|g| g.name == w.0 && json_eq(&g.value, &w.1)).count() == 1)
}

impl<D: Datastore> World<D> {
    /// Runs `q` and compares every output with the oracle's.
    pub fn query(&self, q: Query, what: &str) {
        let got = self.db.get(q.clone());
        let mut want = vec![];
        match (eval(&self.m, &q, &mut want), got) {
            (Ok(()), Ok(got)) => {
                if got.len() != want.len() {
                    sym::fail("the number of outputs of a query is wrong");
                }
                for (g, w) in got.iter().zip(&want) {
                    same_out(g, w, what);
                }
            }
            (Err(Bad::NotIndexed), Err(Error::NotIndexed)) => (),
            (Err(Bad::OnQuery), Err(Error::OperationOnQuery)) => (),
            (Ok(()), Err(_)) => sym::fail("a valid query failed"),
            _ => sym::fail("an invalid query was not refused with the right error"),
        }
    }
    /// Deletes what `q` selects.
    pub fn delete(&mut self, q: Query) {
        let mut want = vec![];
        let got = self.db.delete(q.clone());
        match eval(&self.m, &q, &mut want) {
            Ok(()) => {
                if want.last().map_or(false, |w| matches!(w, Out::C(_))) {
                    sym::check(matches!(got, Err(Error::OperationOnQuery)), "a delete of a count is not refused");
                    return;
                }
                sym::check(got.is_ok(), "a valid delete failed");
                match want.pop().unwrap() {
                    Out::V(vs) => vs.iter().for_each(|v| self.m.del_vertex(v.0)),
                    Out::E(es) => es.iter().for_each(|e| self.m.del_edge(e)),
                    Out::VP(ps) => ps.iter().for_each(|p| p.1.iter().for_each(|n| self.m.del_vp(p.0 .0, n.0))),
                    Out::EP(ps) => ps.iter().for_each(|p| p.1.iter().for_each(|n| self.m.del_ep(&p.0, n.0))),
                    Out::C(_) => (),
                }
            }
            Err(Bad::NotIndexed) => sym::check(matches!(got, Err(Error::NotIndexed)), "a delete by a name that is not indexed is not refused"),
            Err(Bad::OnQuery) => sym::check(matches!(got, Err(Error::OperationOnQuery)), "an unsuitable delete is not refused"),
        }
    }
    /// Sets a property on what `q` selects.
    pub fn set(&mut self, q: Query, name: Identifier, v: &Json) {
        let mut want = vec![];
        let got = self.db.set_properties(q.clone(), name, v);
        match eval(&self.m, &q, &mut want) {
            Ok(()) => match want.pop().unwrap() {
                Out::V(vs) => {
                    sym::check(got.is_ok(), "a valid set_properties failed");
                    self.note_prop(name, v);
                    vs.iter().for_each(|x| self.m.set_vp(x.0, name, v))
                }
                Out::E(es) => {
                    sym::check(got.is_ok(), "a valid set_properties failed");
                    self.note_prop(name, v);
                    es.iter().for_each(|x| self.m.set_ep(x, name, v))
                }
                _ => sym::check(matches!(got, Err(Error::OperationOnQuery)), "an unsuitable set_properties is not refused"),
            },
            Err(Bad::NotIndexed) => sym::check(matches!(got, Err(Error::NotIndexed)), "a set by a name that is not indexed is not refused"),
            Err(Bad::OnQuery) => sym::check(matches!(got, Err(Error::OperationOnQuery)), "an unsuitable set_properties is not refused"),
        }
    }
}
