//! P32: the query builders and the extractors of results.
use crate::core::deep;
use crate::same::*;
use crate::world::{ident, uuid, val};
use indradb::*;
use sym::{check, choose, fail, pick};
use uuid::Uuid;

/// What a query results in.
#[derive(Clone, Copy, PartialEq)]
enum Ty {
    V,
    E,
    Props,
    Count,
}
/// A query as its builder left it.
enum Any {
    Av(AllVertexQuery),
    Rv(RangeVertexQuery),
    Sv(SpecificVertexQuery),
    Vp(VertexWithPropertyPresenceQuery),
    Vv(VertexWithPropertyValueQuery),
    Ae(AllEdgeQuery),
    Se(SpecificEdgeQuery),
    Ep(EdgeWithPropertyPresenceQuery),
    Ev(EdgeWithPropertyValueQuery),
    Pipe(PipeQuery),
    Pe(PipeWithPropertyPresenceQuery),
    Pv(PipeWithPropertyValueQuery),
    Inc(IncludeQuery),
    Pp(PipePropertyQuery),
    Count(CountQuery),
}
macro_rules! each {
    ($a:expr, $q:ident => $e:expr, $p:pat => $c:expr) => {
        match $a {
            Any::Av($q) => $e,
            Any::Rv($q) => $e,
            Any::Sv($q) => $e,
            Any::Vp($q) => $e,
            Any::Vv($q) => $e,
            Any::Ae($q) => $e,
            Any::Se($q) => $e,
            Any::Ep($q) => $e,
            Any::Ev($q) => $e,
            Any::Pipe($q) => $e,
            Any::Pe($q) => $e,
            Any::Pv($q) => $e,
            Any::Inc($q) => $e,
            $p => $c,
        }
    };
}
impl Any {
    fn into_query(self) -> Query {
        each!(self, q => q.into(), a => match a {
            Any::Pp(q) => q.into(),
            Any::Count(q) => q.into(),
            _ => fail("harness"),
        })
    }
}
struct S {
    ids: Vec<Uuid>,
    es: Vec<Edge>,
    t: [Identifier; 2],
}
impl S {
    fn base(&self) -> (Any, Query, Ty) {
        let p = pick(&self.t);
        match choose(9) {
            0 => (Any::Av(AllVertexQuery), Query::AllVertex, Ty::V),
            1 => (Any::Ae(AllEdgeQuery), Query::AllEdge, Ty::E),
            2 => {
                // every sequence of setters
                let mut q = if choose(2) == 0 { RangeVertexQuery::new() } else { RangeVertexQuery::default() };
                let mut w = RangeVertexQuery { limit: u32::MAX, t: None, start_id: None };
                for _ in 0..choose(4) {
                    match choose(3) {
                        0 => {
                            let l = sym::u32_("limit");
                            q = q.limit(l);
                            w.limit = l;
                        }
                        1 => {
                            let t = pick(&self.t);
                            q = q.t(t);
                            w.t = Some(t);
                        }
                        _ => {
                            let i = pick(&self.ids);
                            q = q.start_id(i);
                            w.start_id = Some(i);
                        }
                    }
                }
                (Any::Rv(q), Query::RangeVertex(w), Ty::V)
            }
            3 => match choose(2) {
                0 => (
                    Any::Sv(SpecificVertexQuery::single(self.ids[0])),
                    Query::SpecificVertex(SpecificVertexQuery { ids: vec![self.ids[0]] }),
                    Ty::V,
                ),
                _ => {
                    let l = self.ids[..choose(3) as usize].to_vec();
                    (Any::Sv(SpecificVertexQuery::new(l.clone())), Query::SpecificVertex(SpecificVertexQuery { ids: l }), Ty::V)
                }
            },
            4 => match choose(2) {
                0 => (
                    Any::Se(SpecificEdgeQuery::single(self.es[0].clone())),
                    Query::SpecificEdge(SpecificEdgeQuery { edges: vec![self.es[0].clone()] }),
                    Ty::E,
                ),
                _ => {
                    let l = self.es[..choose(3) as usize].to_vec();
                    (Any::Se(SpecificEdgeQuery::new(l.clone())), Query::SpecificEdge(SpecificEdgeQuery { edges: l }), Ty::E)
                }
            },
            5 => (
                Any::Vp(VertexWithPropertyPresenceQuery::new(p)),
                Query::VertexWithPropertyPresence(VertexWithPropertyPresenceQuery { name: p }),
                Ty::V,
            ),
            6 => (
                Any::Ep(EdgeWithPropertyPresenceQuery::new(p)),
                Query::EdgeWithPropertyPresence(EdgeWithPropertyPresenceQuery { name: p }),
                Ty::E,
            ),
            7 => (
                Any::Vv(VertexWithPropertyValueQuery::new(p, val(2))),
                Query::VertexWithPropertyValue(VertexWithPropertyValueQuery { name: p, value: val(2) }),
                Ty::V,
            ),
            _ => (
                Any::Ev(EdgeWithPropertyValueQuery::new(p, val(1))),
                Query::EdgeWithPropertyValue(EdgeWithPropertyValueQuery { name: p, value: val(1) }),
                Ty::E,
            ),
        }
    }
    /// One more layer; `None` if it is rejected, as it has to be.
    fn layer(&self, q: Any, w: Query, ty: Ty) -> Option<(Any, Query, Ty)> {
        let items = ty == Ty::V || ty == Ty::E;
        let inner = Box::new(w);
        // through the methods of the query, or the constructor
        let method = choose(2) == 0;
        fn made<T>(r: ValidationResult<T>, valid: bool) -> Option<T> {
            match r {
                Ok(q) => {
                    check(valid, "a query on something it cannot be asked of is accepted");
                    Some(q)
                }
                Err(e) => {
                    check(!valid, "a valid query is rejected");
                    check(matches!(e, ValidationError::InnerQuery), "an invalid query is rejected for another reason");
                    None
                }
            }
        }
        macro_rules! by {
            ($m:ident ( $($a:expr),* ), $n:expr) => {
                if method {
                    each!(q, x => x.$m($($a),*), _ => {
                        sym::assume(false);
                        fail("harness")
                    })
                } else {
                    let inner: Box<Query> = Box::new(q.into_query());
                    $n(inner)
                }
            };
        }
        Some(match choose(7) {
            k @ 0..=1 => {
                let d = if k == 0 { EdgeDirection::Outbound } else { EdgeDirection::Inbound };
                let r = if k == 0 { by!(outbound(), |q| PipeQuery::new(q, d)) } else { by!(inbound(), |q| PipeQuery::new(q, d)) };
                let mut q = made(r, items)?;
                let mut w = PipeQuery { inner, direction: d, limit: u32::MAX, t: None };
                for _ in 0..choose(3) {
                    if choose(2) == 0 {
                        let l = sym::u32_("limit");
                        q = q.limit(l);
                        w.limit = l;
                    } else {
                        let t = pick(&self.t);
                        q = q.t(t);
                        w.t = Some(t);
                    }
                }
                (Any::Pipe(q), Query::Pipe(w), if ty == Ty::V { Ty::E } else { Ty::V })
            }
            2 => {
                let n = pick(&self.t);
                let exists = choose(2) == 0;
                let r = if exists {
                    by!(with_property(n), |q| PipeWithPropertyPresenceQuery::new(q, n, true))
                } else {
                    by!(without_property(n), |q| PipeWithPropertyPresenceQuery::new(q, n, false))
                };
                let q = made(r, items)?;
                (Any::Pe(q), Query::PipeWithPropertyPresence(PipeWithPropertyPresenceQuery { inner, name: n, exists }), ty)
            }
            3 => {
                let (name, value) = (pick(&self.t), val(0));
                let equal = choose(2) == 0;
                let r = if equal {
                    by!(with_property_equal_to(name, value.clone()), |q| PipeWithPropertyValueQuery::new(q, name, value.clone(), true))
                } else {
                    by!(with_property_not_equal_to(name, value.clone()), |q| PipeWithPropertyValueQuery::new(q, name, value.clone(), false))
                };
                let q = made(r, items)?;
                (Any::Pv(q), Query::PipeWithPropertyValue(PipeWithPropertyValueQuery { inner, name, value, equal }), ty)
            }
            4 => {
                let mut q = made(by!(properties(), PipePropertyQuery::new), items)?;
                let mut w = PipePropertyQuery { inner, name: None };
                for _ in 0..choose(3) {
                    let n = pick(&self.t);
                    q = q.name(n);
                    w.name = Some(n);
                }
                (Any::Pp(q), Query::PipeProperty(w), Ty::Props)
            }
            5 => {
                let q = by!(include(), IncludeQuery::new);
                (Any::Inc(q), Query::Include(IncludeQuery { inner }), ty)
            }
            _ => {
                let r = match q {
                    Any::Pp(x) if method => x.count(),
                    q => by_count(q, method),
                };
                let q = made(r, ty != Ty::Count)?;
                (Any::Count(q), Query::Count(CountQuery { inner }), Ty::Count)
            }
        })
    }
}
fn by_count(q: Any, method: bool) -> ValidationResult<CountQuery> {
    if method {
        each!(q, x => x.count(), _ => {
            sym::assume(false);
            fail("harness")
        })
    } else {
        CountQuery::new(Box::new(q.into_query()))
    }
}
fn scene() -> S {
    let (a, b) = (uuid("a"), uuid("b"));
    let t = [ident("t"), ident("u")];
    S { ids: vec![a, b], es: vec![Edge::new(a, t[0], b), Edge::new(b, t[1], a)], t }
}

/// Every way of building a query.
pub fn p32() {
    let s = scene();
    let (mut q, mut w, mut ty) = s.base();
    for _ in 0..choose(if deep() { 4 } else { 3 }) {
        match s.layer(q, w, ty) {
            Some(n) => (q, w, ty) = n,
            None => {
                sym::reach("rejected");
                return;
            }
        }
    }
    check(q_eq(&q.into_query(), &w), "a builder builds another query than it names");
    sym::reach("built");
}

fn values(s: &S) -> QueryOutputValue {
    let named = |n: u32| (0..n).map(|i| NamedProperty::new(s.t[i as usize % 2], val(i))).collect::<Vec<_>>();
    match choose(5) {
        0 => QueryOutputValue::Vertices(s.ids[..choose(3) as usize].iter().map(|i| Vertex::with_id(*i, s.t[0])).collect()),
        1 => QueryOutputValue::Edges(s.es[..choose(3) as usize].to_vec()),
        2 => QueryOutputValue::Count(sym::u64_("count")),
        3 => QueryOutputValue::VertexProperties(
            (0..choose(3)).map(|i| VertexProperties::new(Vertex::with_id(s.ids[i as usize], s.t[1]), named(i + 1))).collect(),
        ),
        _ => QueryOutputValue::EdgeProperties((0..choose(3)).map(|i| EdgeProperties::new(s.es[i as usize].clone(), named(2))).collect()),
    }
}
/// The extractors give the last output, if it is of their kind.
pub fn p32x() {
    let s = scene();
    let mut o = Vec::new();
    for _ in 0..choose(3) {
        o.push(values(&s));
    }
    let last = o.last().cloned();
    let is = |k: u32| match &last {
        Some(QueryOutputValue::Vertices(_)) => k == 0,
        Some(QueryOutputValue::Edges(_)) => k == 1,
        Some(QueryOutputValue::Count(_)) => k == 2,
        Some(QueryOutputValue::VertexProperties(_)) => k == 3,
        Some(QueryOutputValue::EdgeProperties(_)) => k == 4,
        None => false,
    };
    let k = choose(5);
    let got = match k {
        0 => util::extract_vertices(o).map(QueryOutputValue::Vertices),
        1 => util::extract_edges(o).map(QueryOutputValue::Edges),
        2 => util::extract_count(o).map(QueryOutputValue::Count),
        3 => util::extract_vertex_properties(o).map(QueryOutputValue::VertexProperties),
        _ => util::extract_edge_properties(o).map(QueryOutputValue::EdgeProperties),
    };
    check(got.is_some() == is(k), "an extractor takes an output for another kind");
    if let (Some(g), Some(w)) = (got, last) {
        check(o_eq(&g, &w), "an extractor gives something else than the last output");
        sym::reach("given");
    }
    // constructors
    let e = &s.es[0];
    let r = e.reversed();
    check(
        (r.outbound_id == e.inbound_id) & (r.inbound_id == e.outbound_id) & i_eq(&r.t, &e.t) & e_eq(&r.reversed(), e),
        "a reversed edge is another one",
    );
    sym::reach("end");
}
/// Directions and their names.
pub fn p32d() {
    let mut b = [0u8; 9];
    let n = choose(10) as usize;
    sym::bytes(&mut b[..n], "name");
    let mut ascii = true;
    for c in &b[..n] {
        ascii &= *c < 128;
    }
    sym::assume(ascii);
    let s = match std::str::from_utf8(&b[..n]) {
        Ok(s) => s,
        Err(_) => fail("harness"),
    };
    let w = if s == "outbound" {
        Some(EdgeDirection::Outbound)
    } else if s == "inbound" {
        Some(EdgeDirection::Inbound)
    } else {
        None
    };
    let g = s.parse::<EdgeDirection>();
    check(g.is_ok() == w.is_some(), "an unknown direction is accepted, or a known one rejected");
    if let (Ok(g), Some(w)) = (g, w) {
        check((g == EdgeDirection::Outbound) == (w == EdgeDirection::Outbound), "a direction is taken for the other one");
        check(String::from(g) == s, "a direction prints as another one");
        sym::reach("known");
    } else {
        sym::reach("unknown");
    }
}
