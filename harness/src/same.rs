//! Structural equality, written out (not the derived one).
use indradb::*;

pub fn j_eq(a: &Json, b: &Json) -> bool {
    crate::number::same(a, b)
}
pub fn e_eq(a: &Edge, b: &Edge) -> bool {
    (a.outbound_id == b.outbound_id) & (a.inbound_id == b.inbound_id) & (a.t.as_str() == b.t.as_str())
}
pub fn i_eq(a: &Identifier, b: &Identifier) -> bool {
    a.as_str() == b.as_str()
}
pub fn oi_eq(a: &Option<Identifier>, b: &Option<Identifier>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => i_eq(a, b),
        _ => false,
    }
}
pub fn l_eq<A>(a: &[A], b: &[A], f: impl Fn(&A, &A) -> bool) -> bool {
    let mut r = a.len() == b.len();
    for (x, y) in a.iter().zip(b) {
        r &= f(x, y);
    }
    r
}
pub fn q_eq(a: &Query, b: &Query) -> bool {
    match (a, b) {
        (Query::AllVertex, Query::AllVertex) | (Query::AllEdge, Query::AllEdge) => true,
        (Query::RangeVertex(a), Query::RangeVertex(b)) => {
            (a.limit == b.limit) & oi_eq(&a.t, &b.t) & (a.start_id.is_some() == b.start_id.is_some()) & (a.start_id == b.start_id)
        }
        (Query::SpecificVertex(a), Query::SpecificVertex(b)) => l_eq(&a.ids, &b.ids, |x, y| x == y),
        (Query::SpecificEdge(a), Query::SpecificEdge(b)) => l_eq(&a.edges, &b.edges, e_eq),
        (Query::VertexWithPropertyPresence(a), Query::VertexWithPropertyPresence(b)) => i_eq(&a.name, &b.name),
        (Query::EdgeWithPropertyPresence(a), Query::EdgeWithPropertyPresence(b)) => i_eq(&a.name, &b.name),
        (Query::VertexWithPropertyValue(a), Query::VertexWithPropertyValue(b)) => i_eq(&a.name, &b.name) & j_eq(&a.value, &b.value),
        (Query::EdgeWithPropertyValue(a), Query::EdgeWithPropertyValue(b)) => i_eq(&a.name, &b.name) & j_eq(&a.value, &b.value),
        (Query::Pipe(a), Query::Pipe(b)) => {
            ((a.direction == EdgeDirection::Outbound) == (b.direction == EdgeDirection::Outbound))
                & (a.limit == b.limit)
                & oi_eq(&a.t, &b.t)
                & q_eq(&a.inner, &b.inner)
        }
        (Query::PipeProperty(a), Query::PipeProperty(b)) => oi_eq(&a.name, &b.name) & q_eq(&a.inner, &b.inner),
        (Query::PipeWithPropertyPresence(a), Query::PipeWithPropertyPresence(b)) => {
            i_eq(&a.name, &b.name) & (a.exists == b.exists) & q_eq(&a.inner, &b.inner)
        }
        (Query::PipeWithPropertyValue(a), Query::PipeWithPropertyValue(b)) => {
            i_eq(&a.name, &b.name) & j_eq(&a.value, &b.value) & (a.equal == b.equal) & q_eq(&a.inner, &b.inner)
        }
        (Query::Include(a), Query::Include(b)) => q_eq(&a.inner, &b.inner),
        (Query::Count(a), Query::Count(b)) => q_eq(&a.inner, &b.inner),
        _ => false,
    }
}
pub fn v_eq(a: &Vertex, b: &Vertex) -> bool {
    (a.id == b.id) & i_eq(&a.t, &b.t)
}
pub fn np_eq(a: &NamedProperty, b: &NamedProperty) -> bool {
    i_eq(&a.name, &b.name) & j_eq(&a.value, &b.value)
}
pub fn o_eq(a: &QueryOutputValue, b: &QueryOutputValue) -> bool {
    match (a, b) {
        (QueryOutputValue::Vertices(a), QueryOutputValue::Vertices(b)) => l_eq(a, b, v_eq),
        (QueryOutputValue::Edges(a), QueryOutputValue::Edges(b)) => l_eq(a, b, e_eq),
        (QueryOutputValue::Count(a), QueryOutputValue::Count(b)) => a == b,
        (QueryOutputValue::VertexProperties(a), QueryOutputValue::VertexProperties(b)) => {
            l_eq(a, b, |x, y| v_eq(&x.vertex, &y.vertex) & l_eq(&x.props, &y.props, np_eq))
        }
        (QueryOutputValue::EdgeProperties(a), QueryOutputValue::EdgeProperties(b)) => {
            l_eq(a, b, |x, y| e_eq(&x.edge, &y.edge) & l_eq(&x.props, &y.props, np_eq))
        }
        _ => false,
    }
}
pub fn b_eq(a: &BulkInsertItem, b: &BulkInsertItem) -> bool {
    match (a, b) {
        (BulkInsertItem::Vertex(a), BulkInsertItem::Vertex(b)) => v_eq(a, b),
        (BulkInsertItem::Edge(a), BulkInsertItem::Edge(b)) => e_eq(a, b),
        (BulkInsertItem::VertexProperty(i, n, v), BulkInsertItem::VertexProperty(j, m, w)) => (i == j) & i_eq(n, m) & j_eq(v, w),
        (BulkInsertItem::EdgeProperty(i, n, v), BulkInsertItem::EdgeProperty(j, m, w)) => e_eq(i, j) & i_eq(n, m) & j_eq(v, w),
        _ => false,
    }
}
