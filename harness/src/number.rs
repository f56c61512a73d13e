//! P29: numbers keep their exact value.
use crate::core::{deep, props, se, sv};
use crate::world::*;
use indradb::*;
use serde_json::{Number, Value};
use sym::{choose, pick};
use uuid::Uuid;

/// The same number, bit for bit and of the same form.
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(a), Value::Number(b)) => {
            if a.is_f64() != b.is_f64() {
                return false;
            }
            if a.is_f64() {
                match (a.as_f64(), b.as_f64()) {
                    (Some(x), Some(y)) => x.to_bits() == y.to_bits(),
                    _ => false,
                }
            } else {
                a.as_u64() == b.as_u64() && a.as_i64() == b.as_i64()
            }
        }
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (Value::Object(a), Value::Object(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && same(x, y))
        }
        _ => a == b,
    }
}
fn float(bits: u64) -> Value {
    match Number::from_f64(f64::from_bits(bits)) {
        Some(n) => Value::Number(n),
        None => sym::fail("a finite number is not representable"),
    }
}
/// Every number there is.
pub fn any() -> Value {
    match choose(3) {
        0 => Value::from(sym::u64_("n")),
        1 => Value::from(sym::u64_("n") as i64),
        _ => {
            let bits = sym::u64_("n");
            sym::assume((bits >> 52) & 0x7ff != 0x7ff);
            float(bits)
        }
    }
}
/// Numbers whose decimal text is within reach of the solver.
pub fn texts(kind: u32) -> Value {
    match kind {
        0 => {
            // every number of up to 16 (24) bits
            let mut b = [0u8; 3];
            sym::bytes(&mut b[..if deep() { 3 } else { 2 }], "n");
            Value::from(b[0] as u64 | (b[1] as u64) << 8 | (b[2] as u64) << 16)
        }
        1 => {
            let base = pick(&[1u64 << 31, 1 << 32, (1 << 53) - 100, (1 << 63) - 100, u64::MAX - 255, 9_999_999_999_999_900]);
            Value::from(base + sym::u8_("n") as u64)
        }
        2 => {
            let base = pick(&[0i64, -(1 << 31), -(1 << 53) + 100, i64::MIN + 255]);
            Value::from(base - sym::u8_("n") as i64)
        }
        3 => {
            // sign, some exponents, the upper bits of the mantissa
            let e = if deep() { pick(&[1023u64, 1022, 1013, 1026, 1060, 1075]) } else { 1023 };
            let m = sym::u8_("n") as u64 & if deep() { 15 } else { 7 };
            let s = deep() && choose(2) == 1;
            float((s as u64) << 63 | e << 52 | m << if deep() { 48 } else { 49 })
        }
        _ => float(
            pick(&[
                0.0f64, -0.0, 1.0, -1.0, 3.0, 0.5, -7.25, 0.1, 0.3, 1e-7, 1e15, 1e16, 1e17, 1e21, 1e22, 123456.789, 2147483648.5,
                4294967296.0, 9007199254740992.0, 9223372036854775808.0, 18446744073709551616.0, 16777217.0, 1e-5,
                f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON,
                INEXACT[0].0, INEXACT[1].0,
            ])
            .to_bits(),
        ),
    }
}
/// Doubles whose text serde_json reads as their neighbours (known findings).
const INEXACT: [(f64, &str); 2] = [
    (1.1648475731910137, "1.1648475731910137 reads back as its neighbour from its JSON text"),
    (9007199254740991.0, "9007199254740991.0 reads back as its neighbour from its JSON text"),
];
fn f_of(v: &Value) -> Option<f64> {
    match v {
        Value::Array(a) => a.last().and_then(f_of),
        Value::Object(m) => m.values().next().and_then(f_of),
        _ if v.is_f64() => v.as_f64(),
        _ => None,
    }
}
/// The neighbour, and listed as such.
fn listed(got: &Value, v: &Value) -> bool {
    match (f_of(got), f_of(v)) {
        (Some(g), Some(f)) => {
            g.to_bits().abs_diff(f.to_bits()) == 1 && INEXACT.iter().any(|(x, k)| x.to_bits() == f.to_bits() && sym::known(k))
        }
        _ => false,
    }
}
pub fn compare(got: &Value, v: &Value) {
    if !same(got, v) && !listed(got, v) {
        sym::fail("a number reads back with another value");
    }
}
pub fn nest(n: Value) -> Value {
    match choose(3) {
        0 => n,
        1 => Value::Array(vec![Value::from(1), n]),
        _ => {
            let mut m = serde_json::Map::new();
            m.insert("k".to_string(), n);
            Value::Object(m)
        }
    }
}
fn read(o: Vec<QueryOutputValue>, p: Identifier) -> Option<Json> {
    match o.into_iter().next() {
        Some(QueryOutputValue::VertexProperties(v)) => {
            v.into_iter().next().and_then(|v| v.props.into_iter().find(|x| x.name == p)).map(|x| x.value)
        }
        Some(QueryOutputValue::EdgeProperties(v)) => {
            v.into_iter().next().and_then(|v| v.props.into_iter().find(|x| x.name == p)).map(|x| x.value)
        }
        _ => None,
    }
}
fn kept<D: Datastore>(db: &Database<D>, q: Query, p: Identifier, v: &Value) {
    match db.get(q).ok().and_then(|o| read(o, p)) {
        Some(j) => compare(&j.0, v),
        None => sym::fail("a stored number is not found"),
    }
}
fn found<D: Datastore>(db: &Database<D>, q: Query) -> Option<usize> {
    match db.get(q).ok()?.into_iter().next()? {
        QueryOutputValue::Vertices(v) => Some(v.len()),
        QueryOutputValue::Edges(e) => Some(e.len()),
        _ => None,
    }
}
/// A stored number: `again` closes and reopens the database.
pub fn p29<D: Datastore>(w: World<D>, v: Value, all: bool, again: impl Fn(Database<D>) -> Database<D>) {
    let db = w.db;
    let v = if all { nest(v) } else { v };
    let (t, p) = (ident("t"), ident("p"));
    let (a, b) = (Uuid::from_u128(1), Uuid::from_u128(2));
    let e = Edge::new(a, t, b);
    let ok = |r: Result<bool>| sym::check(matches!(r, Ok(true)), "an operation failed");
    let done = |r: Result<()>| sym::check(r.is_ok(), "an operation failed");
    ok(db.create_vertex(&Vertex::with_id(a, t)));
    ok(db.create_vertex(&Vertex::with_id(b, t)));
    ok(db.create_edge(&e));
    let indexed = all && choose(2) == 1;
    if indexed {
        done(db.index_property(p));
    }
    let j = json(v.clone());
    let how = if all { choose(4) } else { 0 };
    let q = match how {
        0 => {
            done(db.set_properties(sv(&[a]), p, &j));
            sv(&[a])
        }
        1 => {
            done(db.set_properties(se(&[e.clone()]), p, &j));
            se(&[e.clone()])
        }
        2 => {
            done(db.bulk_insert(vec![BulkInsertItem::VertexProperty(a, p, j.clone())]));
            sv(&[a])
        }
        _ => {
            done(db.bulk_insert(vec![BulkInsertItem::EdgeProperty(e.clone(), p, j.clone())]));
            se(&[e.clone()])
        }
    };
    let q = props(q, if all && choose(2) == 1 { Some(p) } else { None });
    kept(&db, q.clone(), p, &v);
    let db = again(db);
    kept(&db, q.clone(), p, &v);
    if indexed {
        // Found by its value, and gone from the index once it's deleted
        let edges = how % 2 == 1;
        let by_value: Query = if edges {
            EdgeWithPropertyValueQuery::new(p, j.clone()).into()
        } else {
            VertexWithPropertyValueQuery::new(p, j.clone()).into()
        };
        sym::check(found(&db, by_value) == Some(1), "an indexed number is not found by its value");
        done(db.delete(q));
        let by_name: Query =
            if edges { EdgeWithPropertyPresenceQuery::new(p).into() } else { VertexWithPropertyPresenceQuery::new(p).into() };
        match found(&db, by_name) {
            Some(0) => (),
            Some(1) if INEXACT.iter().any(|(x, k)| f_of(&v).map(f64::to_bits) == Some(x.to_bits()) && sym::known(k)) => (),
            _ => sym::fail("the index entry of a deleted number stays behind"),
        }
    }
    sym::reach("end");
}
