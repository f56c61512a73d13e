//! Large values and many indexed names.
use crate::core::deep;
use crate::dur::reopen;
use crate::world::*;
use indradb::*;
use serde_json::Value;
use sym::choose;

/// Values beyond the sizes of buffers, of bytes and of 16-bit lengths.
pub fn huge() -> Vec<Json> {
    // two-byte characters at odd offsets, so that no even boundary is one
    // between characters
    let mut long = String::from("x");
    for _ in 0..33_000 {
        long.push('\u{e9}');
    }
    let mut other = long.clone();
    other.pop();
    other.push('\u{e8}');
    let mut deep = Value::from(1u64);
    for _ in 0..100 {
        deep = Value::from(vec![deep]);
    }
    let mut o = serde_json::Map::new();
    for i in 0..300u64 {
        o.insert(format!("key{i}"), Value::from(i));
    }
    vec![
        json(Value::from(long)),
        json(Value::from(other)),
        json(Value::from("y".repeat(300))),
        json(Value::from("y".repeat(5000))),
        json(Value::from((0..300u64).map(Value::from).collect::<Vec<_>>())),
        json(Value::from(o)),
        json(deep),
    ]
}
/// P06, P07, P15, P16: large values, each overwritten by each.
pub fn wide<D: Datastore>(mut w: World<D>, index: bool, mut again: impl FnMut(World<D>) -> World<D>) {
    let (a, t) = (uuid("a"), ident("t"));
    w.create_vertex(a, t);
    let e = Edge::new(a, t, a);
    w.create_edge(&e);
    let (p, q) = (ident("p"), ident("q"));
    let vs = huge();
    let (v, u) = (&vs[choose(vs.len() as u32) as usize], &vs[choose(vs.len() as u32) as usize]);
    let first = choose(2) == 0;
    if index && first {
        w.index(p);
    }
    w.set_vp(a, p, v);
    w.set_vp(a, q, u);
    w.set_ep(&e, p, v);
    if index && !first {
        w.index(p);
    }
    w = again(w);
    w.set_ep(&e, p, u);
    let look = |w: &World<D>| {
        w.obs_vprops();
        w.obs_eprops();
        if index {
            w.obs_index();
        }
    };
    look(&w);
    w.set_vp(a, p, u);
    w = again(w);
    look(&w);
    sym::reach("end");
}
pub fn through(w: World<RocksdbDatastore>) -> World<RocksdbDatastore> {
    let World { db, m, names, vals } = w;
    World { db: reopen(db), m, names, vals }
}
/// P07: more indexed names than any word has bits.
pub fn indexes<D: Datastore>(mut w: World<D>, mut again: impl FnMut(World<D>) -> World<D>) {
    let (a, t) = (uuid("a"), ident("t"));
    w.create_vertex(a, t);
    let e = Edge::new(a, t, a);
    w.create_edge(&e);
    let n = if deep() { 270 } else { 70 };
    let ns: Vec<Identifier> = (0..n).map(|i| ident(&format!("n{i}"))).collect();
    let at = [0, 1, n / 2, n - 2, n - 1][choose(5) as usize] as usize;
    let other = [0, 1, n / 2, n - 2, n - 1][choose(5) as usize] as usize;
    let before = choose(2) == 0;
    if before {
        w.set_vp(a, ns[at], &val(0));
        w.set_ep(&e, ns[at], &val(1));
    }
    for x in &ns {
        w.index(*x);
    }
    w = again(w);
    if !before {
        w.set_vp(a, ns[at], &val(0));
        w.set_ep(&e, ns[at], &val(1));
    }
    w.set_vp(a, ns[other], &val(1));
    w.names = vec![ns[at], ns[other], ns[2], ident("n")];
    w.vals = vec![val(0), val(1)];
    w.obs_index();
    w = again(w);
    w.delete_vertex(a);
    w.obs_index();
    w.create_vertex(a, t);
    w.obs_index();
    sym::reach("end");
}
