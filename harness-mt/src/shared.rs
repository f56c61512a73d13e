//! P24: two threads use the same database; every interleaving of their storage
//! operations and lock acquisitions (up to the number of preemptions) must give
//! the results and the state of one of the orders of the operations.
use harness::core::{count_of, pipe, props, se, sv};
use harness::dur::{put, snap};
use harness::world::{ident, uuid, val};
use indradb::*;
use sym::choose;
use uuid::Uuid;

pub fn disk(i: u32) -> Database<RocksdbDatastore> {
    let p = ["/verif-no-such-dir/a", "/verif-no-such-dir/b", "/verif-no-such-dir/c", "/verif-no-such-dir/d"];
    match RocksdbDatastore::new_db(p[i as usize]) {
        Ok(d) => d,
        Err(_) => sym::fail("the database does not open"),
    }
}
#[derive(Clone)]
enum Op {
    Vertex(Vertex),
    Edge(Edge),
    Set(Query, Identifier, Json),
    Delete(Query),
    Index(Identifier),
    Bulk(Vec<BulkInsertItem>),
    Get(Query),
}
struct Scene {
    a: Uuid,
    b: Uuid,
    c: Uuid,
    t: [Identifier; 2],
    n: Identifier,
    e: Edge,
}
impl Scene {
    fn new() -> Scene {
        let (a, b, c) = (uuid("a"), uuid("b"), uuid("c"));
        if sym::tier() > 0 {
            sym::assume((a != b) & (a != c) & (b != c));
        } else {
            sym::assume((a.as_u128() < b.as_u128()) & (b.as_u128() < c.as_u128()));
        }
        let t = [ident("t"), ident("tt")];
        Scene { a, b, c, t, n: ident("n"), e: Edge::new(a, t[0], b) }
    }
    fn populate<D: Datastore>(&self, db: &Database<D>, full: bool, indexed: bool) {
        let ok = (|| {
            if indexed {
                db.index_property(self.n)?;
            }
            db.create_vertex(&Vertex::with_id(self.b, self.t[0]))?;
            if full {
                db.create_vertex(&Vertex::with_id(self.a, self.t[0]))?;
                db.create_edge(&self.e)?;
                db.set_properties(sv(&[self.a]), self.n, &val(0))?;
                db.set_properties(se(&[self.e.clone()]), self.n, &val(0))?;
            }
            Ok::<(), Error>(())
        })();
        sym::check(ok.is_ok(), "harness: setup");
    }
    /// Operation `k` as the thread `w` does it.
    fn op(&self, k: u32, w: usize) -> Op {
        let v = val(1 + w as u32);
        match k {
            0 => Op::Vertex(Vertex::with_id(self.a, self.t[w])),
            1 => Op::Edge(self.e.clone()),
            2 => Op::Delete(sv(&[self.a])),
            3 => Op::Set(sv(&[self.a]), self.n, v),
            4 => Op::Index(self.n),
            5 => Op::Delete(props(sv(&[self.a]), Some(self.n))),
            6 => Op::Set(se(&[self.e.clone()]), self.n, v),
            7 => Op::Delete(se(&[self.e.clone()])),
            8 => Op::Bulk(vec![
                BulkInsertItem::Vertex(Vertex::with_id(self.c, self.t[0])),
                BulkInsertItem::VertexProperty(self.c, self.n, v),
                BulkInsertItem::Edge(Edge::new(self.c, self.t[0], self.b)),
            ]),
            9 => Op::Edge(Edge::new(self.a, self.t[1], self.a)),
            // reads
            10 => Op::Get(sv(&[self.a])),
            11 => Op::Get(props(sv(&[self.a]), Some(self.n))),
            12 => Op::Get(pipe(sv(&[self.a]), EdgeDirection::Outbound, None, None)),
            13 => Op::Get(count_of(AllVertexQuery.into())),
            14 => Op::Get(count_of(AllEdgeQuery.into())),
            _ => Op::Get(se(&[self.e.clone()])),
        }
    }
}
const WRITES: u32 = 10;
const ALL: u32 = 16;
fn do_op<D: Datastore>(db: &Database<D>, o: &Op, out: &mut Vec<u8>) {
    let unit = |r: Result<()>, out: &mut Vec<u8>| match r {
        Ok(()) => out.push(1),
        Err(_) => sym::fail("an operation fails"),
    };
    let flag = |r: Result<bool>, out: &mut Vec<u8>| match r {
        Ok(b) => out.push(b as u8),
        Err(_) => sym::fail("an operation fails"),
    };
    match o.clone() {
        Op::Vertex(v) => flag(db.create_vertex(&v), out),
        Op::Edge(e) => flag(db.create_edge(&e), out),
        Op::Set(q, n, v) => unit(db.set_properties(q, n, &v), out),
        Op::Delete(q) => unit(db.delete(q), out),
        Op::Index(n) => unit(db.index_property(n), out),
        Op::Bulk(i) => unit(db.bulk_insert(i), out),
        Op::Get(q) => put(db, q, out),
    }
}
type Log = Vec<Vec<u8>>;
fn run<D: Datastore>(db: &Database<D>, ops: &[Op], log: &mut Log) {
    for o in ops {
        let mut r = vec![];
        do_op(db, o, &mut r);
        log.push(r);
    }
}
fn state<D: Datastore>(s: &Scene, db: &Database<D>) -> Vec<u8> {
    snap(db, &[s.a, s.b, s.c], &[s.n], &[val(0), val(1), val(2)])
}
fn check<D: Datastore + Send + Sync + 'static>(mk: fn(u32) -> Database<D>, s: Scene, full: bool, indexed: bool, ops: [Vec<Op>; 2]) {
    // what each order gives: (results of both threads, final state)
    let (n, m) = (ops[0].len(), ops[1].len());
    let mut orders: Vec<([Log; 2], Vec<u8>)> = vec![];
    for mask in 0u32..1 << (n + m) {
        if mask.count_ones() as usize != m {
            continue;
        }
        let twin = mk(1 + orders.len() as u32);
        s.populate(&twin, full, indexed);
        let mut logs: [Log; 2] = [vec![], vec![]];
        for i in 0..n + m {
            let w = (mask >> i & 1) as usize;
            let o = &ops[w][logs[w].len()];
            run(&twin, std::slice::from_ref(o), &mut logs[w]);
        }
        orders.push((logs, state(&s, &twin)));
    }
    let db: &'static Database<D> = Box::leak(Box::new(mk(0)));
    s.populate(db, full, indexed);
    let ops: &'static [Vec<Op>; 2] = Box::leak(Box::new(ops));
    let logs: &'static mut [Log; 2] = Box::leak(Box::new([vec![], vec![]]));
    let [x, y] = &mut *logs;
    let (px, py) = (x as *mut Log as usize, y as *mut Log as usize);
    rocksdb::ctl::get().sched = true;
    let a = sym::spawn(Box::new(move || run(db, &ops[0], unsafe { &mut *(px as *mut Log) })));
    let b = sym::spawn(Box::new(move || run(db, &ops[1], unsafe { &mut *(py as *mut Log) })));
    sym::join(a);
    sym::join(b);
    rocksdb::ctl::get().sched = false;
    sym::reach("ran");
    let got = state(&s, db);
    let same = orders.iter().any(|(l, st)| *l == *logs && *st == got);
    sym::check(same, "concurrent operations have results or a final state that no order of them has");
    sym::reach("end");
}
/// One operation each.
pub fn p24<D: Datastore + Send + Sync + 'static>(mk: fn(u32) -> Database<D>) {
    let s = Scene::new();
    let (full, indexed) = (choose(2) == 1, choose(2) == 1);
    let i = choose(WRITES);
    let j = choose(ALL);
    // both orders of a pair are the same scenario
    sym::assume(j >= i);
    let ops = [vec![s.op(i, 0)], vec![s.op(j, 1)]];
    check(mk, s, full, indexed, ops);
}
/// Two operations against one.
pub fn p24s<D: Datastore + Send + Sync + 'static>(mk: fn(u32) -> Database<D>) {
    let s = Scene::new();
    let indexed = choose(2) == 1;
    let i = choose(WRITES);
    let k = choose(WRITES);
    let j = choose(WRITES);
    if sym::tier() == 0 {
        sym::assume(i < 5 && k < 5 && j < 5);
    }
    let ops = [vec![s.op(i, 0), s.op(k, 0)], vec![s.op(j, 1)]];
    check(mk, s, true, indexed, ops);
}
