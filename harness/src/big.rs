//! Large scenes: hundreds of elements around one vertex, so that batching,
//! paging, buffering and chunking show. All ids share twelve symbolic bytes
//! and differ in the last four, which are concrete: what happens at a size
//! is the same for every prefix, and the number of an element can be read
//! back from its id, which keeps the reference linear.
use crate::core::{count_of, pipe, props, se, sv};
use crate::dur::reopen;
use crate::world::*;
use indradb::*;
use rocksdb::ctl;
use sym::{check, choose, fail, pick};
use uuid::Uuid;

const BAD: &str = "in a large database, ";
fn deep() -> bool {
    sym::tier() > 0
}
fn bad(c: bool, what: &str) {
    if !c {
        let mut s = String::from(BAD);
        s.push_str(what);
        fail(&s);
    }
}
fn ok<T>(r: Result<T>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => fail("in a large database, a valid operation failed"),
    }
}

/// What should be there. Vertex 0 is the hub, every other vertex has an edge
/// from it and, every second one, one to it.
#[derive(Clone)]
pub struct Big {
    pre: [u8; 12],
    pub n: u32,
    t: [Identifier; 2],
    p: Identifier,
    indexed: bool,
    /// whether the vertex exists, and its property `p`
    v: Vec<Option<Option<u32>>>,
    /// edge from the hub, edge to the hub, and their property
    out: Vec<Option<Option<u32>>>,
    inn: Vec<Option<Option<u32>>>,
}
fn half(i: u32) -> u32 {
    i % 2
}
impl Big {
    pub fn new(n: u32) -> Big {
        let mut pre = [0u8; 12];
        sym::bytes(&mut pre, "prefix");
        sym::assume(pre[0] != 0);
        let z = vec![None; n as usize];
        Big { pre, n, t: [ident("t"), ident("tt")], p: ident("p"), indexed: false, v: z.clone(), out: z.clone(), inn: z }
    }
    pub fn id(&self, i: u32) -> Uuid {
        let mut b = [0u8; 16];
        b[..12].copy_from_slice(&self.pre);
        b[12..].copy_from_slice(&i.to_be_bytes());
        Uuid::from_bytes(b)
    }
    fn num(&self, id: &Uuid) -> u32 {
        let b = id.as_bytes();
        bad(b[..12] == self.pre, "an element appears from nowhere");
        let n = u32::from_be_bytes([b[12], b[13], b[14], b[15]]);
        bad(n < self.n, "an element appears from nowhere");
        n
    }
    fn ty(&self, i: u32) -> Identifier {
        self.t[(i % 2) as usize]
    }
    fn to(&self, i: u32) -> Edge {
        Edge::new(self.id(0), self.ty(i), self.id(i))
    }
    fn from(&self, i: u32) -> Edge {
        Edge::new(self.id(i), self.ty(i), self.id(0))
    }
    /// Everything, in a scrambled order, as operations.
    pub fn items(&mut self) -> Vec<BulkInsertItem> {
        let n = self.n;
        let mut l = vec![];
        let order = |k: u32| (k * 7 + 3) % n;
        for k in 0..n {
            let i = order(k);
            l.push(BulkInsertItem::Vertex(Vertex::with_id(self.id(i), self.ty(i))));
            self.v[i as usize] = Some(Some(half(i)));
        }
        for k in 0..n {
            let i = order(k);
            l.push(BulkInsertItem::VertexProperty(self.id(i), self.p, val(half(i))));
        }
        for k in 0..n {
            let i = order(k);
            if i == 0 {
                continue;
            }
            l.push(BulkInsertItem::Edge(self.to(i)));
            l.push(BulkInsertItem::EdgeProperty(self.to(i), self.p, val(half(i))));
            self.out[i as usize] = Some(Some(half(i)));
            if i % 2 == 0 {
                l.push(BulkInsertItem::Edge(self.from(i)));
                l.push(BulkInsertItem::EdgeProperty(self.from(i), self.p, val(half(i / 2))));
                self.inn[i as usize] = Some(Some(half(i / 2)));
            }
        }
        l
    }
    /// The same as single operations.
    pub fn fill<D: Datastore>(&mut self, db: &Database<D>) {
        for i in self.items() {
            match i {
                BulkInsertItem::Vertex(v) => bad(ok(db.create_vertex(&v)), "a vertex with an unused id is refused"),
                BulkInsertItem::Edge(e) => bad(ok(db.create_edge(&e)), "an edge between existing vertices is refused"),
                BulkInsertItem::VertexProperty(v, p, x) => ok(db.set_properties(sv(&[v]), p, &x)),
                BulkInsertItem::EdgeProperty(e, p, x) => ok(db.set_properties(se(&[e]), p, &x)),
            }
        }
    }
    pub fn index<D: Datastore>(&mut self, db: &Database<D>) {
        ok(db.index_property(self.p));
        self.indexed = true;
    }

    // ---- what is there, against what should be -----------------------------

    fn vs(&self, r: Vec<Vertex>, want: impl Fn(u32) -> bool, sorted: bool, what: &str) {
        let mut seen = vec![false; self.n as usize];
        let mut last = None;
        for v in &r {
            let i = self.num(&v.id);
            bad(want(i) && !seen[i as usize] && v.t == self.ty(i), what);
            bad(!sorted || last.is_none_or(|l| l < i), what);
            last = Some(i);
            seen[i as usize] = true;
        }
        bad(r.len() == (0..self.n).filter(|i| want(*i)).count(), what);
    }
    /// `(outgoing, i)` of an edge.
    fn edge(&self, e: &Edge) -> (bool, u32) {
        let (a, b) = (self.num(&e.outbound_id), self.num(&e.inbound_id));
        let r = if a == 0 { (true, b) } else { (false, a) };
        bad((a == 0) != (b == 0) && e.t == self.ty(r.1), "an edge appears from nowhere");
        r
    }
    /// The number of edges, if they are all as they should be.
    fn es(&self, r: &[Edge], want: impl Fn(bool, u32) -> bool, what: &str) -> usize {
        let mut seen = vec![[false; 2]; self.n as usize];
        for e in r {
            let (o, i) = self.edge(e);
            bad(want(o, i) && !seen[i as usize][o as usize], what);
            seen[i as usize][o as usize] = true;
        }
        r.len()
    }
    fn all_es(&self, r: &[Edge], want: impl Fn(bool, u32) -> bool, what: &str) {
        let n: usize = (0..self.n).map(|i| want(true, i) as usize + want(false, i) as usize).sum();
        bad(self.es(r, want, what) == n, what);
    }
    fn has(&self, out: bool, i: u32) -> Option<Option<u32>> {
        if out {
            self.out[i as usize]
        } else {
            self.inn[i as usize]
        }
    }
    fn value(&self, got: &[NamedProperty], want: Option<u32>) {
        let what = "a property is not the last value written";
        bad(got.len() <= 1, what);
        match (got.first(), want) {
            (None, None) => {}
            (Some(g), Some(w)) => bad(g.name == self.p && json_eq(&g.value, &val(w)), what),
            _ => bad(false, what),
        }
    }
    pub fn observe<D: Datastore>(&self, db: &Database<D>) {
        let here = |i: u32| self.v[i as usize].is_some();
        let edge = |o: bool, i: u32| self.has(o, i).is_some();
        let what = "a query for vertices gives others";
        self.vs(vertices(db.get(AllVertexQuery), what), here, false, what);
        let n = (0..self.n).filter(|i| here(*i)).count() as u64;
        bad(count(db.get(count_of(AllVertexQuery.into())), what) == n, "the vertex count is wrong");
        self.vs(vertices(db.get(RangeVertexQuery::new()), what), here, true, what);
        let all: Vec<Uuid> = (0..self.n).map(|i| self.id(i)).collect();
        self.vs(vertices(db.get(sv(&all)), what), here, false, what);
        let what = "a query for edges gives others";
        self.all_es(&edges(db.get(AllEdgeQuery), what), edge, what);
        let n: usize = (0..self.n).map(|i| edge(true, i) as usize + edge(false, i) as usize).sum();
        bad(count(db.get(count_of(AllEdgeQuery.into())), what) == n as u64, "the edge count is wrong");
        let all: Vec<Edge> = (1..self.n).flat_map(|i| [self.to(i), self.from(i)]).collect();
        self.all_es(&edges(db.get(se(&all)), what), edge, what);
        for (o, d) in [(true, EdgeDirection::Outbound), (false, EdgeDirection::Inbound)] {
            let hub = sv(&[self.id(0)]);
            self.all_es(&edges(db.get(pipe(hub.clone(), d, None, None)), what), |x, i| x == o && edge(o, i), what);
            self.all_es(
                &edges(db.get(pipe(hub, d, Some(self.t[1]), None)), what),
                |x, i| x == o && edge(o, i) && i % 2 == 1,
                what,
            );
            // from the other end
            let rest: Vec<Uuid> = (1..self.n).map(|i| self.id(i)).collect();
            self.all_es(&edges(db.get(pipe(sv(&rest), d, None, None)), what), |x, i| x != o && edge(x, i), what);
        }
        let mut k = 0;
        for p in vprops(db.get(props(AllVertexQuery.into(), None)), "a property query failed") {
            let i = self.num(&p.vertex.id);
            bad(here(i) && p.vertex.t == self.ty(i), "a property appears from nowhere");
            self.value(&p.props, self.v[i as usize].flatten());
            k += p.props.len();
        }
        bad(k == self.v.iter().filter(|x| x.flatten().is_some()).count(), "a property is gone");
        let mut k = 0;
        for p in eprops(db.get(props(AllEdgeQuery.into(), None)), "a property query failed") {
            let (o, i) = self.edge(&p.edge);
            bad(edge(o, i), "a property appears from nowhere");
            self.value(&p.props, self.has(o, i).flatten());
            k += p.props.len();
        }
        bad(k == self.out.iter().chain(&self.inn).filter(|x| x.flatten().is_some()).count(), "a property is gone");
        let what = "an index query gives others than have the property";
        if !self.indexed {
            bad(matches!(db.get(VertexWithPropertyPresenceQuery::new(self.p)), Err(Error::NotIndexed)), what);
            return;
        }
        let v = |i: u32| self.v[i as usize].flatten();
        let e = |o: bool, i: u32| self.has(o, i).flatten();
        self.vs(vertices(db.get(VertexWithPropertyPresenceQuery::new(self.p)), what), |i| v(i).is_some(), false, what);
        self.all_es(&edges(db.get(EdgeWithPropertyPresenceQuery::new(self.p)), what), |o, i| e(o, i).is_some(), what);
        for x in 0..3 {
            let q = VertexWithPropertyValueQuery::new(self.p, val(x));
            self.vs(vertices(db.get(q), what), |i| v(i) == Some(x), false, what);
            let q = EdgeWithPropertyValueQuery::new(self.p, val(x));
            self.all_es(&edges(db.get(q), what), |o, i| e(o, i) == Some(x), what);
        }
    }

    // ---- operations --------------------------------------------------------

    fn drop_v(&mut self, i: u32) {
        self.v[i as usize] = None;
        if i == 0 {
            self.out.fill(None);
            self.inn.fill(None);
        }
        self.out[i as usize] = None;
        self.inn[i as usize] = None;
    }
    fn drop_if(&mut self, f: impl Fn(u32) -> bool) {
        for i in 0..self.n {
            if f(i) {
                self.drop_v(i);
            }
        }
    }
    /// One operation on many elements; the query or items to do it with.
    pub fn op(&mut self, k: u32) -> crate::dur::Do {
        use crate::dur::Do;
        let n = self.n;
        let all = AllVertexQuery.into();
        match k {
            0 => {
                self.drop_v(0);
                Do::Delete(sv(&[self.id(0)]))
            }
            1 => {
                self.drop_if(|_| true);
                Do::Delete(all)
            }
            2 => {
                // all but the last few
                self.drop_if(|i| i + 3 < n);
                Do::Delete(RangeVertexQuery::new().limit(n - 3).into())
            }
            3 => {
                self.out.fill(None);
                Do::Delete(pipe(sv(&[self.id(0)]), EdgeDirection::Outbound, None, None))
            }
            4 => {
                self.out.fill(None);
                self.inn.fill(None);
                Do::Delete(AllEdgeQuery.into())
            }
            5 => {
                let es: Vec<Edge> = (1..n).map(|i| self.to(i)).collect();
                self.out.fill(None);
                Do::Delete(se(&es))
            }
            6 => {
                for x in &mut self.v {
                    *x = x.map(|_| None);
                }
                Do::Delete(props(all, Some(self.p)))
            }
            7 => {
                for x in self.out.iter_mut().chain(&mut self.inn) {
                    *x = x.map(|_| None);
                }
                Do::Delete(props(AllEdgeQuery.into(), None))
            }
            8 => {
                for x in &mut self.v {
                    *x = x.map(|_| Some(2));
                }
                Do::Set(all, self.p, val(2))
            }
            9 => {
                for x in self.out.iter_mut().chain(&mut self.inn) {
                    *x = x.map(|_| Some(2));
                }
                Do::Set(AllEdgeQuery.into(), self.p, val(2))
            }
            10 => {
                // overwrites and additions
                let mut l = vec![];
                for i in 0..n {
                    l.push(BulkInsertItem::VertexProperty(self.id(i), self.p, val(2)));
                    self.v[i as usize] = Some(Some(2));
                    if i % 2 == 1 {
                        l.push(BulkInsertItem::Edge(self.from(i)));
                        l.push(BulkInsertItem::EdgeProperty(self.from(i), self.p, val(1)));
                        self.inn[i as usize] = Some(Some(1));
                    }
                }
                Do::Bulk(l)
            }
            12 => {
                // properties only, each of them set three times
                let mut l = vec![];
                for x in 0..3 {
                    for i in 0..n {
                        let w = (i + x) % 3;
                        l.push(BulkInsertItem::VertexProperty(self.id(i), self.p, val(w)));
                        self.v[i as usize] = Some(Some(w));
                        if i != 0 {
                            let w = (i + 2 * x) % 3;
                            l.push(BulkInsertItem::EdgeProperty(self.to(i), self.p, val(w)));
                            self.out[i as usize] = Some(Some(w));
                        }
                    }
                }
                Do::Bulk(l)
            }
            _ => {
                self.indexed = true;
                Do::Index(self.p)
            }
        }
    }
    pub fn run<D: Datastore>(&mut self, db: &Database<D>, k: u32) {
        let d = self.op(k);
        ok(crate::dur::exec(db, &d));
    }
    /// Everything once more, after something was deleted: nothing old shows.
    fn again<D: Datastore>(&mut self, db: &Database<D>) {
        for i in 0..self.n {
            if self.v[i as usize].is_none() {
                bad(ok(db.create_vertex(&Vertex::with_id(self.id(i), self.ty(i)))), "a deleted vertex cannot be created again");
                self.v[i as usize] = Some(None);
            }
        }
        for i in 1..self.n {
            if self.out[i as usize].is_none() {
                bad(ok(db.create_edge(&self.to(i))), "a deleted edge cannot be created again");
                self.out[i as usize] = Some(None);
            }
        }
        self.observe(db);
    }
}
pub fn size() -> u32 {
    if deep() {
        1100
    } else {
        270
    }
}

/// P03, P04, P06, P07: an operation on everything, of the given kinds.
pub fn ops<D: Datastore>(w: World<D>, kinds: &[u32]) {
    let db = w.db;
    let mut b = Big::new(size());
    let late = choose(2) == 1;
    if !late {
        b.index(&db);
    }
    b.fill(&db);
    if late {
        b.index(&db);
    }
    let k = pick(kinds);
    b.run(&db, k);
    b.observe(&db);
    if k < 6 {
        b.again(&db);
    }
    sym::reach("end");
}
/// P13: one large batch.
pub fn bulk<D: Datastore>(w: World<D>) {
    let db = w.db;
    let mut b = Big::new(size());
    let first = choose(2) == 1;
    if first {
        b.index(&db);
    }
    let l = b.items();
    ok(db.bulk_insert(l));
    if !first {
        b.index(&db);
    }
    b.observe(&db);
    b.run(&db, 10);
    b.observe(&db);
    b.run(&db, 12);
    b.observe(&db);
    sym::reach("end");
}
/// P08 (vertices), P09 (edges): limits around the number of elements, filters, starts.
pub fn limits<D: Datastore>(w: World<D>, of: &[u32]) {
    let db = w.db;
    let mut b = Big::new(if deep() { 2100 } else { 1100 });
    let l = b.items();
    ok(db.bulk_insert(l));
    let n = b.n;
    let k = pick(&[0, 1, 2, n / 2, n - 1, n, n + 1, u32::MAX]);
    match pick(of) {
        0 => {
            let s = pick(&[0, 1, n / 2, n - 1]);
            let t = choose(3);
            let mut q = RangeVertexQuery::new().start_id(b.id(s)).limit(k);
            if t < 2 {
                q = q.t(b.t[t as usize]);
            }
            let sel = |i: u32| i >= s && (t == 2 || i % 2 == t);
            let r = vertices(db.get(q), "a range query failed");
            // the first k of them
            let want: Vec<u32> = (0..n).filter(|i| sel(*i)).take(k as usize).collect();
            let same = r.len() == want.len() && r.iter().zip(&want).all(|(v, i)| b.num(&v.id) == *i && v.t == b.ty(*i));
            bad(same, "a range query gives other vertices than the first ones");
        }
        1 => {
            let (o, d) = pick(&[(true, EdgeDirection::Outbound), (false, EdgeDirection::Inbound)]);
            let t = choose(3);
            let f = if t < 2 { Some(b.t[t as usize]) } else { None };
            let r = edges(db.get(pipe(sv(&[b.id(0)]), d, f, Some(k))), "a traversal failed");
            let sel = |x: bool, i: u32| x == o && b.has(o, i).is_some() && (t == 2 || i % 2 == t);
            let m = b.es(&r, sel, "a traversal gives other edges");
            let all = (0..n).filter(|i| sel(o, *i)).count();
            bad(m == all.min(k as usize), "a traversal gives more or fewer edges than its limit");
        }
        _ => {
            // from many vertices: the limit is of all together
            let all: Vec<Uuid> = (0..n).map(|i| b.id(i)).collect();
            let r = edges(db.get(pipe(sv(&all), EdgeDirection::Outbound, None, Some(k))), "a traversal failed");
            let m = b.es(&r, |o, i| b.has(o, i).is_some(), "a traversal gives other edges");
            let hub = (0..n).filter(|i| b.out[*i as usize].is_some()).count();
            let rest = (0..n).filter(|i| b.inn[*i as usize].is_some()).count();
            bad(m == (hub + rest).min(k as usize), "a traversal gives more or fewer edges than its limit");
        }
    }
    sym::reach("end");
}
/// P06: many properties of one owner.
pub fn names<D: Datastore>(w: World<D>) {
    let db = w.db;
    let n = if deep() { 600 } else { 302 };
    let (a, c) = (uuid("a"), uuid("b"));
    sym::assume(a != c);
    let t = ident("t");
    for id in [a, c] {
        ok(db.create_vertex(&Vertex::with_id(id, t)));
    }
    let e = Edge::new(a, t, c);
    ok(db.create_edge(&e));
    let of_edge = choose(2) == 1;
    let name = |i: u32| ident(&format!("n{i}"));
    let q = || if of_edge { se(&[e.clone()]) } else { sv(&[a]) };
    for k in 0..n {
        let i = (k * 7 + 3) % n;
        ok(db.set_properties(q(), name(i), &json(serde_json::Value::from(i))));
    }
    let gone = choose(3);
    match gone {
        0 => {}
        1 => {
            for i in 0..n {
                if i % 3 == 0 {
                    ok(db.delete(props(q(), Some(name(i)))));
                }
            }
        }
        _ => ok(db.delete(props(q(), None))),
    }
    let want = |i: u32| match gone {
        0 => true,
        1 => i % 3 != 0,
        _ => false,
    };
    let l = if of_edge {
        eprops(db.get(props(q(), None)), "a property query failed").into_iter().flat_map(|p| p.props).collect::<Vec<_>>()
    } else {
        vprops(db.get(props(q(), None)), "a property query failed").into_iter().flat_map(|p| p.props).collect::<Vec<_>>()
    };
    let mut seen = vec![false; n as usize];
    for p in &l {
        let i = match p.value.0.as_u64() {
            Some(i) => i as u32,
            None => fail("a property has another value"),
        };
        bad(i < n && want(i) && !seen[i as usize] && p.name == name(i), "a property is not the last value written");
        seen[i as usize] = true;
    }
    bad(l.len() == (0..n).filter(|i| want(*i)).count(), "a property is gone");
    sym::reach("end");
}

/// P14, P30: the process dies, or a write fails, somewhere in a large operation.
pub fn broken(die: bool) {
    let db = open_rdb();
    let mut b = Big::new(size());
    b.index(&db);
    let l = b.items();
    ok(db.bulk_insert(l));
    let mut after = b.clone();
    let d = after.op(choose(11));
    ctl::reset();
    let at = choose(4);
    if die {
        ctl::get().die_at = Some(at);
    } else {
        ctl::get().fail_at = Some(at);
    }
    let r = crate::dur::exec(&db, &d);
    let hit = ctl::get().writes > at;
    if die {
        // still dead while the database is dropped: nothing more gets stored
        let dead = hit;
        let db = reopen(db);
        let n = |x: &Big| x.v.iter().flatten().count() as u64;
        let m = |x: &Big| x.out.iter().chain(&x.inn).flatten().count() as u64;
        // the old or the new state; by what differs between them
        let nv = count(db.get(count_of(AllVertexQuery.into())), "no count");
        let ne = count(db.get(count_of(AllEdgeQuery.into())), "no count");
        let two = vertices(db.get(VertexWithPropertyValueQuery::new(b.p, val(2))), "no answer").len()
            + edges(db.get(EdgeWithPropertyValueQuery::new(b.p, val(2))), "no answer").len();
        let has = vertices(db.get(VertexWithPropertyPresenceQuery::new(b.p)), "no answer").len()
            + edges(db.get(EdgeWithPropertyPresenceQuery::new(b.p)), "no answer").len();
        let has_p = |x: &Big| x.v.iter().chain(&x.out).chain(&x.inn).filter(|y| y.flatten().is_some()).count();
        let twos = |x: &Big| x.v.iter().chain(&x.out).chain(&x.inn).filter(|y| y.flatten() == Some(2)).count();
        let new = nv == n(&after) && ne == m(&after) && two == twos(&after) && has == has_p(&after);
        bad(!r.is_ok() || dead || new, "the effect of a completed operation is lost in a crash");
        if new {
            after.observe(&db);
        } else {
            b.observe(&db);
        }
        sym::reach(if dead { "died" } else { "done" });
    } else if hit {
        ctl::reset();
        check(r.is_err(), "a failed write is reported as success");
        b.observe(&db);
        let db = reopen(db);
        b.observe(&db);
        ok(crate::dur::exec(&db, &d));
        after.observe(&db);
        sym::reach("failed");
    }
    sym::reach("end");
}
/// P15, P16: through a reload.
pub fn reload<D: Datastore>(w: World<D>, mut again: impl FnMut(Database<D>) -> Database<D>) {
    let db = w.db;
    let mut b = Big::new(size());
    b.index(&db);
    let l = b.items();
    ok(db.bulk_insert(l));
    let db = again(db);
    b.observe(&db);
    let k = choose(11);
    b.run(&db, k);
    let db = again(db);
    b.observe(&db);
    sym::reach("end");
}
