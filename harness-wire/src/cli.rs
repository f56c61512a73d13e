//! P35: the command-line client. Its arguments come from the harness
//! (shims/clap), its output is taken from the C library's `write`.
use crate::server::{populate, same_state, scene, scene_text, Scene};
use harness::core::{count_of, kinds, props, se, sv};
use harness::world::val;
use indradb::*;
use indradb_proto as proto;
use proto::indra_db_server::IndraDbServer;
use std::sync::Arc;
use sym::{check, choose, fail, pick};
use tower::{util::BoxService, ServiceExt};
use uuid::Uuid;

static mut OUT: Option<Vec<u8>> = None;
#[no_mangle]
#[allow(static_mut_refs, clippy::missing_safety_doc)]
pub unsafe extern "C" fn write(fd: libc::c_int, b: *const libc::c_void, n: usize) -> isize {
    if fd == 1 {
        if let Some(o) = &mut OUT {
            o.extend_from_slice(std::slice::from_raw_parts(b as *const u8, n));
            return n as isize;
        }
    }
    elsewhere(fd, b, n)
}
#[cfg(feature = "native")]
unsafe fn elsewhere(fd: libc::c_int, b: *const libc::c_void, n: usize) -> isize {
    libc::syscall(libc::SYS_write, fd, b, n) as isize
}
#[cfg(not(feature = "native"))]
unsafe fn elsewhere(_: libc::c_int, _: *const libc::c_void, n: usize) -> isize {
    n as isize
}
/// Runs the client; whether it succeeded, and what it printed.
#[allow(static_mut_refs)]
fn client<D: Datastore + Send + Sync + 'static>(server: &IndraDbServer<proto::Server<D>>, args: &[String]) -> (bool, String) {
    let rt = match tokio::runtime::Builder::new_current_thread().build() {
        Ok(r) => r,
        Err(_) => fail("harness: no runtime"),
    };
    let s = server.clone();
    let s = ServiceExt::<tonic::codegen::http::Request<tonic::body::BoxBody>>::map_err(s, |e| -> tonic::codegen::StdError { match e {} });
    match tonic::transport::channel::in_process::SERVICE.lock() {
        Ok(mut l) => *l = Some(BoxService::new(s)),
        Err(_) => fail("harness: lock"),
    }
    let mut l = vec!["indradb-client".into(), "http://h".into()];
    l.extend(args.iter().map(|a| a.into()));
    clap::argv::set(l);
    unsafe { OUT = Some(vec![]) };
    let r = rt.block_on(client_cli::main()).is_ok();
    match unsafe { OUT.take() } {
        Some(o) => (r, unsafe { String::from_utf8_unchecked(o) }),
        None => fail("harness: no output"),
    }
}
/// What a command should do and print.
enum Want {
    /// succeeds and prints this
    Prints(String),
    /// fails, prints nothing
    Fails,
    /// creates a vertex of this type
    Creates(Identifier),
}
fn done(r: Result<()>) -> Want {
    match r {
        Ok(()) => Want::Prints(String::new()),
        Err(_) => Want::Fails,
    }
}
fn last<D: Datastore>(db: &Database<D>, q: Query) -> QueryOutputValue {
    match db.get(q) {
        Ok(mut o) if o.len() == 1 => o.remove(0),
        _ => fail("a valid query failed"),
    }
}
fn command<D: Datastore>(s: &Scene, twin: &Database<D>) -> (Vec<String>, Want) {
    let id = |u: Uuid| match choose(2) {
        0 => u.to_string(),
        _ => u.simple().to_string(),
    };
    let (p, q) = (s.names[0], s.names[1]);
    let mut l: Vec<String> = vec![];
    let mut add = |x: &[&str]| l.extend(x.iter().map(|x| x.to_string()));
    let edge = |e: &Edge| [e.outbound_id.to_string(), e.t.to_string(), e.inbound_id.to_string()];
    let some = [
        s.es[0].clone(),
        s.es[1].clone(),
        Edge::new(s.ids[1], s.t[1], s.ids[1]),
        Edge::new(s.ids[0], s.t[1], s.ids[2]),
    ];
    let ks = kinds();
    let w = match choose(15) {
        0 => {
            add(&["ping"]);
            Want::Prints("ok\n".into())
        }
        1 => {
            let v = Vertex::with_id(pick(&s.ids), s.t[choose(2) as usize]);
            let i = id(v.id);
            match choose(2) {
                0 => add(&["set", "vertex", v.t.as_str(), "--id", &i]),
                _ => add(&["set", "vertex", "--id", &i, v.t.as_str()]),
            }
            match twin.create_vertex(&v) {
                Ok(true) => Want::Prints(format!("{v:?}\n")),
                _ => Want::Fails,
            }
        }
        2 => {
            add(&["set", "vertex", "tt"]);
            Want::Creates(s.t[1])
        }
        3 => {
            let e = pick(&some);
            let [a, b, c] = edge(&e);
            add(&["set", "edge", &a, &b, &c]);
            match twin.create_edge(&e) {
                Ok(true) => Want::Prints(format!("{e:?}\n")),
                _ => Want::Fails,
            }
        }
        4 => {
            let (i, n) = (pick(&s.ids), pick(&[p, q]));
            let v = ks[choose(ks.len() as u32) as usize].clone();
            let t = v.to_string();
            add(&["set", "vertex-property"]);
            // (a value that starts like an option has to follow this, as usual)
            if t.starts_with('-') || choose(2) == 0 {
                add(&["--"]);
            }
            add(&[&id(i), n.as_str(), &t]);
            done(twin.set_properties(sv(&[i]), n, &v))
        }
        5 => {
            let (e, n) = (pick(&some), pick(&[p, q]));
            let v = val(choose(2));
            let [a, b, c] = edge(&e);
            add(&["set", "edge-property", &a, &b, &c, n.as_str(), &v.to_string()]);
            done(twin.set_properties(se(&[e]), n, &v))
        }
        6 => {
            let k = choose(2) == 0;
            add(&["count", if k { "vertex" } else { "edge" }]);
            match last(twin, count_of(if k { AllVertexQuery.into() } else { AllEdgeQuery.into() })) {
                QueryOutputValue::Count(n) => Want::Prints(format!("{n}\n")),
                _ => fail("a valid query failed"),
            }
        }
        7 => {
            let i = pick(&s.ids);
            add(&["get", "vertex", &id(i)]);
            match last(twin, sv(&[i])) {
                QueryOutputValue::Vertices(v) => Want::Prints(format!("{:?}\n", Some(v))),
                _ => fail("a valid query failed"),
            }
        }
        8 => {
            let e = pick(&some);
            let [a, b, c] = edge(&e);
            add(&["get", "edge", &a, &b, &c]);
            match last(twin, se(&[e])) {
                QueryOutputValue::Edges(v) => Want::Prints(format!("{:?}\n", Some(v))),
                _ => fail("a valid query failed"),
            }
        }
        9 => {
            let (i, n) = (pick(&s.ids), pick(&[None, Some(p), Some(q)]));
            add(&["get", "vertex-property", &id(i)]);
            if let Some(n) = n {
                add(&["--name", n.as_str()]);
            }
            match last(twin, props(sv(&[i]), n)) {
                QueryOutputValue::VertexProperties(v) => Want::Prints(format!("{:?}\n", Some(v))),
                _ => fail("a valid query failed"),
            }
        }
        10 => {
            let (e, n) = (pick(&some), pick(&[None, Some(p), Some(q)]));
            let [a, b, c] = edge(&e);
            add(&["get", "edge-property", &a, &b, &c]);
            if let Some(n) = n {
                add(&["--name", n.as_str()]);
            }
            match last(twin, props(se(&[e]), n)) {
                QueryOutputValue::EdgeProperties(v) => Want::Prints(format!("{:?}\n", Some(v))),
                _ => fail("a valid query failed"),
            }
        }
        11 => {
            let i = pick(&s.ids);
            add(&["delete", "vertex", &id(i)]);
            done(twin.delete(sv(&[i])))
        }
        12 => {
            let e = pick(&some);
            let [a, b, c] = edge(&e);
            add(&["delete", "edge", &a, &b, &c]);
            done(twin.delete(se(&[e])))
        }
        13 => {
            let (i, n) = (pick(&s.ids), pick(&[p, q]));
            add(&["delete", "vertex-property", &id(i), n.as_str()]);
            done(twin.delete(props(sv(&[i]), Some(n))))
        }
        _ => {
            let (e, n) = (pick(&some), pick(&[p, q]));
            let [a, b, c] = edge(&e);
            add(&["delete", "edge-property", &a, &b, &c, n.as_str()]);
            done(twin.delete(props(se(&[e]), Some(n))))
        }
    };
    (l, w)
}
pub fn p35<D: Datastore + Send + Sync + 'static>(db: Database<D>, twin: Database<D>) {
    let s = if harness::core::deep() { scene() } else { scene_text() };
    populate(&s, &db);
    populate(&s, &twin);
    let (args, want) = command(&s, &twin);
    let db = Arc::new(db);
    let server = IndraDbServer::new(proto::Server::new(db.clone()));
    let (ok, out) = client(&server, &args);
    match want {
        Want::Prints(t) => {
            check(ok, "a command that should succeed fails");
            check(out == t, "a command prints something else");
        }
        Want::Fails => {
            check(!ok, "a command that should fail is reported as success");
            check(out.is_empty(), "a command that fails prints a result");
        }
        Want::Creates(t) => {
            check(ok, "a command that should succeed fails");
            let new = match db.get(AllVertexQuery) {
                Ok(o) => match &o[..] {
                    [QueryOutputValue::Vertices(l)] if l.len() == 3 => l.iter().find(|v| v.id != s.ids[0] && v.id != s.ids[1]).cloned(),
                    _ => fail("a command creates another number of vertices"),
                },
                Err(_) => fail("a valid query failed"),
            };
            match new {
                Some(v) => {
                    check(v.t == t, "a command creates a vertex of another type");
                    check(out == format!("{v:?}\n"), "a command prints another vertex than it created");
                    check(matches!(twin.create_vertex(&v), Ok(true)), "a valid operation failed");
                }
                None => fail("a command does not create a vertex"),
            }
        }
    }
    same_state(&s, &db, &twin, "a command has another effect than its operation");
    sym::reach("end");
}
/// Arguments that mean nothing.
pub fn p35i<D: Datastore + Send + Sync + 'static>(db: Database<D>, twin: Database<D>) {
    let s = scene_text();
    populate(&s, &db);
    populate(&s, &twin);
    let a = s.ids[0].to_string();
    let b = s.ids[1].to_string();
    let (uuid, name, json) = match choose(10) {
        0 => ("", "p", "1"),
        1 => (&a[1..], "p", "1"),
        2 => ("00000000-0000-0000-0000-00000000000g", "p", "1"),
        3 => ("1", "p", "1"),
        4 => (&a[..], "a b", "1"),
        5 => (&a[..], "\u{20ac}", "1"),
        6 => (&a[..], "p.", "1"),
        7 => (&a[..], "p", "{"),
        8 => (&a[..], "p", "x"),
        _ => (&a[..], "p", "1 2"),
    };
    let jsons = json != "1";
    let names = name != "p";
    let l: Vec<&str> = match choose(13) {
        0 if !jsons && !names => vec!["set", "vertex", "t", "--id", uuid],
        1 if names => vec!["set", "vertex", name],
        2 if !jsons => vec!["set", "edge", uuid, if names { name } else { "t" }, &b],
        3 if !jsons => vec!["set", "edge", &b, if names { name } else { "t" }, if names { &a } else { uuid }],
        4 => vec!["set", "vertex-property", uuid, name, json],
        5 => vec!["set", "edge-property", uuid, "t", &b, name, json],
        6 if !jsons && !names => vec!["get", "vertex", uuid],
        7 if !jsons => vec!["get", "vertex-property", uuid, "--name", name],
        8 if !jsons => vec!["get", "edge-property", uuid, "t", &b, "--name", name],
        9 if !jsons && !names => vec!["delete", "vertex", uuid],
        10 if !jsons => vec!["delete", "edge", uuid, if names { name } else { "t" }, &b],
        11 if !jsons => vec!["delete", "vertex-property", uuid, name],
        12 if !jsons => vec!["delete", "edge-property", uuid, "t", &b, name],
        _ => return,
    };
    let l: Vec<String> = l.iter().map(|x| x.to_string()).collect();
    let db = Arc::new(db);
    let server = IndraDbServer::new(proto::Server::new(db.clone()));
    let (ok, out) = client(&server, &l);
    check(!ok, "a command with a malformed argument is reported as success");
    check(out.is_empty(), "a command that fails prints a result");
    same_state(&s, &db, &twin, "a command with a malformed argument has an effect");
    sym::reach("end");
}
