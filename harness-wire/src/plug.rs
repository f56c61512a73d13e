//! P33: plugins, loaded into a server and called through it. The loader of
//! libraries is replaced by shims/libloading.
use crate::server::{status, Net};
use harness::core::{kinds, sv};
use harness::same::j_eq;
use harness::world::{ident, uuid, val, World};
use indradb::*;
use indradb_plugin_host as host;
use indradb_proto as proto;
use libloading::ctl;
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::Arc;
use sym::{check, choose, fail};
use tonic::Code;
use uuid::Uuid;

/// What the plugins of this harness see, and what they are to do.
struct Log {
    /// calls of plugin "p" and plugin "q"
    calls: [u32; 2],
    arg: Option<Json>,
    /// what a call does
    act: u32,
    ids: Vec<Uuid>,
    saw: u64,
    /// version of the second library
    other: u32,
    byte: u8,
}
static mut LOG: Option<Log> = None;
#[allow(static_mut_refs)]
fn log() -> &'static mut Log {
    match unsafe { &mut LOG } {
        Some(l) => l,
        None => fail("harness: no log"),
    }
}
struct P(usize);
const LIB: [&str; 2] = ["/plugins/libone.so", "/plugins/libtwo.so"];
impl Drop for P {
    fn drop(&mut self) {
        check(ctl::open(LIB[self.0]) > 0, "the code of a plugin is used after its library is unloaded");
    }
}
impl host::Plugin for P {
    fn call<'a>(&self, txn: &mut (dyn Transaction<'a> + 'a), arg: Json) -> std::result::Result<Json, host::Error> {
        check(ctl::open(LIB[self.0]) > 0, "the code of a plugin is used after its library is unloaded");
        let l = log();
        l.calls[self.0] += 1;
        l.arg = Some(arg.clone());
        l.saw = txn.vertex_count();
        let t = ident("made");
        match l.act {
            0 => Ok(arg),
            1 => Err(host::Error::InvalidArgument("no".into())),
            2 => {
                // it writes
                txn.create_vertex(&Vertex::with_id(l.ids[2], t))?;
                txn.create_edge(&Edge::new(l.ids[2], t, l.ids[0]))?;
                txn.set_vertex_properties(vec![l.ids[0]], ident("p"), &arg)?;
                Ok(Json::new(serde_json::Value::Null))
            }
            3 => Err(host::Error::IndraDB(Error::NotIndexed)),
            _ => {
                txn.delete_vertices(vec![Vertex::with_id(l.ids[0], t)])?;
                Err(host::Error::Other("late".into()))
            }
        }
    }
}
fn declaration(i: usize) -> host::PluginDeclaration {
    let mut entries: HashMap<String, Box<dyn host::Plugin>> = HashMap::new();
    entries.insert(["p", "q"][i].into(), Box::new(P(i)));
    let mut version_info = host::VersionInfo::default();
    if i == 1 {
        match log().other {
            1 => version_info.plugin_interface = log().byte,
            2 => version_info.rustc.push(log().byte as char),
            3 => {
                version_info.rustc.pop();
            }
            _ => {}
        }
    }
    host::PluginDeclaration { version_info, entries }
}
unsafe extern "C" fn register_one() -> host::PluginDeclaration {
    declaration(0)
}
unsafe extern "C" fn register_two() -> host::PluginDeclaration {
    declaration(1)
}
type Register = unsafe extern "C" fn() -> host::PluginDeclaration;
fn provide(path: &str, name: &'static [u8], f: Register) {
    ctl::provide(path, vec![(name, f as *const ())]);
}

pub fn p33<D: Datastore + Send + Sync + 'static>(mut w: World<D>) {
    let ids = vec![uuid("a"), uuid("b"), uuid("c")];
    sym::assume((ids[0] < ids[1]) & (ids[1] < ids[2]));
    let (t, p) = (ident("t"), ident("p"));
    w.create_vertex(ids[0], t);
    w.create_vertex(ids[1], t);
    w.index(p);
    w.set_vp(ids[0], p, &val(1));
    unsafe {
        LOG = Some(Log { calls: [0; 2], arg: None, act: 0, ids: ids.clone(), saw: 0, other: 0, byte: 0 });
    }
    // which libraries there are, and what is wrong with the second
    let l = log();
    let libs = 1 + choose(2);
    let mut bad = false;
    provide(LIB[0], b"register", register_one);
    if libs == 2 {
        let wrong = choose(6);
        let byte = sym::u8_("version");
        l.other = wrong;
        l.byte = byte;
        match wrong {
            // another version of the interface
            1 => bad = byte != host::VersionInfo::default().plugin_interface,
            // another compiler
            2 => {
                sym::assume((byte >= 32) & (byte < 127));
                bad = true;
            }
            3 => bad = true,
            // no such function, no such file
            4 => bad = true,
            5 => bad = true,
            _ => {}
        }
        match wrong {
            4 => provide(LIB[1], b"registers", register_two),
            5 => {}
            _ => provide(LIB[1], b"register", register_two),
        }
    }
    let mut paths: Vec<PathBuf> = LIB[..libs as usize].iter().map(PathBuf::from).collect();
    if choose(2) == 1 {
        paths.reverse();
    }
    let World { db, m, names, vals } = w;
    let db = Arc::new(db);
    let s = unsafe { proto::Server::new_with_plugins(db.clone(), paths) };
    let s = match s {
        Ok(s) => {
            check(!bad, "a library that does not fit is loaded");
            s
        }
        Err(e) => {
            check(bad, "a library that fits is refused");
            let version = l.other <= 3;
            let mismatch = e.to_string().starts_with("version mismatch");
            check(mismatch == version, "a library is refused for another reason");
            check(l.calls == [0; 2], "a plugin of a refused library is called");
            check(ctl::open(LIB[0]) + ctl::open(LIB[1]) == 0, "a library stays loaded after the server was not started");
            sym::reach("refused");
            return;
        }
    };
    let mut n = Net::over(db, s);
    // call one of them, or one that is not there
    let which = choose(4);
    let name = ["p", "q", "", "P"][which as usize];
    let known = which < libs;
    let mut ks = kinds();
    ks.push(harness::wide::huge()[0].clone());
    let arg = ks[choose(ks.len() as u32) as usize].clone();
    l.act = choose(5);
    // without an argument, or with a broken one
    let form = if l.act == 0 { choose(3) } else { 0 };
    let r = match form {
        0 => n.rt.block_on(n.c.execute_plugin(name, arg.clone())).map_err(|e| match e {
            proto::ClientError::Grpc { inner } => inner,
            _ => fail("a valid request fails in the client"),
        }),
        k => {
            let arg = if k == 1 { None } else { Some(proto::Json { value: "{".into() }) };
            let r = n.rt.block_on(n.raw.execute_plugin(proto::ExecutePluginRequest { name: name.into(), arg }));
            r.map(|r| match r.into_inner().value {
                Some(v) => match v.try_into() {
                    Ok(v) => v,
                    Err(_) => fail("the result of a plugin is malformed"),
                },
                None => fail("the result of a plugin is missing"),
            })
        }
    };
    let null = Json::new(serde_json::Value::Null);
    if form == 2 {
        // (whether the name or the argument is complained about is open)
        let c = r.map_err(|e| e.code());
        check(matches!(c, Err(Code::InvalidArgument)) || (!known && c.err() == Some(Code::NotFound)), "a malformed argument is not refused");
        check(l.calls == [0; 2], "a plugin is called with a malformed argument");
    } else if !known {
        check(r.map_err(|e| e.code()).err() == Some(Code::NotFound), "an unknown plugin is not reported");
        check(l.calls == [0; 2], "another plugin is called");
    } else {
        check(l.calls[which as usize] == 1 && l.calls[1 - which as usize] == 0, "a plugin is not called once, or another one is");
        let want = if form == 1 { &null } else { &arg };
        match &l.arg {
            Some(a) => check(j_eq(a, want), "a plugin is given another argument"),
            None => fail("harness: no argument"),
        }
        check(l.saw == 2, "a plugin sees another database");
        match l.act {
            0 => match r {
                Ok(v) => check(j_eq(&v, want), "a call of a plugin has another result"),
                Err(_) => fail("a call of a plugin that succeeds is reported as failed"),
            },
            2 => match r {
                Ok(v) => check(j_eq(&v, &null), "a call of a plugin has another result"),
                Err(_) => fail("a call of a plugin that succeeds is reported as failed"),
            },
            k => match r {
                Ok(_) => fail("a failed call of a plugin is reported as success"),
                Err(e) => {
                    check(e.code() == Code::Internal, "a failed call of a plugin has another status");
                    let has = |s: &str| e.message().contains(s);
                    check(
                        match k {
                            1 => has("no"),
                            3 => has(&Error::NotIndexed.to_string()),
                            _ => has("late"),
                        },
                        "the error of a plugin is not passed on",
                    );
                }
            },
        }
    }
    // its writes, and nothing else
    let mut m = m;
    if known && form == 0 && l.act == 2 {
        let t = ident("made");
        m.create_vertex(ids[2], t);
        m.create_edge(&Edge::new(ids[2], t, ids[0]));
        m.set_vp(ids[0], p, &arg);
    }
    if known && form == 0 && l.act == 4 {
        m.del_vertex(ids[0]);
    }
    let Net { db, c, raw, rt } = n;
    check(ctl::open(LIB[0]) == 1 && ctl::open(LIB[1]) == libs - 1, "a library is unloaded while the server runs");
    drop((c, raw, rt));
    let db = match Arc::try_unwrap(db) {
        Ok(d) => d,
        Err(d) => {
            // (a connection may still hold it)
            let w = View { db: d, m };
            w.observe(names, vals);
            sym::reach("end");
            return;
        }
    };
    World { db, m, names, vals }.observe();
    sym::reach("end");
}
struct View<D: Datastore> {
    db: Arc<Database<D>>,
    m: harness::world::Model,
}
impl<D: Datastore> View<D> {
    fn observe(self, _names: Vec<Identifier>, _vals: Vec<Json>) {
        let v = harness::world::vertices(self.db.get(AllVertexQuery), "no vertices");
        harness::world::same_v(&v, &self.m.vs, "a call of a plugin has another effect");
        let e = harness::world::edges(self.db.get(AllEdgeQuery), "no edges");
        harness::world::same_e(&e, &self.m.es, "a call of a plugin has another effect");
        for (id, _) in &self.m.vs {
            let q = harness::core::props(sv(&[*id]), None);
            let got: Vec<NamedProperty> =
                harness::world::vprops(self.db.get(q), "no properties").into_iter().flat_map(|p| p.props).collect();
            let want: Vec<_> = self.m.vp.iter().filter(|p| p.id == *id).map(|p| (p.name, p.value.clone())).collect();
            harness::world::same_props(&got, &want, "a call of a plugin has another effect");
        }
    }
}

/// The plugin that greets.
pub fn p33h<D: Datastore + Send + Sync + 'static>(db: Database<D>) {
    provide("/plugins/libhello.so", b"register", hello::register);
    let db = Arc::new(db);
    let s = match unsafe { proto::Server::new_with_plugins(db.clone(), vec!["/plugins/libhello.so".into()]) } {
        Ok(s) => s,
        Err(_) => fail("a library that fits is refused"),
    };
    let Net { mut c, rt, .. } = Net::over(db, s);
    let mut b = [0u8; 2];
    let n = choose(3) as usize;
    sym::bytes(&mut b[..n], "name");
    for x in &b[..n] {
        sym::assume((*x >= 32) & (*x < 127) & (*x != b'"') & (*x != b'\\'));
    }
    let text = match std::str::from_utf8(&b[..n]) {
        Ok(s) => s,
        Err(_) => fail("harness"),
    };
    let (arg, want) = match choose(3) {
        0 => (serde_json::Value::from(text), format!("hello, \"{text}\"")),
        1 => (serde_json::Value::from(7u64), "hello, 7".to_string()),
        _ => (serde_json::Value::Null, "hello, null".to_string()),
    };
    match rt.block_on(c.execute_plugin("hello_world", Json::new(arg))) {
        Ok(v) => check(v.as_str() == Some(&want[..]), "the greeting is another"),
        Err(_) => fail("a valid request fails"),
    }
    sym::reach("end");
}
