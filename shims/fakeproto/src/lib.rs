//! The gRPC service seen from the server program: what it is started with is
//! recorded, and it ends at once.
use faketokio::net::TcpListener;
use indradb::{Database, Datastore};
use std::any::Any;
use std::io;
use std::net::SocketAddr;
use std::sync::Arc;

pub struct Served {
    /// an `Arc<Database<_>>`
    pub db: Box<dyn Any>,
    pub addr: SocketAddr,
    pub plugins: Option<String>,
}
static mut SERVED: Vec<Served> = Vec::new();
/// What was served since the last call.
#[allow(static_mut_refs)]
pub fn served() -> Vec<Served> {
    unsafe { std::mem::take(&mut SERVED) }
}
#[allow(static_mut_refs)]
fn start<D: Datastore + Send + Sync + 'static>(db: Arc<Database<D>>, l: TcpListener, plugins: Option<String>) -> io::Result<()> {
    let addr = l.local_addr()?;
    unsafe { SERVED.push(Served { db: Box::new(db), addr, plugins }) };
    Ok(())
}
pub async fn run_server<D: Datastore + Send + Sync + 'static>(db: Arc<Database<D>>, listener: TcpListener) -> io::Result<()> {
    start(db, listener, None)
}
/// # Safety
/// Nothing is loaded.
pub async unsafe fn run_server_with_plugins<D: Datastore + Send + Sync + 'static>(
    db: Arc<Database<D>>,
    listener: TcpListener,
    plugin_path_pattern: &str,
) -> io::Result<()> {
    start(db, listener, Some(plugin_path_pattern.to_string()))
}
