//! What the programs of the repository use of tokio: the start of a runtime
//! (left to the harness) and a listening socket (which only has an address).
pub use faketokio_macros::main;
pub mod net {
    use std::io;
    use std::net::{SocketAddr, ToSocketAddrs};
    pub struct TcpListener(SocketAddr);
    impl TcpListener {
        pub async fn bind<A: ToSocketAddrs>(a: A) -> io::Result<TcpListener> {
            match a.to_socket_addrs()?.next() {
                Some(a) => Ok(TcpListener(a)),
                None => Err(io::Error::from(io::ErrorKind::InvalidInput)),
            }
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.0)
        }
    }
}
