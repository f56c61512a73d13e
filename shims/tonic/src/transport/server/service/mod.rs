mod io;
pub(crate) use self::io::ServerIo;

mod recover_error;
pub(crate) use self::recover_error::RecoverError;

#[cfg(feature = "tls")]
mod tls;
#[cfg(feature = "tls")]
pub(crate) use self::tls::TlsAcceptor;
