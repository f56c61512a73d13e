pub(crate) mod grpc_timeout;
#[cfg(feature = "tls")]
pub(crate) mod tls;

pub(crate) use self::grpc_timeout::GrpcTimeout;
