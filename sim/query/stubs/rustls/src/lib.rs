//! A handshake in which the server sends its certificate, and nothing else:
//! its length (four octets) and its octets.
use std::fmt;
use std::io::{self, Read, Write};
use std::sync::Arc;
use std::time::SystemTime;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Certificate(pub Vec<u8>);
impl AsRef<[u8]> for Certificate {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
#[derive(Debug)]
pub enum Error {
    General(String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for Error {}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ServerName(pub String);
#[derive(Debug)]
pub struct InvalidDnsNameError;
impl fmt::Display for InvalidDnsNameError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "invalid dns name")
    }
}
impl std::error::Error for InvalidDnsNameError {}
impl TryFrom<&str> for ServerName {
    type Error = InvalidDnsNameError;
    fn try_from(s: &str) -> Result<Self, InvalidDnsNameError> {
        if s.is_empty() || !s.chars().all(|c| c.is_ascii_alphanumeric() || c == '.' || c == '-' || c == '_') {
            return Err(InvalidDnsNameError);
        }
        Ok(ServerName(s.into()))
    }
}
pub mod client {
    use super::*;
    pub struct ServerCertVerified(());
    impl ServerCertVerified {
        pub fn assertion() -> Self {
            ServerCertVerified(())
        }
    }
    pub trait ServerCertVerifier: Send + Sync {
        fn verify_server_cert(&self, end_entity: &Certificate, intermediates: &[Certificate], server_name: &ServerName, scts: &mut dyn Iterator<Item = &[u8]>, ocsp_response: &[u8], now: SystemTime) -> Result<ServerCertVerified, Error>;
    }
}
pub struct ClientConfig {
    verifier: Arc<dyn client::ServerCertVerifier>,
}
pub struct Builder1;
pub struct Builder2;
pub struct Builder3(Arc<dyn client::ServerCertVerifier>);
impl ClientConfig {
    pub fn builder() -> Builder1 {
        Builder1
    }
}
impl Builder1 {
    pub fn with_safe_defaults(self) -> Builder2 {
        Builder2
    }
}
impl Builder2 {
    pub fn with_custom_certificate_verifier(self, v: Arc<dyn client::ServerCertVerifier>) -> Builder3 {
        Builder3(v)
    }
}
impl Builder3 {
    pub fn with_no_client_auth(self) -> ClientConfig {
        ClientConfig { verifier: self.0 }
    }
}
pub struct ClientConnection {
    config: Arc<ClientConfig>,
    name: ServerName,
    peer: Option<Vec<Certificate>>,
}
impl ClientConnection {
    pub fn new(config: Arc<ClientConfig>, name: ServerName) -> Result<Self, Error> {
        Ok(ClientConnection { config, name, peer: None })
    }
    pub fn peer_certificates(&self) -> Option<&[Certificate]> {
        self.peer.as_deref()
    }
    pub fn complete_io<T: Read + Write>(&mut self, io: &mut T) -> io::Result<(usize, usize)> {
        if self.peer.is_some() {
            return Ok((0, 0));
        }
        io.write_all(self.name.0.as_bytes())?;
        let mut l = [0; 4];
        io.read_exact(&mut l)?;
        let mut b = vec![0; u32::from_be_bytes(l) as usize];
        io.read_exact(&mut b)?;
        let c = Certificate(b);
        self.config
            .verifier
            .verify_server_cert(&c, &[], &self.name, &mut std::iter::empty(), &[], SystemTime::now())
            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
        self.peer = Some(vec![c]);
        Ok((0, 0))
    }
}
pub struct Stream<'a, T: Read + Write> {
    pub conn: &'a mut ClientConnection,
    pub sock: &'a mut T,
}
impl<'a, T: Read + Write> Stream<'a, T> {
    pub fn new(conn: &'a mut ClientConnection, sock: &'a mut T) -> Self {
        Stream { conn, sock }
    }
}
impl<T: Read + Write> Read for Stream<'_, T> {
    fn read(&mut self, _b: &mut [u8]) -> io::Result<usize> {
        self.conn.complete_io(self.sock)?;
        Ok(0)
    }
}
impl<T: Read + Write> Write for Stream<'_, T> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.conn.complete_io(self.sock)?;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        self.conn.complete_io(self.sock).map(|_| ())
    }
}
