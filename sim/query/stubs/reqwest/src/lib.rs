//! An HTTP client on the simulated network.
//!
//! SIM_NET is a directory with `plan` (lines "request outcome", the outcome
//! being an error or what to do with the body; and "from request version") and
//! v<version>/routes, which says per URL the status and the file of its body.
use std::fmt;
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};

#[derive(Debug)]
pub struct Error(String, Option<u16>);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
impl Error {
    pub fn is_timeout(&self) -> bool {
        self.0.contains("timed out")
    }
    pub fn is_connect(&self) -> bool {
        self.0.contains("connect")
    }
    pub fn is_status(&self) -> bool {
        self.1.is_some()
    }
    pub fn status(&self) -> Option<StatusCode> {
        self.1.map(StatusCode)
    }
}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct StatusCode(u16);
impl StatusCode {
    pub const OK: StatusCode = StatusCode(200);
    pub const NOT_FOUND: StatusCode = StatusCode(404);
    pub fn as_u16(&self) -> u16 {
        self.0
    }
    pub fn is_success(&self) -> bool {
        (200..300).contains(&self.0)
    }
    pub fn is_client_error(&self) -> bool {
        (400..500).contains(&self.0)
    }
    pub fn is_server_error(&self) -> bool {
        self.0 >= 500
    }
}
impl fmt::Display for StatusCode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Bytes(Vec<u8>);
impl AsRef<[u8]> for Bytes {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl std::ops::Deref for Bytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl From<Bytes> for Vec<u8> {
    fn from(b: Bytes) -> Self {
        b.0
    }
}

static REQUESTS: AtomicUsize = AtomicUsize::new(0);

fn note(s: &str) {
    if let Some(l) = std::env::var_os("SIM_LOG") {
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(l) {
            let _ = f.write_all(s.as_bytes());
        }
    }
}

fn fetch(url: &str) -> Result<blocking::Response> {
    let n = REQUESTS.fetch_add(1, Ordering::SeqCst) + 1;
    let dir = std::path::PathBuf::from(std::env::var_os("SIM_NET").expect("no network"));
    let plan = std::fs::read_to_string(dir.join("plan")).unwrap_or_default();
    let (mut outcome, mut version) = ("", "0");
    for l in plan.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[..] {
            ["from", k, v] if k.parse::<usize>().unwrap_or(0) <= n => version = v,
            [k, o] if k.parse::<usize>().ok() == Some(n) => outcome = o,
            _ => {}
        }
    }
    let routes: serde_json::Value = serde_json::from_slice(&std::fs::read(dir.join(format!("v{version}")).join("routes")).expect("routes")).expect("routes");
    let (mut status, mut body) = (404u16, b"<html>no such page</html>\n".to_vec());
    if let Some(r) = routes.get(url) {
        status = r[0].as_u64().unwrap() as u16;
        body = std::fs::read(dir.join(r[1].as_str().unwrap())).expect("body");
    }
    // (other answers have no digest: nobody could tell)
    if matches!(outcome, "damage" | "short") && !url.contains("attachments") {
        outcome = "cut";
    }
    let mut whole = true;
    match outcome {
        "" => {}
        "refuse" => {
            note(&format!("net {n} {url} refuse\n"));
            return Err(Error("error trying to connect".into(), None));
        }
        "timeout" => {
            note(&format!("net {n} {url} timeout\n"));
            return Err(Error("operation timed out".into(), None));
        }
        "cut" => {
            whole = false;
            body.truncate(body.len() / 2);
        }
        "damage" => {
            let i = body.len() / 2;
            if !body.is_empty() {
                body[i] ^= 1;
            }
        }
        "short" => body.truncate(body.len() / 2),
        "empty503" => (status, body) = (503, vec![]),
        "html503" => (status, body) = (503, b"<html><body>503 backend is unhealthy</body></html>\n".to_vec()),
        "json503" => (status, body) = (503, b"{\"code\":503,\"errno\":201,\"error\":\"Service Unavailable\"}".to_vec()),
        "empty404" => (status, body) = (404, vec![]),
        "html404" => (status, body) = (404, b"<html><body>404</body></html>\n".to_vec()),
        "crash" => {
            note(&format!("net {n} {url} crash\ncrash net {url}\n"));
            extern "C" {
                fn _exit(c: i32) -> !;
            }
            unsafe { _exit(137) }
        }
        o => panic!("outcome {o}"),
    }
    note(&format!("net {n} {url} {status} {} {}\n", body.len(), if outcome.is_empty() { "ok" } else { outcome }));
    Ok(blocking::Response { status, body, whole, url: url.into() })
}

pub mod blocking {
    use super::*;
    pub struct Response {
        pub(super) status: u16,
        pub(super) body: Vec<u8>,
        pub(super) whole: bool,
        pub(super) url: String,
    }
    impl Response {
        pub fn status(&self) -> StatusCode {
            StatusCode(self.status)
        }
        pub fn url(&self) -> &str {
            &self.url
        }
        pub fn error_for_status(self) -> Result<Self> {
            if self.status >= 400 {
                return Err(Error(format!("HTTP status {} for {}", self.status, self.url), Some(self.status)));
            }
            Ok(self)
        }
        pub fn bytes(self) -> Result<Bytes> {
            if !self.whole {
                return Err(Error("error reading a body from connection".into(), None));
            }
            Ok(Bytes(self.body))
        }
        pub fn text(self) -> Result<String> {
            Ok(String::from_utf8_lossy(&self.bytes()?).into_owned())
        }
        pub fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
            serde_json::from_slice(&self.bytes()?).map_err(|e| Error(format!("error decoding response body: {e}"), None))
        }
    }
    #[derive(Clone, Default)]
    pub struct Client;
    #[derive(Default)]
    pub struct ClientBuilder;
    impl ClientBuilder {
        pub fn new() -> Self {
            ClientBuilder
        }
        pub fn timeout<T: Into<Option<std::time::Duration>>>(self, _t: T) -> Self {
            self
        }
        pub fn connect_timeout<T: Into<Option<std::time::Duration>>>(self, _t: T) -> Self {
            self
        }
        pub fn user_agent<V: AsRef<str>>(self, _v: V) -> Self {
            self
        }
        pub fn build(self) -> Result<Client> {
            Ok(Client)
        }
    }
    pub struct RequestBuilder(String);
    impl RequestBuilder {
        pub fn send(self) -> Result<Response> {
            fetch(&self.0)
        }
    }
    impl Client {
        pub fn new() -> Self {
            Client
        }
        pub fn builder() -> ClientBuilder {
            ClientBuilder
        }
        pub fn get<U: AsRef<str>>(&self, u: U) -> RequestBuilder {
            RequestBuilder(u.as_ref().into())
        }
    }
    pub fn get<U: AsRef<str>>(u: U) -> Result<Response> {
        fetch(u.as_ref())
    }
}
