//! A client whose packets go nowhere.
#[derive(Debug)]
pub enum StatsdError {
    AddrParseError(String),
}
impl std::fmt::Display for StatsdError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for StatsdError {}
pub struct Client;
impl Client {
    pub fn new<T: ToString>(host: T, _prefix: &str) -> Result<Client, StatsdError> {
        if host.to_string().starts_with("bad") {
            return Err(StatsdError::AddrParseError(host.to_string()));
        }
        Ok(Client)
    }
    pub fn gauge(&self, _m: &str, _v: f64) {}
    pub fn count(&self, _m: &str, _v: f64) {}
    pub fn timer(&self, _m: &str, _v: f64) {}
    pub fn incr(&self, _m: &str) {}
    pub fn decr(&self, _m: &str) {}
    pub fn time<F: FnOnce() -> R, R>(&self, _m: &str, f: F) -> R {
        f()
    }
}
