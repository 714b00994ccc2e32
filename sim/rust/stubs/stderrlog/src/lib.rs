//! Logs warnings and errors to stderr.
struct L;
impl log::Log for L {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.level() <= log::Level::Warn
    }
    fn log(&self, r: &log::Record) {
        // the arguments are evaluated at every level, as with -vv
        let s = format!("{}", r.args());
        if r.level() <= log::Level::Warn {
            eprintln!("{} - {}", r.level(), s);
        }
    }
    fn flush(&self) {}
}
static LOG: L = L;
#[derive(Clone, Default)]
pub struct StdErrLog;
pub enum ColorChoice {
    Always,
    AlwaysAnsi,
    Auto,
    Never,
}
pub enum Timestamp {
    Off,
    Second,
    Microsecond,
    Millisecond,
    Nanosecond,
}
pub fn new() -> StdErrLog {
    StdErrLog
}
impl StdErrLog {
    pub fn new() -> Self {
        StdErrLog
    }
    pub fn module<T: Into<String>>(&mut self, _m: T) -> &mut Self {
        self
    }
    pub fn modules<T: Into<String>, I: IntoIterator<Item = T>>(&mut self, _m: I) -> &mut Self {
        self
    }
    pub fn verbosity(&mut self, _v: usize) -> &mut Self {
        self
    }
    pub fn quiet(&mut self, _q: bool) -> &mut Self {
        self
    }
    pub fn timestamp(&mut self, _t: Timestamp) -> &mut Self {
        self
    }
    pub fn color(&mut self, _c: ColorChoice) -> &mut Self {
        self
    }
    pub fn init(&mut self) -> Result<(), log::SetLoggerError> {
        log::set_max_level(log::LevelFilter::Info);
        log::set_logger(&LOG)
    }
}
