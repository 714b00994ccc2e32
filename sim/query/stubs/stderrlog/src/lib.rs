//! Logs to stderr, as the real one does without a terminal.
use std::sync::atomic::{AtomicUsize, Ordering};
static LEVEL: AtomicUsize = AtomicUsize::new(1);
struct L;
impl log::Log for L {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.level() as usize <= LEVEL.load(Ordering::Relaxed)
    }
    fn log(&self, r: &log::Record) {
        let s = format!("{} - {}\n", r.level(), r.args());
        if self.enabled(r.metadata()) {
            use std::io::Write;
            let _ = std::io::stderr().write_all(s.as_bytes());
        }
    }
    fn flush(&self) {}
}
static LOG: L = L;
#[derive(Clone, Default)]
pub struct StdErrLog {
    verbosity: usize,
    quiet: bool,
}
pub fn new() -> StdErrLog {
    StdErrLog::default()
}
impl StdErrLog {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn module<T: Into<String>>(&mut self, _m: T) -> &mut Self {
        self
    }
    pub fn verbosity(&mut self, v: usize) -> &mut Self {
        self.verbosity = v;
        self
    }
    pub fn quiet(&mut self, q: bool) -> &mut Self {
        self.quiet = q;
        self
    }
    pub fn init(&mut self) -> Result<(), log::SetLoggerError> {
        LEVEL.store(if self.quiet { 0 } else { self.verbosity + 1 }, Ordering::Relaxed);
        log::set_max_level(log::LevelFilter::Trace);
        log::set_logger(&LOG)
    }
}
