//! Counts what the code under test logs as an error.
use std::sync::atomic::{AtomicU64, Ordering};

static ERRORS: AtomicU64 = AtomicU64::new(0);

struct L;
impl log::Log for L {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.level() <= log::Level::Error
    }
    fn log(&self, r: &log::Record) {
        if r.level() == log::Level::Error {
            ERRORS.fetch_add(1, Ordering::Relaxed);
        }
    }
    fn flush(&self) {}
}
static LOGGER: L = L;

pub fn install() {
    let _ = log::set_logger(&LOGGER).map(|_| log::set_max_level(log::LevelFilter::Error));
}

pub fn count() -> u64 {
    ERRORS.load(Ordering::Relaxed)
}
