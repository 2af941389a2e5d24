//! Panic capture: a panic anywhere in a case thread is recorded with its location and never
//! kills the process. Panics located in the harness sources are harness errors, all others are
//! panics of the code under test.
use std::cell::RefCell;
use std::sync::Once;

thread_local! {
    static SEEN: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
static GLOBAL: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
static ONCE: Once = Once::new();

pub fn install() {
    ONCE.call_once(|| {
        std::panic::set_hook(Box::new(|info| {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let s = format!("{} at {}", msg, loc);
            if std::env::var("OVMON_BT").is_ok() {
                eprintln!("{}\n{}", s, std::backtrace::Backtrace::force_capture());
            }
            let _ = SEEN.try_with(|v| v.borrow_mut().push(s.clone()));
            if let Ok(mut g) = GLOBAL.lock() {
                if g.len() < 1000 {
                    g.push(s);
                }
            }
        }));
    });
}

pub fn take() -> Vec<String> {
    SEEN.with(|v| std::mem::take(&mut *v.borrow_mut()))
}

/// All panics of the process so far (for multi-threaded cases).
pub fn take_global() -> Vec<String> {
    std::mem::take(&mut *GLOBAL.lock().unwrap())
}

/// A panic of the harness itself (file paths of this crate are relative to its root).
pub fn is_harness(s: &str) -> bool {
    match s.rsplit_once(" at ") {
        Some((_, loc)) => loc.starts_with("src/") || loc.contains("/harness/src/"),
        None => false,
    }
}
