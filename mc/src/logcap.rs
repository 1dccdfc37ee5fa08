//! A logger that formats every record (so that the formatting code of the library runs) and keeps the
//! error records of the current thread.

use log::{Log, LogLevel, LogLevelFilter, LogMetadata, LogRecord, MaxLogLevelFilter};
use std::cell::{Cell, RefCell};
use std::fmt::Write;
use std::sync::Mutex;

thread_local! {
    static ERRORS: RefCell<Vec<String>> = RefCell::new(Vec::new());
    static SINK: RefCell<String> = RefCell::new(String::new());
    static CALLBACK: Cell<Option<fn()>> = Cell::new(None);
}
static FILTER: Mutex<Option<MaxLogLevelFilter>> = Mutex::new(None);

struct Capture;

impl Log for Capture {
    fn enabled(&self, _: &LogMetadata) -> bool {
        true
    }
    fn log(&self, r: &LogRecord) {
        SINK.with(|s| {
            if let Ok(mut s) = s.try_borrow_mut() {
                s.clear();
                let _ = write!(s, "{}", r.args());
                if r.level() == LogLevel::Error {
                    ERRORS.with(|e| e.borrow_mut().push(s.clone()));
                }
            }
        });
        if let Ok(Some(f)) = CALLBACK.try_with(|c| c.get()) {
            f();
        }
    }
}

/// Called after every record of this thread.
pub fn set_callback(f: Option<fn()>) {
    CALLBACK.with(|c| c.set(f));
}

pub fn set_level(level: LogLevelFilter) {
    let mut f = FILTER.lock().unwrap();
    if f.is_none() {
        log::set_logger(|max| {
            *f = Some(max);
            Box::new(Capture)
        }).expect("install the logger");
    }
    f.as_ref().unwrap().set(level);
}

/// The error records of this thread since the last call.
pub fn take_errors() -> Vec<String> {
    ERRORS.with(|e| std::mem::replace(&mut *e.borrow_mut(), vec![]))
}
