//! The event log of the running program: one JSON array per event.
use std::fmt::Write as _;
use std::sync::Mutex;

pub struct Log {
    pub buf: String,
    pub n: usize,
}

static LOG: Mutex<Log> = Mutex::new(Log {
    buf: String::new(),
    n: 0,
});

/// Events of one program are capped so that a runaway execution stays small.
const MAX_EVENTS: usize = 6000;

pub fn ev(args: std::fmt::Arguments<'_>) {
    let mut l = LOG.lock().unwrap_or_else(|e| e.into_inner());
    if l.n >= MAX_EVENTS {
        return;
    }
    if l.n > 0 {
        l.buf.push(',');
    }
    l.n += 1;
    let _ = l.buf.write_fmt(args);
}

#[macro_export]
macro_rules! ev {
    ($($a:tt)*) => { $crate::log::ev(format_args!($($a)*)) };
}

pub fn take() -> String {
    let mut l = LOG.lock().unwrap_or_else(|e| e.into_inner());
    l.n = 0;
    std::mem::take(&mut l.buf)
}

/// Used by the crash handler, which must not wait.
pub fn take_nowait() -> String {
    for _ in 0..1000 {
        if let Ok(mut l) = LOG.try_lock() {
            return std::mem::take(&mut l.buf);
        }
        std::thread::yield_now();
    }
    String::new()
}
