//! Notes which call is in progress (in the file named by RCV_STATUS), so that a call that
//! hangs or kills the process is known; remembers the message of the last panic.
use std::cell::RefCell;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

static STATUS: OnceLock<Option<std::fs::File>> = OnceLock::new();
static BEGUN: AtomicU64 = AtomicU64::new(0);      // ms since start, 0: idle
static NOW: Mutex<String> = Mutex::new(String::new());
static T0: OnceLock<Instant> = OnceLock::new();
thread_local! { pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

fn ms() -> u64 { T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1 }

pub fn start() {
    ms();
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = s.replace('\n', " "));
    }));
    let limit: u64 = std::env::var("RCV_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let b = BEGUN.load(Ordering::SeqCst);
        if b > 0 && ms() > b + 1000 * limit {
            println!("HANG {}", NOW.lock().map(|s| s.clone()).unwrap_or_default());
            std::process::exit(97);
        }
    });
}
pub fn begin(what: &str) {
    let short: String = what.chars().take(2000).collect();
    let f = STATUS.get_or_init(|| std::env::var("RCV_STATUS").ok().and_then(|p| std::fs::File::create(p).ok()));
    if let Some(f) = f {
        let mut s = short.clone();
        while s.len() < 400 { s.push(' ') }
        s.push('\n');
        let _ = f.write_at(s.as_bytes(), 0);
    }
    if let Ok(mut n) = NOW.lock() { *n = short }
    BEGUN.store(ms(), Ordering::SeqCst);
}
pub fn end() { BEGUN.store(0, Ordering::SeqCst) }
