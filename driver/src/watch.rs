//! Progress marks, so that a run that hangs or dies can be attributed to the case it was executing.
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub struct Watch {
    cur: File,
    tick: Arc<AtomicU64>,
    start: Instant,
}

pub const HANG_SECS: u64 = 20;

impl Watch {
    /// `path` receives the index of the case being executed. If one case takes longer than
    /// HANG_SECS, the process exits with status 3.
    pub fn new(path: &str) -> Self {
        let cur = File::create(path).unwrap();
        let tick = Arc::new(AtomicU64::new(0));
        let start = Instant::now();
        let t = tick.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let last = t.load(Ordering::Relaxed);
            if last == u64::MAX {
                return;
            }
            if start.elapsed().as_millis() as u64 > last + HANG_SECS * 1000 {
                let _ = std::io::stderr().write_all(b"case timed out\n");
                std::process::exit(3);
            }
        });
        Watch { cur, tick, start }
    }
    /// Marks the start of case `index`.
    pub fn begin(&self, index: usize) {
        self.tick.store(self.start.elapsed().as_millis() as u64, Ordering::Relaxed);
        let _ = self.cur.write_at(format!("{:012}", index).as_bytes(), 0);
    }
    pub fn end(&self) {
        self.tick.store(u64::MAX, Ordering::Relaxed);
    }
}
