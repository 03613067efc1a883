//! Executes scenarios against the real library and records what happened.
//!
//! `tmf-harness SCENARIOS.ndjson TRACE.ndjson [SKIP]`: every scenario is one JSON line
//! `{"id":..,"ops":[..]}`, every record one flushed JSON line `{"id":..,"res":[..]}`.
//! The harness judges nothing: it executes, and writes down arguments' effects.
mod exec;
mod mem;
mod mesh;
mod stream;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[global_allocator]
static ALLOC: mem::Tracking = mem::Tracking;

pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
static STARTED: AtomicU64 = AtomicU64::new(0);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let timeout: u64 = std::env::var("HARNESS_TIMEOUT").ok().and_then(|t| t.parse().ok()).unwrap_or(30);
    std::panic::set_hook(Box::new(|info| {
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = info.to_string().replace('\n', " ");
    }));
    let skip: usize = args.get(3).map_or(0, |s| s.parse().unwrap());
    let src = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).unwrap();
    let epoch = std::time::Instant::now();
    // Watchdog: a scenario that does not end is recorded by the runner, which sees this exit code.
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let start = STARTED.load(Ordering::SeqCst);
        if start != 0 && epoch.elapsed().as_millis() as u64 > start + timeout * 1000 {
            std::process::exit(77);
        }
    });
    for line in src.lines().skip(skip) {
        let scenario: Value = serde_json::from_str(&line.unwrap()).unwrap();
        STARTED.store(epoch.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        let mut state = exec::State::default();
        let mut res = Vec::new();
        for op in scenario["ops"].as_array().unwrap() {
            let r = exec::guarded(|| state.exec(op));
            let stop = r.get("panic").is_some();
            res.push(r);
            if stop {
                break;
            }
        }
        STARTED.store(0, Ordering::SeqCst);
        let mut line = serde_json::to_vec(&json!({"id": scenario["id"], "res": res})).unwrap();
        line.push(b'\n');
        out.write_all(&line).unwrap();
        out.flush().unwrap();
    }
}
