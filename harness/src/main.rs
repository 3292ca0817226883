//! Conformance harness: runs the real library on the cases of an ndjson file
//! and writes one observation per case. Only the public API is used.
//!
//! usage: qharness <map|wad|fgd|diff> <cases.ndjson> <obs.ndjson> <first> [timeout_s]
//! A line {"id":..,"st":"begin"} precedes every observation, so that the
//! supervisor can attribute an abort of the process to the running case.
mod fgdmode;
mod mapmode;
mod util;
mod wadmode;

use serde_json::{json, Value};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mode = args[1].clone();
    let cases = std::fs::read_to_string(&args[2]).expect("cases");
    let out = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&args[3])
        .expect("out");
    let first: usize = args[4].parse().unwrap();
    let timeout: u64 = args.get(5).map(|s| s.parse().unwrap()).unwrap_or(20);

    if mode == "wad" {
        util::limit_memory(3 << 30);
    } else {
        util::limit_memory(6 << 30);
    }
    util::silence_stdout();

    let message: Arc<Mutex<String>> = Arc::new(Mutex::new(String::new()));
    {
        let message = message.clone();
        std::panic::set_hook(Box::new(move |info| {
            let mut m = message.lock().unwrap();
            if m.is_empty() {
                *m = info.to_string().replace('\n', " ");
            }
        }));
    }

    // Watchdog: a case that runs too long is a hang
    let current = Arc::new(AtomicU64::new(u64::MAX));
    let started = Arc::new(Mutex::new(Instant::now()));
    {
        let current = current.clone();
        let started = started.clone();
        let path = args[3].clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(100));
            let id = current.load(Ordering::SeqCst);
            if id != u64::MAX && started.lock().unwrap().elapsed() > Duration::from_secs(timeout) {
                let mut f = std::fs::OpenOptions::new().append(true).open(&path).unwrap();
                let _ = writeln!(f, "{}", json!({"id": id, "st": "hang"}));
                std::process::exit(3);
            }
        });
    }

    let mut out = out;
    for (i, line) in cases.lines().enumerate() {
        if i < first || line.is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(line).expect("case");
        let id = case["id"].as_u64().unwrap();
        writeln!(out, "{}", json!({"id": id, "st": "begin"})).unwrap();
        message.lock().unwrap().clear();
        *started.lock().unwrap() = Instant::now();
        current.store(id, Ordering::SeqCst);
        let result = std::panic::catch_unwind(|| match mode.as_str() {
            "map" => mapmode::run(&case),
            "diff" => mapmode::run_diff(&case),
            "wad" => wadmode::run(&case),
            "fgd" => fgdmode::run(&case),
            _ => panic!("mode"),
        });
        current.store(u64::MAX, Ordering::SeqCst);
        let mut obs = match result {
            Ok(v) => v,
            Err(_) => json!({"st": "panic", "msg": message.lock().unwrap().clone()}),
        };
        obs["id"] = json!(id);
        writeln!(out, "{}", obs).unwrap();
    }
}
