//! Conformance harness: reads one JSON job per line on stdin, runs it against
//! the real crate, writes one JSON observation per line on stdout (same order).
//!
//! The harness takes no decision: it records what the code does, and TLC checks
//! the record against the TLA+ specification.  A job that does not finish within
//! VH_LIMIT seconds (default 10) is recorded as `{"outcome": "hang"}`.
mod jobs;

use std::io::{BufRead, Write};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

enum Msg {
    Start(usize),
    Done(usize, String),
}

fn env(name: &str, default: u64) -> u64 {
    std::env::var(name)
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(default)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let jobs: Vec<serde_json::Value> = std::io::stdin()
        .lock()
        .lines()
        .map(|l| l.expect("stdin"))
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).expect("job json"))
        .collect();
    let n = jobs.len();
    let limit = Duration::from_secs(env("VH_LIMIT", 10));
    let jobs = Arc::new(jobs);
    let next = Arc::new(Mutex::new(0usize));
    let (tx, rx) = mpsc::channel();
    let spawn = || {
        let (jobs, next, tx) = (jobs.clone(), next.clone(), tx.clone());
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || loop {
                let i = {
                    let mut g = next.lock().unwrap();
                    if *g >= jobs.len() {
                        break;
                    }
                    *g += 1;
                    *g - 1
                };
                let _ = tx.send(Msg::Start(i));
                let r = jobs::run(&jobs[i]).to_string();
                let _ = tx.send(Msg::Done(i, r));
            })
            .expect("spawn");
    };
    for _ in 0..env("VH_THREADS", 8) {
        spawn();
    }
    let mut out: Vec<Option<String>> = vec![None; n];
    let mut started: Vec<Option<Instant>> = vec![None; n];
    let mut left = n;
    while left > 0 {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Start(i)) => started[i] = Some(Instant::now()),
            Ok(Msg::Done(i, r)) => {
                started[i] = None;
                if out[i].is_none() {
                    out[i] = Some(r);
                    left -= 1;
                }
            }
            Err(_) => {
                for i in 0..n {
                    if out[i].is_none() && started[i].is_some_and(|t| t.elapsed() > limit) {
                        out[i] = Some("{\"outcome\":\"hang\"}".to_string());
                        left -= 1;
                        spawn(); // the thread of this job is lost
                    }
                }
            }
        }
    }
    let mut w = std::io::BufWriter::new(std::io::stdout().lock());
    for o in out.iter() {
        writeln!(w, "{}", o.as_ref().unwrap()).unwrap();
    }
    w.flush().unwrap();
    std::process::exit(0);
}
