//! Conformance driver of the specification in ../spec.
//!
//! `harness replay FILE` plays the cases generated by TLC against the crate
//! and prints one JSON line for each case that is not as specified.
//! `harness record KIND SEED COUNT` runs the crate on its own inputs and
//! prints the observations, to be validated by TLC.
mod cases;
mod cursor;
mod nodes;
mod record;
mod text;
mod tree;
mod typed;

use serde_json::{json, Value};
use std::{
    io::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst},
        Arc,
    },
    thread,
    time::{Duration, Instant},
};

const HANG: u64 = 30;

fn json_of(s: &str) -> Value {
    let mut d = serde_json::Deserializer::from_str(s);
    d.disable_recursion_limit();
    serde::Deserialize::deserialize(&mut d).expect("harness: case")
}

fn replay(path: &str, threads: usize) {
    let file = std::fs::read_to_string(path).expect("harness: file");
    let lines: Arc<Vec<String>> = Arc::new(file.lines().map(|s| s.to_string()).collect());
    let next = Arc::new(AtomicUsize::new(0));
    let start = Instant::now();
    let now: Arc<Vec<(AtomicUsize, AtomicU64)>> =
        Arc::new((0..threads).map(|_| (AtomicUsize::new(usize::MAX), AtomicU64::new(0))).collect());
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let (lines, next, now) = (lines.clone(), next.clone(), now.clone());
            thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut count = 0usize;
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= lines.len() {
                            break count;
                        }
                        now[t].1.store(start.elapsed().as_secs(), SeqCst);
                        now[t].0.store(i, SeqCst);
                        let case = json_of(&lines[i]);
                        let r = catch_unwind(AssertUnwindSafe(|| cases::check(&case)));
                        let msg = match r {
                            Ok(Ok(())) => None,
                            Ok(Err(e)) => Some(e),
                            Err(e) => {
                                let s = e
                                    .downcast_ref::<String>()
                                    .cloned()
                                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                                    .unwrap_or_default();
                                Some(if s.starts_with("harness:") { s } else { format!("panic: {s}") })
                            }
                        };
                        if let Some(msg) = msg {
                            let tool = msg.starts_with("harness:");
                            println!("{}", json!({"bad": i, "msg": msg, "tool": tool}));
                        }
                        now[t].0.store(usize::MAX, SeqCst);
                        count += 1;
                    }
                })
                .unwrap()
        })
        .collect();
    let w = now.clone();
    thread::spawn(move || loop {
        thread::sleep(Duration::from_millis(500));
        let t = start.elapsed().as_secs();
        for (i, s) in w.iter() {
            let i = i.load(SeqCst);
            if i != usize::MAX && t > s.load(SeqCst) + HANG {
                println!("{}", json!({"bad": i, "msg": "hang: no result", "tool": false}));
                std::io::stdout().flush().unwrap();
                std::process::exit(0);
            }
        }
    });
    let mut n = 0;
    for h in handles {
        n += h.join().expect("harness: thread");
    }
    println!("{}", json!({"done": n}));
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let args: Vec<_> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("replay") => replay(&args[2], args.get(3).map_or(8, |s| s.parse().unwrap())),
        Some("record") => {
            let n = |i: usize| args[i].parse().unwrap();
            record::record(&args[2], n(3) as u64, n(4), n(5))
        }
        _ => {
            eprintln!("usage: harness replay FILE [THREADS]\n       harness record KIND SEED COUNT LIMIT");
            std::process::exit(2)
        }
    }
}
