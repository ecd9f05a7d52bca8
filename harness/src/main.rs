//! Runs programs against the code under test and writes down, as traces, what it did.
//!   jmt-harness gen PROP SEED FIRST COUNT OUT [big]   COUNT traces of a property from number FIRST
//!   jmt-harness replay PROP SEED JOBS OUT             one trace per behaviour of the specification in JOBS
//!   jmt-harness kf1|kf2                               reproduces a known finding
mod ctx;
mod encx;
mod flt;
mod forge;
mod gen;
mod hashx;
mod huge;
mod icsx;
mod keys;
mod kf;
mod mockx;
mod mt;
mod prof;
mod rec;
mod replay;
mod rest;
mod rng;
mod store;

use serde_json::{json, Value};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn main() {
    if std::env::var("SHOW_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("gen") => gen_cmd(&a[2..]),
        Some("replay") => replay_cmd(&a[2..]),
        Some("kf1") => kf::kf1(),
        Some("kf2") => kf::kf2(),
        _ => {
            eprintln!("usage: jmt-harness gen PROP SEED FIRST COUNT OUT [big] | kf1 | kf2");
            std::process::exit(2);
        }
    }
}

/// What stands for a trace that the code under test did not let the harness finish.
fn lost(id: u64, seed: u64, prop: &str, how: &str) -> Value {
    json!({"id": id, "seed": seed, "label": prop, "nib": [vec![0; 64], vec![1; 64]],
        "m": 1, "base": "0", "terms": [], "ev": [{"e": how}]})
}

fn gen_cmd(a: &[String]) {
    let prop = a[0].clone();
    let seed: u64 = a[1].parse().unwrap();
    let first: u64 = a[2].parse().unwrap();
    let count: u64 = a[3].parse().unwrap();
    let big = a.get(5).map_or(false, |b| b == "big");
    let p = prop.clone();
    record(&prop, seed, first, count, &a[4], if big { 240 } else { 100 }, move |i| prof::trace(&p, seed, first + i, big));
}

fn replay_cmd(a: &[String]) {
    let prop = a[0].clone();
    let seed: u64 = a[1].parse().unwrap();
    let jobs: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
    let p = prop.clone();
    record(&prop, seed, 0, jobs.len() as u64, &a[3], 100, move |i| replay::trace(&p, seed, &jobs[i as usize]));
}

fn record(prop: &str, seed: u64, first: u64, count: u64, out: &str, limit: u64, f: impl Fn(u64) -> Value + Send + Sync + 'static) {
    let f = Arc::new(f);
    let prop = prop.to_string();
    let next = Arc::new(AtomicU64::new(0));
    let done: Arc<Mutex<Vec<Option<String>>>> = Arc::new(Mutex::new(vec![None; count as usize]));
    let running: Arc<Mutex<std::collections::HashMap<u64, Instant>>> = Default::default();
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get());
    let mut hs = vec![];
    for _ in 0..threads {
        let (next, done, prop, running, f) = (next.clone(), done.clone(), prop.clone(), running.clone(), f.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= count {
                        return;
                    }
                    running.lock().unwrap().insert(i, Instant::now());
                    let t = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i)))
                        .unwrap_or_else(|_| lost(first + i, seed, &prop, "crash"));
                    let t = serde_json::to_string(&t).unwrap();
                    running.lock().unwrap().remove(&i);
                    done.lock().unwrap()[i as usize] = Some(t);
                })
                .unwrap(),
        );
    }
    // An operation that does not come back is an outcome, too.
    let limit = Duration::from_secs(limit);
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        let hung = running.lock().unwrap().iter().any(|(_, t)| t.elapsed() > limit);
        if hung {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut d = done.lock().unwrap();
    let mut ts: Vec<String> = vec![];
    for i in 0..count as usize {
        if let Some(t) = d[i].take() {
            ts.push(t);
        } else if running.lock().unwrap().get(&(i as u64)).map_or(false, |t| t.elapsed() > limit) {
            ts.push(lost(first + i as u64, seed, &prop, "hang").to_string());
        }
    }
    std::fs::write(out, format!("[{}]", ts.join(",\n"))).unwrap();
    std::process::exit(0);
}
