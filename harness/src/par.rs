//! Parallel replay of NDJSON cases with panic capture and a watchdog: the code under test may
//! panic, loop for ever or eat memory, and all three are results, not failures of the harness.
use serde_json::{json, Value as J};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub enum Out {
    Ok(&'static str),
    Skip(&'static str),
    Bad(String),
}

pub fn read_cases(path: &str) -> Vec<J> {
    let f = std::io::BufReader::new(std::fs::File::open(path).expect("cases file"));
    let mut v = vec![];
    for l in f.lines() {
        let l = l.expect("read");
        let l = l.trim();
        if l.starts_with("\"{") || l.starts_with("\"[") {
            // a line printed by TLC: a string holding JSON
            let s: String = serde_json::from_str(l).expect("TLC line");
            v.push(serde_json::from_str(&s).expect("case"));
        } else if l.starts_with('{') || l.starts_with('[') {
            v.push(serde_json::from_str(l).expect("case"));
        }
    }
    v
}

pub fn rss_mb() -> usize {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0) * 4096 / (1 << 20)
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

struct Shared {
    cases: Vec<J>,
    next: AtomicUsize,
    counts: Mutex<std::collections::BTreeMap<String, usize>>,
    bad: Mutex<Vec<J>>,
    nbad: AtomicUsize,
    running: Mutex<Vec<Option<(usize, Instant)>>>,
}

fn finish(s: &Shared, out: &str) {
    let bad = s.bad.lock().unwrap();
    let counts = s.counts.lock().unwrap();
    let r = json!({"cases": s.cases.len(), "counts": &*counts, "nbad": s.nbad.load(Ordering::SeqCst), "bad": &*bad});
    let mut f = std::fs::File::create(out).expect("out");
    f.write_all(r.to_string().as_bytes()).unwrap();
}

/// Runs `f` on every case; writes a JSON summary with at most 40 failing cases to `out`.
pub fn run<F>(cases: Vec<J>, out: &str, limit_s: u64, f: F)
where
    F: Fn(&J) -> Out + Send + Sync + 'static,
{
    std::panic::set_hook(Box::new(|_| {}));
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let s = Arc::new(Shared {
        cases,
        next: AtomicUsize::new(0),
        counts: Default::default(),
        bad: Default::default(),
        nbad: AtomicUsize::new(0),
        running: Mutex::new(vec![None; n]),
    });
    let f = Arc::new(f);
    let mut hs = vec![];
    for t in 0..n {
        let s = s.clone();
        let f = f.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    let i = s.next.fetch_add(1, Ordering::SeqCst);
                    if i >= s.cases.len() {
                        break;
                    }
                    s.running.lock().unwrap()[t] = Some((i, Instant::now()));
                    let r = catch_unwind(AssertUnwindSafe(|| f(&s.cases[i])));
                    s.running.lock().unwrap()[t] = None;
                    let r = r.unwrap_or_else(|e| Out::Bad(format!("panic: {}", panic_text(e))));
                    match r {
                        Out::Ok(k) => *s.counts.lock().unwrap().entry(k.to_string()).or_default() += 1,
                        Out::Skip(k) => *s.counts.lock().unwrap().entry(format!("skip:{}", k)).or_default() += 1,
                        Out::Bad(w) => {
                            s.nbad.fetch_add(1, Ordering::SeqCst);
                            let mut b = s.bad.lock().unwrap();
                            if b.len() < 40 {
                                b.push(json!({"why": w, "case": s.cases[i]}));
                            }
                        }
                    }
                })
                .unwrap(),
        );
    }
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        let rss = rss_mb();
        let now = Instant::now();
        let mut hung: Option<(usize, Duration)> = None;
        for r in s.running.lock().unwrap().iter().flatten() {
            let d = now - r.1;
            if hung.map(|h| d > h.1).unwrap_or(true) {
                hung = Some((r.0, d));
            }
        }
        if let Some((i, d)) = hung {
            if d > Duration::from_secs(limit_s) || rss > 12_000 {
                s.nbad.fetch_add(1, Ordering::SeqCst);
                s.bad.lock().unwrap().insert(
                    0,
                    json!({"why": format!("does not finish: {:?}, {} MB", d, rss), "case": s.cases[i]}),
                );
                finish(&s, out);
                std::process::exit(0);
            }
        }
    }
    finish(&s, out);
}
