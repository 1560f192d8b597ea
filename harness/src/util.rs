//! Running code under test, in parallel, with panics as data.

use crate::report::Report;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

/// None if the code panicked
pub fn guard<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
}

/// f(i, report) for i in 0..n on all cores; the reports are merged
pub fn parallel(n: usize, f: impl Fn(usize, &mut Report) + Sync) -> Report {
    let next = AtomicUsize::new(0);
    let total = Mutex::new(Report::default());
    std::thread::scope(|s| {
        for _ in 0..threads() {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    let mut r = Report::default();
                    loop {
                        let i = next.fetch_add(16, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        for j in i..(i + 16).min(n) {
                            f(j, &mut r);
                        }
                    }
                    total.lock().unwrap().merge(r);
                })
                .unwrap();
        }
    });
    total.into_inner().unwrap()
}

pub struct Args {
    pub family: String,
    pub prop: String,
    pub opts: std::collections::HashMap<String, String>,
}

impl Args {
    pub fn parse() -> Args {
        let a: Vec<String> = std::env::args().skip(1).collect();
        let mut opts = std::collections::HashMap::new();
        let mut pos = Vec::new();
        let mut i = 0;
        while i < a.len() {
            if let Some(k) = a[i].strip_prefix("--") {
                opts.insert(k.to_string(), a[i + 1].clone());
                i += 2;
            } else {
                pos.push(a[i].clone());
                i += 1;
            }
        }
        Args { family: pos[0].clone(), prop: pos.get(1).cloned().unwrap_or_default(), opts }
    }
    pub fn opt(&self, k: &str) -> Option<&str> {
        self.opts.get(k).map(|s| s.as_str())
    }
    pub fn seed(&self) -> u64 {
        self.opt("seed").and_then(|s| s.parse().ok()).unwrap_or(1)
    }
    pub fn thorough(&self) -> bool {
        self.opt("tier") == Some("thorough")
    }
    pub fn num(&self, k: &str, d: usize) -> usize {
        self.opt(k).and_then(|s| s.parse().ok()).unwrap_or(d)
    }
}
