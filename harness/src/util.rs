//! Small deterministic utilities: RNG, panic capture, case pool, watchdog.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234_5678);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// Runs `f`, turning a panic of the code under test into an error text.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".to_string());
        format!("panic: {}", m)
    })
}

pub struct Outcome {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub samples: Vec<serde_json::Value>,
    pub failures: Vec<(serde_json::Value, String)>,
    pub skipped: u64,
}

/// Result of one case: Ok(Some(n)) = n comparisons made (0: trivial), Ok(None) = skipped (outside the stated bound), Err = property broken.
pub type CaseResult = Result<Option<u64>, String>;

static CURRENT: Mutex<Vec<Option<(Instant, String)>>> = Mutex::new(Vec::new());

fn rss_bytes() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096
}

pub fn mark(slot: usize, case: Option<String>) {
    let mut c = CURRENT.lock().unwrap();
    while c.len() <= slot {
        c.push(None);
    }
    c[slot] = case.map(|s| (Instant::now(), s));
}

/// A case that hangs or eats memory is itself a failing input: report it and end the process.
pub fn start_watchdog(case_limit: Duration, mem_limit: u64, report: impl Fn(String, &str) + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(20));
        let over = rss_bytes() > mem_limit;
        let c = CURRENT.lock().unwrap();
        let mut worst: Option<(Duration, String)> = None;
        for x in c.iter().flatten() {
            let d = x.0.elapsed();
            if worst.as_ref().map_or(true, |w| w.0 < d) {
                worst = Some((d, x.1.clone()));
            }
        }
        drop(c);
        if let Some((d, s)) = worst {
            if over {
                report(s, "memory limit exceeded (non-termination)");
            } else if d > case_limit {
                report(s, "time limit exceeded (non-termination)");
            }
        }
    });
}

pub fn run_pool(n: u64, deadline: Duration, threads: usize, gen: impl Fn(u64) -> serde_json::Value + Sync, check: impl Fn(&serde_json::Value) -> CaseResult + Sync) -> Outcome {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let start = Instant::now();
    let out = Mutex::new(Outcome { evaluations: 0, nontrivial: 0, samples: vec![], failures: vec![], skipped: 0 });
    let seen: Mutex<std::collections::HashSet<u64>> = Mutex::new(Default::default());
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, stop, out, seen, gen, check) = (&next, &stop, &out, &seen, &gen, &check);
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || loop {
                if stop.load(Ordering::Relaxed) || start.elapsed() > deadline {
                    break;
                }
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n {
                    break;
                }
                let case = gen(i);
                let text = case.to_string();
                mark(t, Some(text.clone()));
                let t0 = Instant::now();
                let r = match no_panic(|| check(&case)) {
                    Ok(r) => r,
                    Err(p) => Err(p),
                };
                mark(t, None);
                if std::env::var("SLOW").is_ok() && t0.elapsed().as_millis() > 400 {
                    eprintln!("slow {:?} {}", t0.elapsed(), text.chars().take(300).collect::<String>());
                }
                let mut o = out.lock().unwrap();
                o.evaluations += 1;
                match r {
                    Ok(None) => o.skipped += 1,
                    Ok(Some(k)) => {
                        use std::hash::{Hash, Hasher};
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        text.hash(&mut h);
                        if k > 0 && seen.lock().unwrap().insert(h.finish()) {
                            o.nontrivial += 1;
                            if o.samples.len() < 3 && i % 7 == 3 {
                                o.samples.push(case);
                            }
                        }
                    }
                    Err(m) => {
                        o.failures.push((case, m));
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            }).unwrap();
        }
    });
    out.into_inner().unwrap()
}
