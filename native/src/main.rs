//! Searches for an input on which the real crate breaks a property, and replays one.
//!
//!   search PROPERTY --seed N --secs S [--dict FILE] [--trace FILE]
//!   search PROPERTY --case NAME:INDEX [--dict FILE]
//!
//! This is the bounded companion of the proofs: what it explores is labelled bounded.
mod alloc;
#[cfg(feature = "derived")]
mod derived {
    include!(env!("DERIVED_RS"));
}
mod dynv;
mod faulty;
mod known;
mod props;
mod real;
mod refmodel;
mod rng;
mod typed;

use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

const MAX_CASE_SECS: u64 = 60;

/// What a case showed: a key of what it covered (0: trivial), or what is wrong.
pub type Outcome = Result<u64, String>;

pub struct Group {
    pub name: &'static str,
    /// How many cases there are; 0: as many as time allows, drawn at random.
    pub count: u64,
    pub run: fn(u64) -> Outcome,
}

thread_local! {
    static CURRENT: RefCell<String> = const { RefCell::new(String::new()) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static DETAIL: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Notes what the running case is about to do, for the report.
pub fn detail(s: impl FnOnce() -> String) {
    DETAIL.with(|d| *d.borrow_mut() = s());
}

fn clip(s: &str) -> String {
    if s.len() > 3000 {
        let mut e = 3000;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}… ({} bytes in all)", &s[..e], s.len())
    } else {
        s.to_string()
    }
}

pub fn fatal(why: &str) -> ! {
    let case = CURRENT.with(|c| c.try_borrow().map(|c| c.clone()).unwrap_or_default());
    let d = DETAIL.with(|c| c.try_borrow().map(|c| c.clone()).unwrap_or_default());
    println!("FAILURE case={} {} {}", case, why, clip(&d).replace('\n', " "));
    std::process::exit(1)
}

fn run_case(g: &Group, i: u64) -> Outcome {
    CURRENT.with(|c| *c.borrow_mut() = format!("{}:{}", g.name, i));
    DETAIL.with(|d| d.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(|| (g.run)(i))) {
        Ok(r) => r.map_err(|e| {
            let d = DETAIL.with(|d| d.borrow().clone());
            if d.is_empty() { e } else { format!("{} [{}]", e, d) }
        }),
        Err(_) => {
            let d = DETAIL.with(|d| d.borrow().clone());
            Err(format!("panicked: {} [{}]", PANIC.with(|p| p.borrow().clone()), d))
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| {
        args.iter()
            .position(|a| a == n)
            .and_then(|i| args.get(i + 1))
            .cloned()
    };
    let prop = args.get(1).cloned().unwrap_or_default();
    rng::load_dict(opt("--dict").as_deref());
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = opt("--secs").and_then(|s| s.parse().ok()).unwrap_or(20.0);
    let threads: u64 = opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    std::panic::set_hook(Box::new(|i| {
        PANIC.with(|p| *p.borrow_mut() = i.to_string().replace('\n', " "));
    }));
    let groups = props::groups(&prop);
    if groups.is_empty() {
        eprintln!("no such property: {}", prop);
        std::process::exit(2);
    }
    if let Some(case) = opt("--case") {
        let (name, i) = case.rsplit_once(':').expect("NAME:INDEX");
        let g = groups.iter().find(|g| g.name == name).expect("no such group");
        let i: u64 = i.parse().expect("index");
        let handle = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || run_case(g, i))
                .unwrap()
                .join()
                .unwrap()
        });
        match handle {
            Ok(_) => println!("PASS case={}", case),
            Err(e) => {
                println!("FAILURE case={} {}", case, clip(&e).replace('\n', " "));
                std::process::exit(1);
            }
        }
        return;
    }
    let trace = opt("--trace").map(|p| std::fs::File::create(p).expect("trace file"));
    let start = Instant::now();
    // What each thread is running: group, case, and when it began.
    let running: Vec<[AtomicU64; 3]> = (0..threads).map(|_| Default::default()).collect();
    let done = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let evaluations = AtomicU64::new(0);
    let nontrivial: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let failures: Mutex<Vec<String>> = Mutex::new(vec![]);
    let per_group: Vec<AtomicU64> = groups.iter().map(|_| AtomicU64::new(0)).collect();
    let random: Vec<usize> = (0..groups.len()).filter(|i| groups[*i].count == 0).collect();
    std::thread::scope(|s| {
        let (groups_, running_, done_) = (&groups, &running, &done);
        s.spawn(move || {
            while done_.load(Ordering::Relaxed) < threads {
                std::thread::sleep(Duration::from_millis(100));
                let now = start.elapsed().as_millis() as u64 + 1;
                for r in running_ {
                    let began = r[2].load(Ordering::Relaxed);
                    if began != 0 && now > began + 1000 * MAX_CASE_SECS {
                        let g = r[0].load(Ordering::Relaxed) as usize;
                        println!(
                            "FAILURE case={}:{} does not end: it still runs after {} s",
                            groups_[g].name,
                            r[1].load(Ordering::Relaxed),
                            MAX_CASE_SECS
                        );
                        std::process::exit(1);
                    }
                }
            }
        });
        for t in 0..threads {
            let (groups, stop, evaluations, nontrivial, failures, per_group, random) = (
                &groups, &stop, &evaluations, &nontrivial, &failures, &per_group, &random,
            );
            let (running, done, trace) = (&running[t as usize], &done, &trace);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let mut keys: HashSet<u64> = HashSet::new();
                    let mut n = 0u64;
                    let mut one = |gi: usize, i: u64| -> bool {
                        n += 1;
                        per_group[gi].fetch_add(1, Ordering::Relaxed);
                        running[0].store(gi as u64, Ordering::Relaxed);
                        running[1].store(i, Ordering::Relaxed);
                        running[2].store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        if let Some(f) = trace {
                            use std::os::unix::fs::FileExt;
                            let line = format!("{:<20}:{:020}\n", groups[gi].name, i);
                            let _ = f.write_at(line.as_bytes(), t * 42);
                        }
                        match run_case(&groups[gi], i) {
                            Ok(0) => {}
                            Ok(k) => {
                                if keys.len() < 200_000 {
                                    keys.insert(rng::mix(k ^ (gi as u64) << 56));
                                }
                            }
                            Err(e) => {
                                let mut f = failures.lock().unwrap();
                                f.push(format!(
                                    "FAILURE case={}:{} {}",
                                    groups[gi].name,
                                    i,
                                    clip(&e).replace('\n', " ")
                                ));
                                if f.len() >= 3 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                                return false;
                            }
                        }
                        true
                    };
                    // The enumerated groups come first and are always completed.
                    for (gi, g) in groups.iter().enumerate() {
                        let mut i = t;
                        while i < g.count && !stop.load(Ordering::Relaxed) {
                            if !one(gi, i) {
                                break;
                            }
                            i += threads;
                        }
                    }
                    let mut k = 0u64;
                    while !random.is_empty()
                        && !stop.load(Ordering::Relaxed)
                        && start.elapsed() < Duration::from_secs_f64(secs)
                    {
                        let gi = random[(k % random.len() as u64) as usize];
                        if !one(gi, rng::mix(rng::mix(seed) ^ (t << 48) ^ k)) {
                            break;
                        }
                        k += 1;
                    }
                    running[2].store(0, Ordering::Relaxed);
                    done.fetch_add(1, Ordering::Relaxed);
                    evaluations.fetch_add(n, Ordering::Relaxed);
                    nontrivial.lock().unwrap().extend(keys);
                })
                .unwrap();
        }
    });
    let fails = failures.into_inner().unwrap();
    let mut json = String::from("{");
    json += &format!(
        "\"evaluations\":{},\"distinct_nontrivial\":{},\"groups\":{{",
        evaluations.load(Ordering::Relaxed),
        nontrivial.lock().unwrap().len()
    );
    for (i, g) in groups.iter().enumerate() {
        json += &format!(
            "{}\"{}\":{{\"cases\":{},\"enumerated\":{}}}",
            if i > 0 { "," } else { "" },
            g.name,
            per_group[i].load(Ordering::Relaxed),
            g.count > 0
        );
    }
    json += &format!("}},\"failures\":{},\"secs\":{:.2}}}", fails.len(), start.elapsed().as_secs_f64());
    println!("STATS {}", json);
    for f in &fails {
        println!("{}", f);
    }
    if !fails.is_empty() {
        std::process::exit(1);
    }
}
