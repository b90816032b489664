//! conc point PROP TIER JOB FILE      replay one assignment on the real code (exit 1 = it fails)
//! conc fuzz  PROP TIER N SEED [JOB]  sample assignments
mod plat;
#[path = "../../props/mod.rs"]
mod props;
#[path = "../../props/large.rs"]
mod large;
use decaf377::Fq;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

fn read_point(f: &str) -> BTreeMap<String, Fq> {
    let mut m = BTreeMap::new();
    for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
        if let Some((k, v)) = l.split_once('=') {
            if v.starts_with("0x") {
                m.insert(k.trim().to_string(), plat::unhex(v.trim()));
            }
        }
    }
    m
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let thorough = a[3] == "thorough";
    let mut jobs = props::jobs(&a[2], thorough);
    let n_small = jobs.len();
    jobs.extend(large::jobs(&a[2]));
    match a[1].as_str() {
        "point" => {
            let j = jobs.iter().find(|j| j.name == a[4]).expect("job");
            let given = read_point(&a[5]);
            let mut bad = false;
            for seed in 0..3 {
                let mut ctx = plat::Ctx::new(given.clone(), seed);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (j.run)(&mut ctx)));
                if r.is_err() {
                    println!("HARNESS-PANIC");
                }
                let unassigned = ctx.used.keys().any(|k| !given.contains_key(k));
                for f in &ctx.failed {
                    println!("FAILED {f}");
                    bad = true;
                }
                for n in &ctx.notes {
                    println!("NOTE {n}");
                }
                for (k, v) in &ctx.used {
                    println!("VALUE {k}={}", plat::hex(v));
                }
                if bad || !unassigned {
                    println!("CHECKED {}", ctx.checked);
                    break;
                }
            }
            std::process::exit(if bad { 1 } else { 0 });
        }
        "fuzz" => {
            let n: usize = a[4].parse().unwrap();
            let seed: u64 = a[5].parse().unwrap_or(1);
            let only = a.get(6).cloned();
            let limit: f64 = a.get(7).and_then(|x| x.parse().ok()).unwrap_or(1e9);
            let t0 = std::time::Instant::now();
            let mut at = 0;
            jobs.retain(|j| {
                at += 1;
                only.as_ref().map_or(true, |o| (o == "" && at <= n_small) || j.name == *o || (o == "large" && at > n_small))
            });
            let jobs = Arc::new(jobs);
            let next = Arc::new(AtomicUsize::new(0));
            let stop = Arc::new(AtomicBool::new(false));
            let checked = Arc::new(AtomicUsize::new(0));
            let runs = Arc::new(AtomicUsize::new(0));
            let out: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
            let mut hs = vec![];
            for _ in 0..8 {
                let (jobs, next, stop, checked, runs, out) =
                    (jobs.clone(), next.clone(), stop.clone(), checked.clone(), runs.clone(), out.clone());
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn(move || loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if jobs.is_empty()
                                || i >= n * jobs.len()
                                || stop.load(Ordering::SeqCst)
                                || t0.elapsed().as_secs_f64() > limit
                            {
                                break;
                            }
                            let j = &jobs[i % jobs.len()];
                            let mut ctx = plat::Ctx::new(BTreeMap::new(), seed.wrapping_mul(1_000_003) + i as u64);
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (j.run)(&mut ctx)));
                            checked.fetch_add(ctx.checked, Ordering::SeqCst);
                            runs.fetch_add(1, Ordering::SeqCst);
                            if r.is_err() {
                                out.lock().unwrap().push(format!("HARNESS-PANIC in {}", j.name));
                            }
                            if !ctx.failed.is_empty() {
                                stop.store(true, Ordering::SeqCst);
                                let mut o = vec![format!("JOB {}", j.name)];
                                o.extend(ctx.failed.iter().map(|f| format!("FAILED {f}")));
                                o.extend(ctx.notes.iter().map(|f| format!("NOTE {f}")));
                                o.extend(ctx.used.iter().map(|(k, v)| format!("VALUE {k}={}", plat::hex(v))));
                                let mut g = out.lock().unwrap();
                                if !g.iter().any(|l| l.starts_with("JOB")) {
                                    g.extend(o);
                                }
                            }
                        })
                        .unwrap(),
                );
            }
            for h in hs {
                h.join().unwrap();
            }
            println!("RUNS {} CHECKED {}", runs.load(Ordering::SeqCst), checked.load(Ordering::SeqCst));
            let o = out.lock().unwrap();
            for l in o.iter() {
                println!("{l}");
            }
            std::process::exit(if o.iter().any(|l| l.starts_with("FAILED")) { 1 } else { 0 });
        }
        _ => {}
    }
}
