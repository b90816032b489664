//! sym PROP TIER SEED OUT.json : generate and discharge the verification conditions of one property.
mod plat;
#[path = "../../props/mod.rs"]
mod props;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;
use symx::{PathSpec, Status};

#[global_allocator]
static ALLOC: symx::Counting = symx::Counting;

#[derive(Default, Clone)]
struct JobOut {
    name: String,
    paths: usize,
    excluded: usize,
    infeasible: usize,
    refined: usize,
    unexplored: usize,
    exact: usize,
    prob: usize,
    refuted: Vec<(String, BTreeMap<String, String>)>,
    unknown: Vec<(String, String, BTreeMap<String, String>)>,
    nodes: usize,
    ops: u64,
    forks: usize,
    secs: f64,
}

/// Wall-clock plan of the whole run: a job gets its share of what is left, and once some obligation
/// is refuted the rest is cut short.
struct Plan {
    end: Instant,
    left: AtomicUsize,
    refuted_at: Mutex<Option<Instant>>,
}
impl Plan {
    fn limit(&self) -> Instant {
        let now = Instant::now();
        let rem = self.end.saturating_duration_since(now).as_secs_f64();
        let waves = (self.left.load(Ordering::SeqCst) as f64 / 8.0).max(1.0);
        let mut l = now + std::time::Duration::from_secs_f64((rem / waves * 3.0).min(rem));
        if let Some(r) = *self.refuted_at.lock().unwrap() {
            l = l.min(r + std::time::Duration::from_secs(30));
        }
        l
    }
}

fn run_job(j: &props::Job, seed: u64, thorough: bool, plan: &Plan, so_far: &Mutex<Option<JobOut>>) -> JobOut {
    let t0 = Instant::now();
    let cap = if thorough { 3000 } else { 400 };
    let limit = plan.limit();
    let mut o = JobOut { name: j.name.clone(), ..Default::default() };
    let mut work: std::collections::VecDeque<PathSpec> = Default::default();
    work.push_back(PathSpec::default());
    while let Some(p) = work.pop_front() {
        if o.paths >= cap || Instant::now() > limit.min(plan.limit()) {
            o.unexplored += 1 + work.len();
            break;
        }
        let mut ctx = plat::Ctx { excluded: None };
        let partial = p.partial;
        let spec = p.clone();
        let r = catch_unwind(AssertUnwindSafe(|| {
            symx::start_run(p, seed, 3_000_000, 4_000_000_000, Some(limit));
            (j.run)(&mut ctx)
        }));
        let out = symx::end_run();
        let mut extra = None;
        if let Err(e) = r {
            if let Some(a) = e.downcast_ref::<symx::PathAbort>() {
                if a.0 == "infeasible" {
                    o.infeasible += 1;
                    continue;
                }
                if a.0 == "split" {
                    // the path was replaced by a complete case distinction
                    work.extend(out.pending);
                    continue;
                }
                extra = Some(a.0.clone());
            } else if let Some(u) = e.downcast_ref::<symx::Unsupported>() {
                extra = Some(format!("unsupported: {}", u.0));
            } else {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                extra = Some(format!("harness stopped: {m}"));
            }
        }
        // what does not follow from an assumed equality may follow from its cases
        let open = extra.is_some() || out.obligations.iter().any(|ob| matches!(ob.status, Status::Unknown(_)));
        let keen = o.refuted.is_empty() && o.refined < 200 && t0.elapsed().as_secs() < if thorough { 200 } else { 40 };
        if open && !partial && keen {
            if let Some(q) = symx::refine(spec) {
                o.refined += 1;
                work.push_back(q);
                continue;
            }
        }
        o.paths += 1;
        o.nodes += out.nodes;
        o.ops += out.ops;
        o.forks += out.forks;
        if let Some(_) = &ctx.excluded {
            o.excluded += 1;
        }
        for ob in &out.obligations {
            match &ob.status {
                Status::ProvedExact if !partial => o.exact += 1,
                Status::ProvedProb if !partial => o.prob += 1,
                Status::ProvedExact | Status::ProvedProb => {}
                Status::Refuted(pt) => o.refuted.push((ob.label.clone(), pt.clone())),
                Status::Unknown(w) => {
                    if !partial {
                        o.unknown.push((ob.label.clone(), w.clone(), out.point.clone()))
                    }
                }
            }
        }
        if let Some(e) = extra {
            if !partial {
                o.unknown.push(("harness".into(), e, out.point.clone()));
            }
        }
        let notes: Vec<String> =
            out.path.note.iter().filter(|n| n.contains("too large to explore")).cloned().collect();
        o.unexplored += notes.len();
        for q in out.pending {
            work.push_back(q);
        }
        // refutation instances first
        let mut v: Vec<PathSpec> = work.into_iter().collect();
        v.sort_by_key(|q| (q.depth, !q.partial));
        work = v.into();
        if !o.refuted.is_empty() {
            let mut r = plan.refuted_at.lock().unwrap();
            if r.is_none() {
                *r = Some(Instant::now());
            }
        }
        if o.refuted.len() > 40 {
            break;
        }
        let mut c = o.clone();
        c.unexplored += work.len().max(1);
        c.secs = t0.elapsed().as_secs_f64();
        *so_far.lock().unwrap() = Some(c);
    }
    o.secs = t0.elapsed().as_secs_f64();
    o
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o
}
fn point(p: &BTreeMap<String, String>) -> String {
    let v: Vec<String> = p.iter().map(|(k, x)| format!("\"{}\":\"{}\"", esc(k), esc(x))).collect();
    format!("{{{}}}", v.join(","))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, tier, seed, out) = (&a[1], &a[2], a[3].parse::<u64>().unwrap_or(1), &a[4]);
    let only = a.get(5).filter(|x| !x.is_empty()).cloned();
    let secs: u64 = a.get(6).and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { 3900 } else { 300 });
    if std::env::var("SYM_DEBUG").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let thorough = tier == "thorough";
    let jobs: Vec<props::Job> = props::jobs(prop, thorough)
        .into_iter()
        .filter(|j| only.as_ref().map_or(true, |o| j.name == *o))
        .collect();
    let jobs = Arc::new(jobs);
    let next = Arc::new(AtomicUsize::new(0));
    let plan = Arc::new(Plan {
        end: Instant::now() + std::time::Duration::from_secs(secs),
        left: AtomicUsize::new(jobs.len()),
        refuted_at: Mutex::new(None),
    });
    // one slot per job: what it found so far, and whether it is done
    let slots: Arc<Vec<(Mutex<Option<JobOut>>, AtomicUsize)>> =
        Arc::new(jobs.iter().map(|_| (Mutex::new(None), AtomicUsize::new(0))).collect());
    for _ in 0..8 {
        let (jobs, next, slots, plan) = (jobs.clone(), next.clone(), slots.clone(), plan.clone());
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= jobs.len() {
                        break;
                    }
                    let r = run_job(&jobs[i], seed, thorough, &plan, &slots[i].0);
                    *slots[i].0.lock().unwrap() = Some(r);
                    slots[i].1.store(1, Ordering::SeqCst);
                    plan.left.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
    }
    // a path that computes for too long cannot be interrupted: its job counts as unexplored
    while plan.left.load(Ordering::SeqCst) > 0 {
        std::thread::sleep(std::time::Duration::from_millis(20));
        let late = |t: Instant| Instant::now() > t + std::time::Duration::from_secs(10);
        let r = *plan.refuted_at.lock().unwrap();
        if late(plan.end) || r.map_or(false, |r| late(r + std::time::Duration::from_secs(30))) {
            break;
        }
    }
    let mut rs: Vec<JobOut> = vec![];
    for (j, s) in jobs.iter().zip(slots.iter()) {
        let mut o = s.0.lock().unwrap().clone().unwrap_or_else(|| JobOut { name: j.name.clone(), unexplored: 1, ..Default::default() });
        if s.1.load(Ordering::SeqCst) == 0 {
            o.unexplored = o.unexplored.max(1);
        }
        rs.push(o);
    }
    rs.sort_by(|a, b| a.name.cmp(&b.name));
    let mut s = String::from("{\"jobs\":[\n");
    for (i, r) in rs.iter().enumerate() {
        if i > 0 {
            s.push_str(",\n");
        }
        let refd: Vec<String> = r
            .refuted
            .iter()
            .take(40)
            .map(|(l, p)| format!("{{\"label\":\"{}\",\"point\":{}}}", esc(l), point(p)))
            .collect();
        let unk: Vec<String> = r
            .unknown
            .iter()
            .take(40)
            .map(|(l, w, p)| format!("{{\"label\":\"{}\",\"why\":\"{}\",\"point\":{}}}", esc(l), esc(w), point(p)))
            .collect();
        write!(
            s,
            "{{\"name\":\"{}\",\"paths\":{},\"excluded\":{},\"infeasible\":{},\"refined\":{},\"unexplored\":{},\"forks\":{},\"exact\":{},\"prob\":{},\"nodes\":{},\"ops\":{},\"secs\":{:.3},\"n_refuted\":{},\"n_unknown\":{},\"refuted\":[{}],\"unknown\":[{}]}}",
            esc(&r.name), r.paths, r.excluded, r.infeasible, r.refined, r.unexplored, r.forks, r.exact, r.prob, r.nodes, r.ops, r.secs,
            r.refuted.len(), r.unknown.len(), refd.join(","), unk.join(",")
        )
        .unwrap();
    }
    s.push_str("\n]}\n");
    std::fs::write(out, s).unwrap();
    std::process::exit(0);
}
