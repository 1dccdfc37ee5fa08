//! The explorer: runs families of work items exhaustively and in parallel, records what was covered,
//! turns model disagreements, panics, hangs and process deaths into replayable violations.
//!
//! The process is its own supervisor: the parent starts a child that explores; when the child is killed by
//! a signal (stack exhaustion, abort), the parent re-runs the items that were in flight one by one to find
//! the culprit.

use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::strings::json_str;

/// Exit status of a run in which the harness itself failed (never a verdict).
const ERROR: i32 = 3;
const HANG_SECS: u64 = 60;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Debug, Clone)]
pub struct Violation {
    /// what went wrong, one line
    pub detail: String,
    /// the operations that show it, in order; enough to replay by hand
    pub script: String,
}

pub type Outcome = Result<(), Violation>;

pub fn violation<T>(detail: String, script: String) -> Result<T, Violation> {
    Err(Violation { detail, script })
}

/// Per-worker counters.
#[derive(Default)]
pub struct Local {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
    pub worker: usize,
    /// listed findings that were met
    pub known: HashSet<String>,
    findings: Arc<Vec<(String, String)>>,
}

impl Local {
    /// A failure of the kind `id` (a particular call site or input) was met: true when known_findings.txt
    /// lists it for this property.
    pub fn is_known(&mut self, id: &str) -> bool {
        let listed = self.findings.iter().any(|f| f.0 == id);
        if listed {
            self.known.insert(id.to_owned());
        }
        listed
    }
    pub fn outcome<H: std::hash::Hash>(&mut self, h: &H) {
        use std::hash::Hasher;
        if self.outcomes.len() < 2_000_000 {
            let mut s = std::collections::hash_map::DefaultHasher::new();
            h.hash(&mut s);
            self.outcomes.insert(s.finish());
        }
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
}

pub struct Family {
    pub name: String,
    /// the bound that is covered completely
    pub bound: String,
    pub items: u64,
    pub run: Box<dyn Fn(u64, &mut Local) -> Outcome + Sync>,
}

impl Family {
    pub fn new<F>(name: &str, bound: String, items: u64, run: F) -> Family
        where F: Fn(u64, &mut Local) -> Outcome + Sync + 'static
    {
        Family { name: name.to_owned(), bound, items, run: Box::new(run) }
    }
}

pub struct Check {
    pub property: String,
    pub families: Vec<Family>,
    pub rule: String,
    pub assumptions: Vec<String>,
}

/// Runs code of the library under test; a panic becomes an error text.
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    IN_GUARD.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_GUARD.with(|g| g.set(g.get() - 1));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&'static str>() {
            s.to_string()
        } else {
            "panic".to_owned()
        }
    }).map_err(|e| format!("{} at {}", e, PLACE.with(|p| p.borrow().clone())))
}

thread_local!(static IN_GUARD: std::cell::Cell<u32> = std::cell::Cell::new(0));
thread_local!(static PLACE: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));

struct FamilyReport {
    name: String,
    bound: String,
    items: u64,
    done: u64,
    states: u64,
    transitions: u64,
    traces: u64,
    outcomes: usize,
}

struct Slot {
    /// time the watchdog has seen pass; a pause of the whole machine counts little
    seen: Duration,
    /// processor time of the worker when the item began, and the clock that tells it
    cpu: Duration,
    clock: libc::clockid_t,
    item: Option<u64>,
}

fn cpu_time(clock: libc::clockid_t) -> Duration {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clock, &mut ts) };
    Duration::new(ts.tv_sec as u64, ts.tv_nsec as u32)
}

fn own_clock() -> libc::clockid_t {
    let mut c = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
    c
}

/// The open findings of a property: lines "finding: property=<id> id=<key> <what fails>".
fn findings(property: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or(String::new());
    text.lines().filter_map(|l| {
        let l = l.strip_prefix(&format!("finding: property={} id=", property))?;
        let (id, what) = l.split_once(' ')?;
        Some((id.to_owned(), what.to_owned()))
    }).collect()
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".to_owned()))
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

/// A scratch directory of this process, removed at the end.
pub fn scratch() -> PathBuf {
    let d = PathBuf::from(std::env::var("MC_SCRATCH").expect("scratch directory"));
    std::fs::create_dir_all(&d).expect("create scratch directory");
    d
}

pub fn main<F: Fn(&str, Tier) -> Option<Check>>(build: F) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let mut property = None;
    let mut tier = Tier::Quick;
    let mut only = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                i += 1;
                tier = match args[i].as_str() {
                    "quick" => Tier::Quick,
                    "thorough" => Tier::Thorough,
                    t => die(&format!("unknown tier {}", t)),
                };
            }
            "--only" => {
                i += 1;
                only = Some(args[i].clone());
            }
            p => property = Some(p.to_owned()),
        }
        i += 1;
    }
    let property = property.unwrap_or_else(|| die("usage: <bin> PROPERTY [--tier quick|thorough] [--only FAMILY:ITEM]"));
    if std::env::var("MC_CHILD").is_err() {
        supervise(&property, tier, only);
    }
    // a runaway allocation must end this process, not the machine
    unsafe {
        let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    let check = build(&property, tier).unwrap_or_else(|| die(&format!("unknown property {}", property)));
    std::process::exit(explore(check, tier, only))
}

fn die(msg: &str) -> ! {
    eprintln!("mc: error: {}", msg);
    std::process::exit(ERROR)
}

fn tier_name(t: Tier) -> &'static str {
    match t { Tier::Quick => "quick", Tier::Thorough => "thorough" }
}

fn supervise(property: &str, tier: Tier, only: Option<String>) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let start = Instant::now();
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", property, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&format!("scratch: {}", e)));
    let exe = std::env::current_exe().unwrap_or_else(|e| die(&format!("{}", e)));
    let run = |only: &Option<String>| {
        let mut c = std::process::Command::new(&exe);
        c.arg(property).arg("--tier").arg(tier_name(tier)).env("MC_CHILD", "1").env("MC_SCRATCH", &dir);
        if let Some(ref o) = *only {
            c.arg("--only").arg(o);
        }
        c.status()
    };
    let status = run(&only);
    let code = match status {
        Err(e) => { eprintln!("mc: error: cannot start the explorer: {}", e); ERROR }
        Ok(s) => match (s.code(), s.signal()) {
            (Some(c), _) => c,
            (None, sig) => {
                println!("explorer ended by signal {:?}; re-running the items that were in flight", sig);
                let mut verdict = ERROR;
                let mut candidates: Vec<String> = vec![];
                if let Ok(rd) = std::fs::read_dir(&dir) {
                    for e in rd.filter_map(|e| e.ok()) {
                        if e.file_name().to_string_lossy().starts_with("inflight") {
                            if let Ok(s) = std::fs::read_to_string(e.path()) {
                                if !s.trim().is_empty() {
                                    candidates.push(s.trim().to_owned());
                                }
                            }
                        }
                    }
                }
                candidates.sort();
                candidates.dedup();
                for c in candidates {
                    let r = run(&Some(c.clone()));
                    match r {
                        Ok(s) if s.code() == Some(1) => { verdict = 1; break }
                        Ok(s) if s.signal().is_some() => {
                            let v = Violation {
                                detail: format!("the process is ended by signal {:?} (stack exhaustion, abort or endless allocation) while exploring item {}", s.signal(), c),
                                script: format!("re-run with: {} {} --tier {} --only '{}'\n", exe.display(), property, tier_name(tier), c),
                            };
                            report(property, tier, &c, &v);
                            evidence(property, tier, start, &[], &["see the replay file".to_owned()], "process death while exploring", &[], 1, false);
                            verdict = 1;
                            break;
                        }
                        _ => {}
                    }
                }
                if verdict == ERROR {
                    eprintln!("mc: error: the explorer died and no single item reproduces it");
                }
                verdict
            }
        },
    };
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(code)
}

/// Writes the replay file and prints the VIOLATION line.
fn report(property: &str, tier: Tier, item: &str, v: &Violation) {
    let dir = verif_dir().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.txt", property));
    let text = format!("property: {}\nwhat: {}\nitem: {}\ntier: {}\nseed: {}\nre-run: bash /verif/run.sh {} {} --only '{}'\n\n{}\n",
                       property, v.detail, item, tier_name(tier), seed(), property, tier_name(tier), item, v.script);
    let _ = std::fs::write(&path, &text);
    println!("{}", text);
    println!("VIOLATION property={} replay={}", property, path.display());
    let _ = std::io::stdout().flush();
}

fn explore(check: Check, tier: Tier, only: Option<String>) -> i32 {
    let start = Instant::now();
    std::panic::set_hook(Box::new(|info| {
        if IN_GUARD.with(|g| g.get()) == 0 {
            eprintln!("mc: harness panic: {}", info);
        } else if let Some(l) = info.location() {
            let _ = PLACE.try_with(|p| if let Ok(mut p) = p.try_borrow_mut() { *p = format!("{}:{}", l.file(), l.line()) });
        }
    }));
    let wall_cap = match tier {
        Tier::Quick => Duration::from_secs(600),
        Tier::Thorough => Duration::from_secs(std::env::var("MC_THOROUGH_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(7200)),
    };
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let listed = Arc::new(findings(&check.property));
    let mut met: HashSet<String> = HashSet::new();
    let mut reports: Vec<FamilyReport> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut found: Option<(String, Violation)> = None;
    let mut harness_failed = false;
    let mut capped = false;
    let only: Option<(String, u64)> = only.map(|o| {
        let p = o.rfind(':').unwrap_or_else(|| die("--only FAMILY:ITEM"));
        (o[..p].to_owned(), o[p + 1..].parse().unwrap_or_else(|_| die("--only FAMILY:ITEM")))
    });
    let scratch_dir = scratch();
    let property = check.property.clone();
    let mut families = check.families;
    if let Ok(f) = std::env::var("MC_FAMILY") {
        families.retain(|x| x.name == f);
    }

    for fam in &families {
        if let Some((ref f, _)) = only {
            if *f != fam.name {
                continue;
            }
        }
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let stop_at = AtomicU64::new(u64::max_value());
        let failed = AtomicBool::new(false);
        let finished = AtomicBool::new(false);
        let time_up = AtomicBool::new(false);
        let best: Mutex<Option<(u64, Violation)>> = Mutex::new(None);
        let slots: Vec<Arc<Mutex<Slot>>> = (0..workers).map(|_| Arc::new(Mutex::new(Slot { seen: Duration::ZERO, cpu: Duration::ZERO, clock: 0, item: None }))).collect();
        let locals: Mutex<Vec<Local>> = Mutex::new(vec![]);
        let listed_w = &listed;
        let n_workers = if only.is_some() { 1 } else { workers };

        std::thread::scope(|scope| {
            // watchdog: an item that does not end is a violation (the code under test loops)
            let (slots_w, finished_w, fam_name, prop_w) = (&slots, &finished, &fam.name, &property);
            scope.spawn(move || {
                let mut last = Instant::now();
                while !finished_w.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = Instant::now();
                    let passed = (now - last).min(Duration::from_millis(100));
                    last = now;
                    for s in slots_w.iter() {
                        let mut s = s.lock().unwrap();
                        if let Some(item) = s.item {
                            s.seen += passed;
                            // busy for that long, or stuck for several times as long
                            if s.seen > Duration::from_secs(HANG_SECS) && (s.seen > Duration::from_secs(4 * HANG_SECS) || cpu_time(s.clock).saturating_sub(s.cpu) > Duration::from_secs(HANG_SECS / 2)) {
                                let v = Violation {
                                    detail: format!("item {}:{} does not terminate within {} s of work (endless loop or blow-up in the code under test)", fam_name, item, HANG_SECS),
                                    script: String::from("re-run the item to reproduce"),
                                };
                                report(prop_w, tier, &format!("{}:{}", fam_name, item), &v);
                                evidence(prop_w, tier, start, &[], &["see the replay file".to_owned()], "non-terminating item", &[], 1, false);
                                std::process::exit(1);
                            }
                        }
                    }
                }
            });
            let handles: Vec<_> = (0..n_workers).map(|w| {
                let (next, done, stop_at, failed, best, locals, slot, only, time_up, scratch_dir) =
                    (&next, &done, &stop_at, &failed, &best, &locals, slots[w].clone(), &only, &time_up, &scratch_dir);
                std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(scope, move || {
                    let mut local = Local { worker: w, findings: listed_w.clone(), ..Local::default() };
                    let clock = own_clock();
                    let mut inflight = std::fs::File::create(scratch_dir.join(format!("inflight-{}", w))).expect("inflight file");
                    loop {
                        let item = match *only {
                            Some((_, i)) => { if next.fetch_add(1, Ordering::SeqCst) > 0 { break } i }
                            None => next.fetch_add(1, Ordering::SeqCst),
                        };
                        if item >= fam.items || item > stop_at.load(Ordering::SeqCst) || failed.load(Ordering::SeqCst) {
                            break;
                        }
                        if start.elapsed() > wall_cap {
                            time_up.store(true, Ordering::SeqCst);
                            break;
                        }
                        {
                            let mut s = slot.lock().unwrap();
                            s.seen = Duration::ZERO;
                            s.cpu = cpu_time(clock);
                            s.clock = clock;
                            s.item = Some(item);
                        }
                        {
                            use std::os::unix::fs::FileExt;
                            let _ = inflight.write_all_at(format!("{:<80}", format!("{}:{}", fam.name, item)).as_bytes(), 0);
                        }
                        let r = catch_unwind(AssertUnwindSafe(|| (fam.run)(item, &mut local)));
                        slot.lock().unwrap().item = None;
                        match r {
                            Ok(Ok(())) => { done.fetch_add(1, Ordering::SeqCst); }
                            Ok(Err(v)) => {
                                let mut b = best.lock().unwrap();
                                if b.as_ref().map_or(true, |x| item < x.0) {
                                    *b = Some((item, v));
                                }
                                stop_at.fetch_min(item, Ordering::SeqCst);
                            }
                            Err(_) => {
                                eprintln!("mc: harness failure in item {}:{}", fam.name, item);
                                failed.store(true, Ordering::SeqCst);
                            }
                        }
                    }
                    let _ = inflight.flush();
                    drop(inflight);
                    let _ = std::fs::remove_file(scratch_dir.join(format!("inflight-{}", w)));
                    locals.lock().unwrap().push(local);
                }).expect("spawn worker")
            }).collect();
            for h in handles {
                if h.join().is_err() {
                    failed.store(true, Ordering::SeqCst);
                }
            }
            finished.store(true, Ordering::SeqCst);
        });

        let locals = locals.into_inner().unwrap();
        let mut outcomes: HashSet<u64> = HashSet::new();
        let mut r = FamilyReport { name: fam.name.clone(), bound: fam.bound.clone(), items: fam.items, done: done.load(Ordering::SeqCst), states: 0, transitions: 0, traces: 0, outcomes: 0 };
        for l in &locals {
            r.states += l.states;
            r.transitions += l.transitions;
            r.traces += l.traces;
            outcomes.extend(l.outcomes.iter());
            met.extend(l.known.iter().cloned());
            for s in &l.samples {
                if samples.len() < 12 && samples.iter().filter(|x| x.starts_with(&fam.name)).count() < 2 {
                    samples.push(format!("{}: {}", fam.name, s));
                }
            }
        }
        r.outcomes = outcomes.len();
        println!("{} {}: {} of {} items, {} states, {} transitions, {} executions compared, {} distinct outcomes, {:.1} s so far",
                 property, r.name, r.done, r.items, r.states, r.transitions, r.traces, r.outcomes, start.elapsed().as_secs_f64());
        if r.done < r.items && only.is_none() {
            capped = true;
        }
        reports.push(r);
        if failed.load(Ordering::SeqCst) {
            harness_failed = true;
            break;
        }
        if let Some((item, v)) = best.into_inner().unwrap() {
            found = Some((format!("{}:{}", fam.name, item), v));
            break;
        }
        if time_up.load(Ordering::SeqCst) {
            println!("{}: wall-clock cap reached", property);
            break;
        }
    }
    if harness_failed {
        return ERROR;
    }
    for f in listed.iter().filter(|f| met.contains(&f.0)) {
        println!("KNOWN-FINDING: property={} {}", property, f.1);
    }
    let exhaustive = !capped && found.is_none() && reports.len() == families.len();
    if let Some((ref item, ref v)) = found {
        report(&property, tier, item, v);
    }
    if only.is_none() {
        evidence(&property, tier, start, &reports, &samples, &check.rule, &check.assumptions, found.is_some() as u32, exhaustive);
    }
    if found.is_some() { 1 } else { 0 }
}

fn evidence(property: &str, tier: Tier, start: Instant, reports: &[FamilyReport], samples: &[String], rule: &str, assumptions: &[String], violations: u32, exhaustive: bool) {
    let sum = |f: &dyn Fn(&FamilyReport) -> u64| -> u64 { reports.iter().map(|r| f(r)).sum() };
    let fams: Vec<String> = reports.iter().map(|r| {
        format!("{{\"name\":{},\"bound\":{},\"items\":{},\"items_done\":{},\"states\":{},\"transitions\":{},\"executions\":{},\"distinct_outcomes\":{}}}",
                json_str(&r.name), json_str(&r.bound), r.items, r.done, r.states, r.transitions, r.traces, r.outcomes)
    }).collect();
    let list = |v: &[String]| -> String { v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",") };
    let text = format!(
        "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"families\":[{}],\"exhaustive\":{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        json_str(property), tier_name(tier), seed(), sum(&|r| r.states), sum(&|r| r.transitions), sum(&|r| r.traces), sum(&|r| r.outcomes as u64),
        json_str(rule), list(samples), fams.join(","), exhaustive, list(assumptions), start.elapsed().as_secs_f64(), violations);
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", property)), text) {
        die(&format!("cannot write evidence: {}", e));
    }
}
