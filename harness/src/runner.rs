//! Case runner: parallel workers, deterministic case seeds, replay files, summary.
use crate::mon;
use crate::rng::{hash_str, mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Case {
    pub rng: Rng,
    pub seed: u64,
    pub thorough: bool,
    /// set by the workload when the case exercised what it is about
    pub nontrivial: bool,
    pub desc: String,
    pub counters: BTreeMap<&'static str, u64>,
}
impl Case {
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_default() += n;
    }
}
#[derive(Clone)]
pub struct Workload {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Case),
    /// uses real threads: run serially, one case at a time
    pub serial: bool,
}
pub fn w(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Case)) -> Workload {
    Workload { name, quick, thorough, f, serial: false }
}
pub fn ws(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Case)) -> Workload {
    Workload { name, quick, thorough, f, serial: true }
}
struct Shared {
    next: AtomicU64,
    stop: AtomicBool,
    evals: AtomicU64,
    nontrivial: AtomicU64,
    events: AtomicU64,
    fp: Mutex<HashSet<u64>>,
    fail: Mutex<Option<(u64, Vec<String>)>>,
    counters: Mutex<BTreeMap<&'static str, u64>>,
    sample: Mutex<Vec<(u64, String)>>,
    discarded: AtomicU64,
}
pub struct CaseResult {
    pub violations: Vec<String>,
    pub hash: u64,
    pub events: u64,
    pub nontrivial: bool,
    pub desc: String,
    pub counters: BTreeMap<&'static str, u64>,
    pub log: Vec<String>,
}
pub fn run_case(f: fn(&mut Case), seed: u64, thorough: bool) -> CaseResult {
    mon::reset();
    mon::set_phase(seed >> 7);
    crate::world::reset(seed);
    let mut case = Case { rng: Rng::new(seed), seed, thorough, nontrivial: false, desc: String::new(), counters: BTreeMap::new() };
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
    mon::set_point(None);
    if let Err(e) = r {
        mon::violate(format!("unexpected panic: {}", crate::sched::panic_msg(&*e)));
    }
    crate::world::reset(0);
    let (hash, events) = mon::fingerprint();
    CaseResult {
        violations: mon::violations(), hash, events,
        nontrivial: case.nontrivial, desc: case.desc, counters: case.counters, log: mon::take_log(),
    }
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
struct Ctx {
    sh: Arc<Shared>,
    wl: Workload,
    slots: Arc<Vec<(AtomicU64, AtomicU64)>>,
    live: Arc<AtomicUsize>,
    n: u64,
    seed: u64,
    thorough: bool,
    start: Instant,
    budget: f64,
    only: Arc<Vec<String>>,
}
/// With `--only a|b`, violations whose text contains none of the words belong to another property.
fn keep(only: &[String], v: &mut Vec<String>) {
    if !only.is_empty() {
        v.retain(|m| only.iter().any(|o| m.contains(o.as_str())));
    }
}
fn spawn_worker(t: usize, c: Arc<Ctx>) {
    std::thread::Builder::new().stack_size(16 << 20).spawn(move || worker(t, c)).unwrap();
}
fn worker(t: usize, c: Arc<Ctx>) {
    let sh = &c.sh;
    let mut fps = Vec::new();
    let mut again = false;
    loop {
        if sh.stop.load(Ordering::Relaxed) { break; }
        let i = sh.next.fetch_add(1, Ordering::Relaxed);
        if i >= c.n { break; }
        if c.start.elapsed().as_secs_f64() > c.budget { break; }
        let cs = mix(mix(c.seed, hash_str(c.wl.name)), i) & !(1 << 63);
        c.slots[t].1.store(c.start.elapsed().as_millis() as u64, Ordering::Relaxed);
        c.slots[t].0.store(cs | 1 << 63, Ordering::SeqCst);
        let mut r = run_case(c.wl.f, cs, c.thorough);
        keep(&c.only, &mut r.violations);
        c.slots[t].0.store(0, Ordering::SeqCst);
        sh.evals.fetch_add(1, Ordering::Relaxed);
        sh.events.fetch_add(r.events, Ordering::Relaxed);
        if r.nontrivial {
            sh.nontrivial.fetch_add(1, Ordering::Relaxed);
            fps.push(r.hash);
            if fps.len() > 4096 { sh.fp.lock().unwrap().extend(fps.drain(..)); }
        }
        if !r.counters.is_empty() {
            let mut cc = sh.counters.lock().unwrap();
            for (k, v) in r.counters { *cc.entry(k).or_default() += v; }
        }
        if !r.desc.is_empty() && i < 2 {
            sh.sample.lock().unwrap().push((cs, r.desc.clone()));
        }
        if !r.violations.is_empty() {
            sh.stop.store(true, Ordering::Relaxed);
            let mut f = sh.fail.lock().unwrap();
            if f.is_none() { *f = Some((cs, r.violations)); }
            break;
        }
        if std::thread::panicking() {
            // a case was abandoned with a panic in flight: continue on a fresh thread
            sh.discarded.fetch_add(1, Ordering::Relaxed);
            again = true;
            break;
        }
    }
    sh.fp.lock().unwrap().extend(fps);
    if again {
        spawn_worker(t, c.clone());
        return;
    }
    c.live.fetch_sub(1, Ordering::SeqCst);
}
/// Entry point of every check binary.
pub fn main(prop: &str, workloads: Vec<Workload>) {
    crate::sched::install();
    let verbose = std::env::var("HV_PANICS").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        if verbose { eprintln!("{i}"); }
    }));
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = arg("--tier").as_deref() == Some("thorough");
    let scale: f64 = arg("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let budget: f64 = arg("--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1500.0 } else { 240.0 });
    let only = arg("--workload");
    let class: Arc<Vec<String>> = Arc::new(arg("--only").map_or(vec![], |s| s.split('|').map(String::from).collect()));
    if let Some(cs) = arg("--case") {
        // replay of one case
        let cs: u64 = cs.parse().unwrap();
        let wl = workloads.iter().find(|w| Some(w.name.to_string()) == only).expect("workload");
        mon::set_logging(true);
        let mut r = run_case(wl.f, cs, thorough);
        keep(&class, &mut r.violations);
        for l in &r.log { println!("{l}"); }
        println!("case: {}", r.desc);
        for v in &r.violations { println!("REPLAY-VIOLATION {v}"); }
        println!("events={} hash={:x} counters={:?}", r.events, r.hash, r.counters);
        std::process::exit(if r.violations.is_empty() { 0 } else { 1 });
    }
    let threads: usize = arg("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let start = Instant::now();
    let mut out = String::new();
    let mut total_fail: Vec<(String, u64, Vec<String>)> = Vec::new();
    let wls: Vec<Workload> = workloads.into_iter().filter(|w| only.as_deref().map_or(true, |o| o == w.name)).collect();
    for wl in &wls {
        let t0 = Instant::now();
        let n = (((if thorough { wl.thorough } else { wl.quick }) as f64) * scale).max(1.0) as u64;
        let sh = Arc::new(Shared {
            next: AtomicU64::new(0), stop: AtomicBool::new(false), evals: AtomicU64::new(0), nontrivial: AtomicU64::new(0),
            events: AtomicU64::new(0), fp: Mutex::new(HashSet::new()), fail: Mutex::new(None), counters: Mutex::new(BTreeMap::new()),
            sample: Mutex::new(Vec::new()), discarded: AtomicU64::new(0),
        });
        let nthreads = if wl.serial { 1 } else { threads };
        // what each worker is running: (case seed + 1, start ms)
        let slots: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..nthreads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
        let live = Arc::new(AtomicUsize::new(nthreads));
        for t in 0..nthreads {
            let ctx = Arc::new(Ctx { sh: sh.clone(), wl: wl.clone(), slots: slots.clone(), live: live.clone(), n, seed, thorough, start, budget, only: class.clone() });
            spawn_worker(t, ctx);
        }
        // wait, watching for hung cases
        let hang_ms = 30_000;
        while live.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(2));
            let now = start.elapsed().as_millis() as u64;
            for s in slots.iter() {
                let cs = s.0.load(Ordering::SeqCst);
                if cs != 0 && now.saturating_sub(s.1.load(Ordering::Relaxed)) > hang_ms {
                    if wl.serial {
                        println!("HANG-SERIAL workload={} case={}", wl.name, cs & !(1 << 63));
                    } else {
                        println!("HANG workload={} case={}", wl.name, cs & !(1 << 63));
                    }
                    std::process::exit(3);
                }
            }
        }
        let fps = sh.fp.lock().unwrap().len();
        let mut line = format!(
            "{{\"workload\":{},\"evaluations\":{},\"nontrivial\":{},\"distinct\":{},\"events\":{},\"seconds\":{:.2},\"counters\":{{",
            jstr(wl.name), sh.evals.load(Ordering::Relaxed), sh.nontrivial.load(Ordering::Relaxed), fps,
            sh.events.load(Ordering::Relaxed), t0.elapsed().as_secs_f64());
        let cs = sh.counters.lock().unwrap();
        line += &cs.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",");
        line += "},\"samples\":[";
        line += &sh.sample.lock().unwrap().iter().map(|(s, d)| jstr(&format!("case {s}: {d}"))).collect::<Vec<_>>().join(",");
        line += "]}";
        println!("WORKLOAD {line}");
        let _ = writeln!(out, "{line}");
        let f = sh.fail.lock().unwrap().clone();
        if let Some((cs, v)) = f {
            total_fail.push((wl.name.to_string(), cs, v));
            break;
        }
    }
    for (wn, cs, v) in &total_fail {
        println!("FAIL {{\"prop\":{},\"workload\":{},\"case\":{},\"violations\":[{}]}}", jstr(prop), jstr(wn), cs,
            v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    }
    println!("DONE hooked={} wall={:.2}", crate::sched::hooked(), start.elapsed().as_secs_f64());
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(if total_fail.is_empty() { 0 } else { 1 });
}
