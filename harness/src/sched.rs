//! Engine A: controlled schedules. Simulated threads are coroutines on one OS
//! thread; at every instrumented operation of the library (and at the harness'
//! own points) a seeded policy decides who runs next.
use crate::mon;
use crate::rng::{mix, Rng};
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Blocked,
    Done,
}
type Co = Coroutine<(), (), (), DefaultStack>;
struct Task {
    name: String,
    co: Option<Co>,
    st: St,
    token: bool,
    yielder: *const Yielder<(), ()>,
    prio: u64,
    // current waker generation and wake flag of the mini executor
    gen: u64,
    woken: bool,
}
pub struct Core {
    tasks: Vec<Task>,
    cur: usize,
    rng: Rng,
    pct: bool,
    switch_num: usize,
    change: Vec<u64>,
    low: u64,
    /// steps since the latest switch
    slice: u64,
    pub steps: u64,
    pub switches: u64,
    pub points: u64,
    hash: u64,
    failed: Option<String>,
    livelock: bool,
    abandoned: bool,
    wakes: Vec<WakeRec>,
    os_token: bool,
    os_parked: Option<usize>,
    pub parks: u64,
}
/// One observed wake: by simulated thread `by`, of waker `gen` of thread `task`, at `t`.
#[derive(Clone, Copy, Debug)]
pub struct WakeRec {
    pub by: usize,
    pub task: usize,
    pub gen: u64,
    pub t: u64,
}
thread_local! {
    static CUR: Cell<*mut Core> = const { Cell::new(std::ptr::null_mut()) };
    static POOL: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
}
const MAX_STEPS: u64 = 300_000;
const FAIR_AFTER: u64 = 20_000;

#[derive(Default, Debug)]
pub struct Outcome {
    pub deadlocked: Vec<String>,
    pub livelock: bool,
    pub failed: Option<String>,
    pub steps: u64,
    pub switches: u64,
    pub discarded: bool,
}

fn core() -> Option<&'static mut Core> {
    let p = CUR.try_with(|c| c.get()).unwrap_or(std::ptr::null_mut());
    if p.is_null() { None } else { Some(unsafe { &mut *p }) }
}
/// Installs the library hook (no-op when the library was built without it).
pub fn install() {
    #[cfg(futures_verif)]
    {
        futures_core::__verif::set_hook(hook);
        static RT: futures_core::__verif::thread::Runtime = futures_core::__verif::thread::Runtime { id: sim_id, park: os_park, unpark: os_unpark, spawn: lib_spawn };
        futures_core::__verif::thread::set_runtime(&RT);
    }
}
#[cfg(futures_verif)]
fn sim_id() -> Option<usize> {
    core().map(|c| c.cur)
}
/// thread::park by the (single) simulated thread that runs a blocking executor.
#[cfg(futures_verif)]
fn os_park() {
    let c = core().unwrap();
    if c.os_token {
        c.os_token = false;
        return;
    }
    if c.rng.chance(1, 10) {
        // park may return for no reason
        c.suspend();
        return;
    }
    c.os_parked = Some(c.cur);
    let cur = c.cur;
    c.tasks[cur].st = St::Blocked;
    c.parks += 1;
    c.suspend();
    let c = core().unwrap();
    c.os_parked = None;
    c.os_token = false;
}
#[cfg(futures_verif)]
fn os_unpark() {
    let c = core().unwrap();
    match c.os_parked {
        Some(i) if c.tasks[i].st == St::Blocked => c.tasks[i].st = St::Ready,
        _ => c.os_token = true,
    }
}
#[cfg(futures_verif)]
fn lib_spawn(f: futures_core::__verif::thread::Job) {
    let n = core().unwrap().tasks.len();
    spawn(format!("worker (thread {n})"), f);
}
/// User code that consumes the park token of the executor's thread.
pub fn steal_token() {
    if let Some(c) = core() {
        c.os_token = false;
    }
}
/// User code that unparks the executor's thread.
pub fn stray_unpark() {
    #[cfg(futures_verif)]
    os_unpark();
}
pub fn parks() -> u64 {
    core().map(|c| c.parks).unwrap_or(0)
}
#[cfg(futures_verif)]
fn hook(ev: futures_core::__verif::Event, _addr: usize) {
    use futures_core::__verif::Event::*;
    match ev {
        Atomic | Lock => point(),
        Contended | Yield => spin_point(),
    }
}
pub fn hooked() -> bool {
    cfg!(futures_verif)
}
/// A point where the scheduler may switch.
pub fn point() {
    if let Some(c) = core() {
        if QUIET.with(|q| q.get()) > 0 || std::thread::panicking() {
            return;
        }
        c.step(false);
    } else {
        crate::stress::native_point();
    }
}
/// A point where the caller cannot progress until others run.
pub fn spin_point() {
    if let Some(c) = core() {
        if std::thread::panicking() {
            // must not switch with a panic in flight: give the case up
            c.abandoned = true;
            c.suspend();
            unreachable!();
        }
        c.step(true);
    }
}
/// Runs `f` without scheduling points (monitor-only work).
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = f();
    QUIET.with(|q| q.set(q.get() - 1));
    r
}
/// Logical time.
pub fn now() -> u64 {
    core().map(|c| { c.points += 1; c.points }).unwrap_or(0)
}
pub fn me() -> usize {
    core().map(|c| c.cur).unwrap_or(usize::MAX)
}
impl Core {
    fn suspend(&mut self) {
        let y = self.tasks[self.cur].yielder;
        unsafe { (*y).suspend(()) };
    }
    fn step(&mut self, spin: bool) {
        self.steps += 1;
        self.points += 1;
        if self.steps > MAX_STEPS {
            self.livelock = true;
            self.suspend();
            return;
        }
        let fair = self.steps > FAIR_AFTER;
        let cur = self.cur;
        self.slice += 1;
        if self.pct && !fair {
            if spin || self.slice > 1500 {
                self.low = self.low.saturating_sub(1);
                self.tasks[cur].prio = self.low;
            } else if self.change.contains(&self.steps) {
                self.low = self.low.saturating_sub(1);
                self.tasks[cur].prio = self.low;
            } else {
                // maybe someone with higher priority became ready
                let p = self.tasks[cur].prio;
                if !self.tasks.iter().any(|t| t.st == St::Ready && t.prio > p) {
                    return;
                }
            }
            self.suspend();
        } else if spin || fair || self.rng.chance(self.switch_num, 100) {
            self.suspend();
        }
    }
    fn choose(&mut self) -> Option<usize> {
        let ready: Vec<usize> = (0..self.tasks.len()).filter(|i| self.tasks[*i].st == St::Ready).collect();
        if ready.is_empty() {
            return None;
        }
        if self.pct && self.steps <= FAIR_AFTER {
            return ready.into_iter().max_by_key(|i| self.tasks[*i].prio);
        }
        Some(ready[self.rng.below(ready.len())])
    }
}
/// Adds a simulated thread; usable before and during the run.
pub fn spawn(name: impl Into<String>, f: impl FnOnce() + 'static) -> usize {
    let c = core().expect("no scheduler");
    let id = c.tasks.len();
    let stack = POOL
        .with(|p| p.borrow_mut().pop())
        .unwrap_or_else(|| DefaultStack::new(256 * 1024).expect("stack"));
    let co = Co::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
        let c = super::sched::core().unwrap();
        c.tasks[id].yielder = y;
        if let Err(e) = catch_unwind(AssertUnwindSafe(f)) {
            let msg = panic_msg(&*e);
            let c = super::sched::core().unwrap();
            if c.failed.is_none() {
                c.failed = Some(format!("thread '{}' panicked: {}", c.tasks[id].name, msg));
            }
        }
    });
    let prio = 1_000_000 + (c.rng.next() % 1_000_000);
    c.tasks.push(Task { name: name.into(), co: Some(co), st: St::Ready, token: false, yielder: std::ptr::null(), prio, gen: 0, woken: false });
    id
}
pub fn panic_msg(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}
/// Runs `setup` (which spawns threads) and then schedules until all are done,
/// all are blocked, or something failed.
pub fn run(rng: &mut Rng, setup: impl FnOnce()) -> Outcome {
    let mut r = rng.fork();
    let pct = r.chance(1, 3);
    let switch_num = *r.pick(&[3, 10, 25, 50, 80]);
    let nchange = r.range(1, 5);
    let horizon = *r.pick(&[40usize, 120, 400]);
    let change = (0..nchange).map(|_| r.range(1, horizon) as u64).collect();
    let p: *mut Core = Box::into_raw(Box::new(Core {
        tasks: Vec::new(), cur: 0, rng: r, pct, switch_num, change, low: 900_000, slice: 0, steps: 0, switches: 0, points: 0,
        hash: 0, failed: None, livelock: false, abandoned: false, wakes: Vec::new(), os_token: false, os_parked: None, parks: 0,
    }));
    CUR.with(|x| x.set(p));
    mon::set_point(Some(point));
    quiet(setup);
    let mut last = usize::MAX;
    let mut out = Outcome::default();
    loop {
        let c = unsafe { &mut *p };
        if c.failed.is_some() || c.livelock || c.abandoned || mon::violated() {
            break;
        }
        let Some(i) = c.choose() else { break };
        if i != last {
            c.switches += 1;
            c.hash = mix(c.hash, i as u64 + (c.steps << 8));
            last = i;
            c.slice = 0;
        }
        c.cur = i;
        let mut co = c.tasks[i].co.take().unwrap();
        let res = co.resume(());
        let c = unsafe { &mut *p };
        match res {
            CoroutineResult::Yield(()) => c.tasks[i].co = Some(co),
            CoroutineResult::Return(()) => {
                c.tasks[i].st = St::Done;
                let st = co.into_stack();
                POOL.with(|p| p.borrow_mut().push(st));
            }
        }
    }
    CUR.with(|x| x.set(std::ptr::null_mut()));
    mon::set_point(None);
    let c = unsafe { &mut *p };
    out.steps = c.steps;
    out.switches = c.switches;
    out.livelock = c.livelock;
    out.discarded = c.abandoned;
    out.failed = c.failed.take();
    let mut leak = false;
    for t in c.tasks.iter_mut() {
        if t.st != St::Done {
            if t.st == St::Blocked && out.failed.is_none() && !out.livelock && !out.discarded {
                out.deadlocked.push(t.name.clone());
            }
            if let Some(mut co) = t.co.take() {
                // give up what the thread owns, but reuse its stack
                if co.started() {
                    unsafe { co.force_reset() };
                    let st = co.into_stack();
                    POOL.with(|p| p.borrow_mut().push(st));
                } else {
                    std::mem::forget(co);
                }
                leak = true;
            }
        }
    }
    mon::event(c.hash);
    if !leak {
        drop(unsafe { Box::from_raw(p) });
    }
    out
}

/// Standard verdict: everything must have finished.
pub fn expect_done(o: &Outcome) {
    if o.discarded {
        return;
    }
    if let Some(f) = &o.failed {
        mon::violate(f.clone());
    }
    if o.livelock {
        mon::violate(format!("no progress within {MAX_STEPS} scheduling steps under a fair schedule (livelock)"));
    }
    if !o.deadlocked.is_empty() {
        mon::violate(format!("lost wake-up: {:?} wait for ever although nothing else can happen", o.deadlocked));
    }
}

/// Blocks the current simulated thread until `unpark`.
pub fn park() {
    let c = core().unwrap();
    let t = &mut c.tasks[c.cur];
    if t.token {
        t.token = false;
        return;
    }
    t.st = St::Blocked;
    c.suspend();
    let c = core().unwrap();
    let cur = c.cur;
    c.tasks[cur].token = false;
}
pub fn unpark(id: usize) {
    if let Some(c) = core() {
        let t = &mut c.tasks[id];
        match t.st {
            St::Blocked => t.st = St::Ready,
            St::Ready => t.token = true,
            St::Done => {}
        }
    }
}
fn on_wake(task: u64, gen: u64) {
    if let Some(c) = core() {
        c.points += 1;
        c.wakes.push(WakeRec { by: c.cur, task: task as usize, gen, t: c.points });
        let t = &mut c.tasks[task as usize];
        crate::logf!("  wake of {} gen {} (current {})", t.name, gen, t.gen);
        if t.gen == gen {
            t.woken = true;
            unpark(task as usize);
        }
    }
}
/// A fresh waker for the current simulated thread; earlier ones become stale.
pub fn fresh_waker() -> Waker {
    let c = core().unwrap();
    let cur = c.cur;
    c.tasks[cur].gen += 1;
    c.tasks[cur].woken = false;
    let gen = c.tasks[cur].gen;
    mon::new_waker(on_wake, cur as u64, gen)
}
/// Wakes observed so far in this run.
pub fn wakes() -> &'static [WakeRec] {
    &core().unwrap().wakes
}
pub fn gen() -> u64 {
    let c = core().unwrap();
    c.tasks[c.cur].gen
}
pub fn woken() -> bool {
    let c = core().unwrap();
    c.tasks[c.cur].woken
}
pub fn clear_woken() {
    let c = core().unwrap();
    let cur = c.cur;
    c.tasks[cur].woken = false;
}
/// Waits until the current waker was woken.
pub fn wait_woken() {
    point();
    if woken() {
        // woken during its own poll: others may need to run first
        spin_point();
    }
    while !woken() {
        park();
    }
}
/// Mini executor of a simulated thread: polls with a changing waker, sleeps until
/// the latest waker is woken.
pub struct Exec {
    waker: Option<Waker>,
    rng: Rng,
    pub polls: u64,
}
impl Exec {
    pub fn new(rng: &mut Rng) -> Exec {
        Exec { waker: None, rng: rng.fork(), polls: 0 }
    }
    pub fn poll<R>(&mut self, f: impl FnOnce(&mut Context<'_>) -> R) -> R {
        if self.waker.is_none() || self.rng.chance(2, 3) {
            self.waker = None;
            self.waker = Some(fresh_waker());
        }
        clear_woken();
        self.polls += 1;
        let w = self.waker.take().unwrap();
        let r = f(&mut Context::from_waker(&w));
        self.waker = Some(w);
        r
    }
    /// Poll until Ready, sleeping in between.
    pub fn wait<R>(&mut self, mut f: impl FnMut(&mut Context<'_>) -> Poll<R>) -> R {
        loop {
            if let Poll::Ready(r) = self.poll(&mut f) {
                return r;
            }
            if self.rng.chance(1, 12) {
                point();
                continue; // spurious poll
            }
            wait_woken();
        }
    }
    pub fn block_on<F: Future>(&mut self, fut: F) -> F::Output {
        let mut fut = Box::pin(fut);
        self.wait(|cx| fut.as_mut().poll(cx))
    }
    pub fn wait_fut<F: Future + ?Sized>(&mut self, mut fut: Pin<&mut F>) -> F::Output {
        self.wait(|cx| fut.as_mut().poll(cx))
    }
}
