//! Per-case (thread-local) monitor state: violations, trace log, wakers, tokens.
use crate::rng::mix;
use std::cell::{Cell, RefCell};
use std::task::{RawWaker, RawWakerVTable, Waker};

pub struct Mon {
    pub violations: Vec<String>,
    pub log: Vec<String>,
    pub hash: u64,
    pub events: u64,
    wakers: Vec<*mut WGroup>,
    /// free cells left in the newest group, and the pattern position
    free: usize,
    phase: usize,
    toks: Vec<TokState>,
}
thread_local! {
    static MON: RefCell<Mon> = const { RefCell::new(Mon { violations: Vec::new(), log: Vec::new(), hash: 0, events: 0, wakers: Vec::new(), free: 0, phase: 0, toks: Vec::new() }) };
    static LOGGING: Cell<bool> = const { Cell::new(false) };
    /// Called at waker clone / drop / wake (scheduling points of engine A).
    static POINT: Cell<Option<fn()>> = const { Cell::new(None) };
}
pub fn set_logging(b: bool) {
    LOGGING.with(|l| l.set(b));
}
pub fn logging() -> bool {
    LOGGING.try_with(|l| l.get()).unwrap_or(false)
}
pub fn set_point(f: Option<fn()>) {
    POINT.with(|p| p.set(f));
}
pub fn point() {
    if let Ok(Some(f)) = POINT.try_with(|p| p.get()) {
        f()
    }
}
pub fn reset() {
    MON.with(|m| {
        let mut m = m.borrow_mut();
        m.violations.clear();
        m.log.clear();
        m.hash = 0;
        m.events = 0;
        for g in std::mem::take(&mut m.wakers) {
            drop(unsafe { Box::from_raw(g) });
        }
        m.free = 0;
        m.phase = 0;
        m.toks.clear();
    })
}
/// Chooses which wakers of the case share a data pointer.
pub fn set_phase(p: u64) {
    MON.with(|m| m.borrow_mut().phase = (p % 6) as usize)
}
/// Record a violation (does not unwind; safe inside drop / wake code).
pub fn violate(msg: impl Into<String>) {
    let msg = msg.into();
    log(|| format!("!! {msg}"));
    let _ = MON.try_with(|m| {
        let mut m = m.borrow_mut();
        if m.violations.len() < 10 {
            m.violations.push(msg)
        }
    });
}
pub fn violations() -> Vec<String> {
    MON.with(|m| m.borrow().violations.clone())
}
pub fn violated() -> bool {
    MON.with(|m| !m.borrow().violations.is_empty())
}
pub fn log(f: impl FnOnce() -> String) {
    if logging() {
        let s = f();
        let _ = MON.try_with(|m| m.borrow_mut().log.push(s));
    }
}
pub fn take_log() -> Vec<String> {
    MON.with(|m| std::mem::take(&mut m.borrow_mut().log))
}
/// Fold an observed event into the case fingerprint.
pub fn event(x: u64) {
    let _ = MON.try_with(|m| {
        let mut m = m.borrow_mut();
        m.hash = mix(m.hash, x);
        m.events += 1;
    });
}
pub fn fingerprint() -> (u64, u64) {
    MON.with(|m| {
        let m = m.borrow();
        (m.hash, m.events)
    })
}
#[macro_export]
macro_rules! logf { ($($t:tt)*) => { $crate::mon::log(|| format!($($t)*)) } }
#[macro_export]
macro_rules! vio { ($($t:tt)*) => { $crate::mon::violate(format!($($t)*)) } }
/// Check a condition; record a violation when it is false.
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { $crate::mon::violate(format!($($t)*)) } } }

// ---------------------------------------------------------------- wakers
/// A waker whose reference count is kept in an arena that outlives the case, so
/// that double drops and uses after drop are observed instead of being UB.
pub struct WCell {
    rc: Cell<isize>,
    on_wake: fn(u64, u64),
    a: u64,
    b: u64,
    wakes: Cell<u32>,
}
/// Four wakers share one data pointer and differ in their vtable only, so that code which
/// tells wakers apart by the data pointer alone is caught.
pub type WGroup = [WCell; 4];
struct Vt<const K: usize>;
impl<const K: usize> Vt<K> {
    const VT: RawWakerVTable = RawWakerVTable::new(w_clone::<K>, w_wake::<K>, w_wake_by_ref::<K>, w_drop::<K>);
}
#[inline(never)]
fn vt(k: usize) -> &'static RawWakerVTable {
    [&Vt::<0>::VT, &Vt::<1>::VT, &Vt::<2>::VT, &Vt::<3>::VT][k]
}
fn cell<'a, const K: usize>(p: *const ()) -> &'a WCell {
    unsafe { &(&*(p as *const WGroup))[K] }
}
fn used(c: &WCell, what: &str) {
    if c.rc.get() <= 0 {
        violate(format!("waker {}.{} {} after its last handle was dropped", c.a, c.b, what));
    }
}
unsafe fn w_clone<const K: usize>(p: *const ()) -> RawWaker {
    point();
    let c = cell::<K>(p);
    used(c, "cloned");
    c.rc.set(c.rc.get() + 1);
    RawWaker::new(p, vt(K))
}
unsafe fn w_wake<const K: usize>(p: *const ()) {
    w_wake_by_ref::<K>(p);
    w_drop::<K>(p);
}
unsafe fn w_wake_by_ref<const K: usize>(p: *const ()) {
    point();
    let c = cell::<K>(p);
    used(c, "woken");
    c.wakes.set(c.wakes.get() + 1);
    (c.on_wake)(c.a, c.b);
}
unsafe fn w_drop<const K: usize>(p: *const ()) {
    point();
    let c = cell::<K>(p);
    used(c, "dropped");
    c.rc.set(c.rc.get() - 1);
}
fn never(_: u64, _: u64) {}
/// New waker calling `on_wake(a, b)`.
pub fn new_waker(on_wake: fn(u64, u64), a: u64, b: u64) -> Waker {
    MON.with(|m| {
        let mut m = m.borrow_mut();
        // groups of 1, 4, 1, 1, 3, ... wakers
        if m.free == 0 {
            let e = || WCell { rc: Cell::new(0), on_wake: never, a: 0, b: 0, wakes: Cell::new(0) };
            m.wakers.push(Box::into_raw(Box::new([e(), e(), e(), e()])));
            m.free = [1, 4, 1, 1, 3, 2][m.phase % 6];
            m.phase += 1;
        }
        m.free -= 1;
        let k = m.free;
        let g = *m.wakers.last().unwrap();
        // SAFETY: cell k of the newest group has not been handed out yet
        unsafe {
            std::ptr::addr_of_mut!((*g)[k]).write(WCell { rc: Cell::new(1), on_wake, a, b, wakes: Cell::new(0) });
            Waker::from_raw(RawWaker::new(g as *const (), vt(k)))
        }
    })
}
fn cells(f: impl Fn(&WCell) -> i64) -> i64 {
    MON.with(|m| m.borrow().wakers.iter().flat_map(|g| unsafe { &**g }.iter()).map(|c| f(c)).sum())
}
/// Outstanding handles of wakers made in this case.
pub fn live_wakers() -> isize {
    cells(|w| w.rc.get() as i64) as isize
}
/// Outstanding handles of the wakers whose `a` is given.
pub fn live_wakers_of(a: u64) -> isize {
    cells(|w| if w.a == a { w.rc.get() as i64 } else { 0 }) as isize
}
pub fn total_wakes() -> u64 {
    cells(|w| w.wakes.get() as i64) as u64
}

// ---------------------------------------------------------------- tokens
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum TokState {
    Live,
    Dropped,
}
/// A value whose drops are counted; `v` is its payload.
#[derive(Debug)]
pub struct Tok {
    id: usize,
    pub v: u64,
}
pub fn tok(v: u64) -> Tok {
    MON.with(|m| {
        let mut m = m.borrow_mut();
        m.toks.push(TokState::Live);
        Tok { id: m.toks.len() - 1, v }
    })
}
impl Tok {
    pub fn id(&self) -> usize {
        self.id
    }
    /// Use of the value: must be alive.
    pub fn get(&self) -> u64 {
        let bad = MON.with(|m| m.borrow().toks.get(self.id).copied() != Some(TokState::Live));
        if bad {
            violate(format!("value {} used after it was dropped", self.v));
        }
        self.v
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.get() == o.get()
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        point();
        tok(self.get())
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let _ = MON.try_with(|m| {
            let mut m = m.borrow_mut();
            let v = self.v;
            match m.toks.get(self.id).copied() {
                Some(TokState::Live) => m.toks[self.id] = TokState::Dropped,
                _ => {
                    m.violations.push(format!("value {v} dropped twice"));
                }
            }
        });
    }
}
pub fn live_toks() -> usize {
    MON.with(|m| m.borrow().toks.iter().filter(|t| **t == TokState::Live).count())
}
pub fn toks_made() -> usize {
    MON.with(|m| m.borrow().toks.len())
}
pub fn tok_live(id: usize) -> bool {
    MON.with(|m| m.borrow().toks.get(id).copied() == Some(TokState::Live))
}
/// End-of-case check: all values and waker handles released.
pub fn check_released() {
    let t = live_toks();
    if t != 0 {
        violate(format!("{t} value(s) never dropped (leak)"));
    }
    let w = live_wakers();
    if w != 0 {
        violate(format!("{w} waker handle(s) never dropped (leak)"));
    }
}
