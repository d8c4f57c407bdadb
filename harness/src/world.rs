//! Engine D: poll-level programs over scripted leaves.
//!
//! Leaves return Pending according to a random script; their readiness events are
//! fired by the driver in random order. The root is polled with changing wakers and
//! only a wake of the latest one counts.
use crate::mon;
use crate::rng::Rng;
use crate::{ensure, logf, vio};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

struct GateSt {
    name: &'static str,
    left: u32,
    started: bool,
    fired: bool,
    armed: Option<Waker>,
    alive: bool,
    /// root poll number of the latest poll of this gate
    seen: u64,
    touched: bool,
}
pub struct World {
    rng: Rng,
    gates: Vec<GateSt>,
    /// probability (in 1/8) that an operation is pending at first
    pend: usize,
    self_wake: usize,
    woken: bool,
    gen: u64,
    polls: u64,
    pub fires: u64,
    pub pendings: u64,
    /// wake-ups caused by leaves (events and self-wakes)
    pub stir: u64,
    /// no event happens while the root is woken
    lazy: bool,
    /// total polls of gates
    pub gate_polls: u64,
    /// the gate poll that panics (counted down)
    pub panic_in: u64,
}
thread_local! {
    static W: RefCell<World> = RefCell::new(World::new(0));
    static SPURIOUS: Cell<bool> = const { Cell::new(true) };
}
impl World {
    fn new(seed: u64) -> World {
        let mut rng = Rng::new(crate::rng::mix(seed, 77));
        let pend = *rng.pick(&[0, 2, 4, 6, 7]);
        let self_wake = *rng.pick(&[0, 2, 5]);
        World { rng, gates: Vec::new(), pend, self_wake, woken: false, gen: 0, polls: 0, fires: 0, pendings: 0, stir: 0, lazy: seed % 3 == 0, gate_polls: 0, panic_in: 0 }
    }
}
pub fn reset(seed: u64) {
    let old = W.with(|w| std::mem::replace(&mut *w.borrow_mut(), World::new(seed)));
    // wakers of an abandoned case may point into a cleared arena: forget them
    for g in old.gates {
        std::mem::forget(g.armed);
    }
    SPURIOUS.with(|s| s.set(true));
}
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}
pub fn rnd(n: usize) -> usize {
    with(|w| w.rng.below(n))
}
pub fn chance(a: usize, b: usize) -> bool {
    with(|w| w.rng.chance(a, b))
}
/// Set pending probability (1/8ths) and self-wake probability (1/8ths).
pub fn set_pend(p: usize, s: usize) {
    with(|w| {
        w.pend = p;
        w.self_wake = s
    })
}
pub fn set_spurious(b: bool) {
    SPURIOUS.with(|s| s.set(b));
}
pub fn pendings() -> u64 {
    with(|w| w.pendings)
}
pub fn root_polls() -> u64 {
    with(|w| w.polls)
}

/// A place where user code may panic: the panic_in-th one passed does.
pub fn hazard(what: &str) {
    let boom = with(|w| {
        if w.panic_in > 0 {
            w.panic_in -= 1;
            return w.panic_in == 0;
        }
        false
    });
    if boom {
        logf!("    {what} panics");
        panic!("injected panic");
    }
}
/// A source of readiness: each "operation" needs a random number of wake-ups.
#[derive(Debug)]
pub struct Gate(usize);
pub fn gate(name: &'static str) -> Gate {
    with(|w| {
        w.gates.push(GateSt { name, left: 0, started: false, fired: false, armed: None, alive: true, seen: 0, touched: false });
        Gate(w.gates.len() - 1)
    })
}
impl Gate {
    /// Poll for the next operation to be allowed.
    pub fn poll(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        enum Act {
            Ready,
            Arm,
            SelfWake,
        }
        let id = self.0;
        with(|w| w.gate_polls += 1);
        hazard("gate");
        let (act, old) = with(|w| {
            let pend = w.pend;
            let sw = w.self_wake;
            let polls = w.polls;
            let draw = w.rng.chance(pend, 8);
            let n = 1 + w.rng.chance(1, 4) as u32;
            let self_wake = w.rng.chance(sw, 8);
            let g = &mut w.gates[id];
            g.seen = polls;
            g.touched = true;
            if !g.started {
                g.started = true;
                g.fired = false;
                g.left = if draw { n } else { 0 };
            }
            if g.fired {
                g.fired = false;
                g.left -= 1;
            }
            if g.left == 0 {
                g.started = false;
                return (Act::Ready, g.armed.take());
            }
            w.pendings += 1;
            let g = &mut w.gates[id];
            if g.armed.is_none() && self_wake {
                g.fired = true;
                w.stir += 1;
                (Act::SelfWake, None)
            } else {
                (Act::Arm, g.armed.take())
            }
        });
        drop(old);
        match act {
            Act::Ready => Poll::Ready(()),
            Act::SelfWake => {
                logf!("    gate {} pending, wakes itself", self.name());
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Act::Arm => {
                logf!("    gate {} pending", self.name());
                let wk = cx.waker().clone();
                with(|w| w.gates[id].armed = Some(wk));
                Poll::Pending
            }
        }
    }
    pub fn name(&self) -> String {
        with(|w| format!("{}#{}", w.gates[self.0].name, self.0))
    }
    pub fn id(&self) -> usize {
        self.0
    }
}
impl Drop for Gate {
    fn drop(&mut self) {
        let old = W.try_with(|w| {
            if let Ok(mut w) = w.try_borrow_mut() {
                if let Some(g) = w.gates.get_mut(self.0) {
                    g.alive = false;
                    return g.armed.take();
                }
            }
            None
        });
        drop(old);
    }
}
/// Whether the gate was polled for its current operation and left it pending.
pub fn waiting(id: usize) -> bool {
    with(|w| w.gates[id].started)
}
/// Whether the gate was ever polled.
pub fn touched(id: usize) -> bool {
    with(|w| w.gates[id].touched)
}
/// Whether the gate was polled during the latest root poll.
pub fn seen_now(id: usize) -> bool {
    with(|w| w.gates[id].touched && w.gates[id].seen == w.polls)
}
/// Whether the gate's readiness was signalled and it has not been polled since.
pub fn unserved(id: usize) -> bool {
    with(|w| w.gates[id].alive && w.gates[id].fired)
}
fn armed() -> Vec<usize> {
    with(|w| w.gates.iter().enumerate().filter(|(_, g)| g.alive && g.armed.is_some()).map(|(i, _)| i).collect())
}
/// Number of gates waiting to be fired.
pub fn armed_count() -> usize {
    armed().len()
}
/// Fires one random armed gate; returns its id.
pub fn fire_random() -> Option<usize> {
    let a = armed();
    if a.is_empty() {
        return None;
    }
    let id = a[rnd(a.len())];
    fire(id);
    Some(id)
}
pub fn fire(id: usize) {
    let wk = with(|w| {
        w.fires += 1;
        w.stir += 1;
        w.gates[id].fired = true;
        w.gates[id].armed.take()
    });
    logf!("  event: gate {}#{} fires", with(|w| w.gates[id].name), id);
    if let Some(wk) = wk {
        if chance(1, 2) {
            wk.wake();
        } else {
            wk.wake_by_ref();
            drop(wk);
        }
    }
}
const ROOT: u64 = u64::MAX;
fn on_root_wake(_: u64, gen: u64) {
    let _ = W.try_with(|w| {
        let mut w = w.borrow_mut();
        if w.gen == gen {
            w.woken = true;
        }
    });
}
pub fn woken() -> bool {
    with(|w| w.woken)
}
pub struct Driver {
    waker: Option<Waker>,
    pub polls: u64,
    pub max_polls: u64,
    /// require a fired gate that was polled in the latest root poll to wake the root
    pub strict: bool,
    /// consecutive requested polls before which no leaf had stirred
    streak: u64,
    last: (u64, usize),
}
pub enum Drive<R> {
    Done(R),
    /// the monitor found the root asleep with nothing left to happen
    Stuck,
    Exhausted,
}
impl Default for Driver {
    fn default() -> Self {
        Driver { waker: None, polls: 0, max_polls: 20_000, strict: true, streak: 0, last: (0, 0) }
    }
}
impl Driver {
    pub fn new() -> Driver {
        Self::default()
    }
    /// One poll with a (usually fresh) waker.
    pub fn poll<R>(&mut self, f: impl FnOnce(&mut Context<'_>) -> Poll<R>) -> Poll<R> {
        if self.waker.is_none() || chance(3, 4) {
            let gen = with(|w| {
                w.gen += 1;
                w.gen
            });
            self.waker = None;
            self.waker = Some(mon::new_waker(on_root_wake, ROOT, gen));
        }
        let (now, asked) = with(|w| {
            let asked = w.woken;
            w.woken = false;
            w.polls += 1;
            ((w.stir, w.gates.len()), asked)
        });
        if asked && self.polls > 0 && now == self.last {
            self.streak += 1;
            if self.streak == 500 {
                vio!("spins: asked for {} polls in a row although nothing it waits for stirred", self.streak);
            }
        } else {
            self.streak = 0;
        }
        self.last = now;
        self.polls += 1;
        let w = self.waker.take().unwrap();
        logf!("root poll {}", self.polls);
        let r = f(&mut Context::from_waker(&w));
        self.waker = Some(w);
        mon::event(if r.is_ready() { 3 } else { 5 });
        r
    }
    /// Called after a Pending root poll: lets events happen until the root should be
    /// polled again. Returns false when the root sleeps and nothing can happen.
    pub fn idle(&mut self) -> bool {
        loop {
            if woken() {
                // possibly more events before the executor gets to it
                if !with(|w| w.lazy) && chance(1, 4) {
                    if let Some(id) = fire_random() {
                        mon::event(id as u64 * 16 + 1);
                        continue;
                    }
                }
                return true;
            }
            if SPURIOUS.with(|s| s.get()) && chance(1, 10) {
                return true; // spurious poll
            }
            let seen_now = with(|w| w.polls);
            match fire_random() {
                Some(id) => {
                    mon::event(id as u64 * 16 + 2);
                    if self.strict && !woken() {
                        let (name, seen) = with(|w| (w.gates[id].name, w.gates[id].seen));
                        if seen == seen_now {
                            vio!("the task was not woken although '{name}#{id}', which its latest poll left pending, became ready");
                            return false;
                        }
                    }
                }
                None => return false,
            }
        }
    }
    /// Polls to completion.
    pub fn drive<R>(&mut self, mut f: impl FnMut(&mut Context<'_>) -> Poll<R>) -> Drive<R> {
        loop {
            if let Poll::Ready(r) = self.poll(&mut f) {
                return Drive::Done(r);
            }
            if self.polls > self.max_polls {
                vio!("not finished after {} polls although every leaf makes progress", self.max_polls);
                return Drive::Exhausted;
            }
            if mon::violated() {
                return Drive::Stuck;
            }
            if !self.idle() {
                if !mon::violated() {
                    vio!("lost wake-up: pending, its latest waker not woken, and no event outstanding");
                }
                return Drive::Stuck;
            }
        }
    }
    pub fn run<F: Future + ?Sized>(&mut self, mut fut: Pin<&mut F>) -> Option<F::Output> {
        match self.drive(|cx| fut.as_mut().poll(cx)) {
            Drive::Done(r) => Some(r),
            _ => None,
        }
    }
}
/// Drive a future to completion; None after a violation.
pub fn run<F: Future>(fut: F) -> Option<F::Output> {
    let mut fut = Box::pin(fut);
    Driver::new().run(fut.as_mut())
}

// ------------------------------------------------------------------ leaf future
/// Future with a scripted number of pendings; monitors polls after completion.
pub struct Lf<T> {
    gate: Gate,
    val: Option<T>,
    done: bool,
    polls: Option<std::rc::Rc<Cell<u32>>>,
    on_done: Option<Box<dyn FnOnce()>>,
    _body: mon::Tok,
}
impl<T> Unpin for Lf<T> {}
/// Value of the token that stands for a leaf itself.
pub const BODY: u64 = 900_000_000;
pub fn fut<T>(v: T) -> Lf<T> {
    Lf { gate: gate("fut"), val: Some(v), done: false, polls: None, on_done: None, _body: mon::tok(BODY) }
}
impl<T> Lf<T> {
    pub fn counted(mut self, c: &std::rc::Rc<Cell<u32>>) -> Self {
        self.polls = Some(c.clone());
        self
    }
    pub fn on_done(mut self, f: impl FnOnce() + 'static) -> Self {
        self.on_done = Some(Box::new(f));
        self
    }
    pub fn gate_id(&self) -> usize {
        self.gate.id()
    }
}
impl<T> Future for Lf<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        if let Some(c) = &self.polls {
            c.set(c.get() + 1);
        }
        if self.done {
            vio!("future {} polled after completion", self.gate.name());
            return Poll::Pending;
        }
        match self.gate.poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                self.done = true;
                logf!("    future {} ready", self.gate.name());
                if let Some(f) = self.on_done.take() {
                    f()
                }
                Poll::Ready(self.val.take().unwrap())
            }
        }
    }
}
/// Future that is never ready and never wakes.
pub struct Never;
impl Future for Never {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        Poll::Pending
    }
}

// ------------------------------------------------------------------ leaf stream
/// How a leaf stream reports its size.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hint {
    Exact,
    Loose,
    None,
}
#[derive(Default)]
pub struct StreamStats {
    pub polls: Cell<u32>,
    pub yielded: Cell<u32>,
    pub ended: Cell<bool>,
    pub dropped: Cell<bool>,
}
/// Stream over given items with scripted pendings.
pub struct Ls<T> {
    gate: Gate,
    items: VecDeque<T>,
    ended: bool,
    hint: Hint,
    slack: usize,
    under: usize,
    pub stats: std::rc::Rc<StreamStats>,
    polled_after_end_ok: bool,
    _body: mon::Tok,
}
impl<T> Unpin for Ls<T> {}
pub fn stream<T>(items: impl IntoIterator<Item = T>) -> Ls<T> {
    let hint = with(|w| *w.rng.pick(&[Hint::Exact, Hint::Loose, Hint::None, Hint::Exact]));
    Ls {
        gate: gate("stream"), items: items.into_iter().collect(), ended: false, hint, slack: rnd(3), under: rnd(3),
        stats: Default::default(), polled_after_end_ok: false, _body: mon::tok(BODY + 1),
    }
}
impl<T> Ls<T> {
    pub fn hint(mut self, h: Hint) -> Self {
        self.hint = h;
        self
    }
    pub fn stats(&self) -> std::rc::Rc<StreamStats> {
        self.stats.clone()
    }
    pub fn lenient(mut self) -> Self {
        self.polled_after_end_ok = true;
        self
    }
    pub fn gate_id(&self) -> usize {
        self.gate.id()
    }
    pub fn remaining(&self) -> usize {
        self.items.len()
    }
}
impl<T> futures::Stream for Ls<T> {
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        self.stats.polls.set(self.stats.polls.get() + 1);
        if self.ended {
            if !self.polled_after_end_ok {
                vio!("stream {} polled after it had ended", self.gate.name());
            }
            return Poll::Ready(None);
        }
        match self.gate.poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                let it = self.items.pop_front();
                if it.is_none() {
                    self.ended = true;
                    self.stats.ended.set(true);
                } else {
                    self.stats.yielded.set(self.stats.yielded.get() + 1);
                }
                logf!("    stream {} yields {}", self.gate.name(), if it.is_some() { "an item" } else { "end" });
                Poll::Ready(it)
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint {
            Hint::Exact => (n, Some(n)),
            Hint::Loose => (n.saturating_sub(self.under), Some(n + self.slack)),
            Hint::None => (0, None),
        }
    }
}
impl<T> futures::stream::FusedStream for Ls<T> {
    fn is_terminated(&self) -> bool {
        self.ended
    }
}
impl<T> Drop for Ls<T> {
    fn drop(&mut self) {
        self.stats.dropped.set(true);
    }
}
/// Collect a stream, checking at each step with `obs(&stream, items so far)`.
pub fn collect_obs<S: futures::Stream + ?Sized>(mut s: Pin<&mut S>, mut obs: impl FnMut(Pin<&mut S>, usize)) -> Option<Vec<S::Item>> {
    let mut v = Vec::new();
    let mut d = Driver::new();
    loop {
        obs(s.as_mut(), v.len());
        match d.drive(|cx| s.as_mut().poll_next(cx)) {
            Drive::Done(Some(x)) => v.push(x),
            Drive::Done(None) => return Some(v),
            _ => return None,
        }
        if v.len() > 100_000 {
            vio!("stream does not end");
            return None;
        }
    }
}
pub fn collect_strict<S: futures::Stream>(s: S, strict: bool) -> Option<Vec<S::Item>> {
    let mut s = Box::pin(s);
    let mut v = Vec::new();
    let mut d = Driver::new();
    d.strict = strict;
    loop {
        match d.drive(|cx| s.as_mut().poll_next(cx)) {
            Drive::Done(Some(x)) => v.push(x),
            Drive::Done(None) => return Some(v),
            _ => return None,
        }
        if v.len() > 100_000 {
            vio!("stream does not end");
            return None;
        }
    }
}
pub fn collect<S: futures::Stream>(s: S) -> Option<Vec<S::Item>> {
    let mut s = Box::pin(s);
    collect_obs(s.as_mut(), |_, _| {})
}
/// Collect with the size_hint of the stream checked at every step, also between pendings.
pub fn collect_hinted<S: futures::Stream>(s: S, what: &str) -> Option<Vec<S::Item>> {
    let mut s = Box::pin(s);
    let mut hints: Vec<(usize, (usize, Option<usize>))> = Vec::new();
    let mut v = Vec::new();
    let mut d = Driver::new();
    loop {
        hints.push((v.len(), s.size_hint()));
        let r = d.poll(|cx| s.as_mut().poll_next(cx));
        match r {
            Poll::Ready(Some(x)) => v.push(x),
            Poll::Ready(None) => break,
            Poll::Pending => {
                if d.polls > d.max_polls {
                    vio!("{what}: not finished after {} polls", d.max_polls);
                    return None;
                }
                if mon::violated() {
                    return None;
                }
                if !d.idle() {
                    if !mon::violated() {
                        vio!("{what}: lost wake-up: pending, latest waker not woken, no event outstanding");
                    }
                    return None;
                }
            }
        }
    }
    for (at, (lo, hi)) in hints {
        let rest = v.len() - at;
        ensure!(lo <= rest, "{what}: size_hint lower bound {lo} but only {rest} more items came (after {at} of {})", v.len());
        if let Some(hi) = hi {
            ensure!(rest <= hi, "{what}: size_hint upper bound {hi} but {rest} more items came (after {at} of {})", v.len());
        }
    }
    Some(v)
}
/// No gate was polled so far.
pub fn untouched() -> bool {
    with(|w| w.gates.iter().all(|g| !g.touched))
}
/// Fires every armed gate.
pub fn fire_all() {
    while fire_random().is_some() {}
}
