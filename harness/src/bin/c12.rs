//! C12: Abortable.
use futures::future::{abortable, AbortHandle, Abortable, Aborted};
use futures::{stream, FutureExt, Stream, StreamExt};
use hv::aleaf::{leaf, Ctl, Leaf};
use hv::mon::{self, Tok};
use hv::sched::{self, Exec};
use hv::{ensure, logf, Case};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

/// Stream of leaves, in order.
struct LStream(VecDeque<Leaf>, bool);
impl Stream for LStream {
    type Item = Tok;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Tok>> {
        let Some(l) = self.0.front_mut() else {
            ensure!(!self.1, "inner stream polled after its end");
            self.1 = true;
            return Poll::Ready(None);
        };
        match l.poll_unpin(cx) {
            Poll::Ready(t) => {
                self.0.pop_front();
                Poll::Ready(Some(t))
            }
            Poll::Pending => Poll::Pending,
        }
    }
}
enum Ab {
    F(Abortable<Leaf>),
    S(Abortable<LStream>),
}
impl Ab {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<Option<Tok>, Aborted>> {
        match self {
            Ab::F(f) => Pin::new(f).poll(cx).map(|r| r.map(Some)),
            Ab::S(s) => s.poll_next_unpin(cx).map(Ok),
        }
    }
    fn is_aborted(&self) -> bool {
        match self {
            Ab::F(f) => f.is_aborted(),
            Ab::S(f) => f.is_aborted(),
        }
    }
}
fn concurrent(c: &mut Case) {
    let is_stream = c.rng.chance(1, 3);
    let n = if is_stream { c.rng.range(0, 3) } else { 1 };
    let mut ls = VecDeque::new();
    let mut ctls: Vec<Ctl> = Vec::new();
    let mut evs = Vec::new();
    for i in 0..n {
        let e = c.rng.below(3);
        let (l, ctl) = leaf(7 + i as u64, e);
        ls.push_back(l);
        ctls.push(ctl);
        evs.push(e);
    }
    let aborters = c.rng.below(3);
    // without an abort all events fire; with one, possibly not
    let fire_all = aborters == 0 || c.rng.bool();
    let (ab, h) = if is_stream {
        let (s, h) = if c.rng.bool() {
            stream::abortable(LStream(ls, false))
        } else {
            let (h, reg) = AbortHandle::new_pair();
            (Abortable::new(LStream(ls, false), reg), h)
        };
        (Ab::S(s), h)
    } else {
        let l = ls.pop_front().unwrap();
        let (f, h) = if c.rng.bool() {
            abortable(l)
        } else {
            let (_h, reg) = AbortHandle::new_pair();
            let h = reg.handle();
            (Abortable::new(l, reg), h)
        };
        (Ab::F(f), h)
    };
    c.desc = format!("stream {is_stream}, events {evs:?}, {aborters} aborters, all events fired {fire_all}");
    let began = Rc::new(Cell::new(u64::MAX));
    let done = Rc::new(Cell::new(u64::MAX));
    let result = Rc::new(Cell::new(0u8));
    let mut r = c.rng.fork();
    let all = ctls.clone();
    let got = Rc::new(RefCell::new(Vec::<u64>::new()));
    let o = sched::run(&mut c.rng, || {
        let mut ab = ab;
        for i in 0..aborters {
            let h = h.clone();
            let (began, done) = (began.clone(), done.clone());
            let mut r = r.fork();
            sched::spawn(format!("aborter{i}"), move || {
                for _ in 0..r.below(4) {
                    sched::point();
                }
                began.set(began.get().min(sched::now()));
                logf!("abort begins");
                h.abort();
                done.set(done.get().min(sched::now()));
                logf!("abort done");
                ensure!(h.is_aborted(), "is_aborted false after abort");
                if r.bool() {
                    h.abort();
                }
            });
        }
        drop(h);
        let mut r1 = r.fork();
        let (evs, all2) = (evs.clone(), all.clone());
        sched::spawn("env", move || {
            for (i, e) in evs.iter().enumerate() {
                for _ in 0..*e {
                    sched::point();
                    if !fire_all && r1.bool() {
                        return;
                    }
                    all2[i].fire();
                    if r1.chance(1, 5) {
                        all2[i].nudge();
                    }
                }
            }
        });
        let (began, done, result, got) = (began.clone(), done.clone(), result.clone(), got.clone());
        sched::spawn("poller", move || {
            let mut ex = Exec::new(&mut r);
            loop {
                let t0 = sched::now();
                let pre: u32 = all.iter().map(|c| c.polls()).sum();
                let p = ex.poll(|cx| ab.poll(cx));
                let t1 = sched::now();
                let polled = all.iter().map(|c| c.polls()).sum::<u32>() - pre;
                let aborted_before = done.get() < t0;
                let maybe = began.get() < t1;
                ensure!(polled <= 1, "inner polled {polled} times in one poll");
                ensure!(!aborted_before || polled == 0, "inner polled although aborted before");
                ensure!(maybe || polled == 1 || n == 0 || is_stream, "inner not polled although not aborted");
                let ia = ab.is_aborted();
                ensure!(!ia || began.get() < sched::now(), "is_aborted without abort");
                ensure!(!aborted_before || ia, "is_aborted false after abort");
                match p {
                    Poll::Ready(Err(Aborted)) => {
                        logf!("aborted");
                        ensure!(maybe, "Aborted although nobody aborted");
                        result.set(2);
                        break;
                    }
                    Poll::Ready(Ok(Some(t))) => {
                        logf!("item {}", t.get());
                        ensure!(!aborted_before, "completed although aborted before this poll");
                        got.borrow_mut().push(t.get());
                        if !is_stream {
                            result.set(1);
                            break;
                        }
                        continue;
                    }
                    Poll::Ready(Ok(None)) => {
                        let complete = got.borrow().len() == n;
                        ensure!(complete || maybe, "stream ended early without abort");
                        result.set(if complete && !maybe { 1 } else { 2 });
                        if !complete {
                            let again = ex.poll(|cx| matches!(ab.poll(cx), Poll::Ready(Ok(None))));
                            ensure!(again || done.get() > sched::now(), "aborted stream does not stay ended");
                        }
                        break;
                    }
                    Poll::Pending => ensure!(!aborted_before, "pending although aborted before this poll"),
                }
                if r.chance(1, 10) {
                    sched::point();
                    continue;
                }
                if r.chance(1, 12) {
                    logf!("dropped");
                    break;
                }
                sched::wait_woken();
            }
            drop(ab);
        });
    });
    c.nontrivial = o.switches > 2;
    c.count("scheduling_points", o.steps);
    c.count("aborted", (result.get() == 2) as u64);
    c.count("completed", (result.get() == 1) as u64);
    sched::expect_done(&o);
    let g = got.borrow();
    ensure!(*g == (7..7 + g.len() as u64).collect::<Vec<_>>(), "items {g:?}");
    if o.deadlocked.is_empty() && o.failed.is_none() && !o.discarded && !mon::violated() {
        for c in &ctls {
            ensure!(c.dropped(), "inner future not dropped");
        }
        mon::check_released();
    }
}
/// One thread, several handles and registrations: identity and transparency.
fn sequential(c: &mut Case) {
    thread_local!(static WOKEN: Cell<u64> = const { Cell::new(0) });
    WOKEN.with(|w| w.set(0));
    fn on(_: u64, gen: u64) {
        WOKEN.with(|w| w.set(w.get() | 1 << (gen & 63)));
    }
    struct P {
        f: Option<Abortable<Leaf>>,
        h: Vec<AbortHandle>,
        ctl: Ctl,
        left: usize,
        aborted: bool,
        finished: bool,
        slot: Option<u64>,
    }
    let mut ps: Vec<P> = Vec::new();
    let k = c.rng.range(1, 3);
    for i in 0..k {
        let e = c.rng.below(3);
        let (l, ctl) = leaf(i as u64, e);
        let (h, reg) = AbortHandle::new_pair();
        let h2 = reg.handle();
        ps.push(P { f: Some(Abortable::new(l, reg)), h: vec![h, h2], ctl, left: e, aborted: false, finished: false, slot: None });
    }
    let mut gen = 0u64;
    for _ in 0..c.rng.range(4, 25) {
        let i = c.rng.below(k);
        let p = &mut ps[i];
        let op = c.rng.below(8);
        mon::event(op as u64 * 4 + i as u64);
        match op {
            0 | 1 if c.rng.chance(1, 3) && !p.h.is_empty() => {
                let j = c.rng.below(p.h.len());
                p.h[j].abort();
                p.aborted = true;
                if let Some(s) = p.slot {
                    ensure!(WOKEN.with(|w| w.get()) >> s & 1 == 1, "abort did not wake the waiting task");
                }
            }
            2 if !p.h.is_empty() => {
                let h = p.h[c.rng.below(p.h.len())].clone();
                p.h.push(h);
                if c.rng.bool() {
                    p.h.swap_remove(0);
                }
            }
            3 => {
                if !p.ctl.done() && !p.ctl.dropped() && p.left > 0 {
                    p.left -= 1;
                    p.ctl.fire();
                    if let Some(s) = p.slot {
                        ensure!(WOKEN.with(|w| w.get()) >> s & 1 == 1, "progress of the inner future did not wake the waiting task");
                    }
                }
            }
            4 => {
                if let Some(f) = &p.f {
                    ensure!(f.is_aborted() == p.aborted, "is_aborted {} on the future", f.is_aborted());
                }
                for h in &p.h {
                    ensure!(h.is_aborted() == p.aborted, "is_aborted {} on a handle", h.is_aborted());
                }
            }
            5..=7 if !p.finished => {
                gen += 1;
                let slot = gen & 63;
                WOKEN.with(|w| w.set(w.get() & !(1 << slot)));
                let w = mon::new_waker(on, 0, gen);
                let before = p.ctl.polls();
                let r = p.f.as_mut().unwrap().poll_unpin(&mut Context::from_waker(&w));
                ensure!(p.ctl.polls() == before + !p.aborted as u32, "inner polled {} times (aborted: {})", p.ctl.polls() - before, p.aborted);
                p.slot = None;
                match r {
                    Poll::Ready(Err(Aborted)) => {
                        ensure!(p.aborted, "Aborted without abort");
                        p.finished = true;
                    }
                    Poll::Ready(Ok(t)) => {
                        ensure!(!p.aborted && p.left == 0 && t.get() == i as u64, "completed with {} (aborted {}, {} events missing)", t.get(), p.aborted, p.left);
                        p.finished = true;
                    }
                    Poll::Pending => {
                        ensure!(!p.aborted && p.left > 0, "pending (aborted {}, {} events missing)", p.aborted, p.left);
                        p.slot = Some(slot);
                    }
                }
            }
            _ => {}
        }
        if mon::violated() {
            return;
        }
    }
    c.nontrivial = gen > 0;
    c.desc = format!("{k} abortables, {gen} polls");
    drop(ps);
    mon::check_released();
}
fn main() {
    hv::main("C12", vec![
        hv::w("concurrent", 4_000_000, 60_000_000, concurrent),
        hv::w("sequential", 1_000_000, 10_000_000, sequential),
    ]);
}
