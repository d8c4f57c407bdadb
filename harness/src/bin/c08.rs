//! C08: Shared.
use futures::future::{FusedFuture, Shared};
use futures::FutureExt;
use hv::aleaf::{leaf, Leaf};
use hv::mon::{self, Tok};
use hv::sched::{self, Exec};
use hv::{ensure, logf, vio, Case};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

fn concurrent(c: &mut Case) {
    run(c, false)
}
fn panicking(c: &mut Case) {
    run(c, true)
}
fn run(c: &mut Case, panics: bool) {
    let k = c.rng.range(2, 4);
    let events = if panics { c.rng.range(1, 3) } else { c.rng.below(4) };
    let cancels = c.rng.bool();
    let (l, ctl) = leaf(7, events);
    if panics {
        ctl.0.borrow_mut().panic_at = c.rng.range(1, 3) as u32;
    }
    c.desc = format!("{k} clones, {events} inner events, cancellations: {cancels}, inner panics: {panics}");
    let sh = l.shared();
    let mut handles: Vec<Shared<Leaf>> = (1..k).map(|_| sh.clone()).collect();
    handles.push(sh);
    let completed = Rc::new(Cell::new(0u64));
    let cancelled = Rc::new(Cell::new(0u64));
    let first_done = Rc::new(Cell::new(0u64));
    let mut r = c.rng.fork();
    let o = sched::run(&mut c.rng, || {
        for (i, h) in handles.drain(..).enumerate() {
            let mut r = r.fork();
            let (completed, cancelled, ctl, first_done) = (completed.clone(), cancelled.clone(), ctl.clone(), first_done.clone());
            sched::spawn(format!("clone{i}"), move || {
                let mut ex = Exec::new(&mut r);
                let mut h = h;
                if r.chance(1, 4) {
                    // replace the handle by a fresh clone, possibly after a poll
                    if r.bool() {
                        let p = catch_unwind(AssertUnwindSafe(|| ex.poll(|cx| h.poll_unpin(cx)).is_ready()));
                        match p {
                            Ok(true) => {
                                completed.set(completed.get() + 1);
                                return;
                            }
                            Err(_) => {
                                completed.set(completed.get() + 1);
                                return;
                            }
                            _ => {}
                        }
                    }
                    let h2 = h.clone();
                    ensure!(h.ptr_eq(&h2), "a clone is not ptr_eq to its origin");
                    drop(h);
                    h = h2;
                }
                let cancel = cancels && r.chance(1, 2);
                let after = r.below(3);
                let mut polls = 0;
                loop {
                    let p = catch_unwind(AssertUnwindSafe(|| ex.poll(|cx| h.poll_unpin(cx))));
                    polls += 1;
                    match p {
                        Err(_) => {
                            logf!("clone{i}: sees the panic");
                            ensure!(ctl.0.borrow().panicked, "a handle panicked although the inner future did not");
                            completed.set(completed.get() + 1);
                            break;
                        }
                        Ok(Poll::Ready(v)) => {
                            logf!("clone{i}: completes");
                            ensure!(v.get() == 7, "output {} instead of 7", v.get());
                            ensure!(h.is_terminated(), "handle not terminated after completion");
                            ensure!(h.peek().is_none() && h.strong_count().is_none() && h.downgrade().is_none(), "a completed handle still refers to the future");
                            completed.set(completed.get() + 1);
                            first_done.set(sched::now());
                            break;
                        }
                        Ok(Poll::Pending) => {
                            ensure!(!h.is_terminated(), "pending handle reports terminated");
                        }
                    }
                    if cancel && polls > after {
                        cancelled.set(cancelled.get() + 1);
                        logf!("clone{i}: dropped while waiting");
                        break;
                    }
                    if first_done.get() != 0 && !panics {
                        match h.peek() {
                            None => vio!("peek is None although another handle completed"),
                            Some(t) => ensure!(t.get() == 7, "peek shows {}", t.get()),
                        }
                    }
                    if r.chance(1, 12) {
                        sched::point();
                        continue;
                    }
                    sched::wait_woken();
                    if cancel && r.bool() {
                        cancelled.set(cancelled.get() + 1);
                        logf!("clone{i}: dropped after it was woken");
                        break;
                    }
                }
                drop(h);
            });
        }
        let ctl = ctl.clone();
        let mut r = r.fork();
        sched::spawn("env", move || {
            for _ in 0..events {
                sched::point();
                ctl.fire();
                if r.chance(1, 5) {
                    ctl.nudge();
                }
            }
        });
    });
    c.nontrivial = o.switches > k as u64;
    c.count("scheduling_points", o.steps);
    c.count("completions", completed.get());
    c.count("cancellations", cancelled.get());
    sched::expect_done(&o);
    if o.deadlocked.is_empty() && o.failed.is_none() && !o.discarded && !o.livelock && !mon::violated() {
        ensure!(completed.get() + cancelled.get() == k as u64, "{} of {k} handles completed or were dropped", completed.get() + cancelled.get());
        ensure!(ctl.dropped(), "the inner future was never dropped");
        mon::check_released();
    }
}
/// One thread, exact expectations after every call.
fn sequential(c: &mut Case) {
    thread_local!(static WOKEN: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) });
    WOKEN.with(|w| w.borrow_mut().clear());
    fn on(_: u64, gen: u64) {
        WOKEN.with(|w| w.borrow_mut().push(gen));
    }
    let woken = |g: u64| WOKEN.with(|w| w.borrow().contains(&g));
    struct Hd {
        s: Shared<Leaf>,
        gen: u64,
        w: Option<Waker>,
        term: bool,
    }
    let events = c.rng.below(3);
    let (l, ctl) = leaf(7, events);
    let mut left = events;
    let mut hs = vec![Hd { s: l.shared(), gen: 0, w: None, term: false }];
    let mut complete = false;
    let mut gen = 0;
    let mut weak = Vec::new();
    let n = c.rng.range(4, 24);
    for _ in 0..n {
        let op = c.rng.below(11);
        mon::event(op as u64 + complete as u64 * 100);
        match op {
            0 | 1 if hs.len() < 5 && !hs.is_empty() => {
                let i = c.rng.below(hs.len());
                let s = hs[i].s.clone();
                ensure!(hs[i].term || s.ptr_eq(&hs[i].s), "clone not ptr_eq");
                let term = hs[i].term;
                hs.push(Hd { s, gen: 0, w: None, term });
            }
            2..=5 if !hs.is_empty() => {
                let i = c.rng.below(hs.len());
                let h = &mut hs[i];
                if h.term {
                    ensure!(h.s.is_terminated(), "completed handle not terminated");
                    continue;
                }
                let w = match &h.w {
                    Some(w) if c.rng.chance(1, 3) && !woken(h.gen) => w.clone(),
                    _ => {
                        gen += 1;
                        h.gen = gen;
                        mon::new_waker(on, 0, gen)
                    }
                };
                let p = h.s.poll_unpin(&mut Context::from_waker(&w));
                logf!("poll {i} -> {}", p.is_ready());
                let exp = complete || left == 0;
                ensure!(p.is_ready() == exp, "handle ready={} but inner future {} events from completion", p.is_ready(), left);
                match p {
                    Poll::Ready(v) => {
                        ensure!(v.get() == 7, "wrong output");
                        h.term = true;
                        h.w = None;
                        h.gen = 0;
                        ensure!(h.s.is_terminated(), "not terminated after completion");
                        if !complete {
                            complete = true;
                            for (j, o) in hs.iter().enumerate() {
                                if o.gen != 0 && !woken(o.gen) {
                                    vio!("handle {j} waits but was not woken when the shared future completed");
                                }
                            }
                        }
                    }
                    Poll::Pending => h.w = Some(w),
                }
            }
            6 | 7 => {
                if left > 0 && ctl.polls() > 0 && !ctl.dropped() {
                    left -= 1;
                    ctl.fire();
                    // everyone who waits must now be woken
                    for (j, o) in hs.iter().enumerate() {
                        if o.gen != 0 && !woken(o.gen) {
                            vio!("handle {j} waits but was not woken when the inner future was");
                        }
                    }
                }
            }
            8 if hs.len() > 1 || c.rng.chance(1, 4) => {
                if hs.is_empty() {
                    continue;
                }
                let i = c.rng.below(hs.len());
                logf!("drop {i}");
                drop(hs.remove(i));
            }
            9 if !hs.is_empty() => {
                let i = c.rng.below(hs.len());
                if let Some(w) = hs[i].s.downgrade() {
                    ensure!(!hs[i].term, "downgrade of a completed handle");
                    weak.push(w);
                }
            }
            _ => {
                let live = hs.iter().filter(|h| !h.term).count();
                for h in &hs {
                    ensure!(h.s.strong_count() == if h.term { None } else { Some(live) }, "strong_count {:?} with {live} live handles", h.s.strong_count());
                    ensure!(h.s.weak_count() == if h.term { None } else { Some(weak.len()) }, "weak_count {:?} with {} weak handles", h.s.weak_count(), weak.len());
                    let p = h.s.peek();
                    ensure!(p.is_some() == (complete && !h.term), "peek is_some={} complete={complete} terminated={}", p.is_some(), h.term);
                    ensure!(p.map_or(true, |t: &Tok| t.get() == 7), "peek shows a wrong value");
                }
                for w in &weak {
                    let u = w.upgrade();
                    ensure!(u.is_some() == (live > 0), "upgrade is_some={} with {live} live handles", u.is_some());
                }
                ensure!(live > 0 || ctl.dropped(), "inner future not dropped with the last handle");
            }
        }
        if mon::violated() {
            return;
        }
    }
    c.nontrivial = ctl.polls() > 0;
    drop(hs);
    ensure!(ctl.dropped(), "inner future not dropped with the last handle");
    drop(weak);
    mon::check_released();
}
fn main() {
    hv::main("C08", vec![
        hv::w("concurrent", 400_000, 15_000_000, concurrent),
        hv::w("panicking", 40_000, 2_000_000, panicking),
        hv::w("sequential", 150_000, 3_000_000, sequential),
    ]);
}
