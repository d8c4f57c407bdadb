//! C13: RemoteHandle.
use futures::FutureExt;
use hv::aleaf::leaf;
use hv::mon::{self, Tok};
use hv::sched::{self, Exec};
use hv::{ensure, logf, vio, Case};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::task::Poll;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Plan {
    Wait,
    Drop,
    Forget,
}
fn concurrent(c: &mut Case) {
    let events = c.rng.below(3);
    let (l, ctl) = leaf(7, events);
    let panics = c.rng.chance(1, 5);
    if panics {
        ctl.0.borrow_mut().panic_at = c.rng.range(1, 3) as u32;
    }
    let plan = *c.rng.pick(&[Plan::Wait, Plan::Wait, Plan::Drop, Plan::Forget]);
    let polls_first = c.rng.below(3);
    // the executor may drop the remote half-way
    let exec_drops = c.rng.chance(1, 6);
    let never_polled = exec_drops && c.rng.bool();
    let fire_all = plan != Plan::Drop || c.rng.bool();
    c.desc = format!("events {events}, {plan:?} after {polls_first} polls, panics {panics}, executor drops the remote {exec_drops}");
    let (remote, handle) = l.remote_handle();
    let gone = Rc::new(Cell::new(u64::MAX)); // handle dropped (completed)
    let going = Rc::new(Cell::new(u64::MAX)); // handle drop began
    let forgotten = Rc::new(Cell::new(false));
    let remote_done = Rc::new(Cell::new(false));
    let remote_dropped = Rc::new(Cell::new(false));
    let result = Rc::new(Cell::new(0u8));
    let mut r = c.rng.fork();
    let o = sched::run(&mut c.rng, || {
        {
            let ctl = ctl.clone();
            let mut r = r.fork();
            sched::spawn("env", move || {
                for _ in 0..events {
                    sched::point();
                    if r.chance(1, 2) {
                        let want = 1 + ctl.0.borrow().fired;
                        for _ in 0..20 {
                            if ctl.polls() >= want || ctl.dropped() {
                                break;
                            }
                            sched::spin_point();
                        }
                    }
                    if !fire_all && r.bool() {
                        return;
                    }
                    ctl.fire();
                }
            });
        }
        {
            let mut r = r.fork();
            let (gone, going, forgotten, result, remote_dropped) = (gone.clone(), going.clone(), forgotten.clone(), result.clone(), remote_dropped.clone());
            let ctl = ctl.clone();
            sched::spawn("handle", move || {
                let mut h = handle;
                let mut ex = Exec::new(&mut r);
                let mut polls = 0;
                loop {
                    if plan != Plan::Wait && polls >= polls_first {
                        break;
                    }
                    let p = catch_unwind(AssertUnwindSafe(|| ex.poll(|cx| h.poll_unpin(cx))));
                    polls += 1;
                    match p {
                        Ok(Poll::Ready(t)) => {
                            let t: Tok = t;
                            logf!("handle: result {}", t.get());
                            ensure!(t.get() == 7 && ctl.done(), "handle resolved to {} (future done: {})", t.get(), ctl.done());
                            result.set(1);
                            return;
                        }
                        Err(e) => {
                            let canceled = e.downcast_ref::<futures::channel::oneshot::Canceled>().is_some();
                            if canceled {
                                ensure!(remote_dropped.get(), "handle reports cancellation although the remote was not dropped");
                                result.set(3);
                            } else {
                                ensure!(e.downcast_ref::<&str>() == Some(&"leaf-panic"), "handle panics with another payload");
                                ensure!(ctl.0.borrow().panicked, "handle panicked although the future did not");
                                result.set(2);
                            }
                            logf!("handle: panic (canceled {canceled})");
                            return;
                        }
                        Ok(Poll::Pending) => {}
                    }
                    if plan != Plan::Wait || r.chance(1, 12) {
                        sched::point();
                        continue;
                    }
                    sched::wait_woken();
                }
                if plan == Plan::Drop {
                    going.set(sched::now());
                    logf!("handle dropped");
                    drop(h);
                    gone.set(sched::now());
                } else {
                    forgotten.set(true);
                    logf!("handle forgotten");
                    h.forget();
                }
            });
        }
        let (gone, going, ctl, remote_done, remote_dropped) = (gone.clone(), going.clone(), ctl.clone(), remote_done.clone(), remote_dropped.clone());
        sched::spawn("remote", move || {
            let mut rem = remote;
            let mut ex = Exec::new(&mut r);
            let mut polls = 0;
            loop {
                if exec_drops && (never_polled || (polls > 0 && r.bool())) {
                    logf!("remote dropped by its executor");
                    remote_dropped.set(true);
                    break;
                }
                let t0 = sched::now();
                let before = ctl.polls();
                let p = ex.poll(|cx| rem.poll_unpin(cx));
                polls += 1;
                let polled = ctl.polls() - before;
                let cancelled = gone.get() < t0;
                let maybe = going.get() < sched::now();
                ensure!(!cancelled || polled == 0, "the future was run after its handle had been dropped");
                ensure!(maybe || polled == 1, "the future was not polled although its handle exists or was forgotten");
                match p {
                    Poll::Ready(()) => {
                        let s = ctl.0.borrow();
                        ensure!(s.done || s.panicked || maybe, "the remote completed although the future did not and the handle was not dropped");
                        remote_done.set(true);
                        break;
                    }
                    Poll::Pending => ensure!(!cancelled, "the remote stays pending although its handle was dropped"),
                }
                if r.chance(1, 12) {
                    sched::point();
                    continue;
                }
                sched::wait_woken();
            }
            let done = ctl.done() || ctl.0.borrow().panicked;
            drop(rem);
            ensure!(done || ctl.dropped(), "future not dropped with the remote");
        });
    });
    c.nontrivial = o.switches > 2;
    c.count("scheduling_points", o.steps);
    c.count(["handle_gone", "results", "panics", "canceled"][result.get() as usize], 1);
    sched::expect_done(&o);
    if o.deadlocked.is_empty() && o.failed.is_none() && !o.discarded && !mon::violated() {
        if forgotten.get() && !exec_drops {
            ensure!(ctl.done() || ctl.0.borrow().panicked, "forgotten future did not run to completion");
        }
        if plan == Plan::Wait && !exec_drops {
            ensure!(result.get() == 1 + ctl.0.borrow().panicked as u8, "handle got result {}", result.get());
        }
        ensure!(ctl.dropped(), "future never dropped");
        if !remote_done.get() && !exec_drops {
            vio!("remote never completed");
        }
        mon::check_released();
    }
}
fn main() {
    hv::main("C13", vec![hv::w("concurrent", 5_000_000, 60_000_000, concurrent)]);
}
