//! C01: AtomicWaker.
use futures::task::AtomicWaker;
use hv::sched::{self, expect_done};
use hv::{ensure, logf, mon, Case};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Default)]
struct Hist {
    // (generation, time when register returned)
    regs: Vec<(u64, u64)>,
}

/// One registering task waits for `target` increments done by waking threads.
fn wait_for_count(c: &mut Case) {
    let nw = c.rng.range(1, 3);
    let per: Vec<usize> = (0..nw).map(|_| c.rng.range(1, 3)).collect();
    let total: usize = per.iter().sum();
    let taker = c.rng.chance(1, 4);
    c.desc = format!("1 registering task, wakers do {per:?} increments+wakes, take-based wakes: {taker}");
    let aw = Rc::new(AtomicWaker::new());
    let count = Rc::new(Cell::new(0usize));
    let hist = Rc::new(RefCell::new(Hist::default()));
    let mut r = c.rng.fork();
    let o = sched::run(&mut c.rng, || {
        {
            let (aw, count, hist) = (aw.clone(), count.clone(), hist.clone());
            let mut r = r.fork();
            sched::spawn("task", move || {
                let mut seen = 0;
                let mut w = sched::fresh_waker();
                while seen < total {
                    loop {
                        if r.chance(2, 3) {
                            w = sched::fresh_waker();
                        }
                        sched::clear_woken();
                        aw.register(&w);
                        hist.borrow_mut().regs.push((sched::gen(), sched::now()));
                        sched::point();
                        if count.get() > seen {
                            seen = if r.bool() { count.get() } else { seen + 1 };
                            break;
                        }
                        if r.chance(1, 8) {
                            continue; // spurious re-poll
                        }
                        while !sched::woken() {
                            sched::park();
                        }
                    }
                }
                logf!("task saw all {total}");
            });
        }
        for (i, n) in per.iter().copied().enumerate() {
            let (aw, count, hist) = (aw.clone(), count.clone(), hist.clone());
            let mut r = r.fork();
            sched::spawn(format!("waker{i}"), move || {
                for _ in 0..n {
                    sched::point();
                    count.set(count.get() + 1);
                    logf!("waker{i} increments to {}", count.get());
                    let before = sched::wakes().len();
                    let t0 = sched::now();
                    let me = sched::me();
                    // generation whose registration had completed before this call
                    let completed = hist.borrow().regs.iter().filter(|x| x.1 < t0).map(|x| x.0).max().unwrap_or(0);
                    if taker && r.bool() {
                        if let Some(w) = aw.take() {
                            w.wake();
                        }
                    } else {
                        aw.wake();
                    }
                    let mine: Vec<_> = sched::wakes()[before..].iter().filter(|w| w.by == me).collect();
                    ensure!(mine.len() <= 1, "one wake call woke {} wakers", mine.len());
                    for m in mine {
                        ensure!(
                            m.gen >= completed,
                            "wake call woke waker generation {} although generation {} had been registered before the call",
                            m.gen, completed
                        );
                    }
                }
            });
        }
    });
    expect_done(&o);
    c.count("scheduling_points", o.steps);
    c.count("context_switches", o.switches);
    c.nontrivial = o.switches > nw as u64 + 1;
    drop(aw);
    if o.deadlocked.is_empty() && o.failed.is_none() && !mon::violated() {
        mon::check_released();
    }
}
/// Sequential histories against a one-slot model.
fn sequential(c: &mut Case) {
    let aw = AtomicWaker::new();
    let woken: Rc<RefCell<Vec<u64>>> = Default::default();
    thread_local!(static WK: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) });
    WK.with(|w| w.borrow_mut().clear());
    fn on(_: u64, id: u64) {
        WK.with(|w| w.borrow_mut().push(id));
    }
    let _ = woken;
    let mut slot: Option<u64> = None;
    let mut cur: Option<(u64, std::task::Waker)> = None;
    let mut next = 1;
    let n = c.rng.range(3, 20);
    let mut expect = Vec::new();
    for _ in 0..n {
        match c.rng.below(5) {
            0 | 1 => {
                if cur.is_none() || c.rng.bool() {
                    cur = Some((next, mon::new_waker(on, 0, next)));
                    next += 1;
                }
                let (id, w) = cur.as_ref().unwrap();
                aw.register(w);
                slot = Some(*id);
            }
            2 | 3 => {
                aw.wake();
                if let Some(s) = slot.take() {
                    expect.push(s);
                }
            }
            _ => {
                let t = aw.take();
                ensure!(t.is_some() == slot.is_some(), "take returned {:?}, model has {:?}", t.is_some(), slot);
                if let (Some(w), Some(s)) = (t, slot.take()) {
                    w.wake();
                    expect.push(s);
                }
            }
        }
        let got = WK.with(|w| w.borrow().clone());
        ensure!(got == expect, "wakes observed {got:?}, expected {expect:?}");
        mon::event(expect.len() as u64 * 100 + slot.unwrap_or(0));
    }
    drop(cur);
    let stored = mon::live_wakers();
    ensure!(stored == slot.is_some() as isize, "AtomicWaker holds {stored} handles, expected {}", slot.is_some() as u8);
    drop(aw);
    mon::check_released();
    c.nontrivial = !expect.is_empty();
    c.desc = format!("{n} sequential register/wake/take calls, {} wakes", expect.len());
}
/// Several tasks register concurrently (only memory safety and handle balance are promised),
/// then one final registrant must still be woken.
fn contended_register(c: &mut Case) {
    let aw = Rc::new(AtomicWaker::new());
    let n = c.rng.range(2, 3);
    let k = c.rng.range(1, 2);
    c.desc = format!("{n} concurrently registering tasks, {k} wakers, then a final register/wake");
    let mut r = c.rng.fork();
    let o = sched::run(&mut c.rng, || {
        for i in 0..n {
            let aw = aw.clone();
            let m = r.range(1, 3);
            sched::spawn(format!("reg{i}"), move || {
                for _ in 0..m {
                    let w = sched::fresh_waker();
                    aw.register(&w);
                    sched::point();
                }
            });
        }
        for i in 0..k {
            let aw = aw.clone();
            sched::spawn(format!("waker{i}"), move || {
                aw.wake();
                drop(aw.take());
            });
        }
    });
    expect_done(&o);
    c.nontrivial = o.switches > (n + k) as u64;
    let o2 = sched::run(&mut c.rng, || {
        let aw2 = aw.clone();
        sched::spawn("final", move || {
            let w = sched::fresh_waker();
            aw2.register(&w);
            aw2.wake();
            ensure!(sched::woken(), "AtomicWaker unusable after contended registration");
        });
    });
    expect_done(&o2);
    drop(aw);
    mon::check_released();
}
fn main() {
    hv::main("C01", vec![
        hv::w("wait_for_count", 400_000, 20_000_000, wait_for_count),
        hv::w("contended_register", 100_000, 4_000_000, contended_register),
        hv::w("sequential", 50_000, 1_000_000, sequential),
    ]);
}
