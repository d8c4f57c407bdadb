//! C06: async Mutex.
use futures::future::FusedFuture;
use futures::lock::{MappedMutexGuard, Mutex, MutexGuard, MutexLockFuture, OwnedMutexGuard, OwnedMutexLockFuture};
use futures::FutureExt;
use hv::mon::{self, tok, Tok};
use hv::sched::{self, Exec};
use hv::{ensure, logf, vio, Case};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

struct Val {
    a: u64,
    b: u64,
    _t: Tok,
}
enum G<'a> {
    B(MutexGuard<'a, Val>),
    O(OwnedMutexGuard<Val>),
    M(MappedMutexGuard<'a, Val, u64>),
}
enum L<'a> {
    B(MutexLockFuture<'a, Val>),
    O(OwnedMutexLockFuture<Val>),
}
impl<'a> L<'a> {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<G<'a>> {
        match self {
            L::B(f) => f.poll_unpin(cx).map(G::B),
            L::O(f) => f.poll_unpin(cx).map(G::O),
        }
    }
    fn terminated(&self) -> bool {
        match self {
            L::B(f) => f.is_terminated(),
            L::O(f) => f.is_terminated(),
        }
    }
}
/// Read-modify-write under the guard, with preemption inside; both fields must move together.
fn critical<'a>(g: &mut G<'a>, holder: &Cell<usize>, me: usize) {
    let prev = holder.replace(me);
    ensure!(prev == usize::MAX, "task {me} got the lock while task {prev} holds it");
    match g {
        G::B(g) => {
            let a = g.a;
            sched::point();
            ensure!(g.a == g.b, "half-written state visible under the lock");
            g.a = a + 1;
            sched::point();
            g.b += 1;
        }
        G::O(g) => {
            let a = g.a;
            sched::point();
            ensure!(g.a == g.b, "half-written state visible under the lock");
            g.a = a + 1;
            sched::point();
            g.b += 1;
        }
        G::M(_) => {}
    }
    sched::point();
}
fn concurrent(c: &mut Case) {
    let k = c.rng.range(2, 4);
    let rounds = c.rng.range(1, 3);
    c.desc = format!("{k} tasks x {rounds} rounds of lock / try_lock / cancelled lock");
    let m = Arc::new(Mutex::new(Val { a: 0, b: 0, _t: tok(0) }));
    let holder = Rc::new(Cell::new(usize::MAX));
    let want = Rc::new(Cell::new(0u64));
    // guards handed over to another task for unlocking
    let shelf: Rc<RefCell<Vec<OwnedMutexGuard<Val>>>> = Default::default();
    let mut r = c.rng.fork();
    let o = sched::run(&mut c.rng, || {
        for i in 0..k {
            let (m, holder, want, shelf) = (m.clone(), holder.clone(), want.clone(), shelf.clone());
            let mut r = r.fork();
            sched::spawn(format!("task{i}"), move || {
                let mut ex = Exec::new(&mut r);
                for _ in 0..rounds {
                    // unlock something another task left behind
                    let other = shelf.borrow_mut().pop();
                    if let Some(g) = other {
                        holder.set(usize::MAX);
                        drop(g);
                    }
                    match r.below(8) {
                        0 => {
                            // cancelled: polled a few times, dropped without waiting
                            let mut l = if r.bool() { L::B(m.lock()) } else { L::O(m.clone().lock_owned()) };
                            let n = r.below(3);
                            let mut got = None;
                            for _ in 0..n {
                                if let Poll::Ready(g) = ex.poll(|cx| l.poll(cx)) {
                                    got = Some(g);
                                    break;
                                }
                            }
                            if let Some(mut g) = got {
                                want.set(want.get() + 1);
                                critical(&mut g, &holder, i);
                                holder.set(usize::MAX);
                                drop(g);
                            } else {
                                logf!("task{i}: drops a lock future after {n} polls");
                            }
                            sched::point();
                            drop(l);
                        }
                        1 => {
                            // waits until woken, then gives up
                            let mut l = if r.bool() { L::B(m.lock()) } else { L::O(m.clone().lock_owned()) };
                            match ex.poll(|cx| l.poll(cx)) {
                                Poll::Ready(mut g) => {
                                    want.set(want.get() + 1);
                                    critical(&mut g, &holder, i);
                                    holder.set(usize::MAX);
                                    drop(g);
                                }
                                Poll::Pending => {
                                    sched::wait_woken();
                                    logf!("task{i}: drops a lock future after it was woken");
                                    drop(l);
                                }
                            }
                        }
                        2 => {
                            let g = if r.bool() { m.try_lock().map(G::B) } else { m.try_lock_owned().map(G::O) };
                            if let Some(mut g) = g {
                                want.set(want.get() + 1);
                                critical(&mut g, &holder, i);
                                holder.set(usize::MAX);
                            }
                        }
                        3 => {
                            // mapped guard keeps the lock
                            let g = ex.block_on(m.lock());
                            let mut g = G::B(g);
                            want.set(want.get() + 1);
                            critical(&mut g, &holder, i);
                            let G::B(g) = g else { unreachable!() };
                            let mut mg = MutexGuard::map(g, |v| &mut v.a);
                            let x = *mg;
                            sched::point();
                            *mg = x;
                            let mg = MappedMutexGuard::map(mg, |x| x);
                            sched::point();
                            ensure!(*mg == x, "value changed under a mapped guard");
                            holder.set(usize::MAX);
                            drop(mg);
                        }
                        4 if shelf.borrow().is_empty() && i + 1 < k => {
                            let g = ex.block_on(m.clone().lock_owned());
                            let mut g = G::O(g);
                            want.set(want.get() + 1);
                            critical(&mut g, &holder, i);
                            let G::O(g) = g else { unreachable!() };
                            if shelf.borrow().is_empty() {
                                shelf.borrow_mut().push(g);
                                // whoever comes first unlocks it: at the latest this task itself
                                for _ in 0..3 {
                                    sched::spin_point();
                                }
                                let g = shelf.borrow_mut().pop();
                                if let Some(g) = g {
                                    holder.set(usize::MAX);
                                    drop(g);
                                }
                            } else {
                                holder.set(usize::MAX);
                                drop(g);
                            }
                        }
                        _ => {
                            let mut l = if r.bool() { L::B(m.lock()) } else { L::O(m.clone().lock_owned()) };
                            let mut g = ex.wait(|cx| l.poll(cx));
                            ensure!(l.terminated(), "lock future not terminated after it resolved");
                            want.set(want.get() + 1);
                            critical(&mut g, &holder, i);
                            holder.set(usize::MAX);
                            drop(g);
                        }
                    }
                }
            });
        }
    });
    c.nontrivial = o.switches > k as u64;
    c.count("scheduling_points", o.steps);
    c.count("context_switches", o.switches);
    sched::expect_done(&o);
    if o.deadlocked.is_empty() && o.failed.is_none() && !o.discarded && !o.livelock && !mon::violated() {
        match m.try_lock() {
            None => vio!("the mutex is free but try_lock fails"),
            Some(g) => ensure!(g.a == want.get() && g.b == want.get(), "{} critical sections ran but the counter is {}/{}", want.get(), g.a, g.b),
        }
        c.count("critical_sections", want.get());
        drop(shelf);
        drop(m);
        mon::check_released();
    }
}
/// Interleaved lock futures, guards and drops on one thread, checked after every call.
fn sequential(c: &mut Case) {
    thread_local!(static WOKEN: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) });
    WOKEN.with(|w| w.borrow_mut().clear());
    fn on(_: u64, gen: u64) {
        WOKEN.with(|w| w.borrow_mut().push(gen));
    }
    let woken = |g: u64| WOKEN.with(|w| w.borrow().contains(&g));
    let m = Arc::new(Mutex::new(Val { a: 0, b: 0, _t: tok(0) }));
    {
        let mr: &Mutex<Val> = &m;
        struct F<'a> {
            l: L<'a>,
            gen: u64, // latest waker it was polled with; 0 = never polled
            _w: Option<Waker>,
        }
        let mut futs: Vec<F<'_>> = Vec::new();
        let mut guard: Option<G<'_>> = None;
        let mut gen = 0;
        let n = c.rng.range(4, 24);
        for _ in 0..n {
            let op = c.rng.below(10);
            mon::event(op as u64 + 20 * guard.is_some() as u64);
            match op {
                0 | 1 if futs.len() < 5 => futs.push(F { l: if c.rng.bool() { L::B(mr.lock()) } else { L::O(m.clone().lock_owned()) }, gen: 0, _w: None }),
                2 | 3 | 4 | 5 if !futs.is_empty() => {
                    let i = c.rng.below(futs.len());
                    // sometimes with the same waker as before
                    let w = match &futs[i]._w {
                        Some(w) if c.rng.chance(1, 3) && !woken(futs[i].gen) => w.clone(),
                        _ => {
                            gen += 1;
                            futs[i].gen = gen;
                            mon::new_waker(on, 0, gen)
                        }
                    };
                    let p = futs[i].l.poll(&mut Context::from_waker(&w));
                    logf!("poll future {i} -> {}", if p.is_ready() { "locked" } else { "pending" });
                    match p {
                        Poll::Ready(g) => {
                            ensure!(guard.is_none(), "two guards at the same time");
                            guard = Some(g);
                            ensure!(futs[i].l.terminated(), "lock future not terminated after it resolved");
                            futs.remove(i);
                        }
                        Poll::Pending => {
                            ensure!(guard.is_some(), "lock future pending although the mutex is free");
                            ensure!(!futs[i].l.terminated(), "pending lock future reports terminated");
                            futs[i]._w = Some(w);
                        }
                    }
                }
                6 if !futs.is_empty() => {
                    let i = c.rng.below(futs.len());
                    logf!("drop future {i}");
                    drop(futs.remove(i));
                }
                7 => {
                    let g = if c.rng.bool() { mr.try_lock().map(G::B) } else { m.try_lock_owned().map(G::O) };
                    logf!("try_lock -> {}", g.is_some());
                    ensure!(g.is_some() == guard.is_none(), "try_lock returned {} while the mutex is {}", g.is_some(), if guard.is_some() { "held" } else { "free" });
                    if g.is_some() {
                        guard = g;
                    }
                }
                8 => {
                    if let Some(G::B(g)) = guard {
                        guard = Some(G::M(MutexGuard::map(g, |v| &mut v.a)));
                    }
                }
                _ => {
                    if let Some(g) = guard.take() {
                        logf!("unlock");
                        drop(g);
                    }
                }
            }
            if guard.is_none() {
                let waiting: Vec<u64> = futs.iter().filter(|f| f.gen != 0).map(|f| f.gen).collect();
                if !waiting.is_empty() && !waiting.iter().any(|g| woken(*g)) {
                    vio!("the mutex is free, {} task(s) wait for it, and none of them has been woken", waiting.len());
                }
            }
            if mon::violated() {
                std::mem::forget(futs);
                std::mem::forget(guard);
                return;
            }
        }
        drop(guard);
        drop(futs);
    }
    c.nontrivial = true;
    match Arc::try_unwrap(m) {
        Ok(mut m) => {
            m.get_mut().a += 1;
            drop(m.into_inner());
            mon::check_released();
        }
        Err(_) => vio!("the mutex is still referenced after all guards and futures were dropped"),
    }
}
fn main() {
    let _: Option<Pin<Box<dyn Future<Output = ()>>>> = None;
    hv::main("C06", vec![hv::w("concurrent", 500_000, 20_000_000, concurrent), hv::w("sequential", 200_000, 4_000_000, sequential)]);
}
