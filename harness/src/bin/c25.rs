//! C25: block_on, block_on_stream, LocalPool, enter.
use futures::executor::{block_on, block_on_stream, enter, LocalPool, LocalSpawner};
use futures::future::{FutureExt, RemoteHandle};
use futures::task::{FutureObj, LocalFutureObj, LocalSpawn, LocalSpawnExt, Spawn, SpawnExt};
use hv::aleaf::{leaf, Ctl, GStream, Leaf};
use hv::mon::{self, tok, Tok};
use hv::sched;
use hv::{ensure, logf, vio, Case};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Default)]
struct TaskSt {
    pool: usize,
    polls: Cell<u32>,
    gone: Cell<bool>,
    done: Cell<bool>,
}
#[derive(Default)]
struct Sh {
    call: Cell<Option<usize>>,
    tasks: RefCell<Vec<Rc<TaskSt>>>,
    completed: Cell<u32>,
    ctls: RefCell<Vec<Ctl>>,
    leaves: RefCell<Vec<Leaf>>,
    rng: RefCell<Option<hv::rng::Rng>>,
    spawners: RefCell<Vec<LocalSpawner>>,
}
type S = Rc<Sh>;
impl Sh {
    fn rnd(&self, n: usize) -> usize {
        self.rng.borrow_mut().as_mut().unwrap().below(n)
    }
    fn leaf(&self) -> Option<Leaf> {
        self.leaves.borrow_mut().pop()
    }
    fn alive(&self, pool: usize) -> usize {
        self.tasks.borrow().iter().filter(|t| t.pool == pool && !t.gone.get()).count()
    }
}
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
impl<F: Future + Unpin> Future for Force<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        Pin::new(&mut self.0).poll(cx)
    }
}
/// What the pool sees: counts polls and completion, checks that it runs inside a call.
struct Watched {
    f: Pin<Box<dyn Future<Output = ()>>>,
    st: Rc<TaskSt>,
    sh: S,
    _t: Tok,
}
impl Future for Watched {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        ensure!(self.sh.call.get() == Some(self.st.pool), "task polled outside a call of its pool");
        ensure!(!self.st.done.get(), "task polled after completion");
        self.st.polls.set(self.st.polls.get() + 1);
        logf!("task of pool {} polled", self.st.pool);
        let r = self.f.as_mut().poll(cx);
        if r.is_ready() {
            self.st.done.set(true);
            self.st.gone.set(true);
            self.sh.completed.set(self.sh.completed.get() + 1);
        }
        r
    }
}
impl Drop for Watched {
    fn drop(&mut self) {
        self.st.gone.set(true);
    }
}
struct Yield(usize);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
fn nested() {
    for _ in 0..2 {
        ensure!(enter().is_err(), "enter() succeeds inside an executor");
        ensure!(catch_unwind(|| block_on(async {})).is_err(), "block_on inside an executor does not panic");
        ensure!(catch_unwind(|| LocalPool::new().run()).is_err(), "LocalPool::run inside an executor does not panic");
        ensure!(catch_unwind(|| LocalPool::new().try_run_one()).is_err(), "LocalPool::try_run_one inside an executor does not panic");
    }
}
fn body(sh: S, pool: usize, depth: usize) -> Pin<Box<dyn Future<Output = ()>>> {
    Box::pin(async move {
        for _ in 0..1 + sh.rnd(2) {
            match sh.rnd(12) {
                0 => Yield(sh.rnd(4)).await,
                1 if depth < 2 => spawn_task(&sh, pool, depth + 1),
                2 => {
                    let n = sh.ctls.borrow().len();
                    let k = sh.rnd(n);
                    let c = sh.ctls.borrow()[k].clone();
                    c.fire();
                }
                3 => nested(),
                4 => sched::steal_token(),
                5 => sched::stray_unpark(),
                6 if depth < 2 => {
                    // wait for another task of the pool
                    let (rem, h) = body(sh.clone(), pool, depth + 1).map(|_| 5).remote_handle();
                    let w = watched(&sh, pool, Box::pin(rem));
                    let sp = sh.spawners.borrow()[pool].clone();
                    let r = sp.spawn_local(w);
                    match r {
                        Ok(()) => {
                            let v = h.await;
                            ensure!(v == 5, "handle gave {v}");
                        }
                        Err(_) => vio!("spawn in a running pool failed"),
                    }
                }
                _ => {
                    if let Some(l) = sh.leaf() {
                        l.ctl.0.borrow_mut().pool = pool + 1;
                        let id = l.ctl.0.borrow().id;
                        let t = l.await;
                        ensure!(t.get() == id, "wrong output");
                    }
                }
            }
        }
    })
}
fn watched(sh: &S, pool: usize, f: Pin<Box<dyn Future<Output = ()>>>) -> Watched {
    let st = Rc::new(TaskSt { pool, ..Default::default() });
    logf!("task {} for pool {pool}", sh.tasks.borrow().len());
    sh.tasks.borrow_mut().push(st.clone());
    Watched { f, st, sh: sh.clone(), _t: tok(77) }
}
fn spawn_task(sh: &S, pool: usize, depth: usize) {
    let w = watched(sh, pool, body(sh.clone(), pool, depth));
    let sp = sh.spawners.borrow()[pool].clone();
    let r = match sh.rnd(5) {
        0 => sp.spawn_local(w),
        1 => sp.spawn_local_obj(LocalFutureObj::new(Box::new(w))),
        2 => sp.spawn(Force(w)),
        3 => sp.spawn_obj(FutureObj::new(Box::new(Force(w)))),
        _ => {
            let b: Rc<dyn LocalSpawn> = Rc::new(sp);
            b.spawn_local(w)
        }
    };
    ensure!(r.is_ok(), "spawn failed although the pool exists");
}
fn free() {
    for _ in 0..2 {
        ensure!(enter().is_ok(), "after an executor call the thread is still entered");
    }
}
fn body_main(sh: S, mut pools: Vec<Option<LocalPool>>, threads: usize, nops: usize, expect_panic: bool) {
    // a wake-up left over from the previous case on this thread
    block_on(Yield(1));
    let mut handles: Vec<(usize, RemoteHandle<i32>)> = Vec::new();
    let call = |pool: Option<usize>, sh: &S, f: &mut dyn FnMut()| -> bool {
        sh.call.set(pool);
        let r = catch_unwind(AssertUnwindSafe(f));
        sh.call.set(None);
        if let Err(e) = &r {
            let m = sched::panic_msg(&**e);
            ensure!(expect_panic && m == "leaf-panic", "executor panicked: {m}");
        }
        free();
        r.is_ok()
    };
    for op in 0..nops {
        let p = sh.rnd(pools.len());
        let k = if threads > 0 && sh.rnd(3) == 0 { 13 + sh.rnd(5) } else { sh.rnd(20) };
        if mon::violated() {
            return;
        }
        if pools[p].is_none() {
            let sp = sh.spawners.borrow()[p].clone();
            ensure!(sp.status().is_err_and(|e| e.is_shutdown()), "status of the spawner of a dropped pool");
            let t = tok(3);
            ensure!(sp.spawn_local(async move { drop(t) }).is_err_and(|e| e.is_shutdown()), "spawn on a dropped pool");
            continue;
        }
        match k {
            0..=6 => spawn_task(&sh, p, 0),
            7 => {
                let (rem, h) = body(sh.clone(), p, 1).map(|_| 9).remote_handle();
                let w = watched(&sh, p, Box::pin(rem));
                let sp = sh.spawners.borrow()[p].clone();
                ensure!(sp.status().is_ok() && sp.status_local().is_ok(), "status of a live pool");
                match sp.spawn_local(w) {
                    Ok(()) => handles.push((p, h)),
                    Err(_) => vio!("spawn failed although the pool exists"),
                }
            }
            8 | 9 => {
                // try_run_one
                let must: Vec<u32> = sh.ctls.borrow().iter().map(|c| c.0.borrow().must).collect();
                let tasks = sh.tasks.borrow().len();
                let before = sh.completed.get();
                let mut r = false;
                logf!("op {op}: try_run_one on {p}");
                let pool = pools[p].as_mut().unwrap();
                if call(Some(p), &sh, &mut || r = pool.try_run_one()) {
                    let d = sh.completed.get() - before;
                    ensure!(d == r as u32, "try_run_one returned {r}, {d} tasks completed");
                    if !r {
                        stalled(&sh, p, &must, tasks, threads);
                    }
                }
            }
            10..=12 => {
                let must: Vec<u32> = sh.ctls.borrow().iter().map(|c| c.0.borrow().must).collect();
                let tasks = sh.tasks.borrow().len();
                logf!("op {op}: run_until_stalled on {p}");
                let pool = pools[p].as_mut().unwrap();
                if call(Some(p), &sh, &mut || pool.run_until_stalled()) {
                    stalled(&sh, p, &must, tasks, threads);
                }
            }
            13 if threads > 0 => {
                logf!("op {op}: run");
                let pool = pools[p].as_mut().unwrap();
                if call(Some(p), &sh, &mut || pool.run()) {
                    ensure!(sh.alive(p) == 0, "run returned with {} tasks left", sh.alive(p));
                }
            }
            14 if threads > 0 => {
                let Some(l) = sh.leaf() else { continue };
                let id = l.ctl.0.borrow().id;
                logf!("op {op}: run_until(leaf {id})");
                let mut l = Some(l);
                let pool = pools[p].as_mut().unwrap();
                call(Some(p), &sh, &mut || {
                    let t = pool.run_until(l.take().unwrap());
                    ensure!(t.get() == id, "run_until returned the output of something else");
                });
            }
            15 if threads > 0 => {
                let Some(l) = sh.leaf() else { continue };
                let id = l.ctl.0.borrow().id;
                logf!("op {op}: block_on(leaf {id})");
                let mut l = Some(l);
                call(None, &sh, &mut || {
                    let t = block_on(l.take().unwrap());
                    ensure!(t.get() == id, "block_on returned the output of something else");
                });
            }
            16 if threads > 0 && !handles.is_empty() => {
                let i = sh.rnd(handles.len());
                let (p, h) = handles.swap_remove(i);
                let Some(pool) = pools[p].as_mut() else { continue };
                logf!("op {op}: run_until(handle)");
                let mut h = Some(h);
                call(Some(p), &sh, &mut || {
                    let v = pool.run_until(h.take().unwrap());
                    ensure!(v == 9, "handle gave {v}");
                });
            }
            17 if threads > 0 => {
                let mut q = std::collections::VecDeque::new();
                for i in 0..sh.rnd(3) {
                    if let Some(l) = sh.leaf() {
                        q.push_back((l, tok(500 + i as u64)));
                    }
                }
                let n = q.len();
                let g = GStream { q, tail: sh.leaf(), id: 1, ended: false, on_end: None };
                logf!("op {op}: block_on_stream of {n}");
                let mut b = block_on_stream(g);
                let part = sh.rnd(2) == 0;
                let mut got = Vec::new();
                call(None, &sh, &mut || loop {
                    if part && got.len() >= 1 {
                        break;
                    }
                    match b.next() {
                        Some(t) => got.push(t.get()),
                        None => {
                            ensure!(got.len() == n, "block_on_stream: end after {} of {n} items", got.len());
                            break;
                        }
                    }
                });
                let want: Vec<u64> = (500..500 + got.len() as u64).collect();
                ensure!(got == want, "block_on_stream: {got:?}");
                drop(b.into_inner());
            }
            18 => {
                let g = enter();
                ensure!(g.is_ok(), "cannot enter");
                nested();
                drop(g);
                free();
            }
            _ => {
                let n = sh.ctls.borrow().len();
                if n > 0 {
                    let i = sh.rnd(n);
                    let c = sh.ctls.borrow()[i].clone();
                    if sh.rnd(2) == 0 {
                        c.fire()
                    } else {
                        c.nudge()
                    }
                }
                if k == 19 && sh.rnd(3) == 0 && pools.len() > 1 {
                    // drop a pool with its tasks
                    handles.retain(|h| h.0 != p);
                    pools[p] = None;
                    ensure!(sh.alive(p) == 0, "a dropped pool keeps {} tasks", sh.alive(p));
                }
            }
        }
    }
    if threads == 0 {
        let cs = sh.ctls.borrow().clone();
        for c in cs {
            while c.0.borrow().left > 0 {
                c.fire();
            }
        }
    }
    for p in 0..pools.len() {
        let Some(pool) = pools[p].as_mut() else { continue };
        for _ in 0..60 {
            if mon::violated() {
                return;
            }
            logf!("final run of pool {p}");
            if call(Some(p), &sh, &mut || pool.run()) {
                ensure!(sh.alive(p) == 0, "run returned with {} tasks left", sh.alive(p));
                break;
            }
        }
    }
    for (_, h) in handles {
        // the task is done (or panicked): the result is there at once
        match catch_unwind(AssertUnwindSafe(|| h.now_or_never())) {
            Ok(r) => ensure!(r == Some(9), "handle of a completed task gives {r:?}"),
            Err(_) => ensure!(expect_panic, "handle panics"),
        }
    }
}
fn stalled(sh: &S, p: usize, must: &[u32], tasks: usize, threads: usize) {
    for (i, t) in sh.tasks.borrow().iter().enumerate() {
        if t.pool == p && !t.gone.get() && (i < tasks || threads == 0) {
            ensure!(t.polls.get() > 0, "stalled, but a spawned task was never polled");
        }
    }
    for (i, c) in sh.ctls.borrow().iter().enumerate() {
        let s = c.0.borrow();
        if s.done || s.dropped || s.panicked || s.pool != p + 1 {
            continue;
        }
        let m = if threads == 0 { s.must } else { must[i] };
        ensure!(s.polls >= m, "stalled, but leaf {} was woken and not polled again ({} polls, {m} asked for)", s.id, s.polls);
    }
}
fn pool(c: &mut Case) {
    if !sched::hooked() {
        return;
    }
    let threads = c.rng.below(4);
    let nleaves = c.rng.range(1, 8);
    let sh: S = Default::default();
    let expect_panic = c.rng.chance(1, 4);
    let mut events = Vec::new();
    for i in 0..nleaves {
        let e = c.rng.below(4);
        let (l, ctl) = leaf(10 + i as u64, e);
        if expect_panic && c.rng.chance(1, 3) {
            ctl.0.borrow_mut().panic_at = 1 + c.rng.below(2) as u32;
        }
        for _ in 0..e {
            events.push((i, true));
        }
        for _ in 0..c.rng.below(2) {
            events.push((i, false));
        }
        sh.ctls.borrow_mut().push(ctl);
        sh.leaves.borrow_mut().push(l);
    }
    c.rng.shuffle(&mut events);
    *sh.rng.borrow_mut() = Some(c.rng.fork());
    let npools = 1 + c.rng.below(2);
    let nops = 2 + c.rng.below(9);
    let mut pools = Vec::new();
    for _ in 0..npools {
        let p = LocalPool::new();
        sh.spawners.borrow_mut().push(p.spawner());
        pools.push(Some(p));
    }
    c.desc = format!("{threads} threads, {nleaves} leaves, {npools} pools, {nops} operations, panics {expect_panic}");
    let parks = Rc::new(Cell::new(0));
    let wait = c.rng.chance(2, 3);
    let o = sched::run(&mut c.rng, || {
        let (s, pk) = (sh.clone(), parks.clone());
        sched::spawn("executor", move || {
            body_main(s, pools, threads, nops, expect_panic);
            pk.set(sched::parks());
        });
        for t in 0..threads {
            let ctls = sh.ctls.borrow().clone();
            let evs: Vec<_> = events.iter().enumerate().filter(|(k, _)| k % threads == t).map(|x| *x.1).collect();
            let wait = wait && t % 2 == 0;
            sched::spawn(format!("waker {t}"), move || {
                for (i, real) in evs {
                    sched::point();
                    if wait {
                        // preferably while someone waits for it
                        for _ in 0..25 {
                            if ctls[i].polls() > 0 || ctls[i].dropped() {
                                break;
                            }
                            sched::spin_point();
                        }
                    }
                    if real {
                        ctls[i].fire()
                    } else {
                        ctls[i].nudge()
                    }
                }
            });
        }
    });
    sched::expect_done(&o);
    c.nontrivial = o.switches > 1 || parks.get() > 0;
    c.count("parks", parks.get());
    c.count("tasks", sh.tasks.borrow().len() as u64);
    if mon::violated() || o.discarded {
        return;
    }
    drop(sh);
    drop(o);
    mon::check_released();
}
// ---------------------------------------------------------------- real threads
fn native(c: &mut Case) {
    use futures::channel::{mpsc, oneshot};
    use futures::{SinkExt, StreamExt};
    let level = *c.rng.pick(&[0usize, 2, 4, 10]);
    hv::stress::set(level, c.seed);
    let kind = c.rng.below(4);
    let n = 1 + c.rng.below(6);
    let seed = c.rng.next();
    c.nontrivial = true;
    c.desc = format!("kind {kind}, n {n}");
    let (dtx, drx) = std::sync::mpsc::channel::<Result<u64, String>>();
    let t = std::thread::spawn(move || {
        let mut r = hv::rng::Rng::new(seed);
        let mut helpers = Vec::new();
        let mut oneshots = Vec::new();
        for i in 0..n {
            let (tx, rx) = oneshot::channel::<u64>();
            oneshots.push(rx);
            let d = r.below(3);
            helpers.push(std::thread::spawn(move || {
                for _ in 0..d * 50 {
                    std::hint::spin_loop();
                }
                let _ = tx.send(i as u64 + 1);
            }));
        }
        let want: u64 = (1..=n as u64).sum();
        let got = match kind {
            0 => oneshots.into_iter().map(|rx| block_on(rx).unwrap()).sum(),
            1 => {
                let mut pool = LocalPool::new();
                let sum = Rc::new(Cell::new(0));
                for rx in oneshots {
                    let s = sum.clone();
                    pool.spawner().spawn_local(async move {
                        let v = rx.await.unwrap();
                        s.set(s.get() + v)
                    }).unwrap();
                }
                pool.run();
                sum.get()
            }
            2 => {
                let mut pool = LocalPool::new();
                let mut hs = Vec::new();
                for rx in oneshots {
                    hs.push(pool.spawner().spawn_local_with_handle(async move { rx.await.unwrap() }).unwrap());
                }
                pool.run_until(futures::future::join_all(hs)).into_iter().sum()
            }
            _ => {
                let (mut tx, rx) = mpsc::channel::<u64>(0);
                helpers.push(std::thread::spawn(move || {
                    for rx in oneshots {
                        let v = block_on(rx).unwrap();
                        block_on(tx.send(v)).unwrap();
                    }
                }));
                block_on_stream(rx.map(|x| x)).sum()
            }
        };
        for h in helpers {
            let _ = h.join();
        }
        let _ = dtx.send(if got == want { Ok(got) } else { Err(format!("got {got}, expected {want}")) });
    });
    match drx.recv_timeout(std::time::Duration::from_secs(20)) {
        Ok(Ok(v)) => {
            mon::event(v + kind as u64 * 1000);
            let _ = t.join();
        }
        Ok(Err(e)) => vio!("{e}"),
        Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => vio!("the executor's thread panicked"),
        Err(_) => vio!("lost wake-up: the executor sleeps although all its futures are ready"),
    }
    hv::stress::set(0, 0);
}
fn main() {
    hv::main("C25", vec![hv::w("pool", 5_000_000, 40_000_000, pool), hv::ws("native", 4_000, 100_000, native)]);
}
