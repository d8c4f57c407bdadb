//! C26: ThreadPool.
use futures::executor::{block_on, enter, ThreadPool};
use futures::future::{FutureExt, RemoteHandle};
use futures::task::{FutureObj, Spawn, SpawnExt};
use hv::aleaf::{leaf, Ctl, Leaf};
use hv::mon::{self, tok, Tok};
use hv::sched;
use hv::{ensure, logf, vio, Case};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<F: Future + Unpin> Future for Force<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        Pin::new(&mut self.0).poll(cx)
    }
}
impl<T> Force<T> {
    fn get(&self) -> &T {
        &self.0
    }
}
#[derive(Default)]
struct TaskSt {
    busy: Cell<bool>,
    polls: Cell<u32>,
    done: Cell<bool>,
    dropped: Cell<bool>,
}
#[derive(Default)]
struct Sh {
    tasks: RefCell<Vec<Rc<TaskSt>>>,
    leaves: RefCell<Vec<Leaf>>,
    ctls: RefCell<Vec<Ctl>>,
    rng: RefCell<Option<hv::rng::Rng>>,
    stolen: RefCell<Vec<Waker>>,
    /// worker index -> simulated thread
    started: RefCell<Vec<(usize, usize)>>,
    stopped: RefCell<Vec<(usize, usize)>>,
    callbacks: Cell<bool>,
    meeting: Cell<usize>,
    size: Cell<usize>,
    main_done: Cell<bool>,
}
type S = Rc<Sh>;
impl Sh {
    fn rnd(&self, n: usize) -> usize {
        self.rng.borrow_mut().as_mut().unwrap().below(n)
    }
    fn leaf(&self) -> Option<Leaf> {
        self.leaves.borrow_mut().pop()
    }
}
struct Watched<T> {
    f: Pin<Box<dyn Future<Output = T>>>,
    st: Rc<TaskSt>,
    sh: S,
    _t: Tok,
}
impl<T> Future for Watched<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        ensure!(!self.st.busy.get(), "task polled by two workers at once");
        ensure!(!self.st.done.get(), "task polled after completion");
        ensure!(!self.st.dropped.get(), "task polled after its drop");
        self.st.busy.set(true);
        self.st.polls.set(self.st.polls.get() + 1);
        if self.sh.callbacks.get() {
            let me = sched::me();
            ensure!(self.sh.started.borrow().iter().any(|x| x.1 == me), "task runs on thread {me}, which is not a started worker");
            ensure!(!self.sh.stopped.borrow().iter().any(|x| x.1 == me), "task runs on a stopped worker");
        }
        sched::point();
        let r = catch_unwind(AssertUnwindSafe(|| self.f.as_mut().poll(cx)));
        self.st.busy.set(false);
        match r {
            Ok(r) => {
                if r.is_ready() {
                    self.st.done.set(true);
                }
                r
            }
            Err(e) => {
                self.st.done.set(true);
                std::panic::resume_unwind(e)
            }
        }
    }
}
impl<T> Drop for Watched<T> {
    fn drop(&mut self) {
        ensure!(!self.st.dropped.get(), "task dropped twice");
        ensure!(!self.st.busy.get(), "task dropped while it runs");
        self.st.dropped.set(true);
    }
}
fn watched<T>(sh: &S, f: Pin<Box<dyn Future<Output = T>>>) -> Force<Watched<T>> {
    let st = Rc::new(TaskSt::default());
    sh.tasks.borrow_mut().push(st.clone());
    Force(Watched { f, st, sh: sh.clone(), _t: tok(77) })
}
struct Yield(usize, bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        if self.1 {
            cx.waker().wake_by_ref();
        } else {
            // woken more than once, by value
            let (a, b) = (cx.waker().clone(), cx.waker().clone());
            a.wake();
            sched::point();
            b.wake();
        }
        Poll::Pending
    }
}
struct Steal(S);
impl Future for Steal {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let w = cx.waker().clone();
        self.0.stolen.borrow_mut().push(w);
        Poll::Ready(())
    }
}
fn body(sh: S, pool: Option<ThreadPool>, depth: usize) -> Pin<Box<dyn Future<Output = u32>>> {
    Box::pin(async move {
        for _ in 0..1 + sh.rnd(2) {
            match sh.rnd(12) {
                0 => Yield(sh.rnd(4), sh.rnd(2) == 0).await,
                1 if depth < 2 => {
                    if let Some(p) = &pool {
                        spawn_task(&sh, p, depth + 1);
                    }
                }
                2 => {
                    let n = sh.ctls.borrow().len();
                    let k = sh.rnd(n);
                    let c = sh.ctls.borrow()[k].clone();
                    c.fire();
                }
                3 => {
                    for _ in 0..2 {
                        ensure!(enter().is_err(), "a worker is not an execution scope");
                        ensure!(catch_unwind(|| block_on(async {})).is_err(), "block_on on a worker does not panic");
                    }
                }
                4 => Steal(sh.clone()).await,
                5 if depth < 2 => {
                    if let Some(p) = &pool {
                        let w = watched(&sh, body(sh.clone(), None, depth + 1));
                        let h = p.spawn_with_handle(w).unwrap();
                        let v = h.await;
                        ensure!(v == 9, "handle gave {v}");
                    }
                }
                _ => {
                    if let Some(l) = sh.leaf() {
                        let id = l.ctl.0.borrow().id;
                        let t = l.await;
                        ensure!(t.get() == id, "wrong output");
                    }
                }
            }
        }
        9
    })
}
fn spawn_task(sh: &S, pool: &ThreadPool, depth: usize) {
    let p = if sh.rnd(2) == 0 { Some(pool.clone()) } else { None };
    let w = watched(sh, body(sh.clone(), p, depth));
    let w = w.map(|_| ());
    match sh.rnd(4) {
        0 => pool.spawn_ok(w),
        1 => pool.spawn_obj_ok(FutureObj::new(Box::new(w))),
        2 => ensure!(pool.spawn(w).is_ok(), "spawn failed"),
        _ => ensure!(pool.spawn_obj(FutureObj::new(Box::new(w))).is_ok() && pool.status().is_ok(), "spawn failed"),
    }
}
fn join_handle(h: RemoteHandle<u32>, expect_panic: bool) {
    match catch_unwind(AssertUnwindSafe(|| block_on(h))) {
        Ok(v) => ensure!(v == 9, "handle gave {v}"),
        Err(e) => {
            let m = sched::panic_msg(&*e);
            ensure!(expect_panic && m == "leaf-panic", "handle panics: {m}");
        }
    }
}
fn main_thread(sh: S, size: usize, nops: usize, callbacks: bool, expect_panic: bool) {
    block_on(Yield(1, true));
    sh.callbacks.set(callbacks);
    let mut b = ThreadPool::builder();
    b.pool_size(size);
    if callbacks {
        let s = Force(sh.clone());
        b.after_start(move |i| {
            sched::point();
            s.get().started.borrow_mut().push((i, sched::me()));
        });
        let s = Force(sh.clone());
        b.before_stop(move |i| {
            s.get().stopped.borrow_mut().push((i, sched::me()));
        });
    }
    let pool = b.create().unwrap();
    drop(b);
    let mut pools = vec![pool];
    let mut handles: Vec<RemoteHandle<u32>> = Vec::new();
    for _ in 0..nops {
        if mon::violated() {
            return;
        }
        let i = sh.rnd(pools.len());
        match sh.rnd(10) {
            0..=3 if !expect_panic => spawn_task(&sh, &pools[i], 0),
            0..=5 => {
                let p = if expect_panic { None } else { Some(pools[i].clone()) };
                let w = watched(&sh, body(sh.clone(), p, if expect_panic { 2 } else { 1 }));
                match pools[i].spawn_with_handle(w) {
                    Ok(h) => handles.push(h),
                    Err(_) => vio!("spawn failed"),
                }
            }
            6 => {
                let p = pools[i].clone();
                pools.push(p);
            }
            7 if pools.len() > 1 => drop(pools.swap_remove(i)),
            8 if !handles.is_empty() => {
                let k = sh.rnd(handles.len());
                let h = handles.swap_remove(k);
                match sh.rnd(4) {
                    0 => h.forget(),
                    1 => drop(h),
                    _ => join_handle(h, expect_panic),
                }
            }
            _ => {
                // as many blocking tasks as there are workers
                if sh.rnd(4) == 0 && sh.meeting.get() == 0 {
                    for _ in 0..size {
                        let s = sh.clone();
                        let w = watched(
                            &sh,
                            Box::pin(async move {
                                s.meeting.set(s.meeting.get() + 1);
                                while s.meeting.get() < s.size.get() && !mon::violated() {
                                    sched::spin_point();
                                }
                            }),
                        );
                        pools[i].spawn_ok(w);
                    }
                }
            }
        }
    }
    logf!("main: dropping the pool's handles");
    let early = sh.rnd(2) == 0;
    if early {
        drop(std::mem::take(&mut pools));
    }
    for h in handles {
        join_handle(h, expect_panic);
    }
    drop(pools);
    sh.main_done.set(true);
}
fn pool(c: &mut Case) {
    if !sched::hooked() {
        return;
    }
    let sh: S = Default::default();
    let threads = c.rng.below(3);
    let nleaves = c.rng.range(1, 6);
    let expect_panic = c.rng.chance(1, 5);
    let mut events = Vec::new();
    for i in 0..nleaves {
        let e = c.rng.below(4);
        let (l, ctl) = leaf(10 + i as u64, e);
        if expect_panic && c.rng.chance(1, 2) {
            ctl.0.borrow_mut().panic_at = 1 + c.rng.below(2) as u32;
        }
        for _ in 0..e {
            events.push((i, true));
        }
        for _ in 0..c.rng.below(3) {
            events.push((i, false));
        }
        sh.ctls.borrow_mut().push(ctl);
        sh.leaves.borrow_mut().push(l);
    }
    c.rng.shuffle(&mut events);
    *sh.rng.borrow_mut() = Some(c.rng.fork());
    let size = 1 + c.rng.below(3);
    sh.size.set(size);
    let nops = 1 + c.rng.below(7);
    let callbacks = c.rng.bool();
    c.desc = format!("size {size}, {threads} waking threads, {nleaves} leaves, {nops} operations, callbacks {callbacks}, panics {expect_panic}");
    let wait = c.rng.chance(2, 3);
    let o = sched::run(&mut c.rng, || {
        let s = sh.clone();
        sched::spawn("main", move || main_thread(s, size, nops, callbacks, expect_panic));
        for t in 0..threads.max(1) {
            let s = sh.clone();
            let evs: Vec<_> = events.iter().enumerate().filter(|(k, _)| k % threads.max(1) == t).map(|x| *x.1).collect();
            let ctls = sh.ctls.borrow().clone();
            let wait = wait && t % 2 == 0;
            sched::spawn(format!("waker {t}"), move || {
                for (i, real) in evs {
                    sched::point();
                    if wait {
                        // preferably while someone waits for it
                        for _ in 0..25 {
                            if ctls[i].polls() > 0 || ctls[i].dropped() {
                                break;
                            }
                            sched::spin_point();
                        }
                    }
                    if real {
                        ctls[i].fire()
                    } else {
                        ctls[i].nudge()
                    }
                    let w = s.stolen.borrow_mut().pop();
                    if let Some(w) = w {
                        if s.rnd(2) == 0 {
                            w.wake_by_ref();
                        }
                        sched::point();
                        w.wake();
                    }
                }
                // let go of wakers stolen by tasks: they keep the pool alive
                if t == 0 {
                    loop {
                        let done = s.main_done.get() && s.tasks.borrow().iter().all(|t| t.done.get() || t.dropped.get());
                        let ws: Vec<Waker> = s.stolen.borrow_mut().drain(..).collect();
                        for w in ws {
                            w.wake();
                        }
                        if done || mon::violated() {
                            break;
                        }
                        sched::spin_point();
                    }
                }
            });
        }
    });
    sched::expect_done(&o);
    c.nontrivial = o.switches > 2;
    c.count("tasks", sh.tasks.borrow().len() as u64);
    c.count("polls", sh.tasks.borrow().iter().map(|t| t.polls.get() as u64).sum());
    if mon::violated() || o.discarded {
        return;
    }
    for t in sh.tasks.borrow().iter() {
        ensure!(t.dropped.get(), "a task was never dropped");
    }
    if callbacks {
        let (mut a, mut b) = (sh.started.borrow().clone(), sh.stopped.borrow().clone());
        a.sort();
        b.sort();
        ensure!(a == b, "after_start ran as {a:?}, before_stop as {b:?} (index, thread)");
        let idx: Vec<usize> = a.iter().map(|x| x.0).collect();
        ensure!(idx == (0..size).collect::<Vec<_>>(), "after_start ran for workers {idx:?} of {size}");
        let mut th: Vec<usize> = a.iter().map(|x| x.1).collect();
        th.sort();
        th.dedup();
        ensure!(th.len() == size, "{} distinct workers of {size}", th.len());
    }
    drop(o);
    drop(sh);
    mon::check_released();
}
// ---------------------------------------------------------------- real threads
fn native(c: &mut Case) {
    use futures::channel::oneshot;
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    use std::sync::{Arc, Mutex};
    let level = *c.rng.pick(&[0usize, 2, 4, 10]);
    hv::stress::set(level, c.seed);
    let size = 1 + c.rng.below(4);
    let n = 1 + c.rng.below(8);
    let name = if c.rng.bool() { Some(format!("hv{}-", c.rng.below(100))) } else { None };
    let stack = if c.rng.bool() { 1 << 18 } else { 0 };
    let seed = c.rng.next();
    c.nontrivial = true;
    c.desc = format!("size {size}, {n} tasks, name {name:?}");
    let started = Arc::new(Mutex::new(Vec::<(usize, Option<String>, std::thread::ThreadId)>::new()));
    let stopped = Arc::new(Mutex::new(Vec::<(usize, std::thread::ThreadId)>::new()));
    let ran = Arc::new(Mutex::new(Vec::<std::thread::ThreadId>::new()));
    let drops = Arc::new(AtomicUsize::new(0));
    struct D(Arc<AtomicUsize>, Arc<AtomicUsize>);
    impl Drop for D {
        fn drop(&mut self) {
            self.0.fetch_add(1, SeqCst);
        }
    }
    let mut b = ThreadPool::builder();
    b.pool_size(size).stack_size(stack);
    if let Some(n) = &name {
        b.name_prefix(n.clone());
    }
    let s = started.clone();
    b.after_start(move |i| s.lock().unwrap().push((i, std::thread::current().name().map(String::from), std::thread::current().id())));
    let s = stopped.clone();
    b.before_stop(move |i| s.lock().unwrap().push((i, std::thread::current().id())));
    let pool = b.create().unwrap();
    let mut txs = Vec::new();
    let mut handles = Vec::new();
    let mut r = hv::rng::Rng::new(seed);
    for i in 0..n {
        let (tx, rx) = oneshot::channel::<usize>();
        let (tx2, rx2) = oneshot::channel::<usize>();
        txs.push((tx, tx2));
        let ran = ran.clone();
        let busy = Arc::new(AtomicUsize::new(0));
        let d = D(drops.clone(), busy.clone());
        let yields = r.below(3);
        let inner = async move {
            let d = d;
            let a = rx.await.unwrap();
            for _ in 0..yields {
                Yield(1, true).await;
                if d.1.fetch_add(1, SeqCst) != 0 {
                    return usize::MAX;
                }
                ran.lock().unwrap().push(std::thread::current().id());
                d.1.fetch_sub(1, SeqCst);
            }
            a + rx2.await.unwrap() + i
        };
        handles.push(pool.spawn_with_handle(inner).unwrap());
    }
    let clones: Vec<ThreadPool> = (0..r.below(3)).map(|_| pool.clone()).collect();
    let mut helpers = Vec::new();
    for (k, (tx, tx2)) in txs.into_iter().enumerate() {
        let spin = r.below(200);
        helpers.push(std::thread::spawn(move || {
            for _ in 0..spin {
                std::hint::spin_loop();
            }
            let _ = tx.send(k * 10);
            let _ = tx2.send(k * 100);
        }));
    }
    let early = r.bool();
    let mut pool = Some(pool);
    if early {
        pool = None;
    }
    let (dtx, drx) = std::sync::mpsc::channel();
    let t = std::thread::spawn(move || {
        for (k, h) in handles.into_iter().enumerate() {
            let v = block_on(h);
            if v != k * 111 - 0 && v != k * 10 + k * 100 + k {
                let _ = dtx.send(Err(format!("task {k} gave {v}")));
                return;
            }
        }
        let _ = dtx.send(Ok(()));
    });
    match drx.recv_timeout(std::time::Duration::from_secs(20)) {
        Ok(Ok(())) => {
            let _ = t.join();
        }
        Ok(Err(e)) => vio!("{e}"),
        Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => vio!("waiting for the handles panicked"),
        Err(_) => vio!("lost wake-up: a task of the pool never completes although its inputs arrived"),
    }
    for h in helpers {
        let _ = h.join();
    }
    drop(clones);
    drop(pool);
    drop(b);
    if mon::violated() {
        return;
    }
    let t0 = std::time::Instant::now();
    while stopped.lock().unwrap().len() < size && t0.elapsed().as_secs() < 20 {
        std::thread::yield_now();
    }
    let mut a = started.lock().unwrap().clone();
    let mut z = stopped.lock().unwrap().clone();
    a.sort_by_key(|x| x.0);
    z.sort_by_key(|x| x.0);
    ensure!(a.len() == size && a.iter().enumerate().all(|(i, x)| x.0 == i), "after_start ran for {:?} of {size} workers", a.iter().map(|x| x.0).collect::<Vec<_>>());
    ensure!(z.iter().map(|x| *x).eq(a.iter().map(|x| (x.0, x.2))), "before_stop ran for {} of {size} workers (or on other threads)", z.len());
    for (i, nm, _) in &a {
        let want = name.as_ref().map(|n| format!("{n}{i}"));
        ensure!(*nm == want, "worker {i} is called {nm:?}, expected {want:?}");
    }
    for id in ran.lock().unwrap().iter() {
        ensure!(a.iter().any(|x| x.2 == *id), "a task ran on a thread outside the pool");
    }
    ensure!(drops.load(SeqCst) == n, "{} of {n} tasks dropped", drops.load(SeqCst));
    mon::event((size * 100 + n) as u64);
    hv::stress::set(0, 0);
}
fn main() {
    hv::main("C26", vec![hv::w("pool", 4_000_000, 40_000_000, pool), hv::ws("native", 3_000, 60_000, native)]);
}
