//! block_on / LocalPool with wake-ups from other threads.
use futures::executor::{block_on, block_on_stream, LocalPool};
use futures::stream::{FuturesUnordered, StreamExt};
use futures::task::LocalSpawnExt;
use mw::{end, lf, monitor, spawn, Plain, Rng};
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::{mpsc, Arc};
use std::task::{Poll, Waker};

/// Woken exactly once by another thread, through nothing but its waker.
fn bare(extra: bool) -> (impl Future<Output = u64>, std::thread::JoinHandle<()>) {
    let data = Arc::new(Plain::new(0u64));
    let flag = Arc::new(AtomicBool::new(false));
    let (tx, rx) = mpsc::channel::<Waker>();
    let (d2, f2) = (data.clone(), flag.clone());
    let t = spawn(move || {
        let Ok(w) = rx.recv() else { return };
        d2.set(42);
        f2.store(true, Relaxed);
        if extra { w.wake_by_ref() }
        w.wake();
    });
    let mut tx = Some(tx);
    let mut polls = 0;
    let f = poll_fn(move |cx| {
        polls += 1;
        if let Some(tx) = tx.take() {
            let _ = tx.send(cx.waker().clone());
            return Poll::Pending;
        }
        if flag.load(Relaxed) { Poll::Ready(data.get()) } else { Poll::Pending }
    });
    (f, t)
}
fn main() {
    let mut r = Rng::new();
    let mut ts = Vec::new();
    match r.below(5) {
        0 => {
            let (f, t) = bare(r.bool());
            monitor!(block_on(f) == 42, "the wake-up's writes are not visible");
            ts.push(t);
            let (l, c) = lf(3, 1);
            ts.push(spawn(move || c.fire()));
            monitor!(*block_on(l).0 == 3, "wrong output");
        }
        1 => {
            let mut pool = LocalPool::new();
            let n = r.range(1, 3);
            for _ in 0..n {
                let (f, t) = bare(false);
                ts.push(t);
                pool.spawner().spawn_local(async move { monitor!(f.await == 42, "writes not visible") }).unwrap();
            }
            if r.bool() { pool.run_until_stalled() }
            pool.run();
        }
        2 => {
            let mut pool = LocalPool::new();
            let mut hs: Vec<Pin<Box<dyn Future<Output = u64>>>> = Vec::new();
            for i in 0..2 {
                let e = r.below(3);
                let (l, c) = lf(i, e);
                ts.push(spawn(move || for _ in 0..e { c.fire() }));
                let h = pool.spawner().spawn_local_with_handle(async move { *l.await.0 }).unwrap();
                hs.push(Box::pin(h));
            }
            pool.try_run_one();
            let v = pool.run_until(futures::future::join_all(hs));
            monitor!(v == [0, 1], "{v:?}");
            if r.bool() { pool.run() }
        }
        3 => {
            let set = FuturesUnordered::new();
            for i in 0..2 {
                let e = r.below(2);
                let (l, c) = lf(i, e);
                ts.push(spawn(move || for _ in 0..e { c.fire() }));
                set.push(async move { *l.await.0 });
            }
            let mut v: Vec<u64> = block_on_stream(set.map(|x| x).boxed_local()).collect();
            v.sort();
            monitor!(v == [0, 1], "{v:?}");
        }
        _ => {
            // dropped with a wake-up on its way
            let mut pool = LocalPool::new();
            let (l, c) = lf(3, 2);
            pool.spawner().spawn_local(async move { l.await; }).unwrap();
            ts.push(spawn(move || { c.fire(); c.fire() }));
            pool.try_run_one();
            drop(pool);
        }
    }
    for t in ts { t.join().unwrap() }
    end();
}
