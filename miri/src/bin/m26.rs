//! ThreadPool: wake-ups, late wakers, drops of the pool across threads.
use futures::executor::ThreadPool;
use futures::task::SpawnExt;
use mw::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc};
fn main() {
    let mut r = Rng::new();
    let size = r.range(1, 2);
    let (stx, srx) = mpsc::channel::<usize>();
    let running = Arc::new(AtomicUsize::new(0));
    let pool = {
        let mut b = ThreadPool::builder();
        b.pool_size(size);
        let stx = std::sync::Mutex::new(stx);
        b.before_stop(move |i| stx.lock().unwrap().send(i).unwrap());
        b.create().unwrap()
    };
    let n = r.range(1, 2);
    let mut ts = Vec::new();
    let mut hs = Vec::new();
    for i in 0..n {
        let e = r.below(3);
        let (l, c) = lf(i as u64, e);
        let (l2, c2) = lf(50, e.min(1));
        let late = r.bool();
        ts.push(spawn(move || {
            let mut w = None;
            for _ in 0..e {
                if late { w = c.peek_waker() }
                c.fire()
            }
            for _ in 0..e.min(1) { c2.fire() }
            if let Some(w) = w { w.wake() }
        }));
        let run = running.clone();
        // plain data that only one worker at a time may touch
        let plain = Arc::new(Plain::new(0u64));
        let p2 = plain.clone();
        let f = async move {
            p2.set(p2.get() + 1);
            let v = *l.await.0;
            p2.set(p2.get() + 1);
            l2.await;
            p2.set(p2.get() + 1);
            run.fetch_add(1, SeqCst);
            (v, p2.get())
        };
        if r.chance(1, 3) {
            let (tx, rx) = mpsc::channel();
            pool.spawn_ok(async move { tx.send(f.await).unwrap() });
            hs.push(Err(rx));
        } else {
            hs.push(Ok(pool.spawn_with_handle(f).unwrap()));
        }
    }
    let mut pool = Some(pool);
    if r.bool() { pool = None }
    for (i, h) in hs.into_iter().enumerate() {
        let v = match h {
            Ok(h) => futures::executor::block_on(h),
            Err(rx) => rx.recv().unwrap(),
        };
        monitor!(v == (i as u64, 3), "{v:?}");
    }
    drop(pool);
    for t in ts { t.join().unwrap() }
    let mut stopped: Vec<usize> = (0..size).map(|_| srx.recv().unwrap()).collect();
    stopped.sort();
    monitor!(stopped == (0..size).collect::<Vec<_>>(), "workers stopped: {stopped:?}");
    // wait until the workers let go of the pool's state
    while srx.recv().is_ok() {}
    std::thread::sleep(std::time::Duration::from_millis(50));
    end();
}
