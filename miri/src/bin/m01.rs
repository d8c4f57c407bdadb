use futures::task::AtomicWaker;
use mw::*;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::Arc;
fn main() {
    let mut r = Rng::new();
    // data written (plainly) before wake must be visible to the registered task
    struct S { aw: AtomicWaker, n: AtomicUsize, data: [Plain<u64>; 3] }
    let k = r.range(1, 3);
    let s = Arc::new(S { aw: AtomicWaker::new(), n: AtomicUsize::new(0), data: [Plain::new(0), Plain::new(0), Plain::new(0)] });
    let refresh = r.bool();
    let s2 = s.clone();
    let t = spawn(move || {
        let mut e = Exec::new();
        loop {
            if refresh { e.refresh(); }
            let done = e.poll(|cx| {
                s2.aw.register(cx.waker());
                // the flag itself is relaxed: AtomicWaker must order it
                s2.n.load(Relaxed) == k
            });
            if done { break; }
            e.sleep();
        }
    });
    let ts: Vec<_> = (0..k).map(|i| {
        let s = s.clone();
        spawn(move || {
            s.data[i].set(i as u64 + 1);
            s.n.fetch_add(1, Relaxed);
            s.aw.wake();
        })
    }).collect();
    for t in ts { t.join().unwrap(); }
    t.join().unwrap();
    // take() transfers everything the waking side wrote and the waker itself
    let s = Arc::new(S { aw: AtomicWaker::new(), n: AtomicUsize::new(0), data: [Plain::new(0), Plain::new(0), Plain::new(0)] });
    let a = s.clone();
    let t = spawn(move || {
        let e = Exec::new();
        a.data[0].set(7);
        a.aw.register(e.waker());
        let e2 = Exec::new();
        a.aw.register(e2.waker());
        drop((e, e2));
    });
    if let Some(w) = s.aw.take() {
        monitor!(s.data[0].get() == 7, "data written before register not visible to take");
        w.wake();
    } else {
        s.aw.wake();
    }
    t.join().unwrap();
    drop(s);
    end();
}
