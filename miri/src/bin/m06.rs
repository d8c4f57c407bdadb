//! async Mutex across threads: exclusion, visibility, cancelled waiters, owned and mapped guards.
use futures::lock::{Mutex, MutexGuard};
use futures::FutureExt;
use mw::*;
use std::sync::Arc;
struct Val {
    a: Plain<u64>,
    t: Tok,
}
fn main() {
    let mut r = Rng::new();
    let m = Arc::new(Mutex::new(Val { a: Plain::new(0), t: Tok::new(3) }));
    let k = r.range(2, 3);
    let per = r.range(1, 2);
    let mut ts = Vec::new();
    for _ in 0..k {
        let m = m.clone();
        ts.push(spawn(move || {
            let mut r = Rng::new();
            let mut n = 0;
            for _ in 0..per {
                if r.chance(1, 3) {
                    // cancelled attempts
                    if r.bool() {
                        let mut f = m.lock();
                        let mut e = Exec::new();
                        if let std::task::Poll::Ready(g) = e.poll(|cx| f.poll_unpin(cx)) {
                            g.a.set(g.a.get() + 1);
                            n += 1;
                        }
                    } else {
                        let mut f = m.clone().lock_owned();
                        let mut e = Exec::new();
                        if let std::task::Poll::Ready(g) = e.poll(|cx| f.poll_unpin(cx)) {
                            g.a.set(g.a.get() + 1);
                            n += 1;
                        }
                    }
                }
                match r.below(5) {
                    0 => {
                        let g = block_on(m.lock());
                        g.a.set(g.a.get() + 1);
                    }
                    1 => {
                        let mut g = block_on(m.clone().lock_owned());
                        g.a.set(g.a.get() + 1);
                        g.t = Tok::new(4);
                    }
                    2 => {
                        let g = block_on(m.lock());
                        let mut g = MutexGuard::map(g, |v| &mut v.a);
                        g.set(g.get() + 1);
                        let _: &mut Plain<u64> = &mut g;
                    }
                    3 => match m.try_lock() {
                        Some(g) => g.a.set(g.a.get() + 1),
                        None => n -= 1,
                    },
                    _ => {
                        // guard moved to and dropped on another thread
                        let g = block_on(m.clone().lock_owned());
                        g.a.set(g.a.get() + 1);
                        std::thread::spawn(move || drop(g)).join().unwrap();
                    }
                }
                n += 1;
            }
            n
        }));
    }
    let sum: i64 = ts.into_iter().map(|t| t.join().unwrap()).sum();
    let m = Arc::try_unwrap(m).ok().expect("MONITOR-VIOLATION: mutex still referenced");
    let v = m.into_inner();
    monitor!(v.a.get() as i64 == sum, "{} increments under the lock, {sum} were made", v.a.get());
    drop(v);
    end();
}
