//! Wakers and task objects, interpreted: reference counts, aliasing, layouts, leaks.
use futures::task::{noop_waker, noop_waker_ref, waker, waker_ref, ArcWake, FutureObj, LocalFutureObj, WakerRef};
use mw::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
struct V {
    t: Tok,
    n: Arc<AtomicUsize>,
    data: Plain<u64>,
}
impl ArcWake for V {
    fn wake_by_ref(s: &Arc<Self>) {
        monitor!(*s.t.0 == 3, "wrong value woken");
        s.n.fetch_add(1, Ordering::Relaxed);
    }
}
impl Drop for V {
    fn drop(&mut self) {
        // exclusive: every use by other threads happened before
        self.data.set(self.data.get() + 1);
    }
}
fn threads(r: &mut Rng) {
    let n = Arc::new(AtomicUsize::new(0));
    let a = Arc::new(V { t: Tok::new(3), n: n.clone(), data: Plain::new(0) });
    let k = r.range(1, 3);
    let mut want = 0;
    let mut ts = Vec::new();
    for i in 0..k {
        let w = waker(a.clone());
        let m = r.range(1, 3);
        want += m + 1;
        ts.push(spawn(move || {
            let mut keep = vec![w];
            for j in 0..m {
                let c = keep[keep.len() - 1].clone();
                if (i + j) % 2 == 0 {
                    c.wake()
                } else {
                    c.wake_by_ref();
                    keep.push(c);
                }
            }
            keep.pop().unwrap().wake();
        }));
    }
    {
        let w = waker_ref(&a);
        let c: Waker = (*w).clone();
        let r2 = WakerRef::new(&c);
        r2.wake_by_ref();
        want += 1;
        drop(r2);
    }
    drop(a);
    for t in ts {
        t.join().unwrap()
    }
    monitor!(n.load(Ordering::Relaxed) == want, "{} wakes, expected {want}", n.load(Ordering::Relaxed));
}
#[repr(align(64))]
struct F {
    t: Tok,
    left: usize,
    me: *const F,
    _pin: std::marker::PhantomPinned,
}
unsafe impl Send for F {}
impl Future for F {
    type Output = u64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        let s = unsafe { self.get_unchecked_mut() };
        if s.me.is_null() {
            s.me = s;
        }
        monitor!(std::ptr::eq(s.me, s), "moved");
        if s.left == 0 {
            return Poll::Ready(*s.t.0);
        }
        s.left -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
fn objects(r: &mut Rng) {
    let f = F { t: Tok::new(8), left: r.below(3), me: std::ptr::null(), _pin: std::marker::PhantomPinned };
    let early = r.chance(1, 4);
    let run = |mut o: LocalFutureObj<'_, u64>| {
        if early {
            let _ = Pin::new(&mut o).poll(&mut Context::from_waker(noop_waker_ref()));
            let b = Box::new(o);
            drop(b);
            return;
        }
        let v = block_on(async move { o.await });
        monitor!(v == 8, "wrong result");
    };
    match r.below(9) {
        0 => run(LocalFutureObj::new(Box::new(f))),
        1 => run(LocalFutureObj::new(Box::new(f) as Box<dyn Future<Output = u64>>)),
        2 => run(LocalFutureObj::new(Box::pin(f))),
        3 => run(LocalFutureObj::new(Box::pin(f) as Pin<Box<dyn Future<Output = u64>>>)),
        4 => {
            let o = FutureObj::new(Box::new(f));
            // to another thread
            let v = spawn(move || block_on(o)).join().unwrap();
            monitor!(v == 8, "wrong result");
        }
        5 => run(FutureObj::new(Box::pin(f) as Pin<Box<dyn Future<Output = u64> + Send>>).into()),
        6 => {
            let mut b = Box::pin(f);
            run(LocalFutureObj::new(&mut b));
        }
        7 => {
            let mut b = Box::pin(f);
            run(LocalFutureObj::new(b.as_mut()));
        }
        _ => {
            let mut b = Box::pin(f);
            run(LocalFutureObj::new(b.as_mut() as Pin<&mut dyn Future<Output = u64>>));
        }
    }
}
fn main() {
    let mut r = Rng::new();
    if r.bool() {
        threads(&mut r)
    } else {
        objects(&mut r)
    }
    let w = noop_waker();
    let t = spawn(|| {
        noop_waker_ref().wake_by_ref();
        noop_waker_ref().clone()
    });
    w.clone().wake();
    t.join().unwrap().wake();
    end();
}
