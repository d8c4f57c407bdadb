//! Helpers for the Miri workloads (real threads, interpreted; hooks off).
use std::collections::hash_map::RandomState;
use std::future::Future;
use std::hash::{BuildHasher, Hasher};
use std::pin::Pin;
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::thread::Thread;

pub struct Rng(u64);
impl Rng {
    /// Seeded from Miri's own seed (RandomState is derived from it).
    pub fn new() -> Rng {
        Rng(RandomState::new().build_hasher().finish() | 1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 0
    }
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
}
impl Default for Rng {
    fn default() -> Self {
        Self::new()
    }
}
/// A waker that sets a flag and unparks its thread. Weak orderings on purpose: the
/// library, not the waker, has to provide the synchronisation it promises.
pub struct TW {
    flag: AtomicUsize,
    th: Thread,
}
impl Wake for TW {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.flag.store(1, Ordering::Release);
        self.th.unpark();
    }
}
pub struct Exec {
    w: Arc<TW>,
    waker: Waker,
}
impl Exec {
    pub fn new() -> Exec {
        let w = Arc::new(TW { flag: AtomicUsize::new(0), th: std::thread::current() });
        Exec { waker: w.clone().into(), w }
    }
    pub fn refresh(&mut self) {
        *self = Exec::new();
    }
    pub fn poll<R>(&mut self, f: impl FnOnce(&mut Context<'_>) -> R) -> R {
        self.w.flag.store(0, Ordering::Relaxed);
        f(&mut Context::from_waker(&self.waker))
    }
    pub fn sleep(&mut self) {
        while self.w.flag.swap(0, Ordering::Acquire) == 0 {
            std::thread::park();
        }
    }
    pub fn wait<R>(&mut self, mut f: impl FnMut(&mut Context<'_>) -> Poll<R>) -> R {
        loop {
            if let Poll::Ready(r) = self.poll(&mut f) {
                return r;
            }
            self.sleep();
        }
    }
    pub fn waker(&self) -> &Waker {
        &self.waker
    }
}
impl Default for Exec {
    fn default() -> Self {
        Self::new()
    }
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    Exec::new().wait(|cx| f.as_mut().poll(cx))
}
pub fn spawn<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> std::thread::JoinHandle<R> {
    std::thread::spawn(f)
}
/// Plain data: unsynchronised access to it is a data race Miri reports.
pub struct Plain<T>(pub std::cell::UnsafeCell<T>);
unsafe impl<T> Sync for Plain<T> {}
unsafe impl<T> Send for Plain<T> {}
impl<T: Copy> Plain<T> {
    pub const fn new(t: T) -> Self {
        Plain(std::cell::UnsafeCell::new(t))
    }
    pub fn get(&self) -> T {
        unsafe { *self.0.get() }
    }
    pub fn set(&self, t: T) {
        unsafe { *self.0.get() = t }
    }
}
#[macro_export]
macro_rules! monitor { ($c:expr, $($t:tt)*) => { if !$c { panic!("MONITOR-VIOLATION: {}", format!($($t)*)) } } }

pub static LIVE: AtomicIsize = AtomicIsize::new(0);
/// Boxed value (so that double drops / leaks are seen by Miri) with a live counter.
#[derive(Debug)]
pub struct Tok(pub Box<u64>);
impl Tok {
    pub fn new(v: u64) -> Tok {
        LIVE.fetch_add(1, Ordering::Relaxed);
        Tok(Box::new(v))
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        Tok::new(*self.0)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Ordering::Relaxed);
    }
}
/// Future that is pending `n` times, woken by another thread through `Ctl::fire`.
pub struct Lf {
    pub ctl: Arc<Ctl>,
    pub val: Option<Tok>,
}
#[derive(Default)]
pub struct Ctl {
    st: std::sync::Mutex<(usize, Option<Waker>)>,
}
impl Ctl {
    pub fn new(n: usize) -> Arc<Ctl> {
        Arc::new(Ctl { st: std::sync::Mutex::new((n, None)) })
    }
    /// Makes progress by one; wakes.
    pub fn fire(&self) {
        let w = {
            let mut g = self.st.lock().unwrap();
            g.0 = g.0.saturating_sub(1);
            g.1.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}
impl Ctl {
    pub fn peek_waker(&self) -> Option<Waker> {
        self.st.lock().unwrap().1.clone()
    }
    /// Wake without progress.
    pub fn nudge(&self) {
        let w = self.peek_waker();
        if let Some(w) = w {
            w.wake_by_ref();
        }
    }
}
pub fn lf(v: u64, n: usize) -> (Lf, Arc<Ctl>) {
    let c = Ctl::new(n);
    (Lf { ctl: c.clone(), val: Some(Tok::new(v)) }, c)
}
impl Unpin for Lf {}
impl Future for Lf {
    type Output = Tok;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Tok> {
        let mut g = self.ctl.st.lock().unwrap();
        if g.0 == 0 {
            drop(g);
            return Poll::Ready(self.val.take().expect("MONITOR-VIOLATION: future polled after completion"));
        }
        g.1 = Some(cx.waker().clone());
        Poll::Pending
    }
}
pub fn end() {
    let l = LIVE.load(Ordering::SeqCst);
    monitor!(l == 0, "{l} values not dropped exactly once");
}
