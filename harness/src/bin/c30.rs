//! C30: the futures 0.1 compatibility layer.
use futures::compat::{AsyncRead01CompatExt, AsyncWrite01CompatExt, Compat, Compat01As03, CompatSink, Executor01CompatExt, Executor01Future, Sink01CompatExt};
use futures::future::TryFutureExt;
use futures::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, BufReader};
use futures::task::{FutureObj, Spawn, SpawnError, SpawnExt};
use futures::{Future, Sink, Stream, TryStreamExt};
use futures01::executor::{spawn as spawn01, Notify, Spawn as Spawn01};
use futures01::future::{ExecuteError, ExecuteErrorKind, Executor as Executor01};
use futures01::{Async, AsyncSink, Future as Future01, Poll as Poll01, Sink as Sink01, StartSend, Stream as Stream01};
use hv::iow::{self, run_of, Ev, Wr, B, BR, E};
use hv::mon::{self, tok, Tok};
use hv::sinks::{self, ident, probe, same, trace, Lk, Stack, Trc};
use hv::world as wd;
use hv::{ensure, logf, vio, Case};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use tokio_io::{AsyncRead as AsyncRead01, AsyncWrite as AsyncWrite01};

// ------------------------------------------------------------------ 0.1 side
/// The 0.1 task as a waker for the scripted gates.
struct TW(futures01::task::Task);
impl Wake for TW {
    fn wake(self: Arc<Self>) {
        self.0.notify();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.notify();
    }
}
/// Remembers the task like the 0.1 primitives do: replaced unless it would notify the current one.
#[derive(Default)]
struct Reg(Option<(futures01::task::Task, Waker)>);
impl Reg {
    fn with<R>(&mut self, f: impl FnOnce(&mut Context<'_>) -> R) -> R {
        let keep = self.0.as_ref().is_some_and(|(t, _)| t.will_notify_current());
        if !keep {
            let t = futures01::task::current();
            self.0 = Some((t.clone(), Waker::from(Arc::new(TW(t)))));
        }
        let w = self.0.as_ref().unwrap().1.clone();
        f(&mut Context::from_waker(&w))
    }
}
/// Notification target of a 0.1 task driven from the monitor's root.
struct N {
    w: Mutex<Option<Waker>>,
    id: usize,
    flag: AtomicBool,
}
impl Notify for N {
    fn notify(&self, id: usize) {
        ensure!(id == self.id, "0.1 task notified with id {id}, it was polled with {}", self.id);
        self.flag.store(true, Ordering::SeqCst);
        let w = self.w.lock().unwrap().clone();
        if let Some(w) = w {
            w.wake();
        }
    }
}
fn note(cx: &Context<'_>) -> (Arc<N>, usize) {
    let id = wd::rnd(1000);
    (Arc::new(N { w: Mutex::new(Some(cx.waker().clone())), id, flag: AtomicBool::new(false) }), id)
}
fn up<T, E>(r: Poll01<T, E>) -> Poll<Result<T, E>> {
    match r {
        Ok(Async::Ready(v)) => Poll::Ready(Ok(v)),
        Ok(Async::NotReady) => Poll::Pending,
        Err(e) => Poll::Ready(Err(e)),
    }
}
fn down<T, E>(r: Poll<Result<T, E>>) -> Poll01<T, E> {
    match r {
        Poll::Ready(Ok(v)) => Ok(Async::Ready(v)),
        Poll::Ready(Err(e)) => Err(e),
        Poll::Pending => Ok(Async::NotReady),
    }
}
type R = Result<Tok, Tok>;
struct F01(wd::Lf<R>, Reg);
impl Future01 for F01 {
    type Item = Tok;
    type Error = Tok;
    fn poll(&mut self) -> Poll01<Tok, Tok> {
        let f = &mut self.0;
        down(self.1.with(|cx| Pin::new(f).poll(cx)))
    }
}
struct S01(wd::Ls<R>, Reg);
impl Stream01 for S01 {
    type Item = Tok;
    type Error = Tok;
    fn poll(&mut self) -> Poll01<Option<Tok>, Tok> {
        let f = &mut self.0;
        match self.1.with(|cx| Pin::new(f).poll_next(cx)) {
            Poll::Ready(Some(Ok(v))) => Ok(Async::Ready(Some(v))),
            Poll::Ready(Some(Err(e))) => Err(e),
            Poll::Ready(None) => Ok(Async::Ready(None)),
            Poll::Pending => Ok(Async::NotReady),
        }
    }
}
type Bf3 = Pin<Box<dyn Future<Output = R>>>;
type Bf1 = Box<dyn Future01<Item = Tok, Error = Tok>>;
enum Fx {
    N(Bf3),
    O(Bf1),
}
fn rr(c: &mut Case, v: u64) -> R {
    if c.rng.chance(1, 3) {
        Err(tok(v + 1000))
    } else {
        Ok(tok(v))
    }
}
fn raw(r: &R) -> Result<u64, u64> {
    match r {
        Ok(v) => Ok(v.get()),
        Err(v) => Err(v.get()),
    }
}
fn futures_(c: &mut Case) {
    let v = rr(c, 5);
    let want = raw(&v);
    let leaf = wd::fut(v);
    let mut f = if c.rng.chance(1, 2) { Fx::N(Box::pin(leaf)) } else { Fx::O(Box::new(F01(leaf, Reg::default()))) };
    let n = 1 + c.rng.below(5);
    let mut k = 0;
    for _ in 0..n {
        f = match f {
            Fx::N(f) => {
                if c.rng.chance(1, 4) {
                    // through 0.1 combinators on the way
                    k += 1;
                    Fx::O(Box::new(f.compat().map(|t| tok(t.get() + 1)).map_err(|t| tok(t.get() + 1))))
                } else if c.rng.chance(1, 3) {
                    Fx::O(Box::new(Compat::new(f)))
                } else {
                    Fx::O(Box::new(TryFutureExt::compat(f)))
                }
            }
            Fx::O(f) => {
                if c.rng.chance(1, 4) {
                    let f: Bf1 = Box::new(futures01::future::lazy(move || f));
                    Fx::N(Box::pin(Compat01As03::new(f)))
                } else {
                    Fx::N(Box::pin(futures::compat::Future01CompatExt::compat(f)))
                }
            }
        };
    }
    c.desc = format!("{want:?} through {n} layers, {k} maps, driven as {}", if matches!(f, Fx::N(_)) { "0.3" } else { "0.1" });
    let want = want.map(|v| v + k).map_err(|v| v + k);
    let mut d = wd::Driver::new();
    let stop = if c.rng.chance(1, 5) { Some(c.rng.below(3) as u64) } else { None };
    let got = match f {
        Fx::N(mut f) => drive(&mut d, stop, |cx| f.as_mut().poll(cx)),
        Fx::O(f) => {
            let mut f = spawn01(f);
            drive(&mut d, stop, |cx| {
                let (n, id) = note(cx);
                up(f.poll_future_notify(&n, id))
            })
        }
    };
    if let Some(r) = got {
        ensure!(raw(&r) == want, "result {:?}, expected {want:?}", raw(&r));
    }
    c.nontrivial = wd::pendings() > 0;
    drop(d);
    mon::check_released();
}
fn drive<T>(d: &mut wd::Driver, stop: Option<u64>, mut f: impl FnMut(&mut Context<'_>) -> Poll<T>) -> Option<T> {
    loop {
        if let Some(s) = stop {
            if d.polls >= s {
                return None; // dropped early
            }
        }
        if let Poll::Ready(r) = d.poll(&mut f) {
            return Some(r);
        }
        if d.polls > d.max_polls {
            vio!("not finished after {} polls although every leaf makes progress", d.max_polls);
        }
        if mon::violated() {
            return None;
        }
        if !d.idle() {
            if !mon::violated() {
                vio!("lost wake-up: pending, its latest waker not woken, and no event outstanding");
            }
            return None;
        }
    }
}
type Bs3 = Pin<Box<dyn Stream<Item = R>>>;
type Bs1 = Box<dyn Stream01<Item = Tok, Error = Tok>>;
enum Sx {
    N(Bs3),
    O(Bs1),
}
/// A 0.1 stream that is also a sink (which takes anything).
struct Both(Bs1);
impl Stream01 for Both {
    type Item = Tok;
    type Error = Tok;
    fn poll(&mut self) -> Poll01<Option<Tok>, Tok> {
        self.0.poll()
    }
}
impl Sink01 for Both {
    type SinkItem = u8;
    type SinkError = Tok;
    fn start_send(&mut self, _: u8) -> StartSend<u8, Tok> {
        Ok(AsyncSink::Ready)
    }
    fn poll_complete(&mut self) -> Poll01<(), Tok> {
        Ok(Async::Ready(()))
    }
}
fn streams(c: &mut Case) {
    let n = c.rng.below(7) as u64;
    let items: Vec<R> = (0..n).map(|i| rr(c, 10 + i)).collect();
    let want: Vec<_> = items.iter().map(raw).collect();
    let leaf = wd::stream(items);
    let mut f = if c.rng.chance(1, 2) { Sx::N(Box::pin(leaf)) } else { Sx::O(Box::new(S01(leaf, Reg::default()))) };
    let layers = 1 + c.rng.below(5);
    let mut k = 0;
    for _ in 0..layers {
        f = match f {
            Sx::N(f) => {
                if c.rng.chance(1, 4) {
                    k += 1;
                    Sx::O(Box::new(f.compat().map(|t| tok(t.get() + 1)).map_err(|t| tok(t.get() + 1))))
                } else {
                    Sx::O(Box::new(TryStreamExt::compat(f)))
                }
            }
            Sx::O(f) => {
                if c.rng.chance(1, 3) {
                    Sx::N(Box::pin(Both(f).sink_compat()))
                } else {
                    Sx::N(Box::pin(futures::compat::Stream01CompatExt::compat(f)))
                }
            }
        };
    }
    c.desc = format!("{want:?} through {layers} layers, {k} maps, driven as {}", if matches!(f, Sx::N(_)) { "0.3" } else { "0.1" });
    let want: Vec<_> = want.into_iter().map(|r| r.map(|v| v + k).map_err(|v| v + k)).collect();
    let mut d = wd::Driver::new();
    let stop = if c.rng.chance(1, 6) { Some(c.rng.below(9) as u64) } else { None };
    let mut got = Vec::new();
    let mut ended = false;
    let mut step: Box<dyn FnMut(&mut Context<'_>) -> Poll<Option<R>>> = match f {
        Sx::N(mut f) => Box::new(move |cx| f.as_mut().poll_next(cx)),
        Sx::O(f) => {
            let mut f = spawn01(f);
            Box::new(move |cx| {
                let (n, id) = note(cx);
                match f.poll_stream_notify(&n, id) {
                    Ok(Async::Ready(Some(v))) => Poll::Ready(Some(Ok(v))),
                    Ok(Async::Ready(None)) => Poll::Ready(None),
                    Ok(Async::NotReady) => Poll::Pending,
                    Err(e) => Poll::Ready(Some(Err(e))),
                }
            })
        }
    };
    while let Some(r) = drive(&mut d, stop, &mut step) {
        match r {
            Some(r) => got.push(raw(&r)),
            None => {
                ended = true;
                break;
            }
        }
        ensure!(got.len() <= want.len(), "more items than the source has: {got:?}");
        if mon::violated() {
            break;
        }
    }
    ensure!(want.starts_with(&got), "items {got:?}, expected {want:?}");
    if ended {
        ensure!(got == want, "ended after {got:?}, expected {want:?}");
    }
    c.nontrivial = n > 0;
    drop(step);
    drop(d);
    mon::check_released();
}

// ------------------------------------------------------------------ sinks
/// 0.1 sink with scripted readiness; reports what reaches it.
struct K01 {
    lk: Lk,
    reg: Reg,
    tr: Trc,
    refused: Option<u64>,
}
impl K01 {
    fn usable(&self, op: &str) {
        let t = self.tr.borrow();
        ensure!(t.close_at.is_none() || !t.errs.is_empty(), "0.1 sink: {op} after close was called");
    }
    fn fail(&mut self, e: Tok) -> Tok {
        self.tr.borrow_mut().errs.push(e.get());
        e
    }
}
impl Sink01 for K01 {
    type SinkItem = Tok;
    type SinkError = Tok;
    fn start_send(&mut self, item: Tok) -> StartSend<Tok, Tok> {
        self.usable("start_send");
        if let Some(v) = self.refused.take() {
            ensure!(v == item.get(), "0.1 sink refused {v}, the next item offered is {}", item.get());
        }
        let lk = &mut self.lk;
        match self.reg.with(|cx| Pin::new(lk).poll_ready(cx)) {
            Poll::Pending => {
                self.refused = Some(item.get());
                Ok(AsyncSink::NotReady(item))
            }
            Poll::Ready(Err(e)) => Err(self.fail(e)),
            Poll::Ready(Ok(())) => {
                let v = item.get();
                match Pin::new(&mut self.lk).start_send(item) {
                    Ok(()) => {
                        self.tr.borrow_mut().items.push(v);
                        Ok(AsyncSink::Ready)
                    }
                    Err(e) => Err(self.fail(e)),
                }
            }
        }
    }
    fn poll_complete(&mut self) -> Poll01<(), Tok> {
        self.usable("poll_complete");
        self.tr.borrow_mut().flush_calls += 1;
        let lk = &mut self.lk;
        let r = self.reg.with(|cx| Pin::new(lk).poll_flush(cx));
        if let Poll::Ready(Ok(())) = r {
            let mut t = self.tr.borrow_mut();
            t.flushed = t.items.len();
        }
        down(r).map_err(|e| self.fail(e))
    }
    fn close(&mut self) -> Poll01<(), Tok> {
        {
            let mut t = self.tr.borrow_mut();
            let n = t.items.len();
            t.close_at.get_or_insert(n);
        }
        let lk = &mut self.lk;
        let r = self.reg.with(|cx| Pin::new(lk).poll_close(cx));
        if let Poll::Ready(Ok(())) = r {
            let mut t = self.tr.borrow_mut();
            t.closed = true;
            t.flushed = t.items.len();
        }
        down(r).map_err(|e| self.fail(e))
    }
}
fn sink_stack(c: &mut Case, min: usize) -> Stack {
    let mut s = if c.rng.chance(1, 2) {
        let fail_at = if c.rng.chance(1, 4) { 2 + c.rng.below(12) as u32 } else { 0 };
        let below = trace("0.1 sink".into());
        let k = K01 { lk: sinks::leaf(fail_at), reg: Reg::default(), tr: below.clone(), refused: None };
        let (s, tr) = probe(Box::pin(k.sink_compat()), "sink_compat".into(), vec![below], ident(), Default::default(), same, Some(1), true);
        Stack { s, tr, desc: vec![format!("0.1 leaf(fail_at={fail_at}).sink_compat()")], once: false, n: 1 }
    } else {
        sinks::bottom(c)
    };
    let k = min + c.rng.below(3);
    for _ in 0..k {
        if c.rng.chance(1, 4) {
            s = s.adapt(c);
        }
        s = round_trip(s);
    }
    s
}
fn round_trip(s: Stack) -> Stack {
    let Stack { s, tr, mut desc, once, n } = s;
    desc.push("compat().sink_compat()".into());
    let (s, tr) = probe(Box::pin(CompatSink::new(s).sink_compat()), format!("compat#{n}"), vec![tr], ident(), Default::default(), same, Some(1), true);
    Stack { s, tr, desc, once, n: n + 1 }
}
fn sinks_03(c: &mut Case) {
    let s = sink_stack(c, 0);
    let s = if s.desc.iter().any(|d| d.contains("compat")) { s } else { round_trip(s) };
    hv::sinkops::exercise(c, s);
}
/// The stack driven as a 0.1 sink.
fn sinks_01(c: &mut Case) {
    let p = sink_stack(c, 0);
    c.desc = format!("{:?} driven as 0.1", p.desc);
    let tr = p.tr.clone();
    let once = p.once;
    let mut s: Spawn01<CompatSink<_, Tok>> = spawn01(CompatSink::new(p.s));
    let mut d = wd::Driver::new();
    let mut want = Vec::new();
    let mut failed = None;
    for v in 1..=c.rng.below(8) as u64 {
        let mut item = Some(tok(v));
        let r = drive(&mut d, None, |cx| {
            let (n, id) = note(cx);
            match s.start_send_notify(item.take().unwrap(), &n, id) {
                Ok(AsyncSink::Ready) => Poll::Ready(Ok(())),
                Ok(AsyncSink::NotReady(t)) => {
                    ensure!(t.get() == v, "offered {v}, given back {}", t.get());
                    item = Some(t);
                    Poll::Pending
                }
                Err(e) => Poll::Ready(Err(e)),
            }
        });
        match r {
            None => return,
            Some(Ok(())) => {
                want.push(v);
                ensure!(tr.borrow().items == want, "accepted {want:?}, the sink has {:?}", tr.borrow().items);
            }
            Some(Err(e)) => {
                failed = Some(e.get());
                break;
            }
        }
        if c.rng.chance(1, 4) {
            let r = drive(&mut d, None, |cx| {
                let (n, id) = note(cx);
                up(s.poll_flush_notify(&n, id))
            });
            match r {
                None => return,
                Some(Ok(())) => ensure!(tr.borrow().flushed == want.len(), "poll_complete is ready, {} of {} items flushed", tr.borrow().flushed, want.len()),
                Some(Err(e)) => {
                    failed = Some(e.get());
                    break;
                }
            }
        }
    }
    if failed.is_none() && c.rng.chance(3, 4) {
        let r = drive(&mut d, None, |cx| {
            let (n, id) = note(cx);
            up(s.close_notify(&n, id))
        });
        match r {
            None => return,
            Some(Ok(())) => ensure!(tr.borrow().closed && tr.borrow().items == want, "closed: {}, items {:?} of {want:?}", tr.borrow().closed, tr.borrow().items),
            Some(Err(e)) => failed = Some(e.get()),
        }
    }
    let _ = once;
    let errs = tr.borrow().errs.clone();
    match failed {
        Some(e) => ensure!(errs == [e], "fails with {e}, the sink's errors are {errs:?}"),
        None => ensure!(errs.is_empty(), "no error reported, the sink's are {errs:?}"),
    }
    c.nontrivial = !want.is_empty();
    drop(s);
    drop(d);
    drop(tr);
    mon::check_released();
}

// ------------------------------------------------------------------ io
struct Io01<T>(T, Reg);
fn block<T>(p: Poll<io::Result<T>>) -> io::Result<T> {
    match p {
        Poll::Ready(r) => r,
        Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
    }
}
impl<T: AsyncRead + Unpin> io::Read for Io01<T> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let r = &mut self.0;
        block(self.1.with(|cx| Pin::new(r).poll_read(cx, buf)))
    }
}
impl<T: AsyncRead + Unpin> AsyncRead01 for Io01<T> {}
impl<T: AsyncWrite + Unpin> io::Write for Io01<T> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let r = &mut self.0;
        block(self.1.with(|cx| Pin::new(r).poll_write(cx, buf)))
    }
    fn flush(&mut self) -> io::Result<()> {
        let r = &mut self.0;
        block(self.1.with(|cx| Pin::new(r).poll_flush(cx)))
    }
}
impl<T: AsyncWrite + Unpin> AsyncWrite01 for Io01<T> {
    fn shutdown(&mut self) -> Poll01<(), io::Error> {
        let r = &mut self.0;
        down(self.1.with(|cx| Pin::new(r).poll_close(cx)))
    }
}
fn code(e: &io::Error) -> u32 {
    e.to_string().strip_prefix('E').and_then(|s| s.parse().ok()).unwrap_or(u32::MAX)
}
fn readers(c: &mut Case) {
    let p = iow::random_reader(c, 2, 20);
    let mut r: BR = p.r;
    let mut desc = p.desc;
    let layers = c.rng.below(4);
    for _ in 0..layers {
        let cap = 1 + c.rng.below(6);
        r = if c.rng.chance(1, 2) {
            desc.push("0.1 wrapper.compat()".into());
            Box::pin(BufReader::with_capacity(cap, AsyncRead01CompatExt::compat(Io01(r, Reg::default()))))
        } else {
            desc.push("compat().compat()".into());
            Box::pin(BufReader::with_capacity(cap, AsyncRead01CompatExt::compat(Compat::new(r))))
        };
    }
    let old = c.rng.chance(1, 2);
    c.desc = format!("{desc:?} read as {}", if old { "0.1" } else { "0.3" });
    let mut got: Vec<Ev> = Vec::new();
    let mut d = wd::Driver::new();
    let mut buf = [0u8; 12];
    let mut s01 = None;
    let mut r03 = None;
    if old {
        s01 = Some(spawn01(Compat::new(r)));
    } else if c.rng.chance(1, 2) {
        r03 = Some(AsyncRead01CompatExt::compat(Compat::new(r)));
    } else {
        r03 = Some(AsyncRead01CompatExt::compat(Compat::new(Box::pin(BufReader::new(r)) as BR)));
    }
    let model = p.model;
    loop {
        let k = 1 + c.rng.below(12);
        let r = match (&mut s01, &mut r03) {
            (Some(s), _) => drive(&mut d, None, |cx| {
                let (n, id) = note(cx);
                up(s.poll_fn_notify(&n, id, |r| AsyncRead01::poll_read(r, &mut buf[..k])))
            }),
            (_, Some(r)) => {
                let mut f = Box::pin(async { AsyncReadExt::read(r, &mut buf[..k]).await });
                drive(&mut d, None, |cx| f.as_mut().poll(cx))
            }
            _ => unreachable!(),
        };
        match r {
            None => return,
            Some(Ok(0)) => break,
            Some(Ok(n)) => {
                ensure!(n <= k, "read of {k} bytes gives {n}");
                got.extend(buf[..n.min(k)].iter().map(|b| B(*b)));
            }
            Some(Err(e)) => got.push(E(code(&e))),
        }
        ensure!(model.starts_with(&got), "read {got:?}, expected {model:?}");
        if mon::violated() {
            return;
        }
    }
    ensure!(got == model, "end after {got:?}, expected {model:?}");
    let _ = run_of;
    c.nontrivial = !got.is_empty();
    drop((s01, r03));
    drop(d);
    mon::check_released();
}
fn writers(c: &mut Case) {
    let chunk = *c.rng.pick(&[0, 1, 2, 3, 6]);
    let bad = *c.rng.pick(&[0, 0, 1, 3]);
    let (w, st): (_, Wr) = iow::writer(chunk, bad, 0);
    let mut w: Pin<Box<dyn AsyncWrite>> = Box::pin(w);
    let layers = c.rng.below(4);
    for _ in 0..layers {
        w = if c.rng.chance(1, 2) { Box::pin(AsyncWrite01CompatExt::compat(Io01(w, Reg::default()))) } else { Box::pin(AsyncWrite01CompatExt::compat(Compat::new(w))) };
    }
    let old = c.rng.chance(1, 2) || layers == 0;
    c.desc = format!("writer(chunk {chunk}, bad {bad}) through {layers} layers, driven as {}", if old { "0.1" } else { "0.3" });
    let mut d = wd::Driver::new();
    let mut sent: Vec<u8> = Vec::new();
    let mut s = spawn01(Compat::new(w));
    let mut x = 0u8;
    for _ in 0..1 + c.rng.below(8) {
        let errs = st.borrow().errs;
        let kind = c.rng.below(4);
        let data: Vec<u8> = (0..1 + c.rng.below(6))
            .map(|_| {
                x = x.wrapping_add(1);
                x
            })
            .collect();
        let r = if old {
            drive(&mut d, None, |cx| {
                let (n, id) = note(cx);
                up(s.poll_fn_notify(&n, id, |w| if kind == 0 { w.poll_flush().map(|a| a.map(|_| 0)) } else { w.poll_write(&data) }))
            })
        } else {
            let w = s.get_mut().get_mut();
            let mut f = Box::pin(async {
                if kind == 0 {
                    w.flush().await.map(|_| 0)
                } else {
                    w.write(&data).await
                }
            });
            drive(&mut d, None, |cx| f.as_mut().poll(cx))
        };
        match r {
            None => return,
            Some(Ok(n)) => {
                ensure!(st.borrow().errs == errs, "success reported, the writer failed with E{}", st.borrow().last_err);
                if kind == 0 {
                    ensure!(st.borrow().flushed == sent.len(), "flush complete, {} of {} bytes flushed", st.borrow().flushed, sent.len());
                } else {
                    ensure!(n <= data.len() && n > 0, "write of {} bytes accepts {n}", data.len());
                    sent.extend_from_slice(&data[..n.min(data.len())]);
                }
            }
            Some(Err(e)) => ensure!(st.borrow().errs == errs + 1 && st.borrow().last_err == code(&e), "fails with {e}, the writer's latest error is E{}", st.borrow().last_err),
        }
        ensure!(st.borrow().got == sent, "accepted {sent:?}, the writer has {:?}", st.borrow().got);
        if mon::violated() {
            return;
        }
    }
    let errs = st.borrow().errs;
    let r = if old {
        drive(&mut d, None, |cx| {
            let (n, id) = note(cx);
            up(s.poll_fn_notify(&n, id, |w| w.shutdown()))
        })
    } else {
        let w = s.get_mut().get_mut();
        let mut f = Box::pin(async { w.close().await });
        drive(&mut d, None, |cx| f.as_mut().poll(cx))
    };
    match r {
        None => return,
        Some(Ok(())) => ensure!(st.borrow().closed && st.borrow().errs == errs, "shutdown is complete, the writer is not closed"),
        Some(Err(e)) => ensure!(st.borrow().errs == errs + 1 && st.borrow().last_err == code(&e), "shutdown fails with {e}, the writer with E{}", st.borrow().last_err),
    }
    c.nontrivial = !sent.is_empty();
    drop(s);
    drop(d);
    mon::check_released();
}

// ------------------------------------------------------------------ executors
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<F: Future + Unpin> Future for Force<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        Pin::new(&mut self.0).poll(cx)
    }
}
impl<F: Future01> Future01 for Force<F> {
    type Item = F::Item;
    type Error = F::Error;
    fn poll(&mut self) -> Poll01<F::Item, F::Error> {
        self.0.poll()
    }
}
#[derive(Clone)]
struct Ex01 {
    q: Arc<Mutex<VecDeque<Executor01Future>>>,
    room: Arc<AtomicUsize>,
}
impl Executor01<Executor01Future> for Ex01 {
    fn execute(&self, f: Executor01Future) -> Result<(), ExecuteError<Executor01Future>> {
        if self.room.load(Ordering::SeqCst) == 0 {
            let k = if wd::chance(1, 2) { ExecuteErrorKind::Shutdown } else { ExecuteErrorKind::NoCapacity };
            return Err(ExecuteError::new(k, f));
        }
        self.room.fetch_sub(1, Ordering::SeqCst);
        self.q.lock().unwrap().push_back(f);
        Ok(())
    }
}
#[derive(Default)]
struct Counts {
    done: Cell<u32>,
    drops: Cell<u32>,
}
struct OnDrop(Rc<Counts>, #[allow(dead_code)] Tok);
impl Drop for OnDrop {
    fn drop(&mut self) {
        self.0.drops.set(self.0.drops.get() + 1);
    }
}
async fn job(cn: Rc<Counts>, n: usize) -> u64 {
    let _d = OnDrop(cn.clone(), tok(1));
    for _ in 0..n {
        wd::fut(()).await;
    }
    cn.done.set(cn.done.get() + 1);
    n as u64
}
/// 0.3 spawner on top of a 0.1 executor.
fn exec_01(c: &mut Case) {
    let room = c.rng.below(5);
    let ex = Ex01 { q: Default::default(), room: Arc::new(AtomicUsize::new(room)) };
    let sp = ex.clone().compat();
    let n = 1 + c.rng.below(5);
    c.desc = format!("{n} tasks, room for {room}");
    let mut jobs = Vec::new();
    let mut handles = Vec::new();
    for i in 0..n {
        let cn = Rc::new(Counts::default());
        let k = c.rng.below(3);
        let j = Force(Box::pin(job(cn.clone(), k)));
        let ok = if c.rng.chance(1, 3) {
            match sp.spawn_with_handle(j) {
                Ok(h) => {
                    handles.push((Box::pin(h), k as u64));
                    Ok(())
                }
                Err(e) => Err(e),
            }
        } else {
            let sp = sp.clone();
            sp.spawn(async {
                j.await;
            })
        };
        ensure!(ok.is_ok() == (i < room), "spawn {i} with room for {room}: {ok:?}");
        if let Err(e) = ok {
            ensure!(e.is_shutdown(), "spawn error is not a shutdown error");
            ensure!(cn.drops.get() <= 1 && cn.done.get() == 0, "refused task: dropped {} times, run {}", cn.drops.get(), cn.done.get());
        } else {
            jobs.push(cn);
        }
    }
    let mut tasks: Vec<(Option<Spawn01<Executor01Future>>, Arc<N>)> = Vec::new();
    let mut d = wd::Driver::new();
    d.strict = false;
    let r = drive(&mut d, None, |cx| {
        while let Some(f) = ex.q.lock().unwrap().pop_front() {
            let id = wd::rnd(1000);
            tasks.push((Some(spawn01(f)), Arc::new(N { w: Mutex::new(None), id, flag: AtomicBool::new(true) })));
        }
        let mut all = true;
        for (t, n) in &mut tasks {
            let old = n.w.lock().unwrap().replace(cx.waker().clone());
            drop(old);
            if t.is_none() {
                continue;
            }
            if n.flag.swap(false, Ordering::SeqCst) {
                match t.as_mut().unwrap().poll_future_notify(&*n, n.id) {
                    Ok(Async::Ready(())) => *t = None,
                    Ok(Async::NotReady) => all = false,
                    Err(()) => vio!("a spawned 0.3 future fails"),
                }
            } else {
                all = false;
            }
        }
        if all {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    });
    if r.is_none() {
        return;
    }
    for (i, cn) in jobs.iter().enumerate() {
        ensure!(cn.done.get() == 1 && cn.drops.get() == 1, "task {i}: finished {} times, dropped {} times", cn.done.get(), cn.drops.get());
    }
    for (h, v) in handles {
        let mut h = h;
        if let Some(x) = drive(&mut d, None, |cx| h.as_mut().poll(cx)) {
            ensure!(x == v, "handle gives {x}, expected {v}");
        }
    }
    c.nontrivial = !jobs.is_empty();
    drop((tasks, jobs, sp, ex));
    drop(d);
    mon::check_released();
}
/// 0.1 executor on top of a 0.3 spawner.
#[derive(Clone, Default)]
struct Sp03(Rc<RefCell<Vec<FutureObj<'static, ()>>>>);
impl Spawn for Sp03 {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        self.0.borrow_mut().push(f);
        Ok(())
    }
}
fn exec_03(c: &mut Case) {
    let sp = Sp03::default();
    let ex = Compat::new(sp.clone());
    let n = 1 + c.rng.below(5);
    c.desc = format!("{n} tasks on a 0.3 spawner");
    c.nontrivial = true;
    let mut jobs = Vec::new();
    for i in 0..n {
        let cn = Rc::new(Counts::default());
        let k = c.rng.below(3);
        let bad = c.rng.chance(1, 3);
        let cn2 = cn.clone();
        let mut leaves: Vec<F01> = (0..k).map(|_| F01(wd::fut(Ok(tok(3))), Reg::default())).collect();
        let guard = OnDrop(cn.clone(), tok(2));
        let f = futures01::future::poll_fn(move || {
            let _ = &guard;
            while let Some(l) = leaves.last_mut() {
                match l.poll() {
                    Ok(Async::NotReady) => return Ok(Async::NotReady),
                    _ => drop(leaves.pop()),
                }
            }
            cn2.done.set(cn2.done.get() + 1);
            if bad {
                Err(())
            } else {
                Ok(Async::Ready(()))
            }
        });
        ensure!(ex.execute(Force(f)).is_ok(), "execute {i} refused");
        jobs.push(cn);
    }
    let mut v = std::mem::take(&mut *sp.0.borrow_mut());
    ensure!(v.len() == n, "{n} futures executed, {} spawned", v.len());
    let mut d = wd::Driver::new();
    for f in &mut v {
        if drive(&mut d, None, |cx| Pin::new(&mut *f).poll(cx)).is_none() {
            return;
        }
    }
    drop(v);
    for (i, cn) in jobs.iter().enumerate() {
        ensure!(cn.done.get() == 1 && cn.drops.get() == 1, "task {i}: finished {} times, dropped {} times", cn.done.get(), cn.drops.get());
    }
    logf!("done");
    drop(d);
    drop((ex, sp));
    mon::check_released();
}
// ------------------------------------------------------------------ threads
type F3s = Pin<Box<dyn Future<Output = Result<u64, u64>> + Send>>;
/// Notifications and sends from other threads through both layers.
fn threads(c: &mut Case) {
    use futures::{FutureExt, SinkExt, StreamExt};
    let layers = 1 + c.rng.below(3);
    let n = 1 + c.rng.below(20) as u64;
    let cap = c.rng.below(3);
    let kind = c.rng.below(3);
    c.desc = format!("kind {kind}, {n} items, capacity {cap}, {layers} layers");
    c.nontrivial = true;
    match kind {
        0 => {
            let (tx, rx) = futures01::sync::mpsc::channel::<u64>(cap);
            let t = std::thread::spawn(move || {
                futures::executor::block_on(async move {
                    let mut s: Pin<Box<dyn Sink<u64, Error = _>>> = Box::pin(tx.sink_compat());
                    for _ in 0..layers {
                        s = Box::pin(CompatSink::new(s).sink_compat());
                    }
                    for i in 0..n {
                        if i % 3 == 0 {
                            s.send(i).await.map_err(|_| ()).unwrap();
                        } else {
                            s.feed(i).await.map_err(|_| ()).unwrap();
                        }
                    }
                    s.close().await.map_err(|_| ()).unwrap();
                })
            });
            let v: Vec<u64> = futures::executor::block_on(futures::compat::Stream01CompatExt::compat(rx).map(|r| r.unwrap()).collect());
            ensure!(v == (0..n).collect::<Vec<_>>(), "received {v:?}, sent 0..{n}");
            t.join().unwrap();
        }
        1 => {
            let (mut tx, rx) = futures::channel::mpsc::channel::<Result<u64, u64>>(cap);
            let t = std::thread::spawn(move || {
                futures::executor::block_on(async move {
                    for i in 0..n {
                        tx.send(if i % 4 == 3 { Err(i) } else { Ok(i) }).await.unwrap();
                    }
                })
            });
            let mut v = Vec::new();
            // the 0.1 blocking executor
            for r in rx.compat().wait() {
                v.push(match r {
                    Ok(x) | Err(x) => x,
                });
            }
            ensure!(v == (0..n).collect::<Vec<_>>(), "received {v:?}, sent 0..{n}");
            t.join().unwrap();
        }
        _ => {
            for i in 0..n {
                let (tx, rx) = futures::channel::oneshot::channel::<u64>();
                let mut f: F3s = Box::pin(rx.map(|r| r.map_err(|_| 0)));
                for _ in 0..layers {
                    f = Box::pin(Compat01As03::new(Compat::new(f)));
                }
                let t = std::thread::spawn(move || {
                    if i % 3 == 0 {
                        std::thread::yield_now();
                    }
                    if i % 5 == 4 {
                        drop(tx);
                    } else {
                        tx.send(i).unwrap();
                    }
                });
                let r = if i % 2 == 0 { futures::executor::block_on(f) } else { f.compat().wait() };
                let want = if i % 5 == 4 { Err(0) } else { Ok(i) };
                ensure!(r == want, "result {r:?}, expected {want:?}");
                t.join().unwrap();
            }
        }
    }
    mon::event(n);
}
fn main() {
    hv::main(
        "C30",
        vec![
            hv::w("futures", 60_000, 1_500_000, futures_),
            hv::w("streams", 60_000, 1_500_000, streams),
            hv::w("sinks", 60_000, 1_500_000, sinks_03),
            hv::w("sinks01", 40_000, 1_000_000, sinks_01),
            hv::w("readers", 40_000, 1_000_000, readers),
            hv::w("writers", 40_000, 1_000_000, writers),
            hv::ws("threads", 400, 8_000, threads),
            hv::w("exec01", 20_000, 500_000, exec_01),
            hv::w("exec03", 20_000, 500_000, exec_03),
        ],
    )
}
