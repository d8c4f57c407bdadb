//! Random expressions over futures with a reference model. Every stage is monitored:
//! never polled after completion, nothing polled or called before the first poll,
//! is_terminated never true before completion.
use crate::mon::{self, Tok};
use crate::pipes::{fx, later, pr, Watch, T2};
use crate::tpipes::{raw, E2, R};
use crate::world as wd;
use crate::{ensure, vio, Case};
use futures::future::{self, FusedFuture};
use futures::stream::StreamExt;
use futures::{FutureExt, TryFutureExt};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub type BF<T> = Pin<Box<dyn FusedFuture<Output = T>>>;
pub struct FStage<T> {
    inner: BF<T>,
    name: &'static str,
    w: Watch,
    done: Rc<Cell<bool>>,
    after: bool,
}
impl<T> Future for FStage<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        if self.done.get() {
            vio!("{} polled after its completion", self.name);
            return Poll::Pending;
        }
        let over = self.w.terms && self.inner.is_terminated();
        let r = self.inner.as_mut().poll(cx);
        if over && r.is_ready() {
            vio!("{} completes although it reported termination before", self.name);
        }
        if r.is_ready() {
            self.done.set(true);
            if self.w.terms && self.after && !self.inner.is_terminated() {
                vio!("{} does not report termination after its completion", self.name);
            }
        }
        r
    }
}
impl<T> FusedFuture for FStage<T> {
    fn is_terminated(&self) -> bool {
        self.inner.is_terminated()
    }
}
pub fn fstage<T: 'static>(f: impl FusedFuture<Output = T> + 'static, name: &'static str, w: Watch, after: bool) -> BF<T> {
    Box::pin(FStage { inner: Box::pin(f), name, w, done: Default::default(), after })
}
pub type Log = Rc<RefCell<Vec<u64>>>;
pub struct FPipe {
    pub f: BF<R>,
    pub model: T2,
    pub desc: Vec<String>,
    pub w: Watch,
    pub strict: bool,
    pub calls: Vec<(&'static str, Log, Vec<u64>)>,
}
fn mk(x: T2) -> R {
    x.map(mon::tok).map_err(mon::tok)
}
/// Result of a second step.
fn step(x: u64, key: u64, bad: u64) -> T2 {
    if pr(x, key + 3, bad) { Ok(fx(x, key)) } else { Err(fx(x, key + 1)) }
}
pub fn leaf(c: &mut Case, w: Watch) -> (BF<R>, T2, &'static str) {
    let v = c.rng.below(1000) as u64;
    let m: T2 = if c.rng.chance(2, 3) { Ok(v) } else { Err(v) };
    let (f, name): (BF<R>, &'static str) = match c.rng.below(12) {
        0 => (fstage(future::ready(mk(m)), "ready", w, true), "ready"),
        1 => (fstage(match m { Ok(v) => future::ok(mon::tok(v)), Err(v) => future::err(mon::tok(v)) }, "ok/err", w, true), "ok/err"),
        2 => (fstage(future::lazy(move |_| mk(m)), "lazy", w, true), "lazy"),
        3 => {
            let mut g = wd::gate("poll_fn");
            (fstage(future::poll_fn(move |cx| g.poll(cx).map(|_| mk(m))).fuse(), "poll_fn", w, true), "poll_fn")
        }
        4 => (fstage(async move { later(()).await; mk(m) }.fuse(), "async", w, true), "async"),
        5 => (fstage(future::always_ready(move || mk(m)).fuse(), "always_ready", w, true), "always_ready"),
        6 => {
            let (tx, rx) = futures::channel::oneshot::channel();
            let _ = tx.send(mk(m));
            // Receiver::is_terminated only becomes true once the value was taken
            (fstage(rx.map(|r| r.unwrap_or_else(|_| Err(mon::tok(9)))), "oneshot", w, true), "oneshot")
        }
        7 => (fstage(future::OptionFuture::from(Some(wd::fut(mk(m)).fuse())).map(|o| o.unwrap()), "OptionFuture", w, true), "OptionFuture"),
        _ => (fstage(wd::fut(mk(m)).fuse(), "leaf", w, true), "leaf"),
    };
    (f, m, name)
}
pub fn start(c: &mut Case, w: Watch) -> FPipe {
    let (f, model, name) = leaf(c, w);
    FPipe { f, model, desc: vec![format!("{name}:{model:?}")], w, strict: true, calls: vec![] }
}
pub const N_FUT: usize = 42;
impl FPipe {
    pub fn adapt(self, c: &mut Case) -> FPipe {
        let k = c.rng.below(N_FUT);
        self.adapt_with(c, k)
    }
    pub fn adapt_with(self, c: &mut Case, which: usize) -> FPipe {
        let FPipe { f, model: m, mut desc, w, mut strict, mut calls } = self;
        let key = c.rng.below(1000) as u64;
        let bad = *c.rng.pick(&[2u64, 4, 1_000_000]);
        let log: Log = Default::default();
        let l = log.clone();
        let okv: Vec<u64> = m.ok().into_iter().collect();
        let errv: Vec<u64> = m.err().into_iter().collect();
        let any = vec![m.unwrap_or_else(|e| e)];
        let mut want: Option<Vec<u64>> = None;
        let on_ok = |f: &dyn Fn(u64) -> T2| match m { Ok(v) => f(v), Err(e) => Err(e) };
        let on_err = |f: &dyn Fn(u64) -> T2| match m { Ok(v) => Ok(v), Err(e) => f(e) };
        let push = move |t: &Tok| { l.borrow_mut().push(t.get()); t.get() };
        let pushr = { let push = push.clone(); move |r: &R| match r { Ok(t) => push(t), Err(t) => push(t) } };
        let (st, out, name, after): (BF<R>, T2, &'static str, bool) = match which {
            0 => { want = Some(any); (Box::pin(f.map(move |r| { pushr(&r); mk(raw(&r).map(|v| fx(v, key))) })), m.map(|v| fx(v, key)), "map", true) }
            1 => (Box::pin(f.map_into::<Wrap>().map(|w| w.0)), m, "map_into", true),
            2 | 3 => {
                want = Some(any.clone());
                (Box::pin(f.then(move |r| { let v = pushr(&r); later(()).map(move |_| { drop(r); mk(step(v, key, bad)) }) })), step(any[0], key, bad), "then", true)
            }
            4 => (if c.rng.bool() { Box::pin(f.left_future::<future::Pending<R>>()) } else { Box::pin(f.right_future::<future::Pending<R>>()) }, m, "either", true),
            5 => {
                let mut s = Box::pin(f.into_stream());
                (Box::pin(async move {
                    let x = s.next().await;
                    ensure!(x.is_some(), "into_stream ends without an item");
                    let end = s.next().await;
                    ensure!(end.is_none(), "into_stream yields a second item");
                    x.unwrap()
                }.fuse()), m, "into_stream", true)
            }
            6 => { want = Some(any.clone()); (Box::pin(f.map(move |r| { let v = pushr(&r); later(()).map(move |_| { drop(r); mk(step(v, key, bad)) }) }).flatten()), step(any[0], key, bad), "flatten", true) }
            7 => {
                let (tail, mt, _) = leaf(c, w);
                want = Some(any.clone());
                // the stream's items arrive after the outer future
                let mut s = Box::pin(f.map(move |r| { pushr(&r); let v = raw(&r); wd::stream([v, Err(1)].into_iter().map(mk)) }).flatten_stream());
                (Box::pin(async move {
                    let a = s.next().await;
                    let b = s.next().await;
                    let e = s.next().await;
                    ensure!(a.is_some() && b.is_some() && e.is_none(), "flatten_stream loses or invents items");
                    drop(tail);
                    a.unwrap()
                }.fuse()), { let _ = mt; m }, "flatten_stream", true)
            }
            8 => (Box::pin(f.fuse()), m, "fuse", true),
            9 => { want = Some(any); (Box::pin(f.inspect(move |r| { pushr(r); })), m, "inspect", true) }
            10 => (Box::pin(std::panic::AssertUnwindSafe(f).catch_unwind().map(|r| r.unwrap_or_else(|e| std::panic::resume_unwind(e)))), m, "catch_unwind", true),
            11 => (Box::pin(f.shared()), m, "shared", true),
            12 => {
                strict = false;
                let (rem, h) = f.remote_handle();
                (Box::pin(future::join(rem, h).map(|(_, r)| r)), m, "remote_handle", true)
            }
            13 => (Box::pin(f.boxed_local().fuse()), m, "boxed_local", true),
            14 => (Box::pin(f.unit_error().map(|r| r.unwrap())), m, "unit_error", true),
            15 => (Box::pin(f.never_error().map(|r| match r { Ok(x) => x, Err(e) => match e {} })), m, "never_error", true),
            16 => { want = Some(okv); (Box::pin(f.map_ok(move |t| mon::tok(fx(push(&t), key)))), on_ok(&|v| Ok(fx(v, key))), "map_ok", true) }
            17 => { want = Some(errv); (Box::pin(f.map_err(move |t| mon::tok(fx(push(&t), key)))), on_err(&|v| Err(fx(v, key))), "map_err", true) }
            18 => {
                want = Some(any);
                let p2 = push.clone();
                (Box::pin(f.map_ok_or_else(move |e| Err(mon::tok(fx(p2(&e), key))), move |t| Ok(mon::tok(fx(push(&t), key + 1))))), m.map(|v| fx(v, key + 1)).map_err(|e| fx(e, key)), "map_ok_or_else", true)
            }
            19 => (Box::pin(f.err_into::<E2>().map_err(|e| e.0)), m, "err_into", true),
            20 => (Box::pin(f.ok_into::<E2>().map_ok(|e| e.0)), m, "ok_into", true),
            21 | 22 => { want = Some(okv); (Box::pin(f.and_then(move |t| { let v = push(&t); later(()).map(move |_| { drop(t); mk(step(v, key, bad)) }) })), on_ok(&|v| step(v, key, bad)), "and_then", true) }
            23 | 24 => { want = Some(errv); (Box::pin(f.or_else(move |t| { let v = push(&t); later(()).map(move |_| { drop(t); mk(step(v, key, bad)) }) })), on_err(&|v| step(v, key, bad)), "or_else", true) }
            25 => { want = Some(okv); (Box::pin(f.inspect_ok(move |t| { push(t); })), m, "inspect_ok", true) }
            26 => { want = Some(errv); (Box::pin(f.inspect_err(move |t| { push(t); })), m, "inspect_err", true) }
            27 => { want = Some(okv); (Box::pin(f.map_ok(move |t| { let v = push(&t); later(()).map(move |_| { drop(t); mk(step(v, key, bad)) }) }).try_flatten()), on_ok(&|v| step(v, key, bad)), "try_flatten", true) }
            28 => {
                want = Some(okv);
                let mut s = Box::pin(f.map_ok(move |t| { let v = push(&t); wd::stream([step(v, key, bad), Ok(4)].into_iter().map(mk)) }).try_flatten_stream());
                let ok = m.is_ok();
                (Box::pin(async move {
                    let a = s.next().await;
                    let n = if ok { 1 } else { 0 };
                    for _ in 0..n {
                        ensure!(s.next().await.is_some(), "try_flatten_stream loses an item");
                    }
                    ensure!(s.next().await.is_none(), "try_flatten_stream invents an item");
                    a.unwrap()
                }.fuse()), on_ok(&|v| step(v, key, bad)), "try_flatten_stream", true)
            }
            29 => { want = Some(errv); (Box::pin(f.unwrap_or_else(move |e| mon::tok(fx(push(&e), key))).map(Ok)), on_err(&|e| Ok(fx(e, key))), "unwrap_or_else", true) }
            30 => (Box::pin(f.into_future()), m, "into_future", true),
            31 => (Box::pin(future::OptionFuture::from(Some(f)).map(|o| o.unwrap())), m, "OptionFuture", true),
            32 => {
                // poll_immediate re-created on every poll
                let mut f = f;
                (Box::pin(future::poll_fn(move |cx| match Pin::new(&mut future::poll_immediate(&mut f)).poll(cx) {
                    Poll::Ready(Some(x)) => Poll::Ready(x),
                    Poll::Ready(None) => Poll::Pending,
                    Poll::Pending => { vio!("poll_immediate is pending"); Poll::Pending }
                }).fuse()), m, "poll_immediate", true)
            }
            33 => {
                let mut md = Box::pin(future::maybe_done(f));
                (Box::pin(future::poll_fn(move |cx| {
                    let r = md.as_mut().poll(cx);
                    let o = md.as_mut().output_mut().is_some();
                    ensure!(r.is_ready() == o, "maybe_done: ready {} but output present {o}", r.is_ready());
                    if r.is_pending() { return Poll::Pending }
                    let out = md.as_mut().take_output();
                    ensure!(md.as_mut().take_output().is_none() && md.is_terminated(), "maybe_done gives its output twice");
                    Poll::Ready(out.unwrap_or_else(|| Ok(mon::tok(0))))
                }).fuse()), m, "maybe_done", true)
            }
            34 => {
                let mut md = Box::pin(future::try_maybe_done(f));
                (Box::pin(future::poll_fn(move |cx| match md.as_mut().poll(cx) {
                    Poll::Pending => Poll::Pending,
                    Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                    Poll::Ready(Ok(())) => {
                        let out = md.as_mut().take_output();
                        ensure!(out.is_some(), "try_maybe_done has no output");
                        Poll::Ready(Ok(out.unwrap_or_else(|| mon::tok(0))))
                    }
                }).fuse()), m, "try_maybe_done", true)
            }
            35 => {
                let (g, mg, n2) = leaf(c, w);
                desc.push(format!("with {n2}:{mg:?}"));
                (Box::pin(future::join(f, g).map(|(a, b)| match (a, b) { (Ok(a), Ok(b)) => Ok(mon::tok(fx(a.get(), b.get()))), (Err(a), _) => Err(a), (_, Err(b)) => Err(b) })),
                 match (m, mg) { (Ok(a), Ok(b)) => Ok(fx(a, b)), (Err(a), _) => Err(a), (_, Err(b)) => Err(b) }, "join", true)
            }
            36 => {
                // whichever comes first, the other is then awaited
                let (g, mg, n2) = leaf(c, w);
                desc.push(format!("with {n2}:{mg:?}"));
                (Box::pin(future::select(f, g).then(|e| match e { future::Either::Left((a, g)) => g.map(move |b| (a, b)).left_future(), future::Either::Right((b, f)) => f.map(move |a| (a, b)).right_future() }).map(|(a, _)| a)), m, "select", true)
            }
            37 => {
                let (g, mg, n2) = leaf(c, w);
                desc.push(format!("with {n2}:{mg:?}"));
                (Box::pin(async move { let (a, b) = futures::join!(f, g); drop(b); a }.fuse()), m, "join!", true)
            }
            38 => {
                let (f2, h) = future::abortable(f);
                drop(h);
                (Box::pin(f2.map(|r| r.unwrap_or_else(|_| Err(mon::tok(0))))), m, "abortable", true)
            }
            39 => {
                let mut f = f;
                (Box::pin(future::poll_fn(move |cx| f.poll_unpin(cx)).fuse()), m, "poll_unpin", true)
            }
            40 => {
                let mut f = f;
                (Box::pin(future::poll_fn(move |cx| f.try_poll_unpin(cx)).fuse()), m, "try_poll_unpin", true)
            }
            _ => {
                // a select! loop around one future
                let mut f = f;
                (Box::pin(async move { futures::select! { x = f => x } }.fuse()), m, "select!", true)
            }
        };
        desc.push(name.to_string());
        if let Some(want) = want {
            calls.push((name, log, want));
        }
        FPipe { f: fstage(st, name, w, after), model: out, desc, w, strict, calls }
    }
    /// Nothing may have happened yet.
    pub fn check_lazy(&self) {
        for (name, log, _) in &self.calls {
            ensure!(log.borrow().is_empty(), "{name}: its closure ran before the future was polled");
        }
        ensure!(wd::untouched(), "a future was polled when the combinators were built");
    }
    pub fn check_done(self, r: &R) {
        let got = raw(r);
        mon::event(match got { Ok(v) => 2 * v, Err(v) => 2 * v + 1 });
        ensure!(got == self.model, "result {got:?}, the composed function gives {:?}", self.model);
        for (name, log, want) in &self.calls {
            ensure!(*log.borrow() == *want, "{name}: its closure was called with {:?}, expected {want:?}", log.borrow());
        }
    }
    pub fn finish(mut self) -> bool {
        self.check_lazy();
        let mut d = wd::Driver::new();
        d.strict = self.strict;
        let Some(r) = d.run(self.f.as_mut()) else { return false };
        drop(d);
        self.check_done(&r);
        !mon::violated()
    }
}
pub struct Wrap(pub R);
impl From<R> for Wrap {
    fn from(r: R) -> Wrap {
        Wrap(r)
    }
}
pub fn random(c: &mut Case, w: Watch, max: usize) -> FPipe {
    let mut p = start(c, w);
    for _ in 0..c.rng.range(0, max) {
        p = p.adapt(c);
    }
    c.desc = p.desc.join(" . ");
    p
}
