//! C19: future combinators against the composed function.
use futures::future::{self, FusedFuture};
use futures::{FutureExt, SinkExt, TryFutureExt};
use hv::fpipes::{self, FPipe};
use hv::mon::{self, Tok};
use hv::pipes::{fx, Watch};
use hv::tpipes::{raw, R};
use hv::world as wd;
use hv::{ensure, vio, Case};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
fn pipeline(c: &mut Case) {
    let p = fpipes::random(c, Watch::default(), 6);
    c.nontrivial = p.desc.len() > 1;
    if !p.finish() {
        return;
    }
    mon::check_released();
}
/// Dropped before completion: nothing further runs, everything is released.
fn dropped(c: &mut Case) {
    let mut p = fpipes::random(c, Watch::default(), 5);
    p.check_lazy();
    let n = c.rng.below(4);
    let mut d = wd::Driver::new();
    d.strict = p.strict;
    let mut res = None;
    for _ in 0..n {
        match d.poll(|cx| p.f.as_mut().poll(cx)) {
            Poll::Ready(r) => {
                res = Some(r);
                break;
            }
            Poll::Pending => {
                if !d.idle() {
                    if !mon::violated() {
                        vio!("lost wake-up");
                    }
                    return;
                }
            }
        }
    }
    c.nontrivial = n > 0;
    drop(d);
    match res {
        Some(r) => p.check_done(&r),
        None => {
            let FPipe { f, calls, .. } = p;
            drop(f);
            for (name, log, want) in &calls {
                let l = log.borrow();
                ensure!(l.is_empty() || *l == *want, "{name}: its closure was called with {l:?}, expected {want:?} at most");
            }
        }
    }
    mon::check_released();
}
/// now_or_never and single polls: ready exactly when every leaf on the way is.
fn immediate(c: &mut Case) {
    let which = c.rng.below(3);
    let p = fpipes::random(c, Watch::default(), 4);
    c.nontrivial = true;
    let model = p.model;
    let FPipe { f, .. } = p;
    match which {
        0 => {
            // everything ready at once: now_or_never must give the value
            wd::set_pend(0, 0);
            match f.now_or_never() {
                Some(r) => ensure!(raw(&r) == model, "now_or_never gives {:?}, expected {model:?}", raw(&r)),
                None => vio!("now_or_never gives None although nothing is pending"),
            }
        }
        1 => {
            let before = wd::pendings();
            let r = f.now_or_never();
            let pend = wd::pendings() > before;
            match r {
                Some(r) => ensure!(raw(&r) == model, "now_or_never gives {:?}, expected {model:?}", raw(&r)),
                None => ensure!(pend, "now_or_never gives None although no leaf was pending"),
            }
        }
        _ => {
            let mut f = f;
            let before = wd::pendings();
            let r = (&mut f).now_or_never();
            let pend = wd::pendings() > before;
            match r {
                Some(r) => ensure!(raw(&r) == model, "now_or_never gives {:?}, expected {model:?}", raw(&r)),
                None => {
                    ensure!(pend, "now_or_never gives None although no leaf was pending");
                    // goes on from where it was
                    let mut d = wd::Driver::new();
                    d.strict = false;
                    let Some(r) = d.run(f.as_mut()) else { return };
                    ensure!(raw(&r) == model, "result after now_or_never {:?}, expected {model:?}", raw(&r));
                }
            }
        }
    }
    wd::fire_all();
    mon::check_released();
}
/// Fuse: pending for ever (without polling) after completion; Fuse::terminated; set to a new future.
fn fuse(c: &mut Case) {
    c.nontrivial = true;
    let v = c.rng.below(100) as u64;
    let polls = Rc::new(Cell::new(0));
    let mut f = if c.rng.chance(1, 5) { future::Fuse::terminated() } else { wd::fut(mon::tok(v)).counted(&polls).fuse() };
    let was = f.is_terminated();
    c.desc = format!("fuse, terminated at first: {was}");
    let mut d = wd::Driver::new();
    let mut done = was;
    for _ in 0..c.rng.range(1, 8) {
        let before = polls.get();
        let r = d.poll(|cx| f.poll_unpin(cx));
        ensure!(!(done && r.is_ready()), "Fuse is ready a second time");
        ensure!(!(done && polls.get() != before), "Fuse polls its future after completion");
        if let Poll::Ready(t) = &r {
            ensure!(t.get() == v, "Fuse gives a wrong value");
            done = true;
        }
        ensure!(f.is_terminated() == done, "Fuse::is_terminated is {} but completed: {done}", f.is_terminated());
        wd::fire_random();
    }
    drop((d, f));
    mon::check_released();
}
/// A sink behind a future.
struct Log(Rc<std::cell::RefCell<Vec<u64>>>, Rc<Cell<u32>>, wd::Gate);
impl futures::Sink<Tok> for Log {
    type Error = Tok;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
        self.2.poll(cx).map(Ok)
    }
    fn start_send(self: Pin<&mut Self>, t: Tok) -> Result<(), Tok> {
        self.0.borrow_mut().push(t.get());
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
        self.2.poll(cx).map(Ok)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
        match self.2.poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                self.1.set(self.1.get() + 1);
                Poll::Ready(Ok(()))
            }
        }
    }
}
fn flatten_sink(c: &mut Case) {
    let ok = c.rng.chance(3, 4);
    let items: Vec<u64> = (0..c.rng.below(4)).map(|_| c.rng.below(100) as u64).collect();
    c.desc = format!("flatten_sink ok={ok} items {items:?}");
    c.nontrivial = true;
    let log: Rc<std::cell::RefCell<Vec<u64>>> = Default::default();
    let closed = Rc::new(Cell::new(0));
    let sink = Log(log.clone(), closed.clone(), wd::gate("sink"));
    let mut s = Box::pin(wd::fut(if ok { Ok(sink) } else { drop(sink); Err(mon::tok(5)) }).flatten_sink());
    let it = items.clone();
    let mut f = Box::pin(async {
        for x in it {
            s.feed(mon::tok(x)).await?;
        }
        s.close().await
    });
    let mut d = wd::Driver::new();
    let Some(r) = d.run(f.as_mut()) else { return };
    drop(f);
    match r {
        Ok(()) => ensure!(*log.borrow() == items && (items.is_empty() || (closed.get() == 1 && ok)), "flatten_sink: sent {items:?}, arrived {:?}, closed {} times", log.borrow(), closed.get()),
        Err(e) => ensure!(!ok && e.get() == 5 && log.borrow().is_empty(), "flatten_sink: unexpected error"),
    }
    drop((s, d));
    mon::check_released();
}
/// poll_immediate as a stream, OptionFuture(None), always_ready twice, pending.
fn odds(c: &mut Case) {
    use futures::StreamExt;
    c.nontrivial = true;
    let v = c.rng.below(100) as u64;
    match c.rng.below(4) {
        0 => {
            c.desc = "poll_immediate as a stream".into();
            let mut s = Box::pin(future::poll_immediate(wd::fut(mon::tok(v))));
            let mut d = wd::Driver::new();
            let mut n = 0;
            loop {
                let before = wd::pendings();
                let r = d.poll(|cx| s.poll_next_unpin(cx));
                let pend = wd::pendings() > before;
                match r {
                    Poll::Pending => { vio!("poll_immediate stream is pending"); return }
                    Poll::Ready(Some(Poll::Pending)) => { ensure!(pend, "poll_immediate reports pending although the future was not"); wd::fire_random(); }
                    Poll::Ready(Some(Poll::Ready(t))) => { ensure!(t.get() == v && n == 0, "wrong value"); n += 1 }
                    Poll::Ready(None) => break,
                }
                if d.polls > 100 { vio!("poll_immediate stream does not end"); return }
            }
            ensure!(n == 1, "poll_immediate stream ends without the value");
            drop(s);
            drop(d);
        }
        1 => {
            c.desc = "OptionFuture(None)".into();
            let f: future::OptionFuture<wd::Lf<Tok>> = None.into();
            let r = f.now_or_never();
            ensure!(matches!(r, Some(None)), "OptionFuture(None) is not ready with None");
        }
        2 => {
            c.desc = "always_ready".into();
            let mut f = future::always_ready(move || mon::tok(fx(v, 1)));
            for _ in 0..c.rng.range(1, 4) {
                let r = (&mut f).now_or_never();
                ensure!(r.as_ref().is_some_and(|t| t.get() == fx(v, 1)), "always_ready is not ready with its value");
            }
        }
        _ => {
            c.desc = "pending".into();
            let mut f = future::pending::<Tok>();
            for _ in 0..c.rng.range(1, 4) {
                ensure!(Pin::new(&mut f).now_or_never().is_none(), "pending() is ready");
            }
            let mut d = wd::Driver::new();
            let _ = d.poll(|cx| Pin::new(&mut f).poll(cx));
            ensure!(!wd::woken(), "pending() wakes its task");
        }
    }
    mon::check_released();
}
fn main() {
    let _: Option<R> = None;
    hv::main("C19", vec![
        hv::w("pipeline", 2_000_000, 40_000_000, pipeline),
        hv::w("dropped", 800_000, 15_000_000, dropped),
        hv::w("immediate", 800_000, 15_000_000, immediate),
        hv::w("fuse", 200_000, 2_000_000, fuse),
        hv::w("flatten_sink", 200_000, 2_000_000, flatten_sink),
        hv::w("odds", 200_000, 2_000_000, odds),
    ]);
}
