//! Drives a sink stack through every sending operation.
use crate::mon::{self, tok, Tok};
use crate::sinks::{Stack, Trc};
use crate::world as wd;
use crate::{ensure, vio, Case};
use futures::stream::StreamExt;
use futures::{Sink, SinkExt, Stream, TryStreamExt};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub enum Out {
    Ok,
    Err(u64),
    Cancelled,
    Bad,
}
/// Runs an operation to its end, or drops it after a few polls.
pub fn op<F: Future<Output = Result<(), Tok>>>(d: &mut wd::Driver, f: F, cancel: Option<usize>, mut after: impl FnMut(bool)) -> Out {
    let mut f = Box::pin(f);
    let mut n = 0;
    loop {
        if cancel == Some(n) {
            return Out::Cancelled;
        }
        n += 1;
        match d.poll(|cx| f.as_mut().poll(cx)) {
            Poll::Ready(Ok(())) => return Out::Ok,
            Poll::Ready(Err(e)) => return Out::Err(e.get()),
            Poll::Pending => {
                after(true);
                if d.polls > d.max_polls {
                    vio!("not finished after {} polls although every leaf makes progress", d.max_polls);
                }
                if mon::violated() {
                    return Out::Bad;
                }
                if !d.idle() {
                    if !mon::violated() {
                        vio!("lost wake-up: pending, its latest waker not woken, and no event outstanding");
                    }
                    return Out::Bad;
                }
            }
        }
    }
}
/// Source whose last poll is remembered.
pub struct Src<S> {
    pub s: Pin<Box<S>>,
    pub pend: Rc<Cell<Option<u64>>>,
    pub tr: Trc,
}
impl<S: Stream> Stream for Src<S> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        let r = self.s.as_mut().poll_next(cx);
        let fl = self.tr.borrow().flush_calls;
        self.pend.set(if r.is_pending() { Some(fl) } else { None });
        r
    }
}
pub fn exercise(c: &mut Case, p: Stack) {
    let (mut s, tr, once) = (p.s, p.tr, p.once);
    c.desc = format!("{:?}", p.desc);
    let mut d = wd::Driver::new();
    let mut next = 1u64;
    let steps = 1 + c.rng.below(8);
    let mut alive = true;
    for _ in 0..steps {
        let before = tr.borrow().items.len();
        let errs = tr.borrow().errs.len();
        let cancel = if c.rng.chance(1, 6) { Some(c.rng.below(3)) } else { None };
        let kind = c.rng.below(6);
        next += 1;
        let v = next;
        let mut src_err = None;
        let mut want: Vec<u64> = Vec::new();
        let what;
        let r = match kind {
            0 => {
                what = "send";
                want.push(v);
                op(&mut d, s.send(tok(v)), cancel, |_| {})
            }
            1 | 2 => {
                what = "feed";
                want.push(v);
                op(&mut d, s.feed(tok(v)), cancel, |_| {})
            }
            3 => {
                what = "flush";
                op(&mut d, s.flush(), cancel, |_| {})
            }
            4 => {
                what = "send_all";
                let k = c.rng.below(5) as u64;
                let bad = if c.rng.chance(1, 5) { c.rng.below(5) as u64 } else { 99 };
                let items: Vec<Result<Tok, Tok>> = (0..k).map(|i| if i == bad { Err(tok(700_000 + i)) } else { Ok(tok(v + i)) }).collect();
                next += k;
                for i in 0..k {
                    if i == bad {
                        src_err = Some(700_000 + i);
                        break;
                    }
                    want.push(v + i);
                }
                let pend = Rc::new(Cell::new(None));
                let src = Src { s: Box::pin(wd::stream(items)), pend: pend.clone(), tr: tr.clone() };
                let t2 = tr.clone();
                op(&mut d, s.send_all(src), cancel, move |_| {
                    if let Some(fl) = pend.get() {
                        ensure!(t2.borrow().flush_calls > fl, "send_all: its source is pending and the sink is not being flushed");
                    }
                })
            }
            _ => {
                what = "poll_ready";
                let mut granted = false;
                let r = op(&mut d, futures::future::poll_fn(|cx| s.as_mut().poll_ready(cx)), cancel, |_| {});
                if matches!(r, Out::Ok) {
                    granted = true;
                }
                if granted && c.rng.chance(2, 3) {
                    want.push(v);
                    match s.as_mut().start_send(tok(v)) {
                        Ok(()) => Out::Ok,
                        Err(e) => Out::Err(e.get()),
                    }
                } else {
                    r
                }
            }
        };
        c.count(what, 1);
        let t = tr.borrow();
        let got = t.items[before..].to_vec();
        let new_errs = t.errs[errs..].to_vec();
        match r {
            Out::Bad => return,
            Out::Cancelled => {
                ensure!(want.starts_with(&got), "{what} (dropped early): gave {got:?} to the sink, expected a prefix of {want:?}");
                ensure!(new_errs.is_empty(), "{what}: swallowed {new_errs:?}");
            }
            Out::Ok => {
                ensure!(got == want, "{what}: gave {got:?} to the sink, expected {want:?}");
                ensure!(new_errs.is_empty(), "{what}: reports success although the sink failed with {new_errs:?}");
                ensure!(src_err.is_none(), "{what}: reports success although its source failed with {src_err:?}");
                if kind == 0 || kind == 3 || kind == 4 {
                    ensure!(t.flushed == t.items.len(), "{what}: complete but the sink was not flushed after its last item");
                }
                ensure!(t.close_at.is_none(), "{what}: closes the sink");
            }
            Out::Err(e) => {
                ensure!(want.starts_with(&got), "{what}: gave {got:?} to the sink, expected a prefix of {want:?}");
                if Some(e) == src_err && new_errs.is_empty() {
                    ensure!(got == want, "{what}: source error {e} reported after {got:?} of {want:?}");
                } else {
                    ensure!(new_errs == [e], "{what}: fails with {e}, the sink's errors were {new_errs:?}");
                    if once || e % 1_000_000 >= 900_000 {
                        alive = false;
                    }
                }
            }
        }
        if !alive || mon::violated() {
            break;
        }
    }
    if alive && !mon::violated() {
        let errs = tr.borrow().errs.len();
        let before = tr.borrow().items.len();
        let mut want = Vec::new();
        let mut src_err = None;
        let kind = c.rng.below(4);
        let (what, r) = match kind {
            0 => {
                // dropped with whatever it holds
                drop(s);
                ("drop", None)
            }
            1 => {
                let r = op(&mut d, s.close(), None, |_| {});
                drop(s);
                ("close", Some(r))
            }
            2 => {
                let k = c.rng.below(5) as u64;
                want.extend((0..k).map(|i| next + 1 + i));
                let pend = Rc::new(Cell::new(None));
                let src = Src { s: Box::pin(wd::stream(want.iter().map(|v| tok(*v)).collect::<Vec<_>>())), pend: pend.clone(), tr: tr.clone() };
                let t2 = tr.clone();
                let r = op(&mut d, src.forward(s), None, move |_| {
                    if let Some(fl) = pend.get() {
                        ensure!(t2.borrow().flush_calls > fl, "forward: its source is pending and the sink is not being flushed");
                    }
                });
                ("forward", Some(r))
            }
            _ => {
                let k = c.rng.below(5) as u64;
                let bad = if c.rng.chance(1, 3) { c.rng.below(4) as u64 } else { 99 };
                for i in 0..k {
                    if i == bad {
                        src_err = Some(700_000 + i);
                        break;
                    }
                    want.push(next + 1 + i);
                }
                let items: Vec<Result<Tok, Tok>> = (0..k).map(|i| if i == bad { Err(tok(700_000 + i)) } else { Ok(tok(next + 1 + i)) }).collect();
                ("try_forward", Some(op(&mut d, wd::stream(items).try_forward(s), None, |_| {})))
            }
        };
        c.count(what, 1);
        let t = tr.borrow();
        let got = t.items[before..].to_vec();
        let new_errs = t.errs[errs..].to_vec();
        match r {
            None => {}
            Some(Out::Ok) => {
                ensure!(got == want, "{what}: gave {got:?} to the sink, expected {want:?}");
                ensure!(t.closed, "{what}: complete but the sink is not closed");
                ensure!(new_errs.is_empty() && src_err.is_none(), "{what}: reports success in spite of {new_errs:?} {src_err:?}");
            }
            Some(Out::Err(e)) => {
                ensure!(want.starts_with(&got), "{what}: gave {got:?} to the sink, expected a prefix of {want:?}");
                if Some(e) == src_err && new_errs.is_empty() {
                    ensure!(got == want, "{what}: source error {e} reported after {got:?} of {want:?}");
                } else {
                    ensure!(new_errs == [e], "{what}: fails with {e}, the sink's errors were {new_errs:?}");
                }
            }
            Some(_) => return,
        }
        c.nontrivial = !t.items.is_empty();
    } else {
        drop(s);
        c.nontrivial = true;
    }
    drop(d);
    drop(tr);
    mon::check_released();
}
