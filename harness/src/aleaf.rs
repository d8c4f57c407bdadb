//! Leaf future for engine A: progress is made by `Ctl::fire` from other simulated
//! threads. Monitors polls after completion, overlapping polls and drops.
use crate::mon::{self, tok, Tok};
use crate::sched;
use crate::{logf, vio};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Default)]
pub struct St {
    pub id: u64,
    pub left: usize,
    waker: Option<Waker>,
    pub polls: u32,
    pub busy: bool,
    pub done: bool,
    pub dropped: bool,
    pub panic_at: u32,
    pub panicked: bool,
    pub fired: u32,
    /// an event happened since the latest poll began
    pub pending_event: bool,
    /// wake calls made on wakers of this leaf
    pub wakes: u32,
    /// a finished wake call asks for this many polls
    pub must: u32,
    asked: u32,
    waking: u32,
    /// set by workloads: which pool owns it, plus one
    pub pool: usize,
}
#[derive(Clone, Default)]
pub struct Ctl(pub Rc<RefCell<St>>);
impl Ctl {
    /// One event: makes progress and wakes the registered waker.
    pub fn fire(&self) {
        let w = {
            let mut s = self.0.borrow_mut();
            s.left = s.left.saturating_sub(1);
            s.fired += 1;
            s.pending_event = true;
            logf!("event on leaf {} ({} to go)", s.id, s.left);
            s.waker.take()
        };
        self.wake(w);
    }
    fn wake(&self, w: Option<Waker>) {
        if let Some(w) = w {
            let p = {
                let mut s = self.0.borrow_mut();
                s.wakes += 1;
                s.waking += 1;
                s.polls + 1
            };
            w.wake();
            let mut s = self.0.borrow_mut();
            s.asked = s.asked.max(p);
            s.waking -= 1;
            // a wake-up that overlaps with another one may leave the work to it
            if s.waking == 0 {
                s.must = s.asked;
            }
        }
    }
    /// Wake without progress.
    pub fn nudge(&self) {
        let w = sched::quiet(|| self.0.borrow().waker.clone());
        self.wake(w);
    }
    /// A clone of the registered waker, to be kept beyond the future's life.
    pub fn steal(&self) -> Option<Waker> {
        sched::quiet(|| self.0.borrow().waker.clone())
    }
    pub fn dropped(&self) -> bool {
        self.0.borrow().dropped
    }
    pub fn done(&self) -> bool {
        self.0.borrow().done
    }
    pub fn polls(&self) -> u32 {
        self.0.borrow().polls
    }
}
pub struct Leaf {
    pub ctl: Ctl,
    out: Option<Tok>,
    _held: Tok,
}
impl Unpin for Leaf {}
pub fn leaf(id: u64, events: usize) -> (Leaf, Ctl) {
    let ctl = Ctl::default();
    {
        let mut s = ctl.0.borrow_mut();
        s.id = id;
        s.left = events;
    }
    (Leaf { ctl: ctl.clone(), out: Some(tok(id)), _held: tok(id + 1_000_000) }, ctl)
}
impl Future for Leaf {
    type Output = Tok;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Tok> {
        let c = self.ctl.clone();
        {
            let mut s = c.0.borrow_mut();
            s.polls += 1;
            if s.busy {
                vio!("leaf {} polled by two tasks at once", s.id);
            }
            if s.done {
                vio!("leaf {} polled after completion", s.id);
                return Poll::Pending;
            }
            if s.panicked {
                vio!("leaf {} polled after it panicked", s.id);
                return Poll::Pending;
            }
            s.busy = true;
            s.pending_event = false;
            logf!("leaf {} polled (#{})", s.id, s.polls);
        }
        sched::point();
        let w = cx.waker().clone();
        let mut s = c.0.borrow_mut();
        if s.panic_at != 0 && s.polls >= s.panic_at {
            s.busy = false;
            s.panicked = true;
            drop(s);
            drop(w);
            panic!("leaf-panic");
        }
        if s.left == 0 {
            s.done = true;
            s.busy = false;
            let old = s.waker.take();
            drop(s);
            drop(old);
            drop(w);
            return Poll::Ready(self.out.take().unwrap());
        }
        let old = s.waker.replace(w);
        drop(s);
        drop(old);
        sched::point();
        c.0.borrow_mut().busy = false;
        Poll::Pending
    }
}
impl Drop for Leaf {
    fn drop(&mut self) {
        sched::point();
        let w = {
            let mut s = self.ctl.0.borrow_mut();
            if s.dropped {
                vio!("leaf {} dropped twice", s.id);
            }
            if s.busy {
                vio!("leaf {} dropped while it is being polled", s.id);
            }
            s.dropped = true;
            logf!("leaf {} dropped", s.id);
            s.waker.take()
        };
        drop(w);
        let _ = mon::violated();
    }
}
/// Stream for engine A: each item is released by a leaf; ends after the last item
/// (or after one more leaf).
pub struct GStream<T> {
    pub q: std::collections::VecDeque<(Leaf, T)>,
    pub tail: Option<Leaf>,
    pub id: u64,
    pub ended: bool,
    pub on_end: Option<Box<dyn FnOnce()>>,
}
impl<T> Unpin for GStream<T> {}
impl<T> futures::Stream for GStream<T> {
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        if self.ended {
            vio!("stream {} polled after its end", self.id);
            return Poll::Ready(None);
        }
        if let Some((l, _)) = self.q.front_mut() {
            return match Pin::new(l).poll(cx) {
                Poll::Ready(t) => {
                    drop(t);
                    Poll::Ready(self.q.pop_front().map(|x| x.1))
                }
                Poll::Pending => Poll::Pending,
            };
        }
        if let Some(l) = self.tail.as_mut() {
            match Pin::new(l).poll(cx) {
                Poll::Ready(t) => drop(t),
                Poll::Pending => return Poll::Pending,
            }
            self.tail = None;
        }
        self.ended = true;
        logf!("stream {} ended", self.id);
        if let Some(f) = self.on_end.take() {
            f()
        }
        Poll::Ready(None)
    }
}
