//! C07: BiLock, split stream/sink, split reader/writer.
use futures::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use futures::lock::BiLock;
use futures::{Sink, SinkExt, Stream, StreamExt};
use hv::mon::{self, tok, Tok};
use hv::sched::{self, Exec};
use hv::{ensure, logf, vio, Case};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

struct Val {
    a: u64,
    b: u64,
    _t: Tok,
}
fn bilock(c: &mut Case) {
    let rounds = c.rng.range(1, 4);
    let endp = c.rng.below(3);
    c.desc = format!("two handles x {rounds} rounds, then {}", ["reunite", "drop", "mixed"][endp]);
    let (a, b) = BiLock::new(Val { a: 0, b: 0, _t: tok(1) });
    ensure!(a.is_pair_of(&b), "handles of one BiLock are not a pair");
    let count = Rc::new(Cell::new(0u64));
    let holder = Rc::new(Cell::new(usize::MAX));
    let back: Rc<RefCell<Vec<BiLock<Val>>>> = Default::default();
    let mut r = c.rng.fork();
    let o = sched::run(&mut c.rng, || {
        for (i, l) in [a, b].into_iter().enumerate() {
            let (count, holder, back) = (count.clone(), holder.clone(), back.clone());
            let mut r = r.fork();
            sched::spawn(format!("task{i}"), move || {
                let mut ex = Exec::new(&mut r);
                for _ in 0..rounds {
                    let g = if r.chance(1, 5) {
                        match ex.poll(|cx| l.poll_lock(cx)) {
                            Poll::Ready(g) => Some(g),
                            Poll::Pending => None,
                        }
                    } else if r.bool() {
                        Some(ex.wait(|cx| l.poll_lock(cx)))
                    } else {
                        Some(ex.block_on(l.lock()))
                    };
                    let Some(mut g) = g else { continue };
                    let p = holder.replace(i);
                    ensure!(p == usize::MAX, "both handles hold the lock");
                    let x = g.a;
                    sched::point();
                    ensure!(g.a == g.b, "half-written state visible under the lock");
                    g.as_pin_mut().a = x + 1;
                    sched::point();
                    g.b += 1;
                    count.set(count.get() + 1);
                    holder.set(usize::MAX);
                    drop(g);
                }
                match endp {
                    0 => back.borrow_mut().push(l),
                    1 => drop(l),
                    _ => {
                        if i == 0 {
                            back.borrow_mut().push(l)
                        }
                    }
                }
            });
        }
    });
    c.nontrivial = o.switches > 2;
    c.count("critical_sections", count.get());
    c.count("scheduling_points", o.steps);
    sched::expect_done(&o);
    if o.deadlocked.is_empty() && o.failed.is_none() && !o.discarded && !mon::violated() {
        let mut v = std::mem::take(&mut *back.borrow_mut());
        if v.len() == 2 {
            let (x, y) = (v.pop().unwrap(), v.pop().unwrap());
            // a handle of another lock must be refused and both given back
            let (p, q) = BiLock::new(Val { a: 0, b: 0, _t: tok(2) });
            ensure!(!x.is_pair_of(&p), "handles of different locks are a pair");
            let x = match x.reunite(p) {
                Ok(_) => {
                    vio!("reunite of two different locks succeeded");
                    return;
                }
                Err(e) => {
                    ensure!(e.1.is_pair_of(&q) && e.0.is_pair_of(&y), "refused reunite gave back other handles");
                    e.0
                }
            };
            drop(q);
            match x.reunite(y) {
                Ok(val) => ensure!(val.a == count.get() && val.b == count.get(), "{} critical sections but counter {}", count.get(), val.a),
                Err(_) => vio!("reunite of a pair failed"),
            }
        }
        drop(v);
        mon::check_released();
    }
}

/// The object that is split: stream + sink + reader + writer, driven by an environment task.
#[derive(Default)]
struct Shared {
    incoming: VecDeque<u64>,
    in_done: bool,
    in_waker: Option<Waker>,
    room: usize,
    out_waker: Option<Waker>,
    got: Vec<u64>,
    flushed: usize,
    flush_calls: u64,
    closed: bool,
    need_flush_events: usize,
    busy: bool,
    fail_at: usize,
    ready: bool,
    refused: Option<u64>,
}
#[derive(Clone)]
struct Obj {
    s: Rc<RefCell<Shared>>,
    _t: Tok,
}
struct Busy(Rc<RefCell<Shared>>);
impl Obj {
    fn enter(&self) -> Busy {
        let mut s = self.s.borrow_mut();
        ensure!(!s.busy, "two operations of the split object overlap");
        s.busy = true;
        drop(s);
        sched::point();
        Busy(self.s.clone())
    }
    /// Stores the waker (cloned beforehand: cloning is a scheduling point, and check
    /// and registration must be one step).
    fn wait_in(&self, w: Waker) {
        let old = self.s.borrow_mut().in_waker.replace(w);
        drop(old);
    }
    fn wait_out(&self, w: Waker) {
        let old = self.s.borrow_mut().out_waker.replace(w);
        drop(old);
    }
    fn do_flush(&self, w: Waker) -> Poll<()> {
        let mut s = self.s.borrow_mut();
        s.flush_calls += 1;
        if s.need_flush_events > 0 {
            drop(s);
            self.wait_out(w);
            return Poll::Pending;
        }
        s.flushed = s.got.len();
        Poll::Ready(())
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        sched::point();
        self.0.borrow_mut().busy = false;
    }
}
impl Stream for Obj {
    type Item = u64;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u64>> {
        let _b = self.enter();
        let w = cx.waker().clone();
        let mut s = self.s.borrow_mut();
        if let Some(v) = s.incoming.pop_front() {
            return Poll::Ready(Some(v));
        }
        if s.in_done {
            return Poll::Ready(None);
        }
        drop(s);
        self.wait_in(w);
        Poll::Pending
    }
}
impl Sink<u64> for Obj {
    type Error = String;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), String>> {
        let _b = self.enter();
        let w = cx.waker().clone();
        if self.s.borrow().room > 0 {
            self.s.borrow_mut().ready = true;
            return Poll::Ready(Ok(()));
        }
        self.wait_out(w);
        Poll::Pending
    }
    fn start_send(self: Pin<&mut Self>, item: u64) -> Result<(), String> {
        let _b = self.enter();
        let mut s = self.s.borrow_mut();
        if !s.ready {
            vio!("start_send without a preceding successful poll_ready");
        }
        s.ready = false;
        s.room = s.room.saturating_sub(1);
        if s.got.len() + 1 == s.fail_at {
            s.fail_at = 0;
            s.refused = Some(item);
            return Err(format!("e{item}"));
        }
        s.got.push(item);
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), String>> {
        let _b = self.enter();
        let w = cx.waker().clone();
        self.do_flush(w).map(Ok)
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), String>> {
        let _b = self.enter();
        let w = cx.waker().clone();
        let p = self.do_flush(w);
        if p.is_ready() {
            self.s.borrow_mut().closed = true;
        }
        p.map(Ok)
    }
}
impl AsyncRead for Obj {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let _b = self.enter();
        let w = cx.waker().clone();
        let mut s = self.s.borrow_mut();
        if s.incoming.is_empty() && !s.in_done {
            drop(s);
            self.wait_in(w);
            return Poll::Pending;
        }
        let mut n = 0;
        while n < buf.len() {
            match s.incoming.pop_front() {
                Some(v) => buf[n] = v as u8,
                None => break,
            }
            n += 1;
        }
        Poll::Ready(Ok(n))
    }
    fn poll_read_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [io::IoSliceMut<'_>]) -> Poll<io::Result<usize>> {
        let _b = self.enter();
        let w = cx.waker().clone();
        let mut s = self.s.borrow_mut();
        if s.incoming.is_empty() && !s.in_done {
            drop(s);
            self.wait_in(w);
            return Poll::Pending;
        }
        let mut n = 0;
        for b in bufs {
            for x in b.iter_mut() {
                match s.incoming.pop_front() {
                    Some(v) => *x = v as u8,
                    None => return Poll::Ready(Ok(n)),
                }
                n += 1;
            }
        }
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Obj {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let _b = self.enter();
        let w = cx.waker().clone();
        let mut s = self.s.borrow_mut();
        if s.room == 0 {
            drop(s);
            self.wait_out(w);
            return Poll::Pending;
        }
        let n = buf.len().min(s.room);
        s.room -= n;
        s.got.extend(buf[..n].iter().map(|b| *b as u64));
        Poll::Ready(Ok(n))
    }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
        let _b = self.enter();
        let w = cx.waker().clone();
        let mut s = self.s.borrow_mut();
        if s.room == 0 {
            drop(s);
            self.wait_out(w);
            return Poll::Pending;
        }
        let mut n = 0;
        for b in bufs {
            let k = b.len().min(s.room);
            s.room -= k;
            s.got.extend(b[..k].iter().map(|b| *b as u64));
            n += k;
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let _b = self.enter();
        let w = cx.waker().clone();
        self.do_flush(w).map(Ok)
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let _b = self.enter();
        let w = cx.waker().clone();
        let p = self.do_flush(w);
        if p.is_ready() {
            self.s.borrow_mut().closed = true;
        }
        p.map(Ok)
    }
}
/// Environment: feeds input, makes room, completes flushes, in random order.
fn env(s: Rc<RefCell<Shared>>, mut r: hv::Rng, input: Vec<u64>, mut room: usize, mut flushes: usize) {
    let mut input: VecDeque<u64> = input.into();
    let mut in_done = false;
    while !in_done || room > 0 || flushes > 0 {
        sched::point();
        let w = {
            let mut g = s.borrow_mut();
            match r.below(3) {
                0 => {
                    let n = r.range(1, 3);
                    let mut any = false;
                    for _ in 0..n {
                        if let Some(x) = input.pop_front() {
                            g.incoming.push_back(x);
                            any = true;
                        }
                    }
                    if !any {
                        g.in_done = true;
                        in_done = true;
                    }
                    g.in_waker.take()
                }
                1 if room > 0 => {
                    let n = r.range(1, 3).min(room);
                    g.room += n;
                    room -= n;
                    g.out_waker.take()
                }
                _ => {
                    if flushes > 0 {
                        flushes -= 1;
                        g.need_flush_events -= 1;
                    }
                    g.out_waker.take()
                }
            }
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}
fn new_obj(c: &mut Case, out_n: usize) -> (Obj, Rc<RefCell<Shared>>, usize) {
    let s: Rc<RefCell<Shared>> = Default::default();
    let flushes = c.rng.below(3);
    s.borrow_mut().need_flush_events = flushes;
    s.borrow_mut().room = c.rng.below(out_n + 1);
    (Obj { s: s.clone(), _t: tok(1) }, s, flushes)
}
fn finish(c: &mut Case, o: &sched::Outcome) -> bool {
    c.nontrivial = o.switches > 3;
    c.count("scheduling_points", o.steps);
    c.count("context_switches", o.switches);
    sched::expect_done(o);
    o.deadlocked.is_empty() && o.failed.is_none() && !o.discarded && !o.livelock && !mon::violated()
}
fn split_sink(c: &mut Case) {
    let nin = c.rng.below(4) as u64;
    let nout = c.rng.below(5) as u64;
    let (obj, s, flushes) = new_obj(c, nout as usize);
    let fail = c.rng.chance(1, 6) && nout > 0;
    if fail {
        s.borrow_mut().fail_at = c.rng.range(1, nout as usize);
    }
    c.desc = format!("split stream+sink: {nin} items in, {nout} items out, send failure: {fail}");
    let (tx, rx) = StreamExt::split(obj);
    ensure!(tx.is_pair_of(&rx) && rx.is_pair_of(&tx), "split halves are not a pair");
    let back: Rc<RefCell<(Option<_>, Option<_>)>> = Rc::new(RefCell::new((None, None)));
    let got: Rc<RefCell<Vec<u64>>> = Default::default();
    let errs: Rc<Cell<usize>> = Default::default();
    let oks: Rc<RefCell<Vec<u64>>> = Default::default();
    let mut r = c.rng.fork();
    let o = sched::run(&mut c.rng, || {
        let room = nout as usize + 1 - s.borrow().room.min(nout as usize + 1);
        let (s1, r1) = (s.clone(), r.fork());
        sched::spawn("env", move || env(s1, r1, (100..100 + nin).collect(), room + 1, flushes));
        let (b1, g1, mut r1) = (back.clone(), got.clone(), r.fork());
        let mut rx = rx;
        sched::spawn("reader", move || {
            let mut ex = Exec::new(&mut r1);
            while let Some(x) = ex.wait(|cx| Pin::new(&mut rx).poll_next(cx)) {
                g1.borrow_mut().push(x);
            }
            b1.borrow_mut().1 = Some(rx);
        });
        let (b2, s2, mut r2) = (back.clone(), s.clone(), r.fork());
        let (errs, oks) = (errs.clone(), oks.clone());
        let mut tx = tx;
        sched::spawn("writer", move || {
            let mut ex = Exec::new(&mut r2);
            for i in 0..nout {
                let res = match r2.below(3) {
                    0 => ex.block_on(tx.feed(i)),
                    1 => ex.block_on(tx.send(i)),
                    _ => {
                        let a = ex.wait(|cx| Pin::new(&mut tx).poll_ready(cx));
                        match a {
                            Ok(()) => Pin::new(&mut tx).start_send(i),
                            e => e,
                        }
                    }
                };
                if res.is_err() {
                    errs.set(errs.get() + 1);
                } else {
                    oks.borrow_mut().push(i);
                }
                if r2.chance(1, 4) {
                    if ex.block_on(tx.flush()).is_err() {
                        errs.set(errs.get() + 1);
                    } else {
                        let g = s2.borrow();
                        ensure!(g.flushed == g.got.len(), "flush returned but {} of {} items of the object are flushed", g.flushed, g.got.len());
                        ensure!(fail || g.got.len() as u64 == i + 1, "flush returned but only {} of {} items reached the object", g.got.len(), i + 1);
                    }
                }
            }
            if ex.block_on(tx.close()).is_err() {
                errs.set(errs.get() + 1);
                let _ = ex.block_on(tx.close());
            }
            b2.borrow_mut().0 = Some(tx);
        });
    });
    if finish(c, &o) {
        let g = s.borrow();
        ensure!(*got.borrow() == (100..100 + nin).collect::<Vec<_>>(), "reader half got {:?}", got.borrow());
        if fail {
            // exactly one item was refused by the object; the others accepted by the half arrive in order
            ensure!(errs.get() >= 1, "the object's error never reached the sink half");
            let exp: Vec<u64> = oks.borrow().iter().copied().filter(|x| Some(*x) != g.refused).collect();
            ensure!(g.got == exp, "object received {:?}, the half accepted {:?}, refused {:?}", g.got, oks.borrow(), g.refused);
        } else {
            ensure!(g.got == (0..nout).collect::<Vec<_>>(), "object received {:?} instead of 0..{nout}", g.got);
            ensure!(errs.get() == 0, "sink half failed without reason");
        }
        ensure!(g.closed && g.flushed == g.got.len(), "close did not flush and close the object");
        let (tx, rx) = back.take();
        let (tx, rx) = (tx.unwrap(), rx.unwrap());
        drop(g);
        if c.rng.bool() {
            match tx.reunite(rx) {
                Ok(o) => ensure!(Rc::ptr_eq(&o.s, &s), "reunite returned another object"),
                Err(_) => vio!("reunite of matching halves failed"),
            }
        } else {
            match rx.reunite(tx) {
                Ok(o) => ensure!(Rc::ptr_eq(&o.s, &s), "reunite returned another object"),
                Err(_) => vio!("reunite of matching halves failed"),
            }
        }
        release(&s);
    }
}
fn release(s: &Rc<RefCell<Shared>>) {
    let (a, b) = {
        let mut g = s.borrow_mut();
        (g.in_waker.take(), g.out_waker.take())
    };
    drop((a, b));
    if !mon::violated() {
        mon::check_released();
    }
}
fn split_io(c: &mut Case) {
    let nin = c.rng.below(6) as u64;
    let nout = c.rng.below(6) as u64;
    let (obj, s, flushes) = new_obj(c, nout as usize);
    c.desc = format!("split reader+writer: {nin} bytes in, {nout} bytes out");
    let (rx, tx) = AsyncReadExt::split(obj);
    ensure!(tx.is_pair_of(&rx) && rx.is_pair_of(&tx), "split halves are not a pair");
    let back: Rc<RefCell<(Option<_>, Option<_>)>> = Rc::new(RefCell::new((None, None)));
    let got: Rc<RefCell<Vec<u8>>> = Default::default();
    let mut r = c.rng.fork();
    let o = sched::run(&mut c.rng, || {
        let room = nout as usize + 1 - s.borrow().room.min(nout as usize + 1);
        let (s1, r1) = (s.clone(), r.fork());
        sched::spawn("env", move || env(s1, r1, (100..100 + nin).collect(), room + 1, flushes));
        let (b1, g1, mut r1) = (back.clone(), got.clone(), r.fork());
        let mut rx = rx;
        sched::spawn("reader", move || {
            let mut ex = Exec::new(&mut r1);
            loop {
                let mut buf = [0u8; 4];
                let k = r1.range(1, 4);
                let n = if r1.bool() {
                    ex.wait(|cx| Pin::new(&mut rx).poll_read(cx, &mut buf[..k])).unwrap()
                } else {
                    let (a, b) = buf.split_at_mut(1);
                    ex.wait(|cx| Pin::new(&mut rx).poll_read_vectored(cx, &mut [io::IoSliceMut::new(a), io::IoSliceMut::new(b)])).unwrap()
                };
                if n == 0 {
                    break;
                }
                g1.borrow_mut().extend_from_slice(&buf[..n]);
            }
            b1.borrow_mut().0 = Some(rx);
        });
        let (b2, s2, mut r2) = (back.clone(), s.clone(), r.fork());
        let mut tx = tx;
        sched::spawn("writer", move || {
            let mut ex = Exec::new(&mut r2);
            let data: Vec<u8> = (0..nout as u8).collect();
            let mut at = 0;
            while at < data.len() {
                let k = r2.range(1, data.len() - at);
                let n = if r2.bool() {
                    ex.wait(|cx| Pin::new(&mut tx).poll_write(cx, &data[at..at + k])).unwrap()
                } else {
                    let (a, b) = data[at..].split_at(k);
                    ex.wait(|cx| Pin::new(&mut tx).poll_write_vectored(cx, &[io::IoSlice::new(a), io::IoSlice::new(b)])).unwrap()
                };
                at += n;
                if r2.chance(1, 4) {
                    ex.block_on(tx.flush()).unwrap();
                    let g = s2.borrow();
                    ensure!(g.flushed == at, "flush returned with {} of {at} bytes flushed", g.flushed);
                }
            }
            ex.block_on(tx.close()).unwrap();
            b2.borrow_mut().1 = Some(tx);
        });
    });
    if finish(c, &o) {
        {
            let g = s.borrow();
            ensure!(*got.borrow() == (100..100 + nin as u8).collect::<Vec<_>>(), "reader half got {:?}", got.borrow());
            ensure!(g.got == (0..nout).collect::<Vec<_>>(), "object received {:?} instead of 0..{nout}", g.got);
            ensure!(g.closed, "close did not reach the object");
        }
        let (rx, tx) = back.take();
        let (tx, rx) = (tx.unwrap(), rx.unwrap());
        if c.rng.bool() {
            // wrong partner first
            let s2: Rc<RefCell<Shared>> = Default::default();
            let (rx2, tx2) = AsyncReadExt::split(Obj { s: s2, _t: tok(9) });
            ensure!(!tx.is_pair_of(&rx2), "unrelated halves are a pair");
            match tx.reunite(rx2) {
                Ok(_) => vio!("reunite of unrelated halves succeeded"),
                Err(e) => {
                    ensure!(e.0.is_pair_of(&tx2) && e.1.is_pair_of(&rx), "refused reunite gave back other halves");
                    ensure!(e.1.reunite(rx).is_ok(), "reunite of matching halves failed");
                }
            }
        } else {
            match rx.reunite(tx) {
                Ok(o) => ensure!(Rc::ptr_eq(&o.s, &s), "reunite returned another object"),
                Err(_) => vio!("reunite of matching halves failed"),
            }
        }
        release(&s);
    }
    logf!("done");
}
fn main() {
    hv::main("C07", vec![
        hv::w("bilock", 400_000, 15_000_000, bilock),
        hv::w("split_sink", 200_000, 6_000_000, split_sink),
        hv::w("split_io", 200_000, 6_000_000, split_io),
    ]);
}
