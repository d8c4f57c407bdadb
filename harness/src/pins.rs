//! Address-sensitive leaves nested directly (unboxed) in the library's types: a pinned leaf must
//! stay where it was first polled until it is dropped. Used natively and under Miri.
use futures::channel::{mpsc, oneshot};
use futures::future::{self, Either, FutureExt, TryFutureExt};
use futures::io::{
    AllowStdIo, AsyncBufReadExt, AsyncRead, AsyncReadExt, AsyncSeekExt, AsyncWrite, AsyncWriteExt, BufReader, BufWriter, Cursor, IoSlice, IoSliceMut, LineWriter,
};
use futures::lock::{BiLock, Mutex, MutexGuard};
use futures::sink::{self, Sink, SinkExt};
use futures::stream::{self, FuturesOrdered, FuturesUnordered, SelectAll, Stream, StreamExt, TryStreamExt};
use futures::task::{noop_waker_ref, ArcWake, FutureObj, LocalFutureObj};
use std::cell::Cell;
use std::collections::VecDeque;
use std::future::Future;
use std::marker::PhantomPinned;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll};

pub trait Dice {
    fn below(&mut self, n: usize) -> usize;
    fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
}
thread_local! {
    static BAD: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
}
fn bad(s: String) {
    BAD.with(|b| b.borrow_mut().push(s));
}
/// What went wrong since the latest call, including values not dropped exactly once.
pub fn verdict() -> Vec<String> {
    let l = LIVE.with(|l| l.replace(0));
    let mut v = BAD.with(|b| std::mem::take(&mut *b.borrow_mut()));
    if l != 0 {
        v.push(format!("{l} value(s) or leaves never dropped (leak), or dropped twice if negative"));
    }
    v
}
/// Heap value with a live count.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Val(Box<u32>);
pub fn val(x: u32) -> Val {
    LIVE.with(|l| l.set(l.get() + 1));
    Val(Box::new(x))
}
impl Clone for Val {
    fn clone(&self) -> Val {
        val(*self.0)
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
struct Anchor {
    at: Cell<usize>,
    what: &'static str,
    _p: PhantomPinned,
}
impl Anchor {
    fn new(what: &'static str) -> Anchor {
        LIVE.with(|l| l.set(l.get() + 1));
        Anchor { at: Cell::new(0), what, _p: PhantomPinned }
    }
    fn touch(&self) {
        let here = self as *const _ as usize;
        if self.at.get() == 0 {
            self.at.set(here);
        } else if self.at.get() != here {
            bad(format!("a pinned {} was moved between polls", self.what));
        }
    }
}
impl Drop for Anchor {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
        if self.at.get() != 0 && self.at.get() != self as *const _ as usize {
            bad(format!("a pinned {} was moved before it was dropped", self.what));
        }
    }
}
/// Future that is pending `left` times and wakes itself.
pub struct Pf<T> {
    left: usize,
    val: Option<T>,
    a: Anchor,
}
impl<T> Future for Pf<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        self.a.touch();
        // SAFETY: the anchor is not moved
        let t = unsafe { self.get_unchecked_mut() };
        if t.left > 0 {
            t.left -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        match t.val.take() {
            Some(v) => Poll::Ready(v),
            None => {
                bad("future polled after completion".into());
                Poll::Pending
            }
        }
    }
}
pub fn pf<T>(d: &mut dyn Dice, v: T) -> Pf<T> {
    Pf { left: d.below(3), val: Some(v), a: Anchor::new("future") }
}
fn pfr(d: &mut dyn Dice) -> Pf<Result<Val, Val>> {
    let v = res(d);
    pf(d, v)
}
/// Stream of items, pending in between.
pub struct Ps<T> {
    items: VecDeque<(usize, T)>,
    end: usize,
    over: bool,
    a: Anchor,
}
impl<T> Stream for Ps<T> {
    type Item = T;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        self.a.touch();
        // SAFETY: the anchor is not moved
        let t = unsafe { self.get_unchecked_mut() };
        let left = match t.items.front_mut() {
            Some((l, _)) => l,
            None => &mut t.end,
        };
        if *left > 0 {
            *left -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        match t.items.pop_front() {
            Some((_, v)) => Poll::Ready(Some(v)),
            None => {
                if t.over {
                    bad("stream polled after its end".into());
                }
                t.over = true;
                Poll::Ready(None)
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.items.len(), Some(self.items.len()))
    }
}
pub fn ps<T>(d: &mut dyn Dice, v: impl IntoIterator<Item = T>) -> Ps<T> {
    let items = v.into_iter().map(|x| (d.below(5) / 3, x)).collect();
    Ps { items, end: d.below(2), over: false, a: Anchor::new("stream") }
}
fn vs(d: &mut dyn Dice) -> Vec<Val> {
    (0..d.below(5)).map(|i| val(i as u32)).collect()
}
fn rs(d: &mut dyn Dice) -> Vec<Result<Val, Val>> {
    (0..d.below(5)).map(|i| if d.one_in(6) { Err(val(90)) } else { Ok(val(i as u32)) }).collect()
}
fn res(d: &mut dyn Dice) -> Result<Val, Val> {
    if d.one_in(3) { Err(val(9)) } else { Ok(val(1)) }
}
/// Sink collecting into a queue.
pub struct Pk {
    got: Vec<Val>,
    busy: usize,
    a: Anchor,
}
impl Sink<Val> for Pk {
    type Error = Val;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Val>> {
        self.a.touch();
        // SAFETY: the anchor is not moved
        let t = unsafe { self.get_unchecked_mut() };
        if t.busy > 0 {
            t.busy -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, item: Val) -> Result<(), Val> {
        self.a.touch();
        // SAFETY: the anchor is not moved
        let t = unsafe { self.get_unchecked_mut() };
        t.busy = *item.0 as usize % 3;
        t.got.push(item);
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Val>> {
        self.poll_ready(cx)
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Val>> {
        self.poll_ready(cx)
    }
}
pub fn pk() -> Pk {
    Pk { got: vec![], busy: 0, a: Anchor::new("sink") }
}
/// Reader and writer over scripted chunks.
pub struct Pr {
    data: Vec<u8>,
    pos: usize,
    out: Rc<std::cell::RefCell<Vec<u8>>>,
    tick: usize,
    a: Anchor,
}
fn pr(d: &mut dyn Dice, n: usize) -> (Pr, Vec<u8>, Rc<std::cell::RefCell<Vec<u8>>>) {
    let data: Vec<u8> = (0..n).map(|_| b"ab\ncd\xc3"[d.below(6)]).collect();
    let out: Rc<std::cell::RefCell<Vec<u8>>> = Default::default();
    (Pr { data: data.clone(), pos: 0, out: out.clone(), tick: d.below(4), a: Anchor::new("reader") }, data, out)
}
impl Pr {
    fn step(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Option<&mut Self> {
        self.a.touch();
        // SAFETY: the anchor is not moved
        let t = unsafe { self.get_unchecked_mut() };
        t.tick += 1;
        if t.tick % 4 == 0 {
            cx.waker().wake_by_ref();
            return None;
        }
        Some(t)
    }
}
impl AsyncRead for Pr {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        // a reader may look at the buffer it is given
        let sum: u32 = buf.iter().map(|b| *b as u32).sum();
        let Some(t) = self.step(cx) else { return Poll::Pending };
        let n = buf.len().min(t.data.len() - t.pos).min(1 + (t.tick + (sum & 1) as usize) % 5);
        buf[..n].copy_from_slice(&t.data[t.pos..t.pos + n]);
        t.pos += n;
        Poll::Ready(Ok(n))
    }
    fn poll_read_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &mut [IoSliceMut<'_>]) -> Poll<std::io::Result<usize>> {
        let Some(t) = self.step(cx) else { return Poll::Pending };
        let mut k = 0;
        for b in bufs {
            let n = b.len().min(t.data.len() - t.pos);
            b[..n].copy_from_slice(&t.data[t.pos..t.pos + n]);
            t.pos += n;
            k += n;
        }
        Poll::Ready(Ok(k))
    }
}
impl AsyncWrite for Pr {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        let Some(t) = self.step(cx) else { return Poll::Pending };
        let n = buf.len().min(1 + t.tick % 5);
        t.out.borrow_mut().extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        match self.step(cx) {
            None => Poll::Pending,
            Some(_) => Poll::Ready(Ok(())),
        }
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        self.poll_flush(cx)
    }
}
/// Polls up to `cut` times.
fn drive<F: Future>(mut f: Pin<&mut F>, cut: usize) -> Option<F::Output> {
    for _ in 0..cut {
        if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(noop_waker_ref())) {
            return Some(r);
        }
    }
    None
}
/// Runs (boxed or on the stack) to completion or drops midway.
fn fut<F: Future>(d: &mut dyn Dice, f: F) -> Option<F::Output> {
    let cut = if d.one_in(4) { d.below(6) } else { 2000 };
    let r = if d.one_in(2) {
        drive(Box::pin(f).as_mut(), cut)
    } else {
        let mut f = std::pin::pin!(f);
        drive(f, cut)
    };
    if cut == 2000 && r.is_none() {
        bad("not finished although every leaf makes progress".into());
    }
    r
}
fn str<S: Stream>(d: &mut dyn Dice, s: S) -> Option<Vec<S::Item>> {
    let mut s = Box::pin(s);
    let mut v = Vec::new();
    let cut = if d.one_in(4) { d.below(8) } else { 3000 };
    for _ in 0..cut {
        match s.as_mut().poll_next(&mut Context::from_waker(noop_waker_ref())) {
            Poll::Ready(Some(x)) => v.push(x),
            Poll::Ready(None) => return Some(v),
            Poll::Pending => {}
        }
    }
    if cut == 3000 {
        bad("not finished although every leaf makes progress".into());
    }
    None
}
struct Wk(Cell<u32>, Val);
// SAFETY: used on one thread only
unsafe impl Sync for Wk {}
unsafe impl Send for Wk {}
impl ArcWake for Wk {
    fn wake_by_ref(s: &Arc<Self>) {
        s.0.set(s.0.get() + 1);
    }
}
macro_rules! fut {
    ($d:expr, $e:expr) => {{
        let x = $e;
        fut($d, x)
    }};
}
macro_rules! str {
    ($d:expr, $e:expr) => {{
        let x = $e;
        str($d, x)
    }};
}
pub const GROUPS: usize = 12;
/// One random scenario of a group; returns its name.
pub fn scenario(d: &mut dyn Dice, group: usize) -> String {
    let k;
    match group {
        0 => {
            k = d.below(14);
            match k {
                0 => drop(fut!(d, { let (a, b) = (pf(d, val(1)), pf(d, val(2))); future::join(a, b) })),
                1 => drop(fut!(d, { let (a, b) = (pfr(d), pfr(d)); future::try_join(a, b) })),
                2 => {
                    let n = [0, 1, 3, 31][d.below(4)];
                    let v: Vec<_> = (0..n).map(|i| pf(d, val(i))).collect();
                    drop(fut!(d, future::join_all(v)))
                }
                3 => {
                    let n = [0, 1, 3, 31][d.below(4)];
                    let v: Vec<_> = (0..n).map(|_| pfr(d)).collect();
                    drop(fut!(d, future::try_join_all(v)))
                }
                4 => drop(fut!(d, { let (a, b) = (pf(d, val(1)), pf(d, val(2))); async move { futures::join!(a, b) } })),
                5 => drop(fut!(d, { let (a, b) = (pfr(d), pfr(d)); async move { futures::try_join!(a, b) } })),
                6 => {
                    let (a, b) = (pf(d, val(1)).fuse(), pf(d, val(2)).fuse());
                    drop(fut!(d, async move {
                        let mut a = std::pin::pin!(a); let mut b = std::pin::pin!(b);
                        let mut v = vec![];
                        loop {
                            futures::select! { x = a => v.push(x), x = b => v.push(x), complete => break }
                        }
                        v
                    }))
                }
                7 => {
                    let (a, b) = (Box::pin(pf(d, val(1))), Box::pin(pf(d, val(2))));
                    drop(fut!(d, future::select(a, b).then(|e| match e {
                        Either::Left((v, r)) => r.map(move |w| (v, w)).left_future(),
                        Either::Right((w, r)) => r.map(move |v| (v, w)).right_future(),
                    })))
                }
                8 => {
                    let v: Vec<_> = (0..1 + d.below(4)).map(|i| Box::pin(pf(d, val(i as u32)))).collect();
                    drop(fut!(d, future::select_all(v)))
                }
                9 => {
                    let v: Vec<_> = (0..1 + d.below(4)).map(|_| Box::pin(pfr(d))).collect();
                    drop(fut!(d, future::select_ok(v)))
                }
                10 => {
                    let m = future::maybe_done(pf(d, val(3)));
                    let mut m = std::pin::pin!(m);
                    let cut = d.below(5);
                    drive(m.as_mut(), cut);
                    let _ = m.as_mut().output_mut().map(|v| v.0.checked_add(1));
                    if d.one_in(2) {
                        drop(m.as_mut().take_output());
                    }
                }
                11 => {
                    let m = future::try_maybe_done(pfr(d));
                    let mut m = std::pin::pin!(m);
                    let cut = d.below(5);
                    drop(drive(m.as_mut(), cut));
                    drop(m.as_mut().take_output());
                }
                12 => drop(fut!(d, future::OptionFuture::from(if d.one_in(3) { None } else { Some(pf(d, val(1))) }))),
                _ => {
                    let (a, b) = (pfr(d), pfr(d));
                    let f = future::try_select(Box::pin(a), Box::pin(b)).map(|_| ());
                    fut!(d, f);
                }
            }
        }
        1 => {
            k = d.below(16);
            let f = pf(d, val(1));
            let g = pf(d, val(2));
            match k {
                0 => drop(fut!(d, f.map(|v| v.0.wrapping_add(1)))),
                1 => drop(fut!(d, f.then(move |v| g.map(move |w| (v, w))))),
                2 => drop(fut!(d, f.map(move |v| (v, g)).then(|(v, g)| g.map(move |w| (v, w))))),
                3 => drop(fut!(d, f.map(|v| pf(&mut Zero, v)).flatten())),
                4 => drop(str!(d, f.map(|v| ps(&mut Zero, [v])).flatten_stream())),
                5 => drop(fut!(d, f.fuse())),
                6 => drop(str!(d, f.into_stream())),
                7 => drop(fut!(d, AssertUnwindSafe(f).catch_unwind())),
                8 => drop(fut!(d, f.inspect(|v| assert!(*v.0 == 1)))),
                9 => drop(fut!(d, if d.one_in(2) { Either::Left(f) } else { Either::Right(g) })),
                10 => {
                    let (a, h) = future::abortable(f);
                    if d.one_in(2) {
                        h.abort();
                    }
                    drop(fut!(d, a));
                }
                11 => {
                    let (r, h) = f.remote_handle();
                    if d.one_in(3) {
                        drop(h);
                        fut!(d, r);
                    } else {
                        drop(fut!(d, future::join(r, h)));
                    }
                }
                12 => {
                    let s = f.shared();
                    let (a, b) = (s.clone(), s.clone());
                    let w = s.downgrade();
                    if d.one_in(2) {
                        drop(s);
                    }
                    drop(fut!(d, future::join(a, b)));
                    drop(w.and_then(|w| w.upgrade()));
                }
                13 => drop(fut!(d, future::poll_immediate(f))),
                14 => {
                    let mut e: Either<Pf<Val>, Pf<Val>> = if d.one_in(2) { Either::Left(f) } else { Either::Right(g) };
                    // never polled: may be moved
                    if let Either::Left(x) = &mut e {
                        x.left = 1;
                    }
                    let mut e = std::pin::pin!(e);
                    match e.as_mut().as_pin_mut() {
                        Either::Left(x) => drop(drive(x, 1)),
                        Either::Right(x) => drop(drive(x, 1)),
                    }
                    match e.as_ref().as_pin_ref() {
                        Either::Left(x) | Either::Right(x) => x.a.touch(),
                    }
                    drop(drive(e, 0));
                }
                _ => {
                    let l = future::lazy(|_| val(3));
                    drop(fut!(d, l.then(move |_| f)));
                }
            }
        }
        2 => {
            k = d.below(13);
            let f = pfr(d);
            let g = pfr(d);
            match k {
                0 => drop(fut!(d, f.and_then(move |_| g))),
                1 => drop(fut!(d, f.or_else(move |_| g))),
                2 => drop(fut!(d, f.map_ok(|v| v.clone()).map_err(|e| e.clone()))),
                3 => drop(fut!(d, f.map_ok(move |_| g).try_flatten())),
                4 => drop(str!(d, f.map_ok(|v| ps(&mut Zero, [Ok::<Val, Val>(v)])).try_flatten_stream())),
                5 => drop(fut!(d, f.unwrap_or_else(|e| e))),
                6 => drop(fut!(d, f.map_ok_or_else(|e| e, |v| v))),
                7 => drop(fut!(d, f.into_future())),
                8 => drop(fut!(d, f.err_into::<Val>().inspect_ok(|_| ()).inspect_err(|_| ()))),
                9 => drop(fut!(d, f.or_else(move |_| g).and_then(|v| pf(&mut Zero, Ok(v))))),
                10 => {
                    let mut k = Box::pin(f.map_ok(|_| pk()).map_err(|e| e).flatten_sink());
                    for i in 0..d.below(3) {
                        if let Some(Err(_)) = drive(Box::pin(k.send(val(i as u32))).as_mut(), d.below(9)) {
                            drop(k);
                            return "2.10".into();
                        }
                    }
                    drop(drive(Box::pin(k.close()).as_mut(), 9));
                }
                11 => drop(fut!(d, { let a = [f, g]; future::try_join_all(a) })),
                _ => drop(str!(d, f.into_stream().chain(g.into_stream()))),
            }
        }
        3 => {
            k = d.below(12);
            let v = vs(d);
            let n = 1 + d.below(3);
            match k {
                0 => drop(str!(d, v.into_iter().map(|x| pf(d, x)).collect::<FuturesUnordered<_>>())),
                1 => drop(str!(d, v.into_iter().map(|x| pf(d, x)).collect::<FuturesOrdered<_>>())),
                2 => drop(str!(d, { let f: Vec<_> = v.into_iter().map(|x| pf(d, x)).collect(); ps(d, f).buffered(n) })),
                3 => drop(str!(d, { let f: Vec<_> = v.into_iter().map(|x| pf(d, x)).collect(); ps(d, f).buffer_unordered(n) })),
                4 => drop(str!(d, { let f: Vec<_> = v.into_iter().map(|x| Ok::<_, Val>(pf(d, Ok::<Val, Val>(x)))).collect(); ps(d, f).try_buffered(n) })),
                5 => drop(str!(d, { let f: Vec<_> = v.into_iter().map(|x| Ok::<_, Val>(pf(d, Ok::<Val, Val>(x)))).collect(); ps(d, f).try_buffer_unordered(n) })),
                6 => drop(fut!(d, { let s = ps(d, v); s.for_each_concurrent(n, |x| pf(&mut Zero, x).map(drop)) })),
                7 | 8 => {
                    // the set's own iterators
                    let mut f: FuturesUnordered<_> = v.into_iter().map(|x| pf(d, x)).collect();
                    for _ in 0..d.below(6) {
                        match d.below(5) {
                            0 => f.push(pf(d, val(7))),
                            1 => {
                                for x in Pin::new(&mut f).iter_pin_mut() {
                                    x.a.touch();
                                }
                            }
                            2 => {
                                for x in Pin::new(&f).iter_pin_ref() {
                                    x.a.touch();
                                }
                            }
                            3 => drop(drive(Box::pin(f.next()).as_mut(), 2)),
                            _ => {
                                if d.one_in(4) {
                                    f.clear();
                                }
                            }
                        }
                    }
                }
                9 => {
                    // unpinned elements: iter, iter_mut, into_iter
                    let mut f: FuturesUnordered<_> = v.into_iter().map(|x| Box::pin(pf(d, x))).collect();
                    drop(drive(Box::pin(f.next()).as_mut(), d.below(3)));
                    for x in f.iter_mut() {
                        drop(drive(x.as_mut(), 0));
                    }
                    let a = f.iter().count();
                    if a != f.len() {
                        bad(format!("iter yields {a} of {} futures", f.len()));
                    }
                    let mut it = f.into_iter();
                    for _ in 0..d.below(3) {
                        drop(it.next());
                    }
                    // kept by value, then polled
                    for mut x in it {
                        drop(drive(x.as_mut(), 1));
                    }
                }
                10 => {
                    let mut s = SelectAll::new();
                    for _ in 0..d.below(4) {
                        let v = vs(d);
                        s.push(Box::pin(ps(d, v)));
                    }
                    drop(drive(Box::pin(s.next()).as_mut(), d.below(3)));
                    for x in s.iter_mut() {
                        let _ = x.size_hint();
                    }
                    if d.one_in(2) {
                        for x in s {
                            drop(x);
                        }
                    } else {
                        drop(str!(d, s));
                    }
                }
                _ => {
                    let n = d.below(3);
                    let ss: Vec<_> = (0..n).map(|_| { let v = vs(d); Box::pin(ps(d, v)) }).collect();
                    drop(str!(d, ps(d, ss).flatten_unordered(2)));
                }
            }
        }
        4 => {
            k = d.below(24);
            let v = vs(d);
            let s = ps(d, v);
            let v = vs(d);
            let t = ps(d, v);
            match k {
                0 => drop(str!(d, s.map(|v| v.clone()))),
                1 => drop(str!(d, s.then(|v| pf(&mut Zero, v)))),
                2 => drop(str!(d, s.filter(|v| pf(&mut Zero, *v.0 % 2 == 0)))),
                3 => drop(str!(d, s.filter_map(|v| pf(&mut Zero, if *v.0 % 2 == 0 { Some(v) } else { None })))),
                4 => drop(str!(d, s.chain(t))),
                5 => drop(str!(d, s.zip(t))),
                6 => drop(str!(d, s.skip_while(|v| pf(&mut Zero, *v.0 < 1)).take_while(|v| pf(&mut Zero, *v.0 < 3)))),
                7 => drop(str!(d, { let stop = pf(d, ()); s.take_until(stop) })),
                8 => drop(str!(d, s.scan(val(0), |mut st, v| { *st.0 += *v.0; let r = st.clone(); pf(&mut Zero, Some((st, r))) }))),
                9 => drop(str!(d, s.map(|v| ps(&mut Zero, [v.clone(), v])).flatten())),
                10 => drop(str!(d, s.flat_map(|v| ps(&mut Zero, [v])))),
                11 => drop(str!(d, s.chunks(2))),
                12 => drop(str!(d, s.ready_chunks(2))),
                13 => {
                    let p = s.peekable();
                    let mut p = std::pin::pin!(p);
                    for _ in 0..d.below(8) {
                        match d.below(5) {
                            0 => drop(drive(Box::pin(p.as_mut().peek()).as_mut(), 2)),
                            1 => {
                                if let Some(Some(v)) = drive(Box::pin(p.as_mut().peek_mut()).as_mut(), 2) {
                                    *v.0 += 1;
                                }
                            }
                            2 => drop(drive(Box::pin(p.as_mut().next_if(|v| *v.0 == 1)).as_mut(), 2)),
                            _ => {
                                if let Poll::Ready(None) = p.as_mut().poll_next(&mut Context::from_waker(noop_waker_ref())) {
                                    break;
                                }
                            }
                        }
                    }
                }
                14 => drop(str!(d, stream::select(s, t))),
                15 => drop(str!(d, stream::select_with_strategy(s, t, |l: &mut stream::PollNext| l.toggle()))),
                16 => drop(fut!(d, s.fold(val(0), |mut a, v| { *a.0 += *v.0; pf(&mut Zero, a) }))),
                17 => drop(fut!(d, s.for_each(|v| pf(&mut Zero, v).map(drop)))),
                18 => drop(fut!(d, s.collect::<Vec<_>>())),
                19 => drop(fut!(d, s.map(|v| (v.clone(), v)).unzip::<Val, Val, Vec<Val>, Vec<Val>>())),
                20 => drop(str!(d, AssertUnwindSafe(s).catch_unwind())),
                21 => drop(fut!(d, s.any(|v| pf(&mut Zero, *v.0 == 2)))),
                22 => drop(str!(d, s.enumerate().skip(1).map(|x| x.1).fuse().take(2))),
                _ => drop(fut!(d, s.count())),
            }
        }
        5 => {
            k = d.below(15);
            let v = rs(d);
            let s = ps(d, v);
            match k {
                0 => drop(str!(d, s.map_ok(|v| v).and_then(|v| pf(&mut Zero, Ok(v))))),
                1 => drop(str!(d, s.or_else(|e| pf(&mut Zero, if *e.0 > 50 { Ok(e) } else { Err(e) })))),
                2 => drop(str!(d, s.try_filter(|v| pf(&mut Zero, *v.0 % 2 == 0)))),
                3 => drop(str!(d, s.try_filter_map(|v| pf(&mut Zero, Ok(if *v.0 % 2 == 0 { Some(v) } else { None }))))),
                4 => drop(str!(d, s.try_skip_while(|v| pf(&mut Zero, Ok(*v.0 < 1))).try_take_while(|v| pf(&mut Zero, Ok(*v.0 < 3))))),
                5 => drop(fut!(d, s.try_collect::<Vec<_>>())),
                6 => drop(fut!(d, s.map_ok(|v| vec![v]).try_concat())),
                7 => drop(str!(d, s.map_ok(|v| ps(&mut Zero, [Ok::<Val, Val>(v)])).try_flatten())),
                8 => drop(str!(d, s.map_ok(|v| Box::pin(ps(&mut Zero, [Ok::<Val, Val>(v)]))).try_flatten_unordered(2))),
                9 => drop(str!(d, s.try_chunks(2))),
                10 => drop(str!(d, s.into_stream().err_into::<Val>().inspect_ok(|_| ()))),
                11 => {
                    let f = futures::stream::try_unfold(val(0), |mut v| {
                        *v.0 += 1;
                        pf(&mut Zero, if *v.0 == 3 { Ok(None) } else { Ok::<_, Val>(Some((v.clone(), v))) })
                    });
                    drop(str!(d, f));
                }
                12 => drop(str!(d, stream::unfold(val(0), |mut v| { *v.0 += 1; pf(&mut Zero, if *v.0 == 3 { None } else { Some((v.clone(), v)) }) }))),
                13 => {
                    let r = s.map_ok(|v| vec![*v.0 as u8; 3]).map_err(|_| std::io::Error::other("x")).into_async_read();
                    let mut out = Vec::new();
                    let mut r = Box::pin(r);
                    let f = r.read_to_end(&mut out);
                    drop(fut!(d, f));
                }
                _ => drop(str!(d, s.try_ready_chunks(2))),
            }
        }
        6 => {
            k = d.below(10);
            let v = vs(d);
            match k {
                0 => drop(fut!(d, { let s = ps(d, v); s.map(Ok).try_forward(pk()).map(|r| r.map_err(drop)) })),
                1 => drop(fut!(d, { let s = ps(d, v); s.map(Ok::<Val, Val>).try_forward(pk().buffer(2)) })),
                2 => drop(fut!(d, { let s = ps(d, v); s.map(Ok::<Val, Val>).try_forward(pk().with(|v: Val| pf(&mut Zero, Ok::<Val, Val>(v)))) })),
                3 => drop(fut!(d, { let s = ps(d, v); s.map(Ok::<Val, Val>).try_forward(pk().with_flat_map(|v: Val| ps(&mut Zero, [Ok::<Val, Val>(v.clone()), Ok(v)]))) })),
                4 => drop(fut!(d, { let s = ps(d, v); s.map(Ok::<Val, Val>).try_forward(pk().fanout(pk().sink_map_err(|e| e))) })),
                5 => {
                    let u = sink::unfold(val(0), |mut a: Val, v: Val| {
                        *a.0 += *v.0;
                        pf(&mut Zero, Ok::<Val, Val>(a))
                    });
                    drop(fut!(d, { let s = ps(d, v); s.map(Ok::<Val, Val>).try_forward(u) }))
                }
                6 => drop(fut!(d, { let s = ps(d, v); s.map(Ok::<Val, Val>).try_forward(if d.one_in(2) { pk().left_sink::<Pk>() } else { pk().right_sink::<Pk>() }) })),
                7 => {
                    let mut k = Box::pin(pk());
                    for x in v {
                        match d.below(3) {
                            0 => drop(drive(Box::pin(k.send(x)).as_mut(), d.below(4))),
                            1 => drop(drive(Box::pin(k.feed(x)).as_mut(), d.below(4))),
                            _ => drop(drive(Box::pin(k.flush()).as_mut(), d.below(4))),
                        }
                    }
                    drop(drive(Box::pin(k.close()).as_mut(), 5));
                }
                8 => {
                    let mut k = Box::pin(pk());
                    let s = ps(d, v);
                    drop(fut!(d, k.send_all(Box::pin(s.map(Ok)))));
                }
                _ => drop(fut!(d, { let s = ps(d, v); s.map(Ok::<Val, Val>).try_forward(sink::drain().sink_map_err(|e| match e {})) })),
            }
        }
        7 => {
            k = d.below(12);
            let n = d.below(40);
            let (r, data, out) = pr(d, n);
            let cap = 1 + d.below(9);
            let whole = |got: &[u8], done: bool, what: &str| {
                if done && got != data || !data.starts_with(got) {
                    bad(format!("{what} gives {got:?} of {data:?}"));
                }
            };
            match k {
                0 => {
                    let mut v = Vec::with_capacity(d.below(20));
                    let mut r = Box::pin(r);
                    let done = fut!(d, r.read_to_end(&mut v)).is_some();
                    whole(&v, done, "read_to_end");
                }
                1 => {
                    let mut v = Vec::new();
                    let mut r = Box::pin(BufReader::with_capacity(cap, r));
                    let done = fut!(d, r.read_to_end(&mut v)).is_some();
                    whole(&v, done, "BufReader read_to_end");
                }
                2 => {
                    let mut r = Box::pin(BufReader::with_capacity(cap, r));
                    let mut all = Vec::new();
                    for _ in 0..30 {
                        let mut b = [0u8; 7];
                        let (x, y) = b.split_at_mut(d.below(8));
                        let f = async {
                            let mut bufs = [IoSliceMut::new(x), IoSliceMut::new(y)];
                            r.read_vectored(&mut bufs).await
                        };
                        match drive(Box::pin(f).as_mut(), 10) {
                            Some(Ok(0)) => break,
                            Some(Ok(k)) => all.extend_from_slice(&b[..k]),
                            _ => break,
                        }
                    }
                    whole(&all, false, "read_vectored");
                }
                3 => {
                    let mut s = String::from("q");
                    let mut r = Box::pin(r);
                    let x = fut!(d, r.read_to_string(&mut s));
                    if let Some(Ok(_)) = x {
                        whole(&s.as_bytes()[1..], true, "read_to_string");
                    }
                }
                4 => {
                    let r = BufReader::with_capacity(cap, r);
                    let l = str!(d, r.lines());
                    drop(l);
                }
                5 => {
                    let mut r = Box::pin(BufReader::with_capacity(cap, r));
                    let mut all = Vec::new();
                    loop {
                        let mut v = Vec::new();
                        match drive(Box::pin(r.read_until(b'\n', &mut v)).as_mut(), 500) {
                            Some(Ok(0)) => break,
                            Some(Ok(_)) => all.extend(v),
                            _ => break,
                        }
                    }
                    whole(&all, true, "read_until");
                }
                6 => {
                    let (w, _, out2) = pr(d, 0);
                    let mut w = Box::pin(w);
                    let done = fut!(d, futures::io::copy(r, &mut w)).is_some();
                    whole(&out2.borrow(), done, "copy");
                }
                7 => {
                    let (w, _, out2) = pr(d, 0);
                    let mut w = Box::pin(w);
                    let done = fut!(d, futures::io::copy_buf(BufReader::with_capacity(cap, r), &mut w)).is_some();
                    whole(&out2.borrow(), done, "copy_buf");
                }
                8 => {
                    let mut w = Box::pin(BufWriter::with_capacity(cap, r));
                    for _ in 0..d.below(6) {
                        let c = data.len().min(d.below(9));
                        match d.below(3) {
                            0 => drop(drive(Box::pin(w.write_vectored(&[IoSlice::new(&data[..c]), IoSlice::new(&data[..c / 2])])).as_mut(), 6)),
                            1 => drop(drive(Box::pin(w.write_all(&data[..c])).as_mut(), d.below(20))),
                            _ => drop(drive(Box::pin(w.flush()).as_mut(), d.below(20))),
                        }
                    }
                    drop(drive(Box::pin(w.close()).as_mut(), 100));
                    drop(out);
                }
                9 => {
                    let mut w = Box::pin(LineWriter::with_capacity(cap, r));
                    for _ in 0..d.below(6) {
                        let c = data.len().min(d.below(9));
                        drop(drive(Box::pin(w.write_all(&data[..c])).as_mut(), d.below(20)));
                    }
                    drop(drive(Box::pin(w.close()).as_mut(), 100));
                }
                10 => {
                    let (r2, data2, _) = pr(d, 10);
                    let mut v = Vec::new();
                    let mut r = Box::pin(r.chain(r2).take(30));
                    if fut!(d, r.read_to_end(&mut v)).is_some() {
                        let mut want = data.clone();
                        want.extend(data2);
                        want.truncate(30);
                        if v != want {
                            bad(format!("chain.take gives {v:?}, expected {want:?}"));
                        }
                    }
                }
                _ => {
                    let mut c = Cursor::new(data.clone());
                    let mut b = [0u8; 5];
                    let _ = drive(Box::pin(c.seek(std::io::SeekFrom::Start(d.below(50) as u64))).as_mut(), 1);
                    let _ = drive(Box::pin(c.read(&mut b)).as_mut(), 1);
                    let _ = drive(Box::pin(c.write(&b)).as_mut(), 1);
                    let mut a = AllowStdIo::new(std::io::Cursor::new(data.clone()));
                    let mut v = Vec::new();
                    let _ = drive(Box::pin(a.read_to_end(&mut v)).as_mut(), 1);
                    whole(&v, true, "AllowStdIo");
                    let (rd, wr) = Cursor::new(data.clone()).split();
                    if d.one_in(2) {
                        let _ = rd.reunite(wr);
                    }
                    let mut w = futures::io::Window::new(data.clone());
                    let e = d.below(data.len() + 1);
                    w.set(d.below(e + 1)..e);
                    let _ = w.as_ref().len();
                    w.as_mut().fill(0);
                }
            }
        }
        8 => {
            k = d.below(5);
            let f = pf(d, val(4));
            match k {
                0 => {
                    let o: LocalFutureObj<'_, ()> = Box::new(f.map(drop)).into();
                    drop(fut!(d, o));
                }
                1 => {
                    let o: LocalFutureObj<'_, ()> = Box::pin(f.map(drop)).into();
                    drop(fut!(d, o));
                }
                2 => {
                    let mut f = std::pin::pin!(f);
                    let o: LocalFutureObj<'_, Val> = LocalFutureObj::new(f);
                    drop(fut!(d, o));
                }
                3 => {
                    let o: FutureObj<'_, ()> = Box::new(future::ready(())).into();
                    let o: LocalFutureObj<'_, ()> = o.into();
                    drop(fut!(d, o));
                    drop(f);
                }
                _ => {
                    let a = Arc::new(Wk(Cell::new(0), val(2)));
                    let mut ws = vec![futures::task::waker(a.clone())];
                    for _ in 0..d.below(8) {
                        match d.below(5) {
                            0 => ws.push(ws[0].clone()),
                            1 => ws[0].wake_by_ref(),
                            2 => {
                                if ws.len() > 1 {
                                    ws.pop().unwrap().wake()
                                }
                            }
                            3 => {
                                let r = futures::task::waker_ref(&a);
                                r.wake_by_ref();
                                if d.one_in(2) {
                                    ws.push((*r).clone());
                                }
                            }
                            _ => {
                                if ws.len() > 1 {
                                    ws.pop();
                                }
                            }
                        }
                    }
                    let n = ws.len() + 1;
                    if Arc::strong_count(&a) != n {
                        bad(format!("{} references, expected {n}", Arc::strong_count(&a)));
                    }
                    let _ = &a.1;
                }
            }
        }
        9 => {
            k = d.below(6);
            match k {
                0 => {
                    let m = Mutex::new((val(1), val(2)));
                    if let Some(g) = fut!(d, m.lock()) {
                        let mut g = MutexGuard::map(g, |x| &mut x.1);
                        *g.0 += 1;
                        assert!(m.try_lock().is_none());
                    }
                    let m = Arc::new(m);
                    if let Some(mut g) = m.try_lock_owned() {
                        *g.0 .0 += 1;
                        drop(m);
                    };
                }
                1 => {
                    let m = Mutex::new(val(1));
                    let g = m.try_lock();
                    let mut a = Box::pin(m.lock());
                    let mut b = Box::pin(m.lock());
                    drop(drive(a.as_mut(), 1));
                    drop(drive(b.as_mut(), 1));
                    if d.one_in(2) {
                        drop(g);
                        if d.one_in(2) {
                            drop(a);
                        }
                        drop(drive(b.as_mut(), 1));
                    } else {
                        drop(a);
                        drop(b);
                        drop(g);
                    }
                }
                2 => {
                    let (a, b) = BiLock::new(pf(d, val(3)));
                    for _ in 0..d.below(5) {
                        if let Some(mut g) = drive(Box::pin(a.lock()).as_mut(), 1) {
                            let done = drive(g.as_pin_mut(), 1);
                            assert!(drive(Box::pin(b.lock()).as_mut(), 1).is_none());
                            if done.is_some() {
                                break;
                            }
                        }
                    }
                }
                3 => {
                    let (tx, rx) = oneshot::channel::<Val>();
                    let mut rx = Box::pin(rx);
                    if d.one_in(2) {
                        drop(drive(rx.as_mut(), 1));
                    }
                    match d.below(3) {
                        0 => drop(tx),
                        1 => drop(tx.send(val(1))),
                        _ => {
                            rx.close();
                            drop(tx.send(val(2)));
                        }
                    }
                    drop(drive(rx.as_mut(), 1));
                }
                4 => {
                    let (tx, rx) = mpsc::channel::<Val>(d.below(3));
                    let mut txs: Vec<_> = vec![tx];
                    let mut rx = Some(rx);
                    for i in 0..d.below(12) as u32 {
                        let j = d.below(txs.len().max(1));
                        match d.below(7) {
                            0 if !txs.is_empty() => {
                                let t = txs[j].clone();
                                txs.push(t)
                            }
                            1 | 2 if !txs.is_empty() => drop(txs[j].try_send(val(i))),
                            3 if !txs.is_empty() => drop(drive(Box::pin(txs[j].send(val(i))).as_mut(), 1)),
                            4 => {
                                if let Some(r) = &mut rx {
                                    drop(drive(Box::pin(r.next()).as_mut(), 1))
                                }
                            }
                            5 if d.one_in(3) => drop(rx.take()),
                            6 if !txs.is_empty() && d.one_in(2) => drop(txs.swap_remove(j)),
                            _ => {}
                        }
                    }
                }
                _ => {
                    let (tx, mut rx) = mpsc::unbounded::<Val>();
                    for i in 0..d.below(8) as u32 {
                        match d.below(3) {
                            0 => drop(rx.try_recv()),
                            _ => drop(tx.unbounded_send(val(i))),
                        }
                    }
                    if d.one_in(2) {
                        rx.close();
                        drop(tx);
                    }
                }
            }
        }
        10 => {
            // executors
            use futures::executor::{block_on, block_on_stream, LocalPool};
            use futures::task::LocalSpawnExt;
            k = d.below(3);
            match k {
                0 => drop(block_on(pf(d, val(1)))),
                1 => {
                    let v = vs(d);
                    let mut it = block_on_stream(Box::pin(ps(d, v)));
                    for _ in 0..d.below(3) {
                        if it.next().is_none() {
                            break;
                        }
                    }
                }
                _ => {
                    let mut p = LocalPool::new();
                    let sp = p.spawner();
                    for i in 0..d.below(4) {
                        let f = pf(d, val(i as u32));
                        let sp2 = sp.clone();
                        let g = pf(d, val(9));
                        sp.spawn_local(f.map(move |v| {
                            drop(v);
                            let _ = sp2.spawn_local(g.map(drop));
                        }))
                        .unwrap();
                    }
                    match d.below(5) {
                        0 => p.run(),
                        1 => p.run_until_stalled(),
                        2 => drop(p.try_run_one()),
                        3 => drop(p.run_until(pf(d, val(3)))),
                        _ => {}
                    }
                }
            }
        }
        _ => {
            // split halves, reunite, select_all of boxed, stream::once / repeat / poll_fn
            k = d.below(5);
            match k {
                0 => {
                    let (a, b) = Duplex(VecDeque::new()).split::<Val>();
                    let (mut a, mut b) = (a, b);
                    for _ in 0..d.below(6) {
                        if d.one_in(2) {
                            drop(drive(Box::pin(a.send(val(3))).as_mut(), 2));
                        } else {
                            drop(drive(Box::pin(b.next()).as_mut(), 2));
                        }
                    }
                    if d.one_in(2) {
                        drop(a.reunite(b));
                    }
                }
                1 => drop(str!(d, stream::once(pf(d, val(1))))),
                2 => drop(str!(d, stream::iter([val(1)]).cycle().take(4))),
                3 => drop(str!(d, stream::repeat_with(|| val(2)).take(2).chain(stream::iter(vs(d))))),
                _ => {
                    let f = pf(d, val(1));
                    drop(fut!(d, async move {
                        let mut f = Box::pin(f);
                        let a = futures::poll!(&mut f);
                        match a {
                            Poll::Ready(v) => v,
                            Poll::Pending => f.await,
                        }
                    }));
                }
            }
        }
    }
    format!("{group}.{k}")
}
struct Duplex(VecDeque<Val>);
impl Stream for Duplex {
    type Item = Val;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Val>> {
        match self.0.pop_front() {
            Some(v) => Poll::Ready(Some(v)),
            None => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
}
impl Sink<Val> for Duplex {
    type Error = Val;
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Val>> {
        Poll::Ready(Ok(()))
    }
    fn start_send(mut self: Pin<&mut Self>, item: Val) -> Result<(), Val> {
        self.0.push_back(item);
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Val>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Val>> {
        Poll::Ready(Ok(()))
    }
}
/// Dice for closures: sometimes pending.
struct Zero;
thread_local!(static TURN: Cell<usize> = const { Cell::new(0) });
impl Dice for Zero {
    fn below(&mut self, n: usize) -> usize {
        TURN.with(|t| {
            t.set(t.get().wrapping_add(5));
            t.get() % 7 % n
        })
    }
}
impl Default for Val {
    fn default() -> Val {
        val(0)
    }
}
