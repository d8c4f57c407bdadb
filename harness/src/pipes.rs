//! Random stream pipelines over scripted leaves, with an executable reference model.
//!
//! Every stage is wrapped in a monitor that checks, at every step, what the stage
//! reports about itself (size_hint, is_terminated) against what it then does, and that
//! nobody polls it after its end.
use crate::mon::{self, Tok};
use crate::rng::mix;
use crate::world as wd;
use crate::{ensure, logf, vio, Case};
use futures::stream::{self, FusedStream};
use futures::{FutureExt, Stream, StreamExt};
use std::cell::{Cell, RefCell};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub type BS<T> = Pin<Box<dyn FusedStream<Item = T>>>;
/// What a case wants to have checked at every stage.
#[derive(Clone, Copy, Default)]
pub struct Watch {
    pub hints: bool,
    pub terms: bool,
}
pub struct Stage<T> {
    inner: BS<T>,
    name: &'static str,
    watch: Watch,
    hints: Vec<(usize, usize, Option<usize>)>,
    yielded: usize,
    ended: Rc<Cell<bool>>,
    said_over: bool,
    /// is_terminated must be true once the end was returned
    fused_after_end: bool,
}
impl<T> Stage<T> {
    fn look(&mut self, when: &str) {
        if self.watch.hints {
            let (lo, hi) = self.inner.size_hint();
            logf!("    {} {when}: size_hint {lo}..{hi:?} after {} items", self.name, self.yielded);
            if self.hints.last() != Some(&(self.yielded, lo, hi)) {
                self.hints.push((self.yielded, lo, hi));
            }
        }
        if self.watch.terms && self.inner.is_terminated() {
            self.said_over = true;
        }
    }
    fn judge(&self) {
        for (at, lo, hi) in &self.hints {
            let rest = self.yielded - at;
            if let Some(hi) = hi {
                ensure!(rest <= *hi, "{}: size_hint upper bound {hi} but at least {rest} more items came", self.name);
            }
            if self.ended.get() {
                ensure!(*lo <= rest, "{}: size_hint lower bound {lo} but only {rest} more items came", self.name);
            }
        }
    }
}
impl<T> Stream for Stage<T> {
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        if self.ended.get() {
            vio!("{} polled after it had ended", self.name);
            return Poll::Ready(None);
        }
        self.look("before a poll");
        let r = self.inner.as_mut().poll_next(cx);
        if matches!(r, Poll::Ready(Some(_))) {
            self.yielded += 1;
            if self.said_over {
                vio!("{} yields an item after it reported termination", self.name);
            }
        }
        if matches!(r, Poll::Ready(None)) {
            self.ended.set(true);
            if self.watch.terms && self.fused_after_end {
                let n = self.name;
                ensure!(self.inner.is_terminated(), "{n} does not report termination after its end");
            }
        }
        self.look("after a poll");
        if self.ended.get() && self.watch.terms && self.inner.is_terminated() && matches!(self.name, "fuse" | "take" | "select" | "stream_select!" | "zip" | "poll_immediate" | "mpsc" | "FuturesOrdered" | "once" | "peekable" | "chunks") {
            // these can be polled after their end, and leave their source alone
            let again = self.inner.as_mut().poll_next(cx);
            ensure!(!matches!(again, Poll::Ready(Some(_))), "{} yields an item after its end", self.name);
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.inner.size_hint()
    }
}
impl<T> FusedStream for Stage<T> {
    fn is_terminated(&self) -> bool {
        self.inner.is_terminated()
    }
}
impl<T> Drop for Stage<T> {
    fn drop(&mut self) {
        if !std::thread::panicking() {
            self.judge();
        }
    }
}
/// Wraps a stream as a monitored stage.
pub fn stage<T: 'static>(s: impl FusedStream<Item = T> + 'static, name: &'static str, w: Watch, fused_after_end: bool) -> (BS<T>, Rc<Cell<bool>>) {
    let ended = Rc::new(Cell::new(false));
    (Box::pin(Stage { inner: Box::pin(s), name, watch: w, hints: vec![], yielded: 0, ended: ended.clone(), said_over: false, fused_after_end }), ended)
}
pub type Calls = Rc<RefCell<Vec<u64>>>;
struct CallCheck {
    name: &'static str,
    log: Calls,
    want: Vec<u64>,
    ended: Rc<Cell<bool>>,
    ordered: bool,
}
/// A pipeline under construction with its model.
pub struct Pipe<T> {
    pub s: BS<T>,
    pub model: Vec<T2>,
    pub ordered: bool,
    pub desc: Vec<String>,
    pub w: Watch,
    /// no stage keeps work of its own running beside the one awaited
    pub strict: bool,
    calls: Vec<CallCheck>,
}
pub type T2 = Result<u64, u64>;
/// Deterministic functions of a value used both by closures and by the model.
pub fn pr(v: u64, k: u64, m: u64) -> bool {
    wd::hazard("predicate");
    mix(v, k) % m != 0
}
pub fn fx(v: u64, k: u64) -> u64 {
    wd::hazard("closure");
    mix(v, k) % 100_000
}
/// An asynchronous result: ready at once or a scripted future.
pub fn later<T: 'static>(v: T) -> Pin<Box<dyn futures::future::FusedFuture<Output = T>>> {
    Box::pin(wd::fut(v).fuse())
}
/// Leaf source: scripted, or one of the library's own constructors.
pub fn source(c: &mut Case, w: Watch) -> (BS<Tok>, Vec<u64>, &'static str) {
    let n = *c.rng.pick(&[0usize, 1, 2, 3, 4, 5, 6, 9]);
    let base = c.rng.below(50) as u64;
    let vals: Vec<u64> = (0..n as u64).map(|i| fx(base, i)).collect();
    let v = vals.clone();
    let (s, name): (BS<Tok>, &'static str) = match c.rng.below(12) {
        0 => (Box::pin(stream::iter(v.into_iter().map(mon::tok)).fuse()), "iter"),
        1 => {
            let st = stream::unfold(v.into_iter(), |mut it| later(()).map(move |_| it.next().map(|x| (mon::tok(x), it))));
            (stage(st, "unfold", w, true).0, "unfold")
        }
        2 => {
            let mut it = v.into_iter();
            let mut g = wd::gate("poll_fn");
            let st = stream::poll_fn(move |cx| match g.poll(cx) {
                Poll::Ready(()) => Poll::Ready(it.next().map(mon::tok)),
                Poll::Pending => Poll::Pending,
            });
            (Box::pin(st.fuse()), "poll_fn")
        }
        3 => {
            let v = if v.is_empty() { vec![7] } else { v };
            let k = v.len();
            let mut it = v.clone().into_iter();
            let st = stream::repeat_with(move || mon::tok(it.next().unwrap())).take(k);
            return (stage(st, "repeat_with.take", w, true).0, v, "repeat_with.take");
        }
        4 => {
            let st = stream::once(later(mon::tok(base)));
            return (stage(st, "once", w, true).0, vec![base], "once");
        }
        5 => {
            let st = stream::repeat(mon::tok(base)).take(n);
            return (stage(st, "repeat.take", w, true).0, vec![base; n], "repeat.take");
        }
        6 if c.rng.bool() => {
            return (stage(stream::empty(), "empty", w, false).0, vec![], "empty");
        }
        7 => {
            // an unbounded channel filled beforehand
            let (tx, rx) = futures::channel::mpsc::unbounded();
            for x in v {
                let _ = tx.unbounded_send(mon::tok(x));
            }
            (stage(rx, "mpsc", w, true).0, "mpsc")
        }
        8 => {
            let fs: futures::stream::FuturesOrdered<_> = v.into_iter().map(|x| later(mon::tok(x))).collect();
            (stage(fs, "FuturesOrdered", w, true).0, "FuturesOrdered")
        }
        _ => (stage(wd::stream(v.into_iter().map(mon::tok)), "leaf", w, true).0, "leaf"),
    };
    (s, vals, name)
}
pub fn start(c: &mut Case, w: Watch) -> Pipe<Tok> {
    let (s, m, name) = source(c, w);
    Pipe { s, model: m.iter().map(|x| Ok(*x)).collect(), ordered: true, desc: vec![format!("{name}{}", m.len())], w, strict: name != "FuturesOrdered", calls: vec![] }
}
fn oks(m: &[T2]) -> Vec<u64> {
    m.iter().map(|r| *r.as_ref().unwrap()).collect()
}
fn vs(v: Vec<u64>) -> Vec<T2> {
    v.into_iter().map(Ok).collect()
}
pub const N_STREAM: usize = 38;
impl Pipe<Tok> {
    pub fn vals(&self) -> Vec<u64> {
        oks(&self.model)
    }
    /// Adds one random adapter.
    pub fn adapt(self, c: &mut Case) -> Pipe<Tok> {
        let k = c.rng.below(N_STREAM);
        self.adapt_with(c, k)
    }
    pub fn adapt_with(self, c: &mut Case, which: usize) -> Pipe<Tok> {
        let Pipe { s, model, ordered, mut desc, w, mut strict, mut calls } = self;
        let m = oks(&model);
        let key = c.rng.below(1000) as u64;
        let log: Calls = Default::default();
        let l = log.clone();
        let n = c.rng.below(6);
        let modl = *c.rng.pick(&[1u64, 2, 3, 5]);
        let mut ord = ordered;
        // expected closure arguments, when the stage runs to its end
        let mut want: Option<Vec<u64>> = None;
        // position-dependent adapters need an ordered input
        let which = if !ordered && !matches!(which, 0 | 2 | 3 | 4 | 18..=22 | 25..=28) { 0 } else { which };
        let (st, out, name, fae): (BS<Tok>, Vec<u64>, &'static str, bool) = match which {
            0 => {
                want = Some(m.clone());
                (Box::pin(s.map(move |t| { l.borrow_mut().push(t.get()); mon::tok(fx(t.get(), key)) })), m.iter().map(|x| fx(*x, key)).collect(), "map", true)
            }
            1 => (Box::pin(s.enumerate().map(move |(i, t)| mon::tok(fx(t.get(), i as u64)))), m.iter().enumerate().map(|(i, x)| fx(*x, i as u64)).collect(), "enumerate", true),
            2 => {
                want = Some(m.clone());
                (Box::pin(s.filter(move |t| { l.borrow_mut().push(t.get()); later(pr(t.get(), key, modl)) })), m.iter().copied().filter(|x| pr(*x, key, modl)).collect(), "filter", true)
            }
            3 => {
                want = Some(m.clone());
                let f = move |x: u64| if pr(x, key, modl) { Some(fx(x, key)) } else { None };
                (Box::pin(s.filter_map(move |t: Tok| { l.borrow_mut().push(t.get()); later(()).map(move |_| f(t.get()).map(mon::tok)) })), m.iter().copied().filter_map(f).collect(), "filter_map", true)
            }
            4 => {
                want = Some(m.clone());
                (Box::pin(s.then(move |t| { l.borrow_mut().push(t.get()); later(mon::tok(fx(t.get(), key))) })), m.iter().map(|x| fx(*x, key)).collect(), "then", true)
            }
            5 => (Box::pin(s.skip(n)), m.iter().copied().skip(n).collect(), "skip", true),
            6 | 7 => (Box::pin(s.take(n)), m.iter().copied().take(n).collect(), "take", true),
            8 => {
                let cut = m.iter().position(|x| !pr(*x, key, modl)).map_or(m.len(), |p| p + 1);
                want = Some(m[..cut].to_vec());
                (Box::pin(s.skip_while(move |t| { l.borrow_mut().push(t.get()); later(pr(t.get(), key, modl)) })), m.iter().copied().skip_while(|x| pr(*x, key, modl)).collect(), "skip_while", true)
            }
            9 => {
                let cut = m.iter().position(|x| !pr(*x, key, modl)).map_or(m.len(), |p| p + 1);
                want = Some(m[..cut].to_vec());
                (Box::pin(s.take_while(move |t| { l.borrow_mut().push(t.get()); later(pr(t.get(), key, modl)) })), m.iter().copied().take_while(|x| pr(*x, key, modl)).collect(), "take_while", true)
            }
            10 => {
                let f = move |acc: u64, x: u64| if pr(fx(acc, x), key, modl * 2) { Some((fx(acc, x), fx(acc + 1, x))) } else { None };
                let mut acc = key;
                let mut out = vec![];
                let mut wv = vec![];
                for x in &m {
                    wv.push(*x);
                    match f(acc, *x) {
                        Some((a, o)) => { acc = a; out.push(o) }
                        None => break,
                    }
                }
                want = Some(wv);
                (Box::pin(s.scan(mon::tok(key), move |st: Tok, t: Tok| {
                    l.borrow_mut().push(t.get());
                    later(()).map(move |_| f(st.get(), t.get()).map(|(a, o)| (mon::tok(a), mon::tok(o))))
                })), out, "scan", true)
            }
            11 => {
                let cap = n + 1;
                (Box::pin(s.chunks(cap).map(move |v| { let x = v.iter().fold(v.len() as u64, |a, t| fx(a, t.get())); mon::tok(x) })), m.chunks(cap).map(|v| v.iter().fold(v.len() as u64, |a, x| fx(a, *x))).collect(), "chunks", true)
            }
            12 => {
                // the sizes depend on timing, the concatenation does not
                let cap = n + 1;
                (Box::pin(s.ready_chunks(cap).map(move |v| {
                    ensure!(!v.is_empty() && v.len() <= cap, "ready_chunks({cap}) gave a chunk of {}", v.len());
                    stream::iter(v)
                }).flatten().fuse()), m.clone(), "ready_chunks", true)
            }
            13 | 14 => {
                want = Some(m.clone());
                let kk = move |x: u64| (fx(x, key) % 4) as usize;
                let out = m.iter().flat_map(|x| (0..kk(*x) as u64).map(move |i| fx(*x, i + 5))).collect();
                let mk = move |t: Tok| { l.borrow_mut().push(t.get()); let x = t.get(); wd::stream((0..kk(x) as u64).map(move |i| mon::tok(fx(x, i + 5)))) };
                if which == 13 { (Box::pin(s.flat_map(mk)), out, "flat_map", true) } else { (Box::pin(s.map(mk).flatten()), out, "flatten", true) }
            }
            15 | 16 => {
                let (s2, m2, nm) = source(c, w);
                let out = m.iter().zip(&m2).map(|(a, b)| fx(*a, *b)).collect();
                desc.push(format!("with {nm}{}", m2.len()));
                if which == 15 {
                    (Box::pin(s.zip(s2).map(|(a, b)| mon::tok(fx(a.get(), b.get())))), out, "zip", true)
                } else {
                    (Box::pin(s2.zip(s).map(|(b, a)| mon::tok(fx(a.get(), b.get())))), out, "zip", true)
                }
            }
            17 => {
                let (s2, m2, nm) = source(c, w);
                desc.push(format!("with {nm}{}", m2.len()));
                (Box::pin(s.chain(s2)), m.iter().chain(&m2).copied().collect(), "chain", true)
            }
            18 => (Box::pin(s.fuse()), m.clone(), "fuse", true),
            19 => {
                want = Some(m.clone());
                (Box::pin(s.inspect(move |t| l.borrow_mut().push(t.get()))), m.clone(), "inspect", true)
            }
            20 => (Box::pin(s.boxed_local().fuse()), m.clone(), "boxed_local", true),
            21 => (if c.rng.bool() { Box::pin(s.left_stream::<stream::Empty<Tok>>()) } else { Box::pin(s.right_stream::<stream::Empty<Tok>>()) }, m.clone(), "either", true),
            22 => {
                want = Some(m.clone());
                let lim = if n == 0 { None } else { Some(n) };
                (Box::pin(s.map(move |t| { l.borrow_mut().push(t.get()); later(mon::tok(fx(t.get(), key))) }).buffered(lim)), m.iter().map(|x| fx(*x, key)).collect(), "buffered", true)
            }
            23 => {
                // an always pending stop future changes nothing
                (Box::pin(s.take_until(futures::future::pending::<()>())), m.clone(), "take_until", true)
            }
            24 => {
                let mut p = Box::pin(s.peekable());
                // peek before every item
                let st = stream::poll_fn(move |cx| {
                    let seen = match p.as_mut().poll_peek(cx) {
                        Poll::Ready(x) => x.map(|t| t.get()),
                        Poll::Pending => return Poll::Pending,
                    };
                    let got = p.as_mut().poll_next(cx);
                    match &got {
                        Poll::Ready(x) => ensure!(x.as_ref().map(|t| t.get()) == seen, "peek showed {seen:?} but the next item is {:?}", x.as_ref().map(|t| t.v)),
                        Poll::Pending => vio!("pending after a successful peek"),
                    }
                    got
                });
                (Box::pin(st.fuse()), m.clone(), "peek", true)
            }
            25 => (Box::pin(s.peekable()), m.clone(), "peekable", true),
            26 => {
                ord = false;
                let lim = if n == 0 { None } else { Some(n) };
                (Box::pin(s.map(move |t| later(mon::tok(fx(t.get(), key)))).buffer_unordered(lim)), m.iter().map(|x| fx(*x, key)).collect(), "buffer_unordered", true)
            }
            27 => {
                ord = false;
                let (s2, m2, nm) = source(c, w);
                desc.push(format!("with {nm}{}", m2.len()));
                (Box::pin(stream::select(s, s2)), m.iter().chain(&m2).copied().collect(), "select", true)
            }
            28 => {
                ord = false;
                let kk = move |x: u64| (fx(x, key) % 4) as usize;
                let lim = if n == 0 { None } else { Some(n) };
                let out = m.iter().flat_map(|x| (0..kk(*x) as u64).map(move |i| fx(*x, i + 5))).collect();
                (Box::pin(s.flat_map_unordered(lim, move |t: Tok| { let x = t.get(); Box::pin(wd::stream((0..kk(x) as u64).map(move |i| mon::tok(fx(x, i + 5))))) })), out, "flat_map_unordered", true)
            }
            29 => {
                let (s, h) = stream::abortable(s);
                drop(h);
                (Box::pin(s.fuse()), m.clone(), "abortable", true)
            }
            30 => (Box::pin(std::panic::AssertUnwindSafe(s).catch_unwind().map(|r| r.unwrap_or_else(|e| std::panic::resume_unwind(e))).fuse()), m.clone(), "catch_unwind", true),
            31 => {
                // a plain cycle over a cloneable source, cut off
                let v: Vec<u64> = m.iter().copied().take(3).collect();
                let k = if v.is_empty() { 0 } else { n };
                let cyc = stream::iter(v.clone()).cycle().take(k).map(mon::tok);
                (Box::pin(s.chain(cyc)), m.iter().copied().chain(v.iter().copied().cycle().take(k)).collect(), "chain cycle", true)
            }
            32 => {
                let f = later(stage(wd::stream(m.iter().map(|x| mon::tok(fx(*x, key))).collect::<Vec<_>>()), "inner", w, true).0);
                (Box::pin(s.chain(f.flatten_stream())), m.iter().copied().chain(m.iter().map(|x| fx(*x, key))).collect(), "flatten_stream", true)
            }
            33 => (Box::pin(futures::stream_select!(s, stream::empty()).fuse()), m.clone(), "stream_select!", true),
            34 => (Box::pin(stream::select_all([s])), m.clone(), "select_all", true),
            35 => {
                // through the poll_immediate adapter: skip its Pending items
                let mut p = Box::pin(stage(stream::poll_immediate(s), "poll_immediate", w, true).0);
                let st = stream::poll_fn(move |cx| match p.as_mut().poll_next(cx) {
                    Poll::Ready(Some(Poll::Ready(t))) => Poll::Ready(Some(t)),
                    Poll::Ready(Some(Poll::Pending)) => Poll::Pending,
                    Poll::Ready(None) => Poll::Ready(None),
                    Poll::Pending => { vio!("poll_immediate is pending"); Poll::Pending }
                });
                (Box::pin(st.fuse()), m.clone(), "poll_immediate", true)
            }
            36 => {
                // into_future, piece by piece
                let st = stream::unfold(s, |s| s.into_future().map(|(x, s)| x.map(|x| (x, s))));
                (Box::pin(st), m.clone(), "into_future", true)
            }
            _ => {
                // next() futures re-created on every poll
                let mut s = s;
                let st = stream::poll_fn(move |cx| { use futures::Future; Pin::new(&mut s.next()).poll(cx) });
                (Box::pin(st.fuse()), m.clone(), "next", true)
            }
        };
        if matches!(name, "buffered" | "buffer_unordered" | "select_all" | "flat_map_unordered") || desc.iter().any(|d| d.contains("FuturesOrdered")) {
            strict = false;
        }
        desc.push(format!("{name}({n})"));
        let (st, ended) = stage(st, name, w, fae);
        if let Some(want) = want {
            calls.push(CallCheck { name, log, want, ended, ordered });
        }
        Pipe { s: st, model: vs(out), ordered: ord, desc, w, strict, calls }
    }
    /// Runs the pipeline to its end and compares with the model.
    pub fn finish(self) -> bool {
        let Pipe { s, model, ordered, calls, strict, .. } = self;
        let Some(v) = wd::collect_strict(s, strict) else { return false };
        let mut got: Vec<u64> = v.iter().map(|t| t.get()).collect();
        for g in &got {
            mon::event(*g);
        }
        let mut want = oks(&model);
        if !ordered {
            got.sort();
            want.sort();
        }
        ensure!(got == want, "items {got:?}, the iterator computation gives {want:?}");
        check_calls(calls);
        !mon::violated()
    }
    pub fn into_parts(self) -> (BS<Tok>, Vec<u64>, bool, CallChecks) {
        (self.s, oks(&self.model), self.ordered, CallChecks(self.calls))
    }
}
pub struct CallChecks(Vec<CallCheck>);
impl CallChecks {
    pub fn check(self) {
        check_calls(self.0)
    }
}
fn check_calls(calls: Vec<CallCheck>) {
    for k in calls {
        let mut got = k.log.borrow().clone();
        let mut want = k.want;
        if !k.ordered {
            got.sort();
            want.sort();
        }
        if k.ended.get() {
            ensure!(got == want, "{}: its closure saw {got:?}, the iterator's sees {want:?}", k.name);
        } else if k.ordered {
            ensure!(want.starts_with(&got), "{}: its closure saw {got:?}, not a prefix of {want:?}", k.name);
        }
    }
}
/// A pipeline with up to `max` adapters.
pub fn random(c: &mut Case, w: Watch, max: usize) -> Pipe<Tok> {
    let mut p = start(c, w);
    for _ in 0..c.rng.range(0, max) {
        p = p.adapt(c);
    }
    c.desc = p.desc.join(" . ");
    p
}
