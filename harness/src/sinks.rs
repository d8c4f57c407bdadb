//! Sink stacks: a probe between any two layers records what crosses it and checks the
//! layer above against its relation (input items -> output items), the Sink protocol,
//! flush/close completeness and error propagation.
use crate::mon::{self, tok, Tok};
use crate::rng::mix;
use crate::world as wd;
use crate::{ensure, logf, vio, Case};
use futures::{Sink, SinkExt, StreamExt};
use std::cell::{Cell, RefCell};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub type Sk = Pin<Box<dyn Sink<Tok, Error = Tok>>>;
#[derive(Default, Debug)]
pub struct Tr {
    pub name: String,
    pub items: Vec<u64>,
    pub granted: bool,
    pub flushed: usize,
    pub flush_calls: u64,
    pub close_at: Option<usize>,
    pub closed: bool,
    pub errs: Vec<u64>,
    /// not a real sink below: accepts without the protocol
    pub pseudo: bool,
}
pub type Trc = Rc<RefCell<Tr>>;
pub type Rel = Rc<dyn Fn(u64) -> Vec<Result<u64, u64>>>;
pub struct Probe {
    inner: Sk,
    pub tr: Trc,
    below: Vec<Trc>,
    rel: Rel,
    map_errs: Rc<RefCell<Vec<u64>>>,
    emap: fn(u64) -> u64,
    /// most items the layer may hold back
    cap: Option<usize>,
    /// a Pending poll_ready means the layer is full
    full_if_pending: bool,
    dead: bool,
}
impl Probe {
    fn pre(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.below.iter().map(|b| b.borrow().errs.len()).collect();
        v.push(self.map_errs.borrow().len());
        v
    }
    fn post(&mut self, op: &str, pre: Vec<usize>, res: &Poll<Result<(), Tok>>) {
        let name = self.tr.borrow().name.clone();
        // errors: the one that occurred below (or in the mapping) during this call, at once
        let mut new = Vec::new();
        for (i, b) in self.below.iter().enumerate() {
            let b = b.borrow();
            for e in &b.errs[pre[i]..] {
                new.push((self.emap)(*e));
                self.dead = true;
            }
        }
        new.extend_from_slice(&self.map_errs.borrow()[pre[self.below.len()]..]);
        match res {
            Poll::Ready(Err(e)) => {
                if !self.below.is_empty() {
                    ensure!(new.first() == Some(&e.get()), "{name}: {op} fails with {} but the error below was {new:?}", e.get());
                    ensure!(new.len() == 1, "{name}: {op} went on after an error below: {new:?}");
                }
                self.tr.borrow_mut().errs.push(e.get());
            }
            r => ensure!(new.is_empty(), "{name}: {op} gives {} although an error occurred below: {new:?}", if r.is_pending() { "Pending" } else { "Ok" }),
        }
        let (items, ok) = {
            let mut t = self.tr.borrow_mut();
            let ok = matches!(res, Poll::Ready(Ok(())));
            if ok && op == "poll_flush" {
                t.flushed = t.items.len();
            }
            if ok && op == "poll_close" {
                t.closed = true;
                t.flushed = t.items.len();
            }
            if ok && op == "poll_ready" {
                t.granted = true;
            }
            (t.items.clone(), ok)
        };
        if self.dead || self.below.is_empty() {
            return;
        }
        let all: Vec<Result<u64, u64>> = items.iter().flat_map(|v| (self.rel)(*v)).collect();
        let oks: Vec<u64> = all.iter().filter_map(|r| r.as_ref().ok().copied()).collect();
        let errs: Vec<u64> = all.iter().filter_map(|r| r.as_ref().err().copied()).collect();
        let me = self.map_errs.borrow().clone();
        ensure!(errs.starts_with(&me), "{name}: errors of the mapping {me:?}, expected {errs:?}");
        for b in &self.below {
            let b = b.borrow();
            ensure!(oks.starts_with(&b.items), "{name}: passed on {:?} to {}, expected a prefix of {oks:?}", b.items, b.name);
            if let Some(cap) = self.cap {
                let through = b.items.len() + me.len();
                ensure!(items.len() <= through + cap, "{name}: {} items accepted, {} passed on: holds more than {cap}", items.len(), through);
                if self.full_if_pending && op == "poll_ready" && res.is_pending() {
                    ensure!(items.len() >= through + cap, "{name}: not ready although only {} of {cap} places are used", items.len() - through);
                }
            }
            if ok && (op == "poll_flush" || op == "poll_close") {
                ensure!(b.items == oks && me == errs, "{name}: {op} is complete but {} got {:?} of {oks:?}", b.name, b.items);
                ensure!(b.flushed == b.items.len(), "{name}: {op} is complete but {} was not flushed after its last item", b.name);
                if op == "poll_close" {
                    ensure!(b.closed, "{name}: closed but {} is not", b.name);
                }
            }
            if !b.pseudo {
                if let Some(n) = b.close_at {
                    ensure!(self.tr.borrow().close_at.is_some(), "{name}: closes {} although it is not being closed", b.name);
                    ensure!(n == oks.len(), "{name}: closes {} after {n} of {} items", b.name, oks.len());
                }
            }
        }
    }
}
impl Sink<Tok> for Probe {
    type Error = Tok;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
        {
            let t = self.tr.borrow();
            ensure!(!t.closed || !t.errs.is_empty(), "{}: poll_ready after it was closed", t.name);
        }
        let p = self.pre();
        let r = self.inner.as_mut().poll_ready(cx);
        logf!("   {}.poll_ready -> {:?}", self.tr.borrow().name, r);
        self.post("poll_ready", p, &r);
        r
    }
    fn start_send(mut self: Pin<&mut Self>, item: Tok) -> Result<(), Tok> {
        {
            let mut t = self.tr.borrow_mut();
            if t.errs.is_empty() {
                ensure!(t.granted, "{}: start_send({}) without a successful poll_ready before", t.name, item.get());
                ensure!(!t.closed, "{}: start_send after it was closed", t.name);
            }
            t.granted = false;
            t.items.push(item.get());
        }
        mon::event(item.get());
        let p = self.pre();
        let v = item.get();
        let r = Poll::Ready(self.inner.as_mut().start_send(item));
        logf!("   {}.start_send({v}) -> {r:?}", self.tr.borrow().name);
        self.post("start_send", p, &r);
        match r {
            Poll::Ready(r) => r,
            Poll::Pending => unreachable!(),
        }
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
        self.tr.borrow_mut().flush_calls += 1;
        let p = self.pre();
        let r = self.inner.as_mut().poll_flush(cx);
        logf!("   {}.poll_flush -> {:?}", self.tr.borrow().name, r);
        self.post("poll_flush", p, &r);
        r
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
        {
            let mut t = self.tr.borrow_mut();
            if t.close_at.is_none() {
                t.close_at = Some(t.items.len());
            }
        }
        let p = self.pre();
        let r = self.inner.as_mut().poll_close(cx);
        logf!("   {}.poll_close -> {:?}", self.tr.borrow().name, r);
        self.post("poll_close", p, &r);
        r
    }
}

// ------------------------------------------------------------------ leaf sink
pub struct Lk {
    ready: wd::Gate,
    flush: wd::Gate,
    close: wd::Gate,
    held: Vec<Tok>,
    /// nothing to flush: a completed flush stays complete until the next item
    clean: bool,
    closed: bool,
    granted: bool,
    fail_at: u32,
    failed: bool,
}
pub fn leaf(fail_at: u32) -> Lk {
    Lk { ready: wd::gate("ready"), flush: wd::gate("flush"), close: wd::gate("close"), held: Vec::new(), clean: false, closed: false, granted: false, fail_at, failed: false }
}
impl Lk {
    fn fail(&mut self) -> Option<Tok> {
        if self.failed {
            return Some(tok(900_001));
        }
        self.fail_at = self.fail_at.saturating_sub(1);
        if self.fail_at == 1 {
            self.failed = true;
            return Some(tok(900_000));
        }
        None
    }
}
impl Sink<Tok> for Lk {
    type Error = Tok;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
        if let Some(e) = self.fail() {
            return Poll::Ready(Err(e));
        }
        if !self.granted {
            if self.ready.poll(cx).is_pending() {
                return Poll::Pending;
            }
            self.granted = true;
        }
        Poll::Ready(Ok(()))
    }
    fn start_send(mut self: Pin<&mut Self>, item: Tok) -> Result<(), Tok> {
        if let Some(e) = self.fail() {
            return Err(e);
        }
        self.granted = false;
        self.clean = false;
        self.held.push(item);
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
        if let Some(e) = self.fail() {
            return Poll::Ready(Err(e));
        }
        if !self.clean && self.flush.poll(cx).is_pending() {
            return Poll::Pending;
        }
        self.clean = true;
        self.held.clear();
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
        if let Some(e) = self.fail() {
            return Poll::Ready(Err(e));
        }
        if !self.closed && self.close.poll(cx).is_pending() {
            return Poll::Pending;
        }
        self.closed = true;
        self.held.clear();
        Poll::Ready(Ok(()))
    }
}

// ------------------------------------------------------------------ stacks
pub struct Stack {
    pub s: Sk,
    pub tr: Trc,
    pub desc: Vec<String>,
    /// an error ends the usefulness of the stack (FnOnce error mapper, unfold state gone)
    pub once: bool,
    pub n: usize,
}
struct EB(Tok);
impl From<Tok> for EB {
    fn from(t: Tok) -> EB {
        EB(tok(t.get() + 1_000_000))
    }
}
pub fn ident() -> Rel {
    Rc::new(|v| vec![Ok(v)])
}
pub fn same(e: u64) -> u64 {
    e
}
pub fn trace(name: String) -> Trc {
    Rc::new(RefCell::new(Tr { name, ..Tr::default() }))
}
pub fn probe(inner: Sk, name: String, below: Vec<Trc>, rel: Rel, map_errs: Rc<RefCell<Vec<u64>>>, emap: fn(u64) -> u64, cap: Option<usize>, full: bool) -> (Sk, Trc) {
    let tr = trace(name);
    (Box::pin(Probe { inner, tr: tr.clone(), below, rel, map_errs, emap, cap, full_if_pending: full, dead: false }), tr)
}
/// Marks a moment in the future's life and reports errors when they are produced.
async fn mapped(f: wd::Lf<Result<Tok, Tok>>, log: Rc<RefCell<Vec<u64>>>) -> Result<Tok, Tok> {
    let r = f.await;
    if let Err(e) = &r {
        log.borrow_mut().push(e.get());
    }
    r
}
pub fn bottom(c: &mut Case) -> Stack {
    let fails = c.rng.chance(1, 4);
    if c.rng.chance(1, 4) {
        // unfold: the "destination" is what its futures have finished
        let got = trace("unfold's futures".into());
        got.borrow_mut().pseudo = true;
        got.borrow_mut().closed = true;
        let errs = Rc::new(RefCell::new(Vec::new()));
        let (g, er) = (got.clone(), errs.clone());
        let bad = if fails { 1 + c.rng.below(4) as u64 } else { u64::MAX };
        let s = futures::sink::unfold(0u64, move |n: u64, item: Tok| {
            let (g, er) = (g.clone(), er.clone());
            async move {
                wd::fut(()).await;
                if n + 1 == bad {
                    er.borrow_mut().push(item.get() + 500_000);
                    return Err(tok(item.get() + 500_000));
                }
                let mut t = g.borrow_mut();
                ensure!(t.items.len() as u64 == n, "unfold: state {n} passed with item number {}", t.items.len());
                t.items.push(item.get());
                t.flushed = t.items.len();
                Ok(n + 1)
            }
        });
        let cnt = Rc::new(Cell::new(0u64));
        let rel: Rel = Rc::new(move |v| {
            cnt.set(cnt.get() + 1);
            vec![Ok(v)]
        });
        // with a failing future the relation ends there
        let rel: Rel = if bad == u64::MAX { rel } else { Rc::new(|v| vec![Ok(v)]) };
        let (s, tr) = probe_unfold(Box::pin(s), got, rel, errs);
        return Stack { s, tr, desc: vec![format!("unfold(bad={})", bad as i64)], once: true, n: 1 };
    }
    let fail_at = if fails { 2 + c.rng.below(12) as u32 } else { 0 };
    let (s, tr) = probe(Box::pin(leaf(fail_at)), "leaf".into(), vec![], ident(), Default::default(), same, None, false);
    Stack { s, tr, desc: vec![format!("leaf(fail_at={fail_at})")], once: false, n: 1 }
}
fn probe_unfold(inner: Sk, got: Trc, rel: Rel, errs: Rc<RefCell<Vec<u64>>>) -> (Sk, Trc) {
    let tr = trace("unfold".into());
    struct P(Probe, Rc<RefCell<Vec<u64>>>);
    // a failing unfold future is an error "below": the layer is dead afterwards
    impl P {
        fn sync(&mut self) {
            let n = self.0.below[0].borrow().errs.len();
            let e = self.1.borrow();
            self.0.below[0].borrow_mut().errs.extend_from_slice(&e[n..]);
        }
    }
    impl Sink<Tok> for P {
        type Error = Tok;
        fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
            let p = self.0.pre();
            let r = self.0.inner.as_mut().poll_ready(cx);
            self.sync();
            self.0.post("poll_ready", p, &r);
            r
        }
        fn start_send(mut self: Pin<&mut Self>, item: Tok) -> Result<(), Tok> {
            Pin::new(&mut self.0).start_send(item)
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
            self.0.tr.borrow_mut().flush_calls += 1;
            let p = self.0.pre();
            let r = self.0.inner.as_mut().poll_flush(cx);
            self.sync();
            self.0.post("poll_flush", p, &r);
            r
        }
        fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
            let n = self.0.tr.borrow().items.len();
            self.0.tr.borrow_mut().close_at.get_or_insert(n);
            let p = self.0.pre();
            let r = self.0.inner.as_mut().poll_close(cx);
            self.sync();
            self.0.post("poll_close", p, &r);
            r
        }
    }
    let p = Probe { inner, tr: tr.clone(), below: vec![got], rel, map_errs: Default::default(), emap: same, cap: Some(1), full_if_pending: true, dead: false };
    (Box::pin(P(p, errs)), tr)
}
/// Destination that never fails.
pub fn plain_bottom() -> Stack {
    let (s, tr) = probe(Box::pin(leaf(0)), "leaf".into(), vec![], ident(), Default::default(), same, None, false);
    Stack { s, tr, desc: vec!["leaf".into()], once: false, n: 1 }
}
pub const N_SINK: usize = 8;
impl Stack {
    pub fn adapt(self, c: &mut Case) -> Stack {
        let k = c.rng.below(N_SINK);
        self.adapt_with(c, k)
    }
    pub fn adapt_with(self, c: &mut Case, which: usize) -> Stack {
        let Stack { s, tr, mut desc, mut once, n } = self;
        let salt = c.rng.next() | 1;
        let id = n;
        let none: Rc<RefCell<Vec<u64>>> = Default::default();
        let (s, tr) = match which {
            0 => {
                let cap = c.rng.below(4);
                desc.push(format!("buffer({cap})"));
                let b = s.buffer(cap);
                probe(Box::pin(b), format!("buffer({cap})#{id}"), vec![tr], ident(), none, same, Some(cap), cap > 0)
            }
            1 => {
                let bad = c.rng.chance(1, 3);
                desc.push(format!("with(bad={bad})"));
                let f = move |v: u64| -> Result<u64, u64> {
                    if bad && mix(salt, v) % 4 == 0 {
                        Err(v + 300_000)
                    } else {
                        Ok((v + salt % 7) % 100_000)
                    }
                };
                let log: Rc<RefCell<Vec<u64>>> = Default::default();
                let l2 = log.clone();
                let w = s.with(move |t: Tok| {
                    let v = t.get();
                    mapped(wd::fut(f(v).map(tok).map_err(tok)), l2.clone())
                });
                probe(Box::pin(w), format!("with#{id}"), vec![tr], Rc::new(move |v| vec![f(v)]), log, same, Some(1), false)
            }
            2 => {
                let bad = c.rng.chance(1, 3);
                desc.push(format!("with_flat_map(bad={bad})"));
                let f = move |v: u64| -> Vec<Result<u64, u64>> {
                    (0..mix(salt, v) % 4)
                        .map(|i| if bad && mix(salt, v * 8 + i) % 5 == 0 { Err(v + 400_000 + i) } else { Ok((v * 3 + i) % 100_000) })
                        .collect()
                };
                let log: Rc<RefCell<Vec<u64>>> = Default::default();
                let l2 = log.clone();
                let w = s.with_flat_map(move |t: Tok| {
                    let v: Vec<Result<Tok, Tok>> = f(t.get()).into_iter().map(|r| r.map(tok).map_err(tok)).collect();
                    let l3 = l2.clone();
                    wd::stream(v).inspect(move |r| {
                        if let Err(e) = r {
                            l3.borrow_mut().push(e.get());
                        }
                    })
                });
                probe(Box::pin(w), format!("with_flat_map#{id}"), vec![tr], Rc::new(f), log, same, None, false)
            }
            3 => {
                let mut other = bottom(c);
                for _ in 0..c.rng.below(3) {
                    other = other.adapt(c);
                }
                desc.push(format!("fanout({:?})", other.desc));
                once |= other.once;
                let swap = c.rng.chance(1, 2);
                let below = vec![tr, other.tr];
                let f: Sk = if swap { Box::pin(other.s.fanout(s)) } else { Box::pin(s.fanout(other.s)) };
                probe(f, format!("fanout#{id}"), below, ident(), none, same, Some(0), false)
            }
            4 => {
                desc.push("sink_map_err".into());
                once = true;
                let m = s.sink_map_err(|e: Tok| tok(e.get() + 2_000_000));
                probe(Box::pin(m), format!("sink_map_err#{id}"), vec![tr], ident(), none, |e| e + 2_000_000, Some(0), false)
            }
            5 => {
                desc.push("sink_err_into".into());
                once = true;
                let m = s.sink_err_into::<EB>().sink_map_err(|e: EB| e.0);
                probe(Box::pin(m), format!("sink_err_into#{id}"), vec![tr], ident(), none, |e| e + 1_000_000, Some(0), false)
            }
            6 => {
                let left = c.rng.chance(1, 2);
                desc.push(if left { "left_sink" } else { "right_sink" }.into());
                let e: Sk = if left { Box::pin(s.left_sink::<Sk>()) } else { Box::pin(s.right_sink::<Sk>()) };
                probe(e, format!("either#{id}"), vec![tr], ident(), none, same, Some(0), false)
            }
            _ => {
                desc.push("boxed".into());
                let e: Sk = Box::pin(Box::new(s));
                probe(e, format!("box#{id}"), vec![tr], ident(), none, same, Some(0), false)
            }
        };
        Stack { s, tr, desc, once, n: n + 1 }
    }
}
pub fn random(c: &mut Case, max: usize) -> Stack {
    let mut s = bottom(c);
    for _ in 0..c.rng.below(max + 1) {
        s = s.adapt(c);
    }
    s
}
