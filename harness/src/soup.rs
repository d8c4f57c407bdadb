//! Programs that mix all parts of the library in one task: combinators, collections,
//! channels, locks, handles, sinks and I/O, over scripted leaves. The result of a program
//! is the multiset of the values of its leaves.
use crate::mon::{self, tok, Tok};
use crate::pipes::Watch;
use crate::tpipes::raw;
use crate::world as wd;
use crate::{ensure, fpipes, iow, pipes, sinks, tpipes, Case};
use futures::channel::{mpsc, oneshot};
use futures::future::{self, Either};
use futures::io::{AsyncReadExt, AsyncWriteExt};
use futures::lock::Mutex;
use futures::stream::{self, FuturesOrdered, FuturesUnordered};
use futures::{FutureExt, Sink, SinkExt, Stream, StreamExt, TryFutureExt, TryStreamExt};
use std::cell::RefCell;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub type P = Pin<Box<dyn Future<Output = Vec<Tok>>>>;
pub struct Node {
    pub f: P,
    pub model: Vec<u64>,
    pub size: u64,
    pub desc: String,
}
fn node(f: impl Future<Output = Vec<Tok>> + 'static, model: Vec<u64>, size: u64, desc: String) -> Node {
    let size = size + 1 + model.len() as u64;
    Node { f: Box::pin(f), model, size, desc }
}
struct Subs {
    v: Vec<P>,
    model: Vec<u64>,
    size: u64,
    desc: String,
}
fn subs(c: &mut Case, depth: usize, min: usize, max: usize) -> Subs {
    let n = c.rng.range(min, max);
    let mut s = Subs { v: vec![], model: vec![], size: 0, desc: String::new() };
    for i in 0..n {
        let p = prog(c, depth);
        s.v.push(p.f);
        s.model.extend(p.model);
        s.size += p.size;
        if i > 0 {
            s.desc += ", ";
        }
        s.desc += &p.desc;
    }
    s
}
pub fn vals(v: &[Tok]) -> Vec<u64> {
    let mut r: Vec<u64> = v.iter().map(|t| t.get()).collect();
    r.sort();
    r
}
fn err_of(e: u64) -> u64 {
    e + 1_000_000
}
/// Stream and sink in one object.
struct Duplex {
    tx: mpsc::Sender<Tok>,
    rx: mpsc::Receiver<Tok>,
}
impl Stream for Duplex {
    type Item = Tok;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Tok>> {
        self.rx.poll_next_unpin(cx)
    }
}
impl Sink<Tok> for Duplex {
    type Error = mpsc::SendError;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        self.tx.poll_ready_unpin(cx)
    }
    fn start_send(mut self: Pin<&mut Self>, item: Tok) -> Result<(), Self::Error> {
        self.tx.start_send_unpin(item)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        self.tx.poll_flush_unpin(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        self.tx.poll_close_unpin(cx)
    }
}
const N: usize = 30;
pub fn prog(c: &mut Case, depth: usize) -> Node {
    if depth == 0 || c.rng.chance(1, 6) {
        return match c.rng.below(4) {
            0 | 1 => {
                let v = c.rng.below(1000) as u64;
                node(wd::fut(tok(v)).map(|t| vec![t]), vec![v], 0, "leaf".into())
            }
            2 => {
                let p = fpipes::random(c, Watch::default(), 4);
                let m = match p.model {
                    Ok(v) => v,
                    Err(e) => err_of(e),
                };
                let d = p.desc.join(".");
                let n = p.desc.len() as u64;
                node(p.f.map(|r| vec![r.map_or_else(|e| tok(err_of(e.get())), |t| t)]), vec![m], n, d)
            }
            _ => {
                let p = pipes::random(c, Watch::default(), 3);
                let d = p.desc.join(".");
                let n = p.desc.len() as u64 * 4;
                let (s, m, _, _) = p.into_parts();
                node(s.collect::<Vec<Tok>>(), m, n, d)
            }
        };
    }
    let k = c.rng.below(N);
    let d = depth - 1;
    match k {
        0 => {
            let s = subs(c, d, 0, 3);
            node(future::join_all(s.v).map(|v| v.concat_()), s.model, s.size, format!("join_all({})", s.desc))
        }
        1 => {
            let mut s = subs(c, d, 2, 2);
            let (b, a) = (s.v.pop().unwrap(), s.v.pop().unwrap());
            let desc = format!("join({})", s.desc);
            match c.rng.below(3) {
                0 => node(future::join(a, b).map(cat2), s.model, s.size, desc),
                1 => node(async { cat2(futures::join!(a, b)) }, s.model, s.size, desc),
                _ => node(async { cat2(futures::try_join!(a.map(Ok::<_, ()>), b.map(Ok)).unwrap()) }, s.model, s.size, desc),
            }
        }
        2 => {
            let s = subs(c, d, 0, 4);
            let mut it = s.v.into_iter();
            let first: Vec<P> = it.by_ref().take(c.rng.below(3)).collect();
            let rest: Vec<P> = it.collect();
            let f = async move {
                let mut fu: FuturesUnordered<P> = first.into_iter().collect();
                let mut out = Vec::new();
                for p in rest {
                    if let Some(v) = fu.next().await {
                        out.extend(v);
                    }
                    fu.push(p);
                }
                while let Some(v) = fu.next().await {
                    out.extend(v);
                }
                out
            };
            node(f, s.model, s.size, format!("FuturesUnordered({})", s.desc))
        }
        3 => {
            let s = subs(c, d, 0, 4);
            node(s.v.into_iter().collect::<FuturesOrdered<P>>().concat_(), s.model, s.size, format!("FuturesOrdered({})", s.desc))
        }
        4 => {
            let s = subs(c, d, 0, 4);
            let n = 1 + c.rng.below(3);
            let src = wd::stream(s.v);
            if c.rng.chance(1, 2) {
                node(src.buffered(n).concat_(), s.model, s.size, format!("buffered {n}({})", s.desc))
            } else {
                node(src.buffer_unordered(n).concat_(), s.model, s.size, format!("buffer_unordered {n}({})", s.desc))
            }
        }
        5 => {
            let p = tpipes::random(c, Watch::default(), 3);
            let desc = p.desc.join(".");
            let n = p.desc.len() as u64 * 4;
            let (s, m, _, _) = p.into_parts();
            let m = m.into_iter().map(|r| r.unwrap_or_else(err_of)).collect();
            let f = s.map(|r| match raw(&r) {
                Ok(v) => tok(v),
                Err(e) => tok(err_of(e)),
            });
            node(f.collect::<Vec<Tok>>(), m, n, desc)
        }
        6 => {
            // race against something that never happens
            let p = prog(c, d);
            let desc = format!("select({})", p.desc);
            let f = p.f;
            let g = match c.rng.below(4) {
                0 => future::select(f, future::pending::<Vec<Tok>>()).map(|e| e.factor_first().0).boxed_local(),
                1 => future::select(future::pending::<Vec<Tok>>(), f).map(|e| e.factor_first().0).boxed_local(),
                2 => async move {
                    let mut f = f.fuse();
                    let mut n = future::pending::<()>();
                    futures::select! { v = f => v, _ = n => vec![] }
                }
                .boxed_local(),
                _ => async move {
                    let mut f = f.fuse();
                    let mut n = future::pending::<()>();
                    futures::select_biased! { _ = n => vec![], v = f => v }
                }
                .boxed_local(),
            };
            node(g, p.model, p.size, desc)
        }
        7 => {
            // select! over several futures until all are done
            let mut s = subs(c, d, 3, 3);
            let (x, b, a) = (s.v.pop().unwrap(), s.v.pop().unwrap(), s.v.pop().unwrap());
            let f = async move {
                let (mut a, mut b, mut x) = (a.fuse(), b.fuse(), x.fuse());
                let mut out = Vec::new();
                loop {
                    futures::select! {
                        v = a => out.extend(v),
                        v = b => out.extend(v),
                        v = x => out.extend(v),
                        complete => break,
                    }
                }
                out
            };
            node(f, s.model, s.size, format!("select!({})", s.desc))
        }
        8 => {
            let p = prog(c, d);
            let n = 1 + c.rng.below(3);
            let f = async move {
                let sh = p.f.map(|v| Rc::new(v)).shared();
                let hs: Vec<_> = (0..n).map(|_| sh.clone()).collect();
                drop(sh);
                let mut vs: Vec<Rc<Vec<Tok>>> = future::join_all(hs).await;
                let first = vals(&vs[0]);
                for v in &vs {
                    ensure!(vals(v) == first, "shared handles see different outputs");
                }
                vs.truncate(1);
                match Rc::try_unwrap(vs.pop().unwrap()) {
                    Ok(v) => v,
                    Err(_) => {
                        crate::vio!("the output of a shared future is still referenced");
                        vec![]
                    }
                }
            };
            node(f, p.model, p.size + n as u64, format!("shared x{n}({})", p.desc))
        }
        9 => {
            let s = subs(c, d, 0, 3);
            let owned = c.rng.chance(1, 2);
            let f = async move {
                let m = std::sync::Arc::new(Mutex::new(Vec::new()));
                let ts: Vec<_> = s
                    .v
                    .into_iter()
                    .map(|p| {
                        let m = m.clone();
                        async move {
                            let v = p.await;
                            for t in v {
                                if owned {
                                    let mut g = m.clone().lock_owned().await;
                                    wd::fut(()).await;
                                    g.push(t);
                                } else {
                                    let mut g = m.lock().await;
                                    wd::fut(()).await;
                                    g.push(t);
                                }
                            }
                        }
                    })
                    .collect();
                future::join_all(ts).await;
                let mut g = m.lock().await;
                std::mem::take(&mut *g)
            };
            node(f, s.model, s.size * 3, format!("mutex({})", s.desc))
        }
        10 => {
            let s = subs(c, d, 0, 3);
            let cap = c.rng.below(3);
            let f = async move {
                let (tx, mut rx) = mpsc::channel::<Tok>(cap);
                let ts: Vec<_> = s
                    .v
                    .into_iter()
                    .map(|p| {
                        let mut tx = tx.clone();
                        async move {
                            for t in p.await {
                                tx.send(t).await.expect("receiver is alive");
                            }
                        }
                    })
                    .collect();
                drop(tx);
                let recv = async move {
                    let mut v = Vec::new();
                    while let Some(t) = rx.next().await {
                        v.push(t);
                        if v.len() % 3 == 0 {
                            wd::fut(()).await;
                        }
                    }
                    v
                };
                future::join(future::join_all(ts), recv).await.1
            };
            node(f, s.model, s.size * 3, format!("mpsc {cap}({})", s.desc))
        }
        11 => {
            let p = prog(c, d);
            let f = async move {
                let (tx, rx) = oneshot::channel();
                let g = p.f.map(|v| {
                    let _ = tx.send(v);
                });
                future::join(rx, g).await.0.expect("the sender sends")
            };
            node(f, p.model, p.size + 2, format!("oneshot({})", p.desc))
        }
        12 => {
            // forward into a sink stack
            let p = pipes::random(c, Watch::default(), 2);
            let (st, m, _, _) = p.into_parts();
            let mut k = sinks::plain_bottom();
            for _ in 0..c.rng.below(3) {
                let w = *c.rng.pick(&[0, 6, 7]);
                k = k.adapt_with(c, w);
            }
            let tr = k.tr.clone();
            let all = c.rng.chance(1, 2);
            let desc = format!("forward to {:?}", k.desc);
            let f = async move {
                let mut s = k.s;
                if all {
                    let r = s.send_all(&mut st.map(Ok)).await;
                    ensure!(r.is_ok(), "send_all fails");
                    let r = s.close().await;
                    ensure!(r.is_ok(), "close fails");
                } else {
                    let r = st.map(Ok).try_forward(s).await;
                    ensure!(r.is_ok(), "forward fails");
                }
                let t = tr.borrow();
                ensure!(t.closed && t.flushed == t.items.len(), "forwarding is complete, the sink is neither flushed nor closed");
                t.items.iter().map(|v| tok(*v)).collect()
            };
            let n = m.len() as u64 * 6;
            node(f, m, n, desc)
        }
        13 => {
            let m = iow::data(c, 12, false);
            let (b, _) = iow::run_of(&m);
            let cap = 1 + c.rng.below(5);
            let model: Vec<u64> = b.iter().map(|x| *x as u64).collect();
            let kind = c.rng.below(4);
            let n = b.len() as u64 * 4;
            let f = async move {
                let r = iow::reader(m);
                let (w, st) = iow::writer(3, 0, 0);
                match kind {
                    0 => {
                        let mut w = w;
                        futures::io::copy(r, &mut w).await.expect("no errors");
                        w.close().await.expect("no errors");
                    }
                    1 => {
                        let mut w = w;
                        futures::io::copy_buf(futures::io::BufReader::with_capacity(cap, r), &mut w).await.expect("no errors");
                        w.flush().await.expect("no errors");
                    }
                    2 => {
                        let mut v = Vec::new();
                        let mut r = futures::io::BufReader::with_capacity(cap, r);
                        r.read_to_end(&mut v).await.expect("no errors");
                        let mut w = futures::io::BufWriter::with_capacity(cap, w);
                        w.write_all(&v).await.expect("no errors");
                        w.close().await.expect("no errors");
                    }
                    _ => {
                        let (mut rd, wr) = futures::io::BufReader::new(r).split_();
                        drop(wr);
                        let mut w = futures::io::LineWriter::with_capacity(cap, w);
                        let mut buf = [0; 4];
                        loop {
                            let k = rd.read(&mut buf).await.expect("no errors");
                            if k == 0 {
                                break;
                            }
                            w.write_all(&buf[..k]).await.expect("no errors");
                        }
                        w.flush().await.expect("no errors");
                    }
                }
                let st = st.borrow();
                ensure!(st.flushed == st.got.len(), "flushed {} of {} bytes", st.flushed, st.got.len());
                st.got.iter().map(|b| tok(*b as u64)).collect()
            };
            node(f, model, n, format!("io kind {kind}"))
        }
        14 => {
            let s = subs(c, d, 0, 2);
            let cap = c.rng.below(2);
            let total = s.model.len();
            let f = async move {
                let (tx, rx) = mpsc::channel::<Tok>(cap);
                let (mut sk, st) = StreamExt::split::<Tok>(Duplex { tx, rx });
                let send = async move {
                    for p in s.v {
                        for t in p.await {
                            sk.send(t).await.expect("receiver is alive");
                        }
                    }
                    sk
                };
                let recv = st.take(total).collect::<Vec<Tok>>();
                future::join(send, recv).await.1
            };
            node(f, s.model, s.size * 3, format!("split({})", s.desc))
        }
        15 => {
            let p = prog(c, d);
            let desc = format!("abortable({})", p.desc);
            let (f, h) = future::abortable(p.f);
            node(
                async move {
                    let r = f.await;
                    ensure!(!h.is_aborted(), "aborted by nobody");
                    r.unwrap_or_default()
                },
                p.model,
                p.size,
                desc,
            )
        }
        16 => {
            let p = prog(c, d);
            let (r, h) = p.f.remote_handle();
            let f = async move { future::join(h, r).await.0 };
            node(f, p.model, p.size + 2, format!("remote_handle({})", p.desc))
        }
        17 => {
            let p = prog(c, d);
            let desc = format!("wrap({})", p.desc);
            let f: P = match c.rng.below(8) {
                0 => AssertUnwindSafe(p.f).catch_unwind().map(unwind).boxed_local(),
                1 => p.f.fuse().boxed_local(),
                2 => Box::pin(p.f.left_future::<future::Ready<Vec<Tok>>>()),
                3 => Box::pin(Either::<future::Ready<Vec<Tok>>, P>::Right(p.f)),
                4 => Box::pin(p.f.then(|v| wd::fut(v))),
                5 => Box::pin(wd::fut(p.f).flatten()),
                6 => Box::pin(p.f.map(Ok::<_, ()>).and_then(|v| wd::fut(Ok(v))).unwrap_or_else(|_| vec![])),
                _ => Box::pin(async move {
                    let mut m = Box::pin(future::maybe_done(p.f));
                    m.as_mut().await;
                    m.as_mut().take_output().unwrap_or_default()
                }),
            };
            node(f, p.model, p.size + 2, desc)
        }
        18 => {
            let s = subs(c, d, 0, 4);
            let lim = c.rng.below(4);
            let f = async move {
                let out = Rc::new(RefCell::new(Vec::new()));
                let o = out.clone();
                wd::stream(s.v)
                    .for_each_concurrent(lim, move |p| {
                        let o = o.clone();
                        async move {
                            let v = p.await;
                            o.borrow_mut().extend(v);
                        }
                    })
                    .await;
                out.take()
            };
            node(f, s.model, s.size, format!("for_each_concurrent {lim}({})", s.desc))
        }
        19 => {
            let s = subs(c, d, 0, 4);
            let lim = 1 + c.rng.below(3);
            let strs: Vec<_> = s.v.into_iter().map(|p| stream::once(p).map(stream::iter).flatten().boxed_local()).collect();
            let f: P = match c.rng.below(3) {
                0 => Box::pin(wd::stream(strs).flatten_unordered(lim).collect()),
                1 => Box::pin(stream::select_all(strs).collect()),
                _ => Box::pin(wd::stream(strs).flatten().collect()),
            };
            node(f, s.model, s.size * 2, format!("streams of({})", s.desc))
        }
        20 => {
            let s = subs(c, d, 2, 2);
            let mut v = s.v;
            let (b, a) = (v.pop().unwrap(), v.pop().unwrap());
            let a = stream::once(a).map(stream::iter).flatten().boxed_local();
            let b = stream::once(b).map(stream::iter).flatten().boxed_local();
            let f: P = match c.rng.below(4) {
                0 => Box::pin(stream::select(a, b).collect()),
                1 => Box::pin(stream::select_with_strategy(a, b, |_: &mut ()| stream::PollNext::Left).collect()),
                2 => Box::pin(a.chain(b).collect()),
                _ => {
                    let s = futures::stream_select!(a, b);
                    Box::pin(s.collect())
                }
            };
            node(f, s.model, s.size * 2, format!("two streams({})", s.desc))
        }
        21 => {
            let s = subs(c, d, 0, 3);
            let f = async move {
                let mut rest = s.v;
                let mut out = Vec::new();
                while !rest.is_empty() {
                    let (v, _, r) = future::select_all(rest).await;
                    out.extend(v);
                    rest = r;
                }
                out
            };
            node(f, s.model, s.size, format!("select_all({})", s.desc))
        }
        22 => {
            let s = subs(c, d, 0, 3);
            let f = stream::unfold(s.v.into_iter(), |mut it| async move {
                match it.next() {
                    None => None,
                    Some(p) => Some((p.await, it)),
                }
            });
            node(f.concat_(), s.model, s.size, format!("unfold({})", s.desc))
        }
        23 => {
            let s = subs(c, d, 0, 3);
            let f = wd::stream(s.v).then(|p| p).fold(Vec::new(), |mut a, v| {
                a.extend(v);
                wd::fut(a)
            });
            node(f, s.model, s.size * 2, format!("fold({})", s.desc))
        }
        24 => {
            // polled once without waiting, then awaited
            let p = prog(c, d);
            let n = 1 + c.rng.below(3);
            let f = async move {
                let mut f = p.f;
                for _ in 0..n {
                    if let Some(v) = future::poll_immediate(&mut f).await {
                        return v;
                    }
                }
                f.await
            };
            node(f, p.model, p.size, format!("poll_immediate({})", p.desc))
        }
        25 => {
            // unbounded channel, messages first
            let s = subs(c, d, 0, 2);
            let f = async move {
                let (tx, rx) = mpsc::unbounded::<Tok>();
                let send = async move {
                    for p in s.v {
                        for t in p.await {
                            tx.unbounded_send(t).expect("receiver is alive");
                        }
                    }
                };
                future::join(rx.collect::<Vec<_>>(), send).await.0
            };
            node(f, s.model, s.size * 2, format!("unbounded({})", s.desc))
        }
        26 => {
            let s = subs(c, d, 0, 3);
            let f = async move {
                let r: Result<Vec<Vec<Tok>>, ()> = future::try_join_all(s.v.into_iter().map(|p| p.map(Ok))).await;
                r.unwrap_or_default().concat_()
            };
            node(f, s.model, s.size, format!("try_join_all({})", s.desc))
        }
        27 => {
            let s = subs(c, d, 0, 4);
            let n = 1 + c.rng.below(3);
            let src = wd::stream(s.v.into_iter().map(|p| Ok::<_, Tok>(p.map(Ok::<_, Tok>))));
            let f: P = if c.rng.chance(1, 2) {
                Box::pin(src.try_buffered(n).try_collect::<Vec<_>>().map(|r| r.unwrap_or_default().concat_()))
            } else {
                Box::pin(src.try_buffer_unordered(n).try_collect::<Vec<_>>().map(|r| r.unwrap_or_default().concat_()))
            };
            node(f, s.model, s.size, format!("try_buffered {n}({})", s.desc))
        }
        28 => {
            // a lock of pieces: bilock
            let s = subs(c, d, 2, 2);
            let mut v = s.v;
            let (b, a) = (v.pop().unwrap(), v.pop().unwrap());
            let f = async move {
                let (l, r) = futures::lock::BiLock::new(Vec::new());
                let one = async move {
                    let v = a.await;
                    let mut g = l.lock().await;
                    wd::fut(()).await;
                    g.as_pin_mut().get_mut().extend(v);
                    drop(g);
                    l
                };
                let two = async move {
                    let v = b.await;
                    let mut g = r.lock().await;
                    wd::fut(()).await;
                    g.as_pin_mut().get_mut().extend(v);
                    drop(g);
                    r
                };
                let (l, r) = future::join(one, two).await;
                l.reunite(r).unwrap_or_default()
            };
            node(f, s.model, s.size * 2, format!("bilock({})", s.desc))
        }
        _ => {
            let s = subs(c, d, 1, 3);
            let n = 1 + c.rng.below(3);
            let st = wd::stream(s.v).then(|p| p).map(stream::iter).flatten();
            let f: P = match c.rng.below(4) {
                0 => Box::pin(st.chunks(n).map(Vec::into_iter).map(stream::iter).flatten().collect()),
                1 => Box::pin(st.ready_chunks(n).concat_()),
                2 => Box::pin(async move {
                    let mut st = Box::pin(st.peekable());
                    let mut out = Vec::new();
                    loop {
                        if st.as_mut().peek().await.is_none() {
                            break out;
                        }
                        out.push(st.next().await.unwrap());
                    }
                }),
                _ => Box::pin(async move {
                    let mut st = Box::pin(st);
                    let mut out = Vec::new();
                    while let (Some(t), rest) = st.into_future().await {
                        out.push(t);
                        st = rest;
                    }
                    out
                }),
            };
            node(f, s.model, s.size * 2, format!("items({})", s.desc))
        }
    }
}
fn unwind(r: std::thread::Result<Vec<Tok>>) -> Vec<Tok> {
    match r {
        Ok(v) => v,
        Err(e) => {
            mon::event(99);
            std::panic::resume_unwind(e)
        }
    }
}
fn cat2((mut a, b): (Vec<Tok>, Vec<Tok>)) -> Vec<Tok> {
    a.extend(b);
    a
}
trait Cat {
    fn concat_(self) -> Vec<Tok>;
}
impl Cat for Vec<Vec<Tok>> {
    fn concat_(self) -> Vec<Tok> {
        self.into_iter().flatten().collect()
    }
}
trait CatS: Stream<Item = Vec<Tok>> + Sized {
    fn concat_(self) -> impl Future<Output = Vec<Tok>> {
        self.fold(Vec::new(), |mut a, v| {
            a.extend(v);
            future::ready(a)
        })
    }
}
impl<S: Stream<Item = Vec<Tok>>> CatS for S {}
/// Reader halves need a writer to be split from.
struct Rw<R>(R);
impl<R: futures::io::AsyncRead + Unpin> futures::io::AsyncRead for Rw<R> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        Pin::new(&mut self.0).poll_read(cx, buf)
    }
}
impl<R: Unpin> futures::io::AsyncWrite for Rw<R> {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        Poll::Ready(Ok(buf.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
trait SplitRw: Sized {
    fn split_(self) -> (futures::io::ReadHalf<Rw<Self>>, futures::io::WriteHalf<Rw<Self>>);
}
impl<R: futures::io::AsyncRead + Unpin> SplitRw for R {
    fn split_(self) -> (futures::io::ReadHalf<Rw<Self>>, futures::io::WriteHalf<Rw<Self>>) {
        Rw(self).split()
    }
}
