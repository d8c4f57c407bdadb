//! Random pipelines of fallible streams (`Result<Tok, Tok>` items) with a reference model.
use crate::mon::{self, Tok};
use crate::pipes::{fx, later, pr, stage, Watch, BS, T2};
use crate::world as wd;
use crate::{ensure, vio, Case};
use futures::stream::{self};
use futures::{FutureExt, StreamExt, TryStreamExt};
use std::cell::{Cell, RefCell};
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

pub type R = Result<Tok, Tok>;
/// How far the order of the output is determined.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Order {
    Full,
    None,
}
pub struct TPipe {
    pub s: BS<R>,
    pub model: Vec<T2>,
    pub order: Order,
    pub desc: Vec<String>,
    pub w: Watch,
    pub strict: bool,
    calls: Vec<(&'static str, Rc<RefCell<Vec<u64>>>, Vec<u64>, Rc<Cell<bool>>, bool)>,
}
pub struct E2(pub Tok);
impl From<Tok> for E2 {
    fn from(t: Tok) -> E2 {
        E2(t)
    }
}
fn mk(x: T2) -> R {
    match x {
        Ok(v) => Ok(mon::tok(v)),
        Err(v) => Err(mon::tok(v)),
    }
}
pub fn raw(r: &R) -> T2 {
    match r {
        Ok(t) => Ok(t.get()),
        Err(t) => Err(t.get()),
    }
}
/// Deterministic fallible function.
fn fallible(x: u64, key: u64, m: u64) -> T2 {
    if pr(x, key + 11, m) {
        Ok(fx(x, key))
    } else {
        Err(fx(x, key + 1))
    }
}
pub fn source(c: &mut Case, w: Watch) -> (BS<R>, Vec<T2>, &'static str) {
    let n = *c.rng.pick(&[0usize, 1, 2, 3, 4, 5, 6, 9]);
    let errs = *c.rng.pick(&[0usize, 1, 1, 3]);
    let base = c.rng.below(50) as u64;
    let vals: Vec<T2> = (0..n as u64).map(|i| if c.rng.chance(errs, 8) { Err(fx(base, i + 100)) } else { Ok(fx(base, i)) }).collect();
    let v = vals.clone();
    match c.rng.below(8) {
        0 => (stage(stream::iter(v.into_iter().map(mk)).fuse(), "iter", w, true).0, vals, "iter"),
        1 => {
            // try_unfold stops after its first error
            let cut = vals.iter().position(|x| x.is_err()).map_or(vals.len(), |p| p + 1);
            let vals = vals[..cut].to_vec();
            let st = stream::try_unfold(v.into_iter(), |mut it| {
                later(()).map(move |_| match it.next() {
                    None => Ok(None),
                    Some(Ok(x)) => Ok(Some((mon::tok(x), it))),
                    Some(Err(e)) => Err(mon::tok(e)),
                })
            });
            (stage(st.fuse(), "try_unfold", w, true).0, vals, "try_unfold")
        }
        2 => {
            let v2: Vec<u64> = vals.iter().filter_map(|x| x.ok()).collect();
            let st = wd::stream(v2.clone().into_iter().map(mon::tok)).map(Ok);
            (stage(st, "map(Ok)", w, true).0, v2.into_iter().map(Ok).collect(), "map(Ok)")
        }
        3 => {
            // a future that yields a stream, or fails
            let ok = c.rng.chance(2, 3);
            let inner = wd::stream(v.into_iter().map(mk));
            let f = later(if ok { Ok(inner) } else { Err(mon::tok(base)) });
            use futures::TryFutureExt;
            let vals = if ok { vals } else { vec![Err(base)] };
            (stage(f.try_flatten_stream(), "try_flatten_stream", w, true).0, vals, "try_flatten_stream")
        }
        _ => (stage(wd::stream(v.into_iter().map(mk)), "leaf", w, true).0, vals, "leaf"),
    }
}
pub fn start(c: &mut Case, w: Watch) -> TPipe {
    let (s, model, name) = source(c, w);
    TPipe { s, desc: vec![format!("{name}{model:?}")], model, order: Order::Full, w, strict: true, calls: vec![] }
}
pub const N_TRY: usize = 30;
impl TPipe {
    pub fn adapt(self, c: &mut Case) -> TPipe {
        let k = c.rng.below(N_TRY);
        self.adapt_with(c, k)
    }
    pub fn adapt_with(self, c: &mut Case, which: usize) -> TPipe {
        let TPipe { s, model, mut order, mut desc, w, mut strict, mut calls } = self;
        let m = model;
        let was_ordered = order == Order::Full;
        let key = c.rng.below(1000) as u64;
        let log: Rc<RefCell<Vec<u64>>> = Default::default();
        let l = log.clone();
        let n = c.rng.below(5);
        let modl = *c.rng.pick(&[1u64, 2, 3, 5]);
        let bad = *c.rng.pick(&[2u64, 4, 1_000_000]);
        let okv = || m.iter().filter_map(|x| x.ok()).collect::<Vec<u64>>();
        let errv = || m.iter().filter_map(|x| x.err()).collect::<Vec<u64>>();
        let mut want: Option<Vec<u64>> = None;
        // position-dependent adapters need a determined order
        let which = if !was_ordered && matches!(which, 9..=16 | 20 | 21) { 0 } else { which };
        let map_ok = |f: &dyn Fn(u64) -> Option<T2>| -> Vec<T2> {
            m.iter().filter_map(|x| match x { Ok(v) => f(*v), Err(e) => Some(Err(*e)) }).collect()
        };
        let (st, out, name): (BS<R>, Vec<T2>, &'static str) = match which {
            0 => {
                want = Some(okv());
                (Box::pin(s.map_ok(move |t| { l.borrow_mut().push(t.get()); mon::tok(fx(t.get(), key)) })), map_ok(&|v| Some(Ok(fx(v, key)))), "map_ok")
            }
            1 => {
                want = Some(errv());
                (Box::pin(s.map_err(move |t| { l.borrow_mut().push(t.get()); mon::tok(fx(t.get(), key)) })), m.iter().map(|x| x.map_err(|e| fx(e, key))).collect(), "map_err")
            }
            2 => {
                want = Some(okv());
                (Box::pin(s.and_then(move |t: Tok| { l.borrow_mut().push(t.get()); later(()).map(move |_| mk(fallible(t.get(), key, bad))) })), map_ok(&|v| Some(fallible(v, key, bad))), "and_then")
            }
            3 => {
                want = Some(errv());
                (Box::pin(s.or_else(move |t: Tok| { l.borrow_mut().push(t.get()); later(()).map(move |_| mk(fallible(t.get(), key, bad))) })), m.iter().map(|x| match x { Ok(v) => Ok(*v), Err(e) => fallible(*e, key, bad) }).collect(), "or_else")
            }
            4 => {
                want = Some(okv());
                (Box::pin(s.inspect_ok(move |t| l.borrow_mut().push(t.get()))), m.clone(), "inspect_ok")
            }
            5 => {
                want = Some(errv());
                (Box::pin(s.inspect_err(move |t| l.borrow_mut().push(t.get()))), m.clone(), "inspect_err")
            }
            6 => (Box::pin(s.err_into::<E2>().map_err(|e| e.0)), m.clone(), "err_into"),
            7 => (Box::pin(s.into_stream()), m.clone(), "into_stream"),
            8 => {
                want = Some(okv());
                (Box::pin(s.try_filter(move |t| { l.borrow_mut().push(t.get()); later(pr(t.get(), key, modl)) })), map_ok(&|v| if pr(v, key, modl) { Some(Ok(v)) } else { None }), "try_filter")
            }
            29 => {
                want = Some(okv());
                let f = move |v: u64| -> Option<T2> {
                    match fallible(v, key, bad) {
                        Err(e) => Some(Err(e)),
                        Ok(o) => if pr(v, key, modl) { Some(Ok(o)) } else { None },
                    }
                };
                (Box::pin(s.try_filter_map(move |t: Tok| {
                    l.borrow_mut().push(t.get());
                    later(()).map(move |_| match f(t.get()) { None => Ok(None), Some(Ok(v)) => Ok(Some(mon::tok(v))), Some(Err(e)) => Err(mon::tok(e)) })
                })), map_ok(&f), "try_filter_map")
            }
            9 | 10 => {
                let mut out = vec![];
                let mut wv = vec![];
                let mut skipping = true;
                for x in &m {
                    match x {
                        Ok(v) if skipping => {
                            wv.push(*v);
                            match fallible(*v, key, bad) {
                                Err(e) => out.push(Err(e)),
                                Ok(_) => if !pr(*v, key, modl) { skipping = false; out.push(Ok(*v)) },
                            }
                        }
                        x => out.push(*x),
                    }
                }
                want = Some(wv);
                (Box::pin(s.try_skip_while(move |t| { l.borrow_mut().push(t.get()); let v = t.get(); later(match fallible(v, key, bad) { Err(e) => Err(e), Ok(_) => Ok(pr(v, key, modl)) }).map(|r| r.map_err(mon::tok)) })), out, "try_skip_while")
            }
            11 | 12 => {
                let mut out = vec![];
                let mut wv = vec![];
                for x in &m {
                    match x {
                        Ok(v) => {
                            wv.push(*v);
                            match fallible(*v, key, bad) {
                                Err(e) => out.push(Err(e)),
                                Ok(_) => if pr(*v, key, modl) { out.push(Ok(*v)) } else { break },
                            }
                        }
                        x => out.push(*x),
                    }
                }
                want = Some(wv);
                (Box::pin(s.try_take_while(move |t| { l.borrow_mut().push(t.get()); let v = t.get(); later(match fallible(v, key, bad) { Err(e) => Err(e), Ok(_) => Ok(pr(v, key, modl)) }).map(|r| r.map_err(mon::tok)) })), out, "try_take_while")
            }
            13 | 14 => {
                let cap = n + 1;
                let digest = |v: &[u64]| v.iter().fold(v.len() as u64 + 1, |a, x| fx(a, *x));
                let mut out = vec![];
                let mut buf = vec![];
                for x in &m {
                    match x {
                        Ok(v) => {
                            buf.push(*v);
                            if buf.len() == cap {
                                out.push(Ok(digest(&std::mem::take(&mut buf))));
                            }
                        }
                        Err(e) => {
                            buf.push(*e);
                            out.push(Err(digest(&std::mem::take(&mut buf))))
                        }
                    }
                }
                if !buf.is_empty() {
                    out.push(Ok(digest(&buf)));
                }
                (Box::pin(s.try_chunks(cap).map(move |r| match r {
                    Ok(v) => Ok(mon::tok(digest(&v.iter().map(|t| t.get()).collect::<Vec<_>>()))),
                    Err(stream::TryChunksError(v, e)) => Err(mon::tok(digest(&v.iter().chain([&e]).map(|t| t.get()).collect::<Vec<_>>()))),
                })), out, "try_chunks")
            }
            15 | 16 => {
                let cap = n + 1;
                (Box::pin(s.try_ready_chunks(cap).map(move |r| {
                    let v: Vec<R> = match r {
                        Ok(v) => {
                            ensure!(!v.is_empty() && v.len() <= cap, "try_ready_chunks({cap}) gave a chunk of {}", v.len());
                            v.into_iter().map(Ok).collect()
                        }
                        Err(stream::TryReadyChunksError(v, e)) => {
                            ensure!(v.len() < cap, "try_ready_chunks({cap}) gave {} items with an error", v.len());
                            v.into_iter().map(Ok).chain([Err(e)]).collect()
                        }
                    };
                    stream::iter(v)
                }).flatten().fuse()), m.clone(), "try_ready_chunks")
            }
            17 => {
                want = Some(okv());
                let inner = move |x: u64| -> Vec<T2> { (0..fx(x, key) % 4).map(|i| fallible(fx(x, i + 5), key, bad)).collect() };
                let mut out = vec![];
                for x in &m {
                    match x {
                        Ok(v) => out.extend(inner(*v)),
                        Err(e) => out.push(Err(*e)),
                    }
                }
                (Box::pin(s.map_ok(move |t: Tok| { l.borrow_mut().push(t.get()); wd::stream(inner(t.get()).into_iter().map(mk)) }).try_flatten()), out, "try_flatten")
            }
            18 => {
                strict = false;
                if m.iter().any(|x| x.is_err()) {
                    order = Order::None; // an error of the source may overtake
                }
                want = Some(okv());
                let lim = if n == 0 { None } else { Some(n) };
                let st = s.map_ok(move |t: Tok| { l.borrow_mut().push(t.get()); let v = t.get(); drop(t); later(()).map(move |_| mk(fallible(v, key, bad))) }).try_buffered(lim);
                (Box::pin(st.fuse()), map_ok(&|v| Some(fallible(v, key, bad))), "try_buffered")
            }
            19 => {
                strict = false;
                order = Order::None;
                want = Some(okv());
                let lim = if n == 0 { None } else { Some(n) };
                let st = s.map_ok(move |t: Tok| { l.borrow_mut().push(t.get()); let v = t.get(); drop(t); later(()).map(move |_| mk(fallible(v, key, bad))) }).try_buffer_unordered(lim);
                (Box::pin(st.fuse()), map_ok(&|v| Some(fallible(v, key, bad))), "try_buffer_unordered")
            }
            20 => (Box::pin(s.take(n)), m.iter().copied().take(n).collect(), "take"),
            21 => (Box::pin(s.skip(n)), m.iter().copied().skip(n).collect(), "skip"),
            22 => (Box::pin(s.fuse()), m.clone(), "fuse"),
            23 => {
                let (s2, m2, nm) = source(c, w);
                desc.push(format!("with {nm}{m2:?}"));
                (Box::pin(s.chain(s2)), m.iter().chain(&m2).copied().collect(), "chain")
            }
            24 => {
                let mut s = s;
                let st = stream::poll_fn(move |cx| {
                    use futures::Future;
                    match Pin::new(&mut s.try_next()).poll(cx) {
                        Poll::Pending => Poll::Pending,
                        Poll::Ready(Ok(None)) => Poll::Ready(None),
                        Poll::Ready(Ok(Some(t))) => Poll::Ready(Some(Ok(t))),
                        Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                    }
                });
                (Box::pin(st.fuse()), m.clone(), "try_next")
            }
            25 => {
                strict = false;
                order = Order::None;
                want = Some(okv());
                let inner = move |x: u64| -> Vec<T2> { (0..fx(x, key) % 4).map(|i| fallible(fx(x, i + 5), key, bad)).collect() };
                let mut out = vec![];
                for x in &m {
                    match x {
                        Ok(v) => out.extend(inner(*v)),
                        Err(e) => out.push(Err(*e)),
                    }
                }
                let lim = if n == 0 { None } else { Some(n) };
                (Box::pin(s.map_ok(move |t: Tok| { l.borrow_mut().push(t.get()); wd::stream(inner(t.get()).into_iter().map(mk)) }).try_flatten_unordered(lim)), out, "try_flatten_unordered")
            }
            26 => (if c.rng.bool() { Box::pin(s.left_stream::<stream::Empty<R>>()) } else { Box::pin(s.right_stream::<stream::Empty<R>>()) }, m.clone(), "either"),
            27 => (Box::pin(s.peekable()), m.clone(), "peekable"),
            _ => {
                let st = s.then(move |r: R| later(()).map(move |_| mk(raw(&r).map(|v| fx(v, key)))));
                (Box::pin(st), map_ok(&|v| Some(Ok(fx(v, key)))), "then")
            }
        };
        desc.push(format!("{name}({n})"));
        let (st, ended) = stage(st, name, w, true);
        if let Some(want) = want {
            calls.push((name, log, want, ended, was_ordered));
        }
        TPipe { s: st, model: out, order, desc, w, strict, calls }
    }
    pub fn finish(self) -> bool {
        let TPipe { s, model, order, strict, calls, .. } = self;
        let Some(v) = wd::collect_strict(s, strict) else { return false };
        let mut got: Vec<T2> = v.iter().map(raw).collect();
        for g in &got {
            mon::event(match g { Ok(x) => x * 2, Err(x) => x * 2 + 1 });
        }
        let mut want = model;
        if order == Order::None {
            got.sort();
            want.sort();
        }
        ensure!(got == want, "results {got:?}, the fold over Result items gives {want:?}");
        check(calls);
        !mon::violated()
    }
    pub fn into_parts(self) -> (BS<R>, Vec<T2>, bool, bool) {
        (self.s, self.model, self.order == Order::Full, self.strict)
    }
}
fn check(calls: Vec<(&'static str, Rc<RefCell<Vec<u64>>>, Vec<u64>, Rc<Cell<bool>>, bool)>) {
    for (name, log, mut want, ended, ordered) in calls {
        let mut got = log.borrow().clone();
        if !ordered {
            got.sort();
            want.sort();
        }
        if ended.get() {
            if got != want {
                vio!("{name}: its closure saw {got:?}, expected {want:?}");
            }
        } else if ordered && !want.starts_with(&got) {
            vio!("{name}: its closure saw {got:?}, not a prefix of {want:?}");
        }
    }
}
pub fn random(c: &mut Case, w: Watch, max: usize) -> TPipe {
    let mut p = start(c, w);
    for _ in 0..c.rng.range(0, max) {
        p = p.adapt(c);
    }
    c.desc = p.desc.join(" . ");
    p
}
