//! C22: sinks.
use futures::stream::StreamExt;
use futures::{Sink, SinkExt, Stream, TryStreamExt};
use hv::mon::{self, tok, Tok};
use hv::sinkops::{exercise, op, Out, Src};
use hv::sinks::{self, Sk, Trc};
use hv::world as wd;
use hv::{ensure, vio, Case};
use std::cell::Cell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

fn stacks(c: &mut Case) {
    let p = sinks::random(c, 5);
    exercise(c, p)
}
/// Vec, VecDeque, drain and references to sinks.
fn plain(c: &mut Case) {
    let n = c.rng.below(6) as u64;
    let items: Vec<u64> = (1..=n).collect();
    let kind = c.rng.below(6);
    c.desc = format!("kind {kind}, {n} items");
    c.nontrivial = n > 0;
    let src = || wd::stream(items.iter().map(|v| tok(*v)).collect::<Vec<_>>());
    fn vals<'a>(v: impl IntoIterator<Item = &'a Tok>) -> Vec<u64> {
        v.into_iter().map(|t| t.get()).collect()
    }
    match kind {
        0 => {
            let mut v: Vec<Tok> = vec![tok(0)];
            let Some(Ok(())) = wd::run(src().map(Ok).try_forward(&mut v)) else { return vio!("forward into a Vec failed") };
            ensure!(vals(&v[1..]) == items && v[0].get() == 0, "Vec sink: {:?}, expected 0 then {items:?}", vals(&v));
        }
        1 => {
            let mut v: VecDeque<Tok> = VecDeque::new();
            v.push_front(tok(0));
            v.push_front(tok(99));
            let Some(Ok(())) = wd::run(src().forward(&mut v)) else { return vio!("forward into a VecDeque failed") };
            ensure!(vals(&v)[2..] == items && v[0].get() == 99, "VecDeque sink: {:?}, expected {items:?} at its end", vals(&v));
        }
        2 => {
            let Some(Ok(())) = wd::run(src().forward(futures::sink::drain())) else { return vio!("drain failed") };
        }
        3 => {
            let mut v: Box<Vec<Tok>> = Box::default();
            let f = async {
                for i in &items {
                    v.send(tok(*i)).await.unwrap();
                }
                SinkExt::<Tok>::close(&mut v).await.unwrap();
            };
            if wd::run(f).is_none() {
                return;
            }
            ensure!(vals(v.iter()) == items, "Box<Vec>: {:?}", vals(v.iter()));
        }
        4 => {
            let mut a: Vec<Tok> = Vec::new();
            let mut b: VecDeque<Tok> = VecDeque::new();
            {
                let mut both = (&mut a).fanout(&mut b);
                let f = async {
                    both.send_all(&mut src().map(Ok)).await.unwrap();
                };
                if wd::run(f).is_none() {
                    return;
                }
            }
            ensure!(vals(&a) == items && vals(&b) == items, "fanout to Vec and VecDeque: {:?} {:?}", vals(&a), vals(&b));
        }
        _ => {
            let mut a: Vec<Tok> = Vec::new();
            {
                let mut p: Pin<&mut Vec<Tok>> = Pin::new(&mut a);
                let f = async {
                    for i in &items {
                        p.feed(tok(*i)).await.unwrap();
                    }
                    SinkExt::<Tok>::flush(&mut p).await.unwrap();
                };
                if wd::run(f).is_none() {
                    return;
                }
            }
            ensure!(vals(&a) == items, "Pin<&mut Vec>: {:?}", vals(&a));
        }
    }
    mon::check_released();
}
/// A stream below sink adapters is passed through unchanged.
struct Duplex {
    st: wd::Ls<Tok>,
    sk: Sk,
}
impl Stream for Duplex {
    type Item = Tok;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Tok>> {
        Pin::new(&mut self.st).poll_next(cx)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.st.size_hint()
    }
}
impl Sink<Tok> for Duplex {
    type Error = Tok;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
        self.sk.as_mut().poll_ready(cx)
    }
    fn start_send(mut self: Pin<&mut Self>, item: Tok) -> Result<(), Tok> {
        self.sk.as_mut().start_send(item)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
        self.sk.as_mut().poll_flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Tok>> {
        self.sk.as_mut().poll_close(cx)
    }
}
fn duplex(c: &mut Case) {
    let n = c.rng.below(5) as u64;
    let items: Vec<u64> = (1..=n).collect();
    let (sk, _tr) = {
        let b = sinks::bottom(c);
        (b.s, b.tr)
    };
    let st = wd::stream(items.iter().map(|v| tok(*v)).collect::<Vec<_>>());
    let dx = Duplex { st, sk };
    trait Both: Stream<Item = Tok> + Sink<Tok, Error = Tok> {}
    impl<T: Stream<Item = Tok> + Sink<Tok, Error = Tok>> Both for T {}
    let kind = c.rng.below(7);
    c.desc = format!("kind {kind}, {n} items");
    c.nontrivial = n > 0;
    let b: Pin<Box<dyn Both>> = match kind {
        0 => Box::pin(dx.buffer(2)),
        1 => Box::pin(dx.with(|t: Tok| wd::fut(Ok::<Tok, Tok>(t)))),
        2 => Box::pin(dx.with_flat_map(|t: Tok| wd::stream([Ok(t)]))),
        3 => Box::pin(dx.sink_map_err(|e: Tok| e)),
        4 => Box::pin(dx.left_sink::<Duplex>().map(|t| t)),
        5 => Box::pin(dx.sink_err_into::<Tok>()),
        _ => Box::pin(dx.map(|t| t).filter(|_| wd::fut(true)).fuse().peekable()),
    };
    let mut d = wd::Driver::new();
    let mut b = b;
    let mut got = Vec::new();
    let mut sent = 0;
    loop {
        // use the sink side in between
        if sent < 3 && c.rng.chance(1, 3) {
            sent += 1;
            match op(&mut d, b.send(tok(50 + sent)), None, |_| {}) {
                Out::Bad => return,
                Out::Err(_) => sent = 9,
                _ => {}
            }
        }
        let h = b.size_hint();
        ensure!(h.0 <= items.len() - got.len(), "size_hint {h:?} with {} items left", items.len() - got.len());
        match d.drive(|cx| b.as_mut().poll_next(cx)) {
            wd::Drive::Done(Some(t)) => got.push(t.get()),
            wd::Drive::Done(None) => break,
            _ => return,
        }
    }
    ensure!(got == items, "stream below the sink adapter gives {got:?}, expected {items:?}");
    drop(b);
    drop(d);
    mon::check_released();
}
fn main() {
    hv::main("C22", vec![hv::w("stacks", 3_000_000, 120_000_000, stacks), hv::w("plain", 300_000, 10_000_000, plain), hv::w("duplex", 400_000, 12_000_000, duplex)]);
}
