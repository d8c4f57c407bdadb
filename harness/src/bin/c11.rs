//! C11: concurrency-limited adapters.
use futures::{FutureExt, Stream, StreamExt, TryStreamExt};
use hv::aleaf::{leaf, Ctl, GStream, Leaf};
use hv::mon::{self, Tok};
use hv::sched::{self, Exec};
use hv::world::{self as wd, Driver};
use hv::{ensure, logf, vio, Case};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Default)]
struct Acct {
    taken: RefCell<Vec<usize>>,
    done: RefCell<Vec<usize>>,
    eff: Cell<usize>,
    maxlive: Cell<usize>,
}
impl Acct {
    fn live(&self) -> usize {
        self.taken.borrow().len() - self.done.borrow().len()
    }
    fn take(&self, i: usize) {
        self.taken.borrow_mut().push(i);
        let l = self.live();
        self.maxlive.set(self.maxlive.get().max(l));
        ensure!(l <= self.eff.get(), "{l} started and unfinished with limit {}", self.eff.get());
    }
}
/// The four adapters over futures.
fn futures_limited(c: &mut Case) {
    let n = c.rng.below(14);
    let kind = c.rng.below(4);
    let limit = *c.rng.pick(&[0usize, 1, 1, 2, 3, 4, 8, 100]);
    let eff = if limit == 0 { usize::MAX } else { limit };
    let lim = if limit == 0 && c.rng.bool() { None } else { Some(limit) };
    let is_try = kind == 1 || kind == 3;
    // 0 ok, 1 future error, 2 source error (stream form only)
    let errs = c.rng.bool();
    let kinds: Vec<u8> = (0..n).map(|_| if is_try && errs { *c.rng.pick(&[0, 0, 0, 0, 1, if kind == 1 { 2 } else { 0 }]) } else { 0 }).collect();
    c.desc = format!("{} limit {limit}, items {kinds:?}", ["buffer_unordered", "try_buffer_unordered", "for_each_concurrent", "try_for_each_concurrent"][kind]);
    let a = Rc::new(Acct::default());
    a.eff.set(eff);
    let mut gates = Vec::new();
    let mut items = Vec::new();
    for i in 0..n {
        let a = a.clone();
        let f = wd::fut(mon::tok(i as u64)).on_done(move || a.done.borrow_mut().push(i));
        gates.push(f.gate_id());
        items.push((i, f));
    }
    let src = wd::stream(items);
    let (sg, stats) = (src.gate_id(), src.stats());
    let (a2, k2) = (a.clone(), kinds.clone());
    let mut out: Vec<Result<u64, u64>> = Vec::new();
    let mut d = Driver::new();
    enum Ad {
        S(Pin<Box<dyn Stream<Item = Result<Tok, Tok>>>>),
        F(Pin<Box<dyn Future<Output = Result<(), Tok>>>>),
    }
    let kf = move |i: usize, t: Tok| if k2[i] == 1 { Err(t) } else { Ok(t) };
    let k3 = kinds.clone();
    let mut ad = match kind {
        0 => Ad::S(Box::pin(src.map(move |(i, f)| { a2.take(i); f.map(Ok::<Tok, Tok>) }).buffer_unordered(lim))),
        1 => Ad::S(Box::pin(
            src.map(move |(i, f)| {
                if k3[i] == 2 {
                    return Err(mon::tok(1000 + i as u64));
                }
                a2.take(i);
                let kf = kf.clone();
                Ok(f.map(move |t| kf(i, t)))
            })
            .try_buffer_unordered(lim),
        )),
        2 => Ad::F(Box::pin(src.for_each_concurrent(lim, move |(i, f)| { a2.take(i); f.map(drop) }).map(Ok))),
        _ => Ad::F(Box::pin(src.try_for_each_concurrent(lim, move |(i, f)| { a2.take(i); let kf = kf.clone(); f.map(move |t| kf(i, t).map(drop)) }))),
    };
    let mut result = None;
    loop {
        let done0 = a.done.borrow().len();
        let p = d.poll(|cx| match &mut ad {
            Ad::S(s) => s.as_mut().poll_next(cx).map(|o| o.map(|r| r.map(|t| t.get()).map_err(|t| t.get()))),
            Ad::F(f) => f.as_mut().poll(cx).map(|r| { result = Some(r.map_err(|t| t.get())); None }),
        });
        match p {
            Poll::Ready(Some(r)) => {
                logf!("out {r:?}");
                let v = match &r { Ok(v) | Err(v) => *v };
                ensure!(!out.iter().any(|x| matches!(x, Ok(w) | Err(w) if *w == v)), "{v} delivered twice");
                if v >= 1000 {
                    ensure!(r.is_err() && kinds[v as usize - 1000] == 2, "invented source error");
                } else {
                    ensure!(r.is_err() == (kinds[v as usize] == 1), "{v} changed its kind");
                    ensure!(a.done.borrow().last() == Some(&(v as usize)), "{v} delivered out of completion order");
                }
                out.push(r);
            }
            Poll::Ready(None) => break,
            Poll::Pending => {
                if !wd::woken() {
                    ensure!(stats.ended.get() || a.live() >= eff || wd::waiting(sg), "waits with {} of {limit} slots used without asking the source for more", a.live());
                    for i in a.taken.borrow().iter() {
                        ensure!(wd::touched(gates[*i]), "admitted future {i} was never polled");
                    }
                    if let Ad::S(_) = ad {
                        ensure!(a.done.borrow().len() == done0, "a future completed but its output was not delivered");
                    }
                }
                if mon::violated() {
                    return;
                }
                if !d.idle() {
                    if !mon::violated() {
                        vio!("lost wake-up: {} futures outstanding", a.live());
                    }
                    return;
                }
            }
        }
        if mon::violated() || d.polls > 5000 {
            ensure!(d.polls <= 5000, "does not end");
            return;
        }
    }
    match result {
        None => {
            ensure!(out.len() == n && stats.ended.get() && a.live() == 0, "ended with {} of {n} outputs", out.len());
        }
        Some(Ok(())) => {
            ensure!(a.done.borrow().len() == n && stats.ended.get(), "finished after {} of {n} items", a.done.borrow().len());
            ensure!(kinds.iter().all(|k| *k == 0), "Ok although a future failed");
        }
        Some(Err(v)) => {
            let dn = a.done.borrow();
            let first = dn.iter().find(|i| kinds[**i] == 1).map(|i| *i as u64);
            ensure!(first == Some(v), "failed with {v} but the first error was {first:?}");
            ensure!(dn.last().map(|i| *i as u64) == first, "went on after the first error");
            ensure!(mon::live_toks() == 0 && stats.dropped.get(), "the rest is not dropped with the error");
        }
    }
    c.nontrivial = n > 0;
    c.count("items", n as u64);
    c.count("reached_limit", (eff == a.maxlive.get()) as u64);
    drop((ad, d));
    mon::check_released();
}
/// flatten_unordered, flat_map_unordered, try_flatten_unordered.
fn streams_limited(c: &mut Case) {
    let n = c.rng.below(8);
    let kind = c.rng.below(3);
    let limit = *c.rng.pick(&[0usize, 1, 1, 2, 3, 4, 100]);
    let eff = if limit == 0 { usize::MAX } else { limit };
    let lim = if limit == 0 && c.rng.bool() { None } else { Some(limit) };
    let lens: Vec<usize> = (0..n).map(|_| c.rng.below(4)).collect();
    // try form: per inner item error flags; source error positions
    let src_err: BTreeSet<usize> = (0..n).filter(|_| kind == 2 && c.rng.chance(1, 5)).collect();
    c.desc = format!("{} limit {limit}, inner lengths {lens:?}, source errors {src_err:?}", ["flatten_unordered", "flat_map_unordered", "try_flatten_unordered"][kind]);
    type R = Result<Tok, Tok>;
    let a = Rc::new(Acct::default());
    a.eff.set(eff);
    let mut inners = Vec::new();
    let mut istats = Vec::new();
    for i in 0..n {
        let items: Vec<R> = (0..lens[i])
            .map(|j| {
                let t = mon::tok((i * 100 + j) as u64);
                if kind == 2 && c.rng.chance(1, 5) { Err(t) } else { Ok(t) }
            })
            .collect();
        let s = wd::stream(items);
        istats.push((s.gate_id(), s.stats()));
        inners.push(s);
    }
    struct Counted(wd::Ls<R>, usize, Rc<Acct>);
    impl Stream for Counted {
        type Item = R;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<R>> {
            let r = Pin::new(&mut self.0).poll_next(cx);
            if let Poll::Ready(None) = r {
                self.2.done.borrow_mut().push(self.1);
            }
            r
        }
    }
    let src = wd::stream(inners.into_iter().enumerate());
    let (sg, stats) = (src.gate_id(), src.stats());
    let (a2, se2) = (a.clone(), src_err.clone());
    let mk = move |(i, s): (usize, wd::Ls<R>)| { a2.take(i); Counted(s, i, a2.clone()) };
    let mut s: Pin<Box<dyn Stream<Item = R>>> = match kind {
        0 => Box::pin(src.map(mk).flatten_unordered(lim)),
        1 => Box::pin(src.flat_map_unordered(lim, mk)),
        _ => Box::pin(src.map(move |(i, s)| if se2.contains(&i) { Err(mon::tok(10_000 + i as u64)) } else { Ok(mk((i, s))) }).try_flatten_unordered(lim)),
    };
    let mut next: BTreeMap<usize, usize> = BTreeMap::new();
    let mut errs = BTreeSet::new();
    let mut total = 0;
    let mut d = Driver::new();
    loop {
        match d.poll(|cx| s.as_mut().poll_next(cx)) {
            Poll::Ready(Some(r)) => {
                let v = match &r { Ok(t) | Err(t) => t.get() } as usize;
                logf!("out {v}");
                if v >= 10_000 {
                    ensure!(src_err.contains(&(v - 10_000)) && r.is_err() && errs.insert(v), "source error {} wrong or twice", v - 10_000);
                } else {
                    let e = next.entry(v / 100).or_default();
                    ensure!(v % 100 == *e, "inner stream {} yields its item {} when {} is next", v / 100, v % 100, *e);
                    *e += 1;
                    total += 1;
                }
            }
            Poll::Ready(None) => break,
            Poll::Pending => {
                if !wd::woken() {
                    ensure!(stats.ended.get() || a.live() >= eff || wd::waiting(sg), "waits with {} of {limit} slots used without asking the source for more", a.live());
                    for i in a.taken.borrow().iter() {
                        ensure!(istats[*i].1.ended.get() || wd::waiting(istats[*i].0), "inner stream {i} is not being waited for");
                    }
                }
                if mon::violated() {
                    return;
                }
                if !d.idle() {
                    if !mon::violated() {
                        vio!("lost wake-up: {} inner streams open", a.live());
                    }
                    return;
                }
            }
        }
        if mon::violated() || d.polls > 5000 {
            ensure!(d.polls <= 5000, "does not end");
            return;
        }
    }
    let want: usize = (0..n).filter(|i| !src_err.contains(i)).map(|i| lens[i]).sum();
    ensure!(total == want && errs.len() == src_err.len(), "{total} of {want} items and {} of {} source errors delivered", errs.len(), src_err.len());
    ensure!(stats.ended.get() && a.live() == 0, "ended while streams are open");
    c.nontrivial = n > 0;
    c.count("items", total as u64);
    c.count("reached_limit", (eff == a.maxlive.get()) as u64);
    drop((s, d));
    mon::check_released();
}
/// Wake-ups from other threads.
fn concurrent(c: &mut Case) {
    let kind = c.rng.below(5);
    let names = ["flatten_unordered", "flat_map_unordered", "buffer_unordered", "buffered", "for_each_concurrent"];
    let n = c.rng.range(1, 3);
    let limit = *c.rng.pick(&[0usize, 1, 2]);
    let eff = if limit == 0 { usize::MAX } else { limit };
    let mut ctls: Vec<Ctl> = Vec::new();
    let mut script: Vec<usize> = Vec::new();
    let mut id = 0u64;
    let mut mk_leaf = |rng: &mut hv::Rng, ctls: &mut Vec<Ctl>, script: &mut Vec<usize>| -> Leaf {
        let e = *rng.pick(&[0, 0, 1, 1, 2]);
        let (l, ctl) = leaf(id, e);
        id += 1;
        for _ in 0..e {
            script.push(ctls.len());
        }
        ctls.push(ctl);
        l
    };
    let streams = kind < 2;
    let a = Rc::new(Acct::default());
    a.eff.set(eff);
    let mut q = std::collections::VecDeque::new();
    let mut want = 0;
    for i in 0..n {
        let gate = mk_leaf(&mut c.rng, &mut ctls, &mut script);
        let m = if streams { c.rng.below(3) } else { 1 };
        want += m;
        let mut iq = std::collections::VecDeque::new();
        for j in 0..m {
            iq.push_back((mk_leaf(&mut c.rng, &mut ctls, &mut script), mon::tok((i * 100 + j) as u64)));
        }
        let tail = if streams && c.rng.bool() { Some(mk_leaf(&mut c.rng, &mut ctls, &mut script)) } else { None };
        let a2 = a.clone();
        q.push_back((gate, GStream { q: iq, tail, id: i as u64, ended: false, on_end: Some(Box::new(move || a2.done.borrow_mut().push(i))) }));
    }
    let tail = if c.rng.bool() { Some(mk_leaf(&mut c.rng, &mut ctls, &mut script)) } else { None };
    let src = GStream { q, tail, id: 999, ended: false, on_end: None };
    for _ in 0..c.rng.below(3) {
        script.push(1000 + c.rng.below(ctls.len()));
    }
    c.rng.shuffle(&mut script);
    let envs = c.rng.range(1, 2);
    c.desc = format!("{} limit {limit}, {n} source items, {} events from {envs} threads", names[kind], script.len());
    let lim = if limit == 0 { None } else { Some(limit) };
    let outs = Rc::new(RefCell::new(Vec::<u64>::new()));
    let ended = Rc::new(Cell::new(false));
    let mut r = c.rng.fork();
    let a3 = a.clone();
    let o = sched::run(&mut c.rng, || {
        for e in 0..envs {
            let part: Vec<usize> = script.iter().enumerate().filter(|(i, _)| i % envs == e).map(|(_, x)| *x).collect();
            let ctls = ctls.clone();
            let mut r = r.fork();
            sched::spawn(format!("env{e}"), move || {
                for x in part {
                    sched::point();
                    let i = x % 1000;
                    if r.chance(3, 4) {
                        let want = 1 + ctls[i].0.borrow().fired;
                        for _ in 0..30 {
                            if ctls[i].polls() >= want || ctls[i].dropped() {
                                break;
                            }
                            sched::spin_point();
                        }
                    }
                    if x >= 1000 { ctls[i].nudge() } else { ctls[i].fire() }
                }
            });
        }
        let (outs, ended) = (outs.clone(), ended.clone());
        sched::spawn("consumer", move || {
            let mut ex = Exec::new(&mut r);
            let a2 = a3.clone();
            // a future out of an inner "stream" with exactly one item
            let a4 = a3.clone();
            let one = move |mut s: GStream<Tok>| {
                a2.take(s.id as usize);
                let a4 = a4.clone();
                async move {
                    let t = s.next().await;
                    a4.done.borrow_mut().push(s.id as usize);
                    t.unwrap()
                }
            };
            let a5 = a3.clone();
            let tk = move |s: GStream<Tok>| { a5.take(s.id as usize); s };
            let mut s: Pin<Box<dyn Stream<Item = Tok>>> = match kind {
                0 => Box::pin(src.map(tk).flatten_unordered(lim)),
                1 => Box::pin(src.flat_map_unordered(lim, tk)),
                2 => Box::pin(src.map(one).buffer_unordered(lim)),
                3 => { a3.eff.set(usize::MAX); Box::pin(src.map(one).buffered(lim)) }
                _ => {
                    let outs = outs.clone();
                    let f = src.for_each_concurrent(lim, move |s| { let outs = outs.clone(); let f = one(s); async move { let t = f.await; outs.borrow_mut().push(t.get()); } });
                    Box::pin(f.into_stream().filter_map(|_| async { None }))
                }
            };
            let mut rounds = 0;
            loop {
                rounds += 1;
                if rounds > 3000 || mon::violated() {
                    ensure!(rounds <= 3000, "still not finished after 3000 rounds");
                    return;
                }
                match ex.poll(|cx| s.as_mut().poll_next(cx)) {
                    Poll::Ready(Some(t)) => {
                        logf!("out {}", t.get());
                        outs.borrow_mut().push(t.get());
                        continue;
                    }
                    Poll::Ready(None) => {
                        ended.set(true);
                        break;
                    }
                    Poll::Pending => {}
                }
                if r.chance(1, 12) {
                    sched::point();
                    continue;
                }
                if r.chance(1, 60) {
                    break;
                }
                sched::wait_woken();
            }
            drop(s);
        });
    });
    c.nontrivial = o.switches > 2;
    c.count("scheduling_points", o.steps);
    c.count("items", outs.borrow().len() as u64);
    sched::expect_done(&o);
    if o.deadlocked.is_empty() && o.failed.is_none() && !o.discarded && !o.livelock && !mon::violated() {
        let v = outs.borrow().clone();
        let set: BTreeSet<u64> = v.iter().copied().collect();
        ensure!(set.len() == v.len(), "an output was delivered twice: {v:?}");
        for i in 0..n as u64 {
            let sub: Vec<u64> = v.iter().copied().filter(|x| x / 100 == i).collect();
            ensure!(sub.windows(2).all(|w| w[0] < w[1]), "inner order broken: {sub:?}");
        }
        if kind == 3 {
            ensure!(v.windows(2).all(|w| w[0] < w[1]), "buffered out of order: {v:?}");
        }
        if ended.get() {
            ensure!(v.len() == want, "{} of {want} outputs delivered", v.len());
        }
        mon::check_released();
    }
}
fn main() {
    hv::main("C11", vec![
        hv::w("concurrent", 2_500_000, 40_000_000, concurrent),
        hv::w("futures_limited", 1_500_000, 20_000_000, futures_limited),
        hv::w("streams_limited", 1_500_000, 20_000_000, streams_limited),
    ]);
}
