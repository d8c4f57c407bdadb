//! C10: ordered concurrency.
use futures::stream::{FusedStream, FuturesOrdered};
use futures::{Stream, StreamExt, TryStreamExt};
use hv::mon::{self, Tok};
use hv::world::{self as wd, Driver};
use hv::{ensure, logf, Case};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

type Done = Rc<RefCell<Vec<bool>>>;
fn child(id: usize, done: &Done) -> wd::Lf<Tok> {
    let d = done.clone();
    while d.borrow().len() <= id {
        d.borrow_mut().push(false);
    }
    wd::fut(mon::tok(id as u64)).on_done(move || d.borrow_mut()[id] = true)
}
/// FuturesOrdered under a random sequence of operations.
fn ordered_set(c: &mut Case) {
    let done: Done = Default::default();
    let mut set: FuturesOrdered<wd::Lf<Tok>> = FuturesOrdered::new();
    let mut model: VecDeque<usize> = VecDeque::new();
    let mut gates: Vec<usize> = Vec::new();
    let mut ids = 0usize;
    let mut d = Driver::new();
    let steps = c.rng.range(4, 50);
    let mut need_poll = true;
    let mut ended = false;
    for step in 0..steps + 400 {
        let finishing = step >= steps;
        let op = if finishing { 9 } else { c.rng.below(14) };
        match op {
            0 | 1 | 2 => {
                let f = child(ids, &done);
                gates.push(f.gate_id());
                if c.rng.chance(1, 8) {
                    #[allow(deprecated)]
                    set.push(f);
                } else {
                    set.push_back(f);
                }
                model.push_back(ids);
                ids += 1;
                need_poll = true;
                ended = false;
            }
            3 => {
                let f = child(ids, &done);
                gates.push(f.gate_id());
                set.push_front(f);
                model.push_front(ids);
                ids += 1;
                need_poll = true;
                ended = false;
            }
            4 => {
                let k = c.rng.below(4);
                let fs: Vec<_> = (0..k).map(|j| child(ids + j, &done)).collect();
                gates.extend(fs.iter().map(|f| f.gate_id()));
                if model.is_empty() && c.rng.bool() {
                    set = fs.into_iter().collect();
                    ended = false;
                } else {
                    set.extend(fs);
                    if k > 0 {
                        ended = false;
                    }
                }
                model.extend(ids..ids + k);
                ids += k;
                need_poll = true;
            }
            5 if c.rng.chance(1, 6) => {
                set.clear();
                model.clear();
                need_poll = true;
                ended = false;
            }
            6 => {
                let n = model.len();
                ensure!(set.len() == n && set.is_empty() == (n == 0), "len {} / is_empty {} with {n} outstanding", set.len(), set.is_empty());
                ensure!(set.size_hint() == (n, Some(n)), "size_hint {:?} with {n} outstanding", set.size_hint());
                ensure!(!ended || set.is_terminated(), "not terminated after the end");
                ensure!(n == 0 || !set.is_terminated(), "terminated with {n} outstanding");
            }
            _ => {
                if !need_poll && !d.idle() {
                    if !mon::violated() {
                        hv::vio!("lost wake-up: {} outputs outstanding, nothing more can happen", model.len());
                    }
                    return;
                }
                let p = d.poll(|cx| set.poll_next_unpin(cx));
                mon::event(p.is_ready() as u64);
                match p {
                    Poll::Ready(Some(t)) => {
                        let want = model.pop_front();
                        ensure!(want == Some(t.get() as usize), "yielded {} but {want:?} is the next in submission order", t.get());
                        need_poll = true;
                    }
                    Poll::Ready(None) => {
                        ensure!(model.is_empty(), "ended with {model:?} outstanding");
                        ended = true;
                        need_poll = true;
                        if finishing {
                            break;
                        }
                    }
                    Poll::Pending => {
                        need_poll = false;
                        ensure!(!model.is_empty(), "pending although empty");
                        if let Some(f) = model.front() {
                            ensure!(wd::woken() || !done.borrow()[*f], "pending although the next output ({f}) is there");
                        }
                        if !wd::woken() {
                            for f in &model {
                                ensure!(wd::touched(gates[*f]), "future {f} was not started while the set waits");
                            }
                        }
                    }
                }
            }
        }
        if mon::violated() {
            return;
        }
    }
    c.nontrivial = ids > 0;
    c.count("outputs", ids as u64);
    c.desc = format!("{ids} futures");
    drop((set, d));
    mon::check_released();
}
/// buffered / try_buffered: order, concurrency and progress.
fn buffered(c: &mut Case) {
    let n = c.rng.below(12);
    let limit = *c.rng.pick(&[0usize, 1, 2, 3, 5, 100]);
    let is_try = c.rng.bool();
    let done: Done = Default::default();
    let mut gates = Vec::new();
    // plan: item kinds: 0 future ok, 1 future err, 2 source error
    let kinds: Vec<u8> = (0..n).map(|_| if is_try { *c.rng.pick(&[0, 0, 0, 1, 2]) } else { 0 }).collect();
    c.desc = format!("limit {limit}, try {is_try}, items {kinds:?}");
    let taken = Rc::new(RefCell::new(Vec::<usize>::new()));
    let mut items = Vec::new();
    for i in 0..n {
        let f = child(i, &done);
        gates.push(f.gate_id());
        items.push((i, f));
    }
    let k2 = kinds.clone();
    type R = Result<Tok, Tok>;
    let lim = if limit == 0 && c.rng.bool() { None } else { Some(limit) };
    let src = wd::stream(items);
    let sg = src.gate_id();
    let stats = src.stats();
    let t2 = taken.clone();
    let mut s: Pin<Box<dyn Stream<Item = R>>> = if is_try {
        let src = src.map(move |(i, f)| {
            t2.borrow_mut().push(i);
            let k = k2[i];
            if k == 2 { Err(mon::tok(1000 + i as u64)) } else {
                use futures::FutureExt;
                Ok(f.map(move |t| if k == 1 { Err(t) } else { Ok(t) }))
            }
        });
        Box::pin(src.try_buffered(lim))
    } else {
        let src = src.map(move |(i, f)| {
            t2.borrow_mut().push(i);
            use futures::FutureExt;
            f.map(Ok::<Tok, Tok>)
        });
        Box::pin(src.buffered(lim))
    };
    let eff = if limit == 0 { usize::MAX } else { limit };
    let mut next_fut: VecDeque<usize> = (0..n).filter(|i| kinds[*i] != 2).collect();
    let mut next_src: VecDeque<usize> = (0..n).filter(|i| kinds[*i] == 2).collect();
    let mut out = 0;
    let mut d = Driver::new();
    loop {
        let p = d.poll(|cx| s.as_mut().poll_next(cx));
        let tk = taken.borrow();
        let futs_taken = tk.iter().filter(|i| kinds[**i] != 2).count();
        if let Poll::Ready(Some(r)) = &p {
            let (v, err) = match r {
                Ok(t) => (t.get(), false),
                Err(t) => (t.get(), true),
            };
            logf!("out {v} err {err}");
            if v >= 1000 {
                let want = next_src.pop_front();
                ensure!(want == Some(v as usize - 1000) && err, "source error {} out of order (expected {want:?})", v - 1000);
                ensure!(tk.last().copied() == want, "source error {want:?} not passed on when it was met");
            } else {
                let want = next_fut.pop_front();
                ensure!(want == Some(v as usize), "yielded {v} but {want:?} is next in order");
                ensure!(err == (kinds[v as usize] == 1), "result {v} changed its kind");
                out += 1;
            }
        }
        ensure!(futs_taken - out <= eff, "{} futures admitted with limit {limit}", futs_taken - out);
        match p {
            Poll::Ready(Some(_)) => {}
            Poll::Ready(None) => {
                ensure!(next_fut.is_empty() && next_src.is_empty() && stats.ended.get(), "ended with {next_fut:?} outstanding");
                break;
            }
            Poll::Pending => {
                let admitted = futs_taken - out;
                if !wd::woken() {
                    ensure!(stats.ended.get() || admitted >= eff || wd::waiting(sg), "waits with {admitted} of {limit} slots used without asking the source for more");
                    for i in tk.iter().filter(|i| kinds[**i] != 2) {
                        ensure!(done.borrow()[*i] || wd::touched(gates[*i]), "admitted future {i} was never polled");
                    }
                    if let Some(f) = next_fut.front() {
                        ensure!(!tk.contains(f) || !done.borrow()[*f], "pending although the next output is there");
                    }
                }
                drop(tk);
                if mon::violated() {
                    return;
                }
                if !d.idle() {
                    if !mon::violated() {
                        hv::vio!("lost wake-up");
                    }
                    return;
                }
            }
        }
        if mon::violated() || d.polls > 5000 {
            ensure!(d.polls <= 5000, "does not end");
            return;
        }
    }
    c.nontrivial = n > 0;
    c.count("outputs", n as u64);
    drop((s, d));
    mon::check_released();
}
/// join_all / try_join_all / JoinAll::from_iter on small and big inputs: positions.
fn joined(c: &mut Case) {
    let n = *c.rng.pick(&[0usize, 1, 2, 5, 29, 30, 31, 32, 60]);
    let done: Done = Default::default();
    let is_try = c.rng.bool();
    c.desc = format!("{n} futures, try {is_try}");
    let unbounded = c.rng.bool();
    let fs: Vec<_> = (0..n).map(|i| child(i, &done)).collect();
    // an iterator without an upper size bound
    let mut it = fs.into_iter();
    use futures::FutureExt;
    let got: Option<Vec<Tok>> = if is_try {
        let m = |f: wd::Lf<Tok>| f.map(Ok::<Tok, ()>);
        let r = if unbounded {
            wd::run(futures::future::try_join_all(std::iter::from_fn(|| it.next()).map(m)))
        } else {
            wd::run(it.map(m).collect::<futures::future::TryJoinAll<_>>())
        };
        r.map(|r| r.unwrap())
    } else if unbounded {
        wd::run(futures::future::join_all(std::iter::from_fn(|| it.next())))
    } else {
        wd::run(it.collect::<futures::future::JoinAll<_>>())
    };
    let Some(v) = got else { return };
    let v2: Vec<u64> = v.iter().map(|t| t.get()).collect();
    ensure!(v2 == (0..n as u64).collect::<Vec<_>>(), "outputs in order {v2:?}");
    drop(v);
    c.nontrivial = n > 0;
    c.count("outputs", n as u64);
    mon::check_released();
}
fn main() {
    hv::main("C10", vec![
        hv::w("ordered_set", 2_000_000, 30_000_000, ordered_set),
        hv::w("buffered", 2_000_000, 30_000_000, buffered),
        hv::w("joined", 500_000, 5_000_000, joined),
    ]);
}
