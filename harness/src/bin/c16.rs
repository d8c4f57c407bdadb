//! C16: merged streams.
use futures::stream::{self, FusedStream, PollNext, SelectAll};
use futures::{Stream, StreamExt};
use hv::mon::{self, Tok};
use hv::world::{self as wd, Driver};
use hv::{ensure, logf, Case};
use std::cell::{Cell, RefCell};
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

struct Src {
    n: usize,
    gate: usize,
    st: Rc<wd::StreamStats>,
    got: usize,
    /// items of other sources since this one was last served
    passed: usize,
    waiting_since_ready: bool,
}
fn source(id: usize, n: usize) -> (wd::Ls<Tok>, Src) {
    let s = wd::stream((0..n).map(|i| mon::tok((id * 1000 + i) as u64)));
    let (gate, st) = (s.gate_id(), s.stats());
    (s, Src { n, gate, st, got: 0, passed: 0, waiting_since_ready: false })
}
fn take_item(srcs: &mut [Src], t: &Tok) {
    let (s, i) = (t.get() as usize / 1000, t.get() as usize % 1000);
    logf!("item {s}.{i}");
    mon::event(s as u64 + 10);
    ensure!(s < srcs.len() && srcs[s].got == i, "item {i} of source {s} came, expected {}", srcs.get(s).map_or(0, |s| s.got));
    if s < srcs.len() {
        srcs[s].got = i + 1;
    }
}
fn settled(srcs: &[Src], what: &str) {
    if !wd::woken() {
        for (i, s) in srcs.iter().enumerate() {
            ensure!(s.st.ended.get() || s.st.dropped.get() || (wd::touched(s.gate) && !wd::unserved(s.gate)), "{what} waits without having asked source {i}");
        }
    }
}
/// Two-source and macro forms, and chain.
fn merged(c: &mut Case) {
    let form = c.rng.below(8);
    let k = match form {
        0..=3 => 2,
        4 => 2,
        5 => 3,
        _ => 4,
    };
    let name = ["select", "select_with_strategy(round robin)", "select_with_strategy(scripted)", "chain", "stream_select!(2)", "stream_select!(3)", "stream_select!(4)", "select of selects"][form];
    let mut srcs = vec![];
    let mut ss = vec![];
    for i in 0..k {
        let (s, m) = source(i, c.rng.below(6));
        ss.push(s);
        srcs.push(m);
    }
    c.desc = format!("{name} of {:?}", srcs.iter().map(|s| s.n).collect::<Vec<_>>());
    let mut it = ss.into_iter();
    let mut nx = || it.next().unwrap();
    // decisions of the strategy closure during the current poll
    let asked: Rc<RefCell<Vec<bool>>> = Default::default();
    let term: Rc<Cell<Option<bool>>> = Default::default();
    /// Lets the monitor see is_terminated through the erased type.
    struct Peek<S>(S, Rc<Cell<Option<bool>>>);
    impl<S: FusedStream + Unpin> Stream for Peek<S> {
        type Item = S::Item;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Option<S::Item>> {
            let r = Pin::new(&mut self.0).poll_next(cx);
            self.1.set(Some(self.0.is_terminated()));
            r
        }
    }
    let mut root: Pin<Box<dyn Stream<Item = Tok>>> = match form {
        0 => Box::pin(Peek(stream::select(nx(), nx()), term.clone())),
        1 => {
            let a = asked.clone();
            Box::pin(Peek(stream::select_with_strategy(nx(), nx(), move |l: &mut PollNext| { let r = l.toggle(); a.borrow_mut().push(r == PollNext::Left); r }), term.clone()))
        }
        2 => {
            let a = asked.clone();
            Box::pin(Peek(stream::select_with_strategy(nx(), nx(), move |l: &mut u32| {
                *l += 1;
                let left = wd::rnd(3) > 0;
                a.borrow_mut().push(left);
                if left { PollNext::Left } else { PollNext::Right }
            }), term.clone()))
        }
        3 => Box::pin(Peek(nx().chain(nx()), term.clone())),
        4 => Box::pin(futures::stream_select!(nx(), nx())),
        5 => Box::pin(futures::stream_select!(nx(), nx(), nx())),
        6 => Box::pin(futures::stream_select!(nx(), nx(), nx(), nx())),
        _ => Box::pin(Peek(stream::select(stream::select(nx(), nx()), stream::select(nx(), nx())), term.clone())),
    };
    let mut d = Driver::new();
    let cut = if c.rng.chance(1, 8) { c.rng.below(8) as u64 } else { u64::MAX };
    let mut total = 0;
    while d.polls < cut {
        asked.borrow_mut().clear();
        let before: Vec<(u32, u32, bool)> = srcs.iter().map(|s| (s.st.polls.get(), s.st.yielded.get(), s.st.ended.get())).collect();
        let p = d.poll(|cx| root.as_mut().poll_next(cx));
        let any_over = before.iter().any(|b| b.2);
        let polled: Vec<bool> = srcs.iter().zip(&before).map(|(s, b)| s.st.polls.get() > b.0).collect();
        let yielded: usize = srcs.iter().zip(&before).map(|(s, b)| (s.st.yielded.get() - b.1) as usize).sum();
        let all_ended = srcs.iter().all(|s| s.st.ended.get());
        if let Some(t) = term.take() {
            if form != 3 {
                ensure!(t == all_ended, "is_terminated is {t} but all sources ended is {all_ended}");
            }
        }
        if form == 1 || form == 2 {
            let a = asked.borrow();
            if !any_over {
                ensure!(a.len() == 1, "the strategy was asked {} times in one poll", a.len());
                if let Some(left) = a.first() {
                    let side = if *left { 0 } else { 1 };
                    ensure!(polled[side], "the side chosen by the strategy was not polled");
                    if polled[1 - side] {
                        let chosen_gave = srcs[side].st.yielded.get() > before[side].1;
                        ensure!(!chosen_gave, "the other side was polled although the chosen one had an item");
                    }
                }
            }
        }
        if form == 3 {
            ensure!(!polled[1] || srcs[0].st.ended.get(), "the second stream was polled before the first had ended");
        }
        ensure!(yielded == matches!(p, Poll::Ready(Some(_))) as usize, "{yielded} items were taken from the sources in one poll");
        match p {
            Poll::Ready(Some(t)) => {
                take_item(&mut srcs, &t);
                if form == 3 && t.get() >= 1000 {
                    ensure!(srcs[0].got == srcs[0].n, "second stream's item before the end of the first");
                }
                total += 1;
            }
            Poll::Ready(None) => {
                ensure!(all_ended, "ended although a source has not");
                for (i, s) in srcs.iter().enumerate() {
                    ensure!(s.got == s.n, "ended with {} of {} items of source {i}", s.got, s.n);
                }
                break;
            }
            Poll::Pending => {
                ensure!(!all_ended, "pending although all sources have ended");
                if form != 3 {
                    settled(&srcs, name);
                }
                if mon::violated() {
                    return;
                }
                if !d.idle() {
                    if !mon::violated() {
                        hv::vio!("lost wake-up");
                    }
                    return;
                }
            }
        }
        if mon::violated() {
            return;
        }
    }
    c.nontrivial = total > 0;
    c.count("items", total);
    drop((root, d));
    mon::check_released();
}
/// SelectAll under a random sequence of operations.
fn select_all(c: &mut Case) {
    let mut srcs: Vec<Src> = vec![];
    let mut live: Vec<usize> = vec![];
    let mut set: SelectAll<wd::Ls<Tok>> = SelectAll::new();
    let mut d = Driver::new();
    let steps = c.rng.range(4, 50);
    let mut need_poll = true;
    let mut ended = false;
    let mut total = 0u64;
    let k = c.rng.below(4);
    if k > 0 {
        let mut v = vec![];
        for i in 0..k {
            let (s, m) = source(i, c.rng.below(5));
            v.push(s);
            srcs.push(m);
            live.push(i);
        }
        set = if c.rng.bool() { stream::select_all(v) } else { v.into_iter().collect() };
    }
    for step in 0..steps + 400 {
        let finishing = step >= steps;
        live.retain(|i| !srcs[*i].st.ended.get());
        match if finishing { 9 } else { c.rng.below(14) } {
            0 | 1 => {
                let (s, m) = source(srcs.len(), c.rng.below(6));
                live.push(srcs.len());
                srcs.push(m);
                if c.rng.bool() { set.push(s) } else { set.extend([s]) }
                need_poll = true;
                ended = false;
            }
            2 => {
                let n = live.len();
                ensure!(set.len() == n && set.is_empty() == (n == 0), "len {} with {n} streams running", set.len());
                ensure!(!ended || set.is_terminated(), "not terminated after the end");
                ensure!(n == 0 || !set.is_terminated(), "terminated with {n} streams running");
                let mut g: Vec<usize> = if c.rng.bool() { set.iter().map(|s| s.gate_id()).collect() } else { set.iter_mut().map(|s| s.gate_id()).collect() };
                let mut w: Vec<usize> = live.iter().map(|i| srcs[*i].gate).collect();
                g.sort();
                w.sort();
                ensure!(g == w, "the iterators show {g:?}, running are {w:?}");
            }
            3 if c.rng.chance(1, 6) => {
                set.clear();
                live.clear();
                need_poll = true;
                ended = false;
            }
            4 if c.rng.chance(1, 6) => {
                // take the streams out and build a new set of them
                let old = std::mem::take(&mut set);
                let v: Vec<_> = old.into_iter().collect();
                ensure!(v.len() == live.len(), "into_iter gave {} of {} streams", v.len(), live.len());
                set = stream::select_all(v);
                need_poll = true;
                ended = false;
            }
            _ => {
                if !need_poll && !d.idle() {
                    if !mon::violated() {
                        hv::vio!("lost wake-up: {} streams running, nothing more can happen", live.len());
                    }
                    return;
                }
                let p = d.poll(|cx| set.poll_next_unpin(cx));
                need_poll = true;
                match p {
                    Poll::Ready(Some(t)) => {
                        take_item(&mut srcs, &t);
                        total += 1;
                    }
                    Poll::Ready(None) => {
                        for i in &live {
                            ensure!(srcs[*i].st.ended.get() && srcs[*i].got == srcs[*i].n, "ended with source {i} at {} of {}", srcs[*i].got, srcs[*i].n);
                        }
                        ended = true;
                        if finishing {
                            break;
                        }
                    }
                    Poll::Pending => {
                        need_poll = false;
                        ensure!(live.iter().any(|i| !srcs[*i].st.ended.get()) || wd::woken(), "pending although all have ended");
                        if !wd::woken() {
                            for i in &live {
                                let s = &srcs[*i];
                                ensure!(s.st.ended.get() || (wd::touched(s.gate) && !wd::unserved(s.gate)), "waits without having asked source {i}");
                            }
                        }
                    }
                }
            }
        }
        if mon::violated() {
            return;
        }
    }
    c.nontrivial = total > 0;
    c.count("items", total);
    c.desc = format!("{} streams", srcs.len());
    drop((set, d));
    mon::check_released();
}
/// A source whose readiness is a flag; wakes itself when it is not ready.
struct Flag {
    id: u64,
    ready: Rc<Cell<u32>>,
}
impl Stream for Flag {
    type Item = u64;
    fn poll_next(self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Option<u64>> {
        if self.ready.get() >> self.id & 1 == 1 {
            Poll::Ready(Some(self.id))
        } else {
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}
/// No source that stays ready is starved.
fn fairness(c: &mut Case) {
    let form = c.rng.below(4);
    let k = match form {
        0 => 2,
        1 => 2,
        2 => c.rng.range(2, 7),
        _ => 3,
    };
    let ready = Rc::new(Cell::new(0u32));
    let mk = |id: usize| Flag { id: id as u64, ready: ready.clone() };
    c.desc = format!("{} of {k}", ["select", "select_with_strategy(toggle)", "select_all", "stream_select!"][form]);
    let mut root: Pin<Box<dyn Stream<Item = u64>>> = match form {
        0 => Box::pin(stream::select(mk(0), mk(1))),
        1 => Box::pin(stream::select_with_strategy(mk(0), mk(1), |l: &mut PollNext| l.toggle())),
        2 => Box::pin(stream::select_all((0..k).map(mk))),
        _ => Box::pin(futures::stream_select!(mk(0), mk(1), mk(2))),
    };
    let mut d = Driver::new();
    let mut since = vec![0usize; k];
    let mut prev: Option<(u32, u64)> = None;
    let style = c.rng.below(3);
    for _ in 0..60 {
        let mut r = match style {
            0 => (1u32 << k) - 1,
            1 => c.rng.below(1 << k) as u32,
            _ => ready.get() ^ (1 << c.rng.below(k)),
        };
        if style == 1 && c.rng.bool() {
            r = (1 << k) - 1;
        }
        ready.set(r);
        for i in 0..k {
            if r >> i & 1 == 0 {
                since[i] = 0;
            }
        }
        match d.poll(|cx| root.as_mut().poll_next(cx)) {
            Poll::Ready(Some(x)) => {
                ensure!(r >> x & 1 == 1, "item from a source that is not ready");
                mon::event(x);
                for i in 0..k {
                    if r >> i & 1 == 1 {
                        since[i] += 1;
                    }
                }
                since[x as usize] = 0;
                match form {
                    0 | 1 => {
                        if let Some((pr, px)) = prev {
                            ensure!(!(pr == 3 && r == 3 && px == x), "both sources stayed ready but source {x} was served twice in a row");
                        }
                    }
                    2 => {
                        for (i, s) in since.iter().enumerate() {
                            ensure!(*s <= 2 * k + 2, "source {i} stayed ready while {s} items of the {} others were served", k - 1);
                        }
                    }
                    _ => {}
                }
                prev = Some((r, x));
            }
            Poll::Ready(None) => ensure!(false, "ended"),
            Poll::Pending => {
                // (a cooperative yield is possible, but it must wake)
                ensure!(r == 0 || wd::woken(), "pending although a source is ready");
                prev = None;
            }
        }
        if mon::violated() {
            return;
        }
    }
    c.nontrivial = true;
    drop((root, d));
    mon::check_released();
}
/// stream_select! over always-ready sources gives each its share.
fn shares(c: &mut Case) {
    let ready = Rc::new(Cell::new(7));
    let mk = |id: u64| Flag { id, ready: ready.clone() };
    let mut s = futures::stream_select!(mk(0), mk(1), mk(2));
    let mut cnt = [0usize; 3];
    let mut d = Driver::new();
    for _ in 0..6000 {
        if let Poll::Ready(Some(x)) = d.poll(|cx| s.poll_next_unpin(cx)) {
            cnt[x as usize] += 1;
        }
    }
    for (i, x) in cnt.iter().enumerate() {
        ensure!(*x > 1400 && *x < 2600, "source {i} of 3 always-ready ones was served {x} times out of 6000");
    }
    c.nontrivial = true;
    mon::event(c.rng.next());
}
fn main() {
    hv::main("C16", vec![
        hv::w("merged", 3_000_000, 40_000_000, merged),
        hv::w("select_all", 1_500_000, 20_000_000, select_all),
        hv::w("fairness", 300_000, 3_000_000, fairness),
        hv::w("shares", 64, 400, shares),
    ]);
}
