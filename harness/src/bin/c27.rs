//! C27: cancellation and panics: everything dropped exactly once, nothing hangs.
use futures::channel::{mpsc, oneshot};
use futures::future::{self, FutureExt};
use futures::lock::{BiLock, Mutex};
use futures::sink::SinkExt;
use futures::stream::{self, FuturesOrdered, FuturesUnordered, SelectAll, Stream, StreamExt};
use hv::mon::{self, tok, Tok};
use hv::pipes::{self, Watch};
use hv::world as wd;
use hv::{ensure, fpipes, iow, logf, sinks, soup, tpipes, vio, Case};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll};

fn upto(c: &mut Case, lim: &[usize]) -> usize {
    let n = *c.rng.pick(lim);
    c.rng.below(n)
}
fn set_panic(n: u64) {
    wd::with(|w| w.panic_in = n);
}
fn panic_left() -> u64 {
    wd::with(|w| w.panic_in)
}
fn msg(e: &(dyn std::any::Any + Send)) -> &str {
    e.downcast_ref::<&str>().copied().unwrap_or("?")
}
enum End<T> {
    Done(T),
    Panicked,
    Cut,
    Bad,
}
/// Polls until completion, panic, or `cut` polls; only when woken.
fn drive<T>(d: &mut wd::Driver, cut: u64, mut f: impl FnMut(&mut Context<'_>) -> Poll<T>) -> End<T> {
    let from = d.polls;
    loop {
        if d.polls - from >= cut {
            return End::Cut;
        }
        let r = catch_unwind(AssertUnwindSafe(|| d.poll(&mut f)));
        match r {
            Err(e) => {
                ensure!(msg(&*e) == "injected panic", "unexpected panic: {}", hv::sched::panic_msg(&*e));
                return End::Panicked;
            }
            Ok(Poll::Ready(v)) => return End::Done(v),
            Ok(Poll::Pending) => {}
        }
        if d.polls > 20_000 {
            vio!("not finished after {} polls although every leaf makes progress", d.polls);
        }
        if mon::violated() {
            return End::Bad;
        }
        d.strict = false;
        if !d.idle() {
            if !mon::violated() {
                vio!("blocked for ever: pending, its latest waker not woken, and no event outstanding");
            }
            return End::Bad;
        }
    }
}
fn quiet_drop<T>(t: T, what: &str) {
    if let Err(e) = catch_unwind(AssertUnwindSafe(|| drop(t))) {
        vio!("dropping {what} panics: {}", hv::sched::panic_msg(&*e));
    }
}
fn cut_of(c: &mut Case) -> u64 {
    if c.rng.chance(1, 12) { 0 } else { 1 + upto(c, &[3, 8, 25]) as u64 }
}
/// Dropped at an arbitrary point; also wakes arriving during and after the drop.
fn drops(c: &mut Case) {
    let depth = *c.rng.pick(&[1, 2, 2, 3, 3, 4]);
    let p = soup::prog(c, depth);
    c.desc = p.desc.clone();
    let mut f = p.f;
    let mut d = wd::Driver::new();
    let cut = cut_of(c);
    match drive(&mut d, cut, |cx| f.as_mut().poll(cx)) {
        End::Done(v) => {
            let mut want = p.model;
            want.sort();
            let got = soup::vals(&v);
            ensure!(got == want, "result {got:?}, expected {want:?}");
            c.count("completed", 1);
        }
        End::Cut => {
            c.count("cut", 1);
            c.nontrivial = true;
        }
        _ => {}
    }
    mon::event(d.polls);
    quiet_drop(f, "a program");
    drop(d);
    wd::fire_all();
    mon::check_released();
}
fn panics(c: &mut Case) {
    let depth = *c.rng.pick(&[1, 2, 2, 3, 3, 4]);
    let p = soup::prog(c, depth);
    c.desc = p.desc.clone();
    let mut f = p.f;
    let mut d = wd::Driver::new();
    set_panic(1 + upto(c, &[3, 10, 40]) as u64);
    let cut = if c.rng.chance(1, 5) { cut_of(c) } else { u64::MAX };
    match drive(&mut d, cut, |cx| f.as_mut().poll(cx)) {
        End::Done(v) => {
            if panic_left() > 0 {
                let mut want = p.model;
                want.sort();
                let got = soup::vals(&v);
                ensure!(got == want, "result {got:?}, expected {want:?}");
            } else {
                vio!("a panic inside the program was swallowed");
            }
        }
        End::Panicked => {
            c.count("panicked", 1);
            c.nontrivial = true;
        }
        _ => {}
    }
    set_panic(0);
    mon::event(d.polls);
    quiet_drop(f, "a program that panicked");
    drop(d);
    wd::fire_all();
    mon::check_released();
}
type Child = Pin<Box<dyn Future<Output = ()>>>;
#[derive(Default)]
struct Seen {
    sent: Vec<u64>,
    got: Vec<u64>,
    recv_end: bool,
    recv_died: bool,
    refused: usize,
    locks: usize,
    os: Option<Option<u64>>,
    os_sent: Option<u64>,
    shared: Vec<u64>,
}
/// Tasks that share locks, channels and handles; one of them panics.
fn siblings(c: &mut Case) {
    let seen: Rc<RefCell<Seen>> = Default::default();
    let mut kids: Vec<(Child, &'static str)> = Vec::new();
    // --- lock users
    let m = Arc::new(Mutex::new(0u64));
    let nlock = c.rng.below(4);
    for _ in 0..nlock {
        let (m, s) = (m.clone(), seen.clone());
        let owned = c.rng.chance(1, 2);
        let n = 1 + c.rng.below(3);
        kids.push((
            Box::pin(async move {
                for _ in 0..n {
                    if owned {
                        let mut g = m.clone().lock_owned().await;
                        wd::fut(()).await;
                        *g += 1;
                    } else {
                        let mut g = m.lock().await;
                        wd::fut(()).await;
                        *g += 1;
                    }
                }
                s.borrow_mut().locks += 1;
            }),
            "mutex",
        ));
    }
    // --- bilock
    let bi = c.rng.chance(1, 2);
    if bi {
        let (l, r) = BiLock::new(tok(1));
        for b in [l, r] {
            kids.push((
                Box::pin(async move {
                    for _ in 0..2 {
                        let g = b.lock().await;
                        wd::fut(()).await;
                        g.get();
                    }
                }),
                "bilock",
            ));
        }
    }
    // --- channel
    let nsend = c.rng.below(3);
    let cap = c.rng.below(3);
    if nsend > 0 {
        let (tx, mut rx) = mpsc::channel::<Tok>(cap);
        for i in 0..nsend as u64 {
            let mut tx = tx.clone();
            let s = seen.clone();
            let n = 1 + c.rng.below(4) as u64;
            kids.push((
                Box::pin(async move {
                    for k in 0..n {
                        wd::fut(()).await;
                        let v = i * 100 + k;
                        match tx.send(tok(v)).await {
                            Ok(()) => s.borrow_mut().sent.push(v),
                            Err(_) => {
                                s.borrow_mut().refused += 1;
                                break;
                            }
                        }
                    }
                }),
                "sender",
            ));
        }
        drop(tx);
        let s = seen.clone();
        kids.push((
            Box::pin(async move {
                let died = guard(&s);
                while let Some(t) = rx.next().await {
                    s.borrow_mut().got.push(t.get());
                    wd::fut(()).await;
                }
                s.borrow_mut().recv_end = true;
                std::mem::forget(died);
            }),
            "receiver",
        ));
    }
    // --- oneshot
    let one = c.rng.chance(1, 2);
    if one {
        let (tx, rx) = oneshot::channel::<Tok>();
        let s = seen.clone();
        kids.push((
            Box::pin(async move {
                wd::fut(()).await;
                s.borrow_mut().os_sent = Some(7);
                let _ = tx.send(tok(7));
                wd::fut(()).await;
            }),
            "oneshot sender",
        ));
        let s = seen.clone();
        kids.push((
            Box::pin(async move {
                let r = rx.await;
                s.borrow_mut().os = Some(r.ok().map(|t| t.get()));
            }),
            "oneshot receiver",
        ));
    }
    // --- shared
    let nsh = c.rng.below(4);
    if nsh > 0 {
        let sh = async {
            wd::fut(()).await;
            wd::fut(()).await;
            Rc::new(tok(55))
        }
        .boxed_local()
        .shared();
        for _ in 0..nsh {
            let (h, s) = (sh.clone(), seen.clone());
            kids.push((
                Box::pin(async move {
                    wd::fut(()).await;
                    let v = h.await;
                    s.borrow_mut().shared.push(v.get());
                }),
                "shared",
            ));
        }
    }
    // --- remote handle
    if c.rng.chance(1, 3) {
        let (r, h) = async { wd::fut(tok(3)).await }.remote_handle();
        kids.push((Box::pin(r), "remote"));
        kids.push((Box::pin(async { drop(h.await) }), "handle"));
    }
    // --- abortable
    if c.rng.chance(1, 3) {
        let (f, h) = future::abortable(async {
            wd::fut(()).await;
            wd::fut(()).await;
        });
        kids.push((Box::pin(f.map(|_| ())), "abortable"));
        kids.push((
            Box::pin(async move {
                wd::fut(()).await;
                h.abort();
            }),
            "aborter",
        ));
    }
    let n = kids.len();
    c.desc = kids.iter().map(|k| k.1).collect::<Vec<_>>().join(", ");
    let names: Vec<&'static str> = kids.iter().map(|k| k.1).collect();
    let mut order: Vec<usize> = (0..n).collect();
    c.rng.shuffle(&mut order);
    let mut slots: Vec<Option<Child>> = kids.into_iter().map(|k| Some(k.0)).collect();
    let res: Rc<RefCell<Vec<(usize, bool)>>> = Default::default();
    let wrapped: Vec<_> = order
        .iter()
        .map(|&i| {
            let f = slots[i].take().unwrap();
            let res = res.clone();
            AssertUnwindSafe(f).catch_unwind().map(move |r| {
                if let Err(e) = &r {
                    logf!("task {i} panicked: {}", hv::sched::panic_msg(&**e));
                }
                res.borrow_mut().push((i, r.is_err()))
            })
        })
        .collect();
    let hit = c.rng.chance(5, 6);
    set_panic(if hit { 1 + upto(c, &[4, 12, 40]) as u64 } else { 0 });
    let mut root: Child = match c.rng.below(3) {
        0 => Box::pin(future::join_all(wrapped).map(|_| ())),
        1 => Box::pin(wrapped.into_iter().collect::<FuturesUnordered<_>>().for_each(|_| future::ready(()))),
        _ => Box::pin(stream::iter(wrapped).for_each_concurrent(None, |f| f)),
    };
    let mut d = wd::Driver::new();
    let e = drive(&mut d, u64::MAX, |cx| root.as_mut().poll(cx));
    let fired = hit && panic_left() == 0;
    set_panic(0);
    if let End::Panicked = e {
        vio!("catch_unwind let a panic through");
    }
    if matches!(e, End::Done(())) {
        let r = res.borrow();
        ensure!(r.len() == n, "{} of {n} tasks reported", r.len());
        let bad: Vec<usize> = r.iter().filter(|x| x.1).map(|x| x.0).collect();
        let died = |name: &str| bad.iter().any(|i| names[*i] == name);
        if !fired {
            ensure!(bad.is_empty(), "a task panicked although nothing was injected");
        } else {
            ensure!(!bad.is_empty(), "an injected panic was swallowed");
            c.nontrivial = true;
            c.count("panicked", 1);
            for b in &bad {
                c.count(names[*b], 1);
            }
        }
        // several tasks may fail only where they all wait for the same future
        if bad.len() > 1 {
            let ok = bad.iter().all(|i| names[*i] == "shared") || bad.iter().all(|i| matches!(names[*i], "remote" | "handle"));
            ensure!(ok, "tasks {:?} panicked, only one of them was hit", bad.iter().map(|i| names[*i]).collect::<Vec<_>>());
        }
        let s = seen.borrow();
        if nsend > 0 && !s.recv_died {
            ensure!(s.recv_end, "the receiver did not see the end");
            ensure!(s.refused == 0, "a send failed although the receiver lives");
            let mut got = s.got.clone();
            let mut sent = s.sent.clone();
            // the panicking sender may have handed over a message it did not get to record
            for i in 0..nsend as u64 {
                let a: Vec<u64> = got.iter().copied().filter(|v| v / 100 == i).collect();
                let b: Vec<u64> = sent.iter().copied().filter(|v| v / 100 == i).collect();
                ensure!(a.starts_with(&b) && a.len() <= b.len() + 1, "sender {i} sent {b:?}, received {a:?}");
                if !died("sender") {
                    ensure!(a == b, "sender {i} sent {b:?}, received {a:?}");
                }
            }
            got.sort();
            got.dedup();
            ensure!(got.len() == s.got.len(), "an item was received twice");
            sent.clear();
        }
        if one {
            if let Some(v) = s.os {
                ensure!(v == s.os_sent, "oneshot received {v:?}, sent {:?}", s.os_sent);
            } else {
                ensure!(died("oneshot receiver"), "oneshot receiver has no result");
            }
        }
        for v in &s.shared {
            ensure!(*v == 55, "wrong shared output");
        }
        drop(s);
        if !died("mutex") {
            ensure!(seen.borrow().locks == nlock, "{} of {nlock} lock users finished", seen.borrow().locks);
        }
        ensure!(m.try_lock().is_some(), "the mutex is still locked after everybody is gone");
    }
    quiet_drop(root, "the tasks");
    drop(m);
    drop(d);
    wd::fire_all();
    mon::check_released();
}
struct DiedGuard(Rc<RefCell<Seen>>);
impl Drop for DiedGuard {
    fn drop(&mut self) {
        self.0.borrow_mut().recv_died = true;
    }
}
fn guard(s: &Rc<RefCell<Seen>>) -> DiedGuard {
    DiedGuard(s.clone())
}
type Fb = Pin<Box<dyn Future<Output = Tok>>>;
/// Collections whose children panic: the panic reaches the caller of the poll, the other
/// children go on.
fn collections(c: &mut Case) {
    let n = 1 + c.rng.below(6) as u64;
    let bombs: Vec<bool> = (0..n).map(|_| c.rng.chance(1, 3)).collect();
    let kind = c.rng.below(5);
    let mk = |i: u64, bomb: bool| -> Fb {
        Box::pin(async move {
            let body = tok(1000 + i);
            wd::fut(()).await;
            if bomb {
                wd::fut(()).await;
                panic!("injected panic");
            }
            drop(body);
            tok(i)
        })
    };
    c.desc = format!("kind {kind}, panicking {bombs:?}");
    let mut d = wd::Driver::new();
    let mut got = Vec::new();
    let mut panics = 0usize;
    let mut late = if c.rng.chance(1, 2) { c.rng.below(3) as u64 } else { 0 };
    let cut = if c.rng.chance(1, 4) { cut_of(c) } else { u64::MAX };
    let nb = bombs.iter().filter(|b| **b).count();
    let mut ended = false;
    macro_rules! go {
        ($s:expr, $push:expr) => {{
            let mut s = $s;
            loop {
                match drive(&mut d, cut, |cx| s.poll_next_unpin(cx)) {
                    End::Done(Some(t)) => got.push(Tok::get(&t)),
                    End::Done(None) => {
                        ended = true;
                        break;
                    }
                    End::Panicked => {
                        panics += 1;
                        if panics > nb {
                            vio!("a child panicked twice");
                            break;
                        }
                        if late > 0 {
                            late -= 1;
                            $push(&mut s, 100 + late);
                        }
                    }
                    _ => break,
                }
                if got.len() > 100 {
                    vio!("more items than children");
                    break;
                }
            }
            quiet_drop(s, "the collection");
        }};
    }
    let items = || (0..n).map(|i| mk(i, bombs[i as usize])).collect::<Vec<_>>();
    let mut pushed = Vec::new();
    match kind {
        0 | 1 => {
            let f: FuturesUnordered<Fb> = items().into_iter().collect();
            go!(f, |s: &mut FuturesUnordered<Fb>, k| {
                pushed.push(k);
                s.push(mk(k, false))
            });
        }
        2 => {
            let f: FuturesOrdered<Fb> = items().into_iter().collect();
            go!(f, |_: &mut FuturesOrdered<Fb>, _| ());
        }
        3 => {
            let mut f: SelectAll<Pin<Box<dyn Stream<Item = Tok>>>> = SelectAll::new();
            for x in items() {
                f.push(Box::pin(stream::once(x)));
            }
            go!(f, |s: &mut SelectAll<Pin<Box<dyn Stream<Item = Tok>>>>, k| {
                pushed.push(k);
                s.push(Box::pin(stream::once(mk(k, false))))
            });
        }
        _ => {
            let s = wd::stream(items()).buffer_unordered(1 + n as usize / 2);
            go!(s, |_: &mut _, _| ());
        }
    }
    if ended && kind != 2 {
        let mut want: Vec<u64> = (0..n).filter(|i| !bombs[*i as usize]).collect();
        want.extend(&pushed);
        got.sort();
        want.sort();
        ensure!(got == want, "the surviving children yield {got:?}, expected {want:?}");
        ensure!(panics == nb, "{panics} panics arrived, {nb} children panic");
    }
    if kind == 2 {
        let mut s = got.clone();
        s.sort();
        s.dedup();
        ensure!(s == got, "FuturesOrdered yields {got:?}");
        ensure!(got.iter().all(|i| !bombs[*i as usize]), "FuturesOrdered yields the output of a panicked child");
    }
    c.nontrivial = panics > 0;
    c.count("panics", panics as u64);
    mon::event(panics as u64);
    drop(d);
    wd::fire_all();
    mon::check_released();
}
/// catch_unwind on futures and streams over panicking closures and leaves.
fn caught(c: &mut Case) {
    let kind = c.rng.below(3);
    let mut d = wd::Driver::new();
    let k = 1 + upto(c, &[2, 6, 20]) as u64;
    match kind {
        0 => {
            let p = fpipes::random(c, Watch::default(), 5);
            c.desc = format!("future {:?}", p.desc);
            let model = p.model;
            let mut f = AssertUnwindSafe(p.f).catch_unwind();
            set_panic(k);
            match drive(&mut d, u64::MAX, |cx| f.poll_unpin(cx)) {
                End::Done(Ok(r)) => {
                    ensure!(panic_left() > 0, "a panic was swallowed");
                    set_panic(0);
                    ensure!(tpipes::raw(&r) == model, "result {:?}, expected {model:?}", tpipes::raw(&r));
                }
                End::Done(Err(e)) => {
                    c.nontrivial = true;
                    ensure!(msg(&*e) == "injected panic", "a different payload");
                }
                End::Panicked => vio!("catch_unwind let a panic through"),
                _ => {}
            }
            set_panic(0);
            quiet_drop(f, "a caught future");
        }
        1 => {
            let p = pipes::random(c, Watch::default(), 4);
            c.desc = format!("stream {:?}", p.desc);
            let ordered = p.ordered;
            let (s, model, _, _) = p.into_parts();
            let mut s = AssertUnwindSafe(s).catch_unwind();
            set_panic(k);
            let mut got = Vec::new();
            loop {
                match drive(&mut d, u64::MAX, |cx| s.poll_next_unpin(cx)) {
                    End::Done(Some(Ok(t))) => got.push(t.get()),
                    End::Done(Some(Err(e))) => {
                        c.nontrivial = true;
                        ensure!(msg(&*e) == "injected panic", "a different payload");
                        set_panic(0);
                        let r = d.poll(|cx| s.poll_next_unpin(cx));
                        ensure!(matches!(r, Poll::Ready(None)), "the stream goes on after a caught panic");
                        break;
                    }
                    End::Done(None) => {
                        ensure!(panic_left() > 0, "a panic was swallowed");
                        break;
                    }
                    End::Panicked => {
                        vio!("catch_unwind let a panic through");
                        break;
                    }
                    _ => break,
                }
            }
            set_panic(0);
            if ordered {
                ensure!(model.starts_with(&got), "items {got:?} before the panic, expected a prefix of {model:?}");
            }
            quiet_drop(s, "a caught stream");
        }
        _ => {
            // not caught inside: nothing is delivered twice, everything is released
            let p = tpipes::random(c, Watch::default(), 4);
            c.desc = format!("try stream {:?}", p.desc);
            let (mut s, _, _, _) = p.into_parts();
            set_panic(k);
            loop {
                match drive(&mut d, 60, |cx| s.poll_next_unpin(cx)) {
                    End::Done(Some(_)) => {}
                    End::Panicked => {
                        c.nontrivial = true;
                        break;
                    }
                    _ => break,
                }
            }
            set_panic(0);
            quiet_drop(s, "a try stream");
        }
    }
    mon::event(k);
    drop(d);
    wd::fire_all();
    mon::check_released();
}
/// Sink stacks dropped or panicking in the middle of an operation.
fn sink_cuts(c: &mut Case) {
    let st = sinks::random(c, 4);
    c.desc = format!("{:?}", st.desc);
    let mut s = st.s;
    let tr = st.tr;
    let mut d = wd::Driver::new();
    if c.rng.chance(1, 2) {
        set_panic(1 + c.rng.below(12) as u64);
    }
    let mut given = 0u64;
    for _ in 0..1 + c.rng.below(6) {
        let cut = if c.rng.chance(1, 3) { cut_of(c) } else { u64::MAX };
        let e = match c.rng.below(3) {
            0 => {
                given += 1;
                let mut f = s.send(tok(given));
                drive(&mut d, cut, |cx| f.poll_unpin(cx))
            }
            1 => {
                given += 1;
                let mut f = s.feed(tok(given));
                drive(&mut d, cut, |cx| f.poll_unpin(cx))
            }
            _ => {
                let mut f = s.flush();
                drive(&mut d, cut, |cx| f.poll_unpin(cx))
            }
        };
        match e {
            End::Done(Ok(())) => {}
            End::Cut => c.nontrivial = true,
            End::Panicked => {
                c.nontrivial = true;
                c.count("panicked", 1);
                break;
            }
            _ => break,
        }
    }
    set_panic(0);
    mon::event(given);
    quiet_drop(s, "a sink");
    drop(tr);
    drop(d);
    wd::fire_all();
    mon::check_released();
}
/// Futures, streams and values whose destructor panics: nothing is dropped twice, and what is
/// still reachable stays usable. (Values may be leaked by a panicking destructor.)
fn drop_bombs(c: &mut Case) {
    struct Bomb(Rc<Cell<u32>>, bool, Tok);
    impl Drop for Bomb {
        fn drop(&mut self) {
            self.0.set(self.0.get() + 1);
            self.2.get();
            if self.1 && !std::thread::panicking() {
                panic!("injected panic");
            }
        }
    }
    let n = 1 + c.rng.below(5);
    let counts: Vec<Rc<Cell<u32>>> = (0..n).map(|_| Default::default()).collect();
    let bad: Vec<bool> = (0..n).map(|_| c.rng.chance(1, 3)).collect();
    let kids: Vec<Fb> = (0..n)
        .map(|i| {
            let b = Bomb(counts[i].clone(), bad[i], tok(i as u64));
            let never = c.rng.chance(1, 4);
            Box::pin(async move {
                let _b = b;
                wd::fut(()).await;
                if never {
                    futures::pending!();
                    future::pending::<()>().await;
                }
                tok(50)
            }) as Fb
        })
        .collect();
    let kind = c.rng.below(6);
    c.desc = format!("kind {kind}, panicking destructors {bad:?}");
    let mut d = wd::Driver::new();
    let cut = cut_of(c);
    let mut live = true;
    let mut run = |f: &mut dyn FnMut(&mut Context<'_>) -> Poll<bool>| {
        for _ in 0..cut {
            match catch_unwind(AssertUnwindSafe(|| d.poll(|cx| f(cx)))) {
                Err(_) => {}
                Ok(Poll::Ready(true)) => {}
                Ok(Poll::Ready(false)) => break,
                Ok(Poll::Pending) => {
                    wd::fire_random();
                }
            }
        }
    };
    let drop_all = |x: Box<dyn std::any::Any>| {
        let _ = catch_unwind(AssertUnwindSafe(|| drop(x)));
    };
    match kind {
        0 | 1 => {
            let mut f: FuturesUnordered<Fb> = kids.into_iter().collect();
            run(&mut |cx| f.poll_next_unpin(cx).map(|o| o.is_some()));
            if c.rng.chance(1, 3) {
                let _ = catch_unwind(AssertUnwindSafe(|| f.clear()));
                run(&mut |cx| f.poll_next_unpin(cx).map(|o| o.is_some()));
            }
            drop_all(Box::new(f));
        }
        2 => {
            let mut f = future::join_all(kids).map(|_| false);
            // not polled again after a panic
            run(&mut |cx| if !live { Poll::Ready(false) } else { live = false; let r = f.poll_unpin(cx); live = r.is_pending(); r });
            drop_all(Box::new(f));
        }
        3 => {
            let mut f = stream::iter(kids).buffered(2);
            run(&mut |cx| if !live { Poll::Ready(false) } else { live = false; let r = f.poll_next_unpin(cx).map(|o| o.is_some()); live = true; r });
            drop_all(Box::new(f));
        }
        4 => {
            let mut f = future::select_all(kids).map(|_| false);
            run(&mut |cx| if !live { Poll::Ready(false) } else { live = false; let r = f.poll_unpin(cx); live = r.is_pending(); r });
            drop_all(Box::new(f));
        }
        _ => {
            let hs: Vec<_> = kids.into_iter().map(|k| k.map(Rc::new).shared()).collect();
            let mut f = future::join_all(hs.clone()).map(|_| false);
            run(&mut |cx| if !live { Poll::Ready(false) } else { live = false; let r = f.poll_unpin(cx); live = r.is_pending(); r });
            drop_all(Box::new(f));
            for h in hs {
                drop_all(Box::new(h));
            }
        }
    }
    for (i, k) in counts.iter().enumerate() {
        ensure!(k.get() <= 1, "child {i} dropped {} times", k.get());
    }
    if !bad.iter().any(|b| *b) {
        for (i, k) in counts.iter().enumerate() {
            ensure!(k.get() == 1, "child {i} dropped {} times", k.get());
        }
    }
    c.nontrivial = bad.iter().any(|b| *b);
    mon::event(cut);
}
/// I/O operations dropped or panicking midway: borrowed buffers stay valid.
fn io_cuts(c: &mut Case) {
    use futures::io::{AsyncBufReadExt, AsyncReadExt, BufReader};
    let ms = iow::data(c, 14, false);
    let (all, _) = iow::run_of(&ms);
    let mut r = BufReader::with_capacity(1 + c.rng.below(6), iow::reader(ms));
    let mut d = wd::Driver::new();
    if c.rng.chance(1, 2) {
        set_panic(1 + c.rng.below(8) as u64);
    }
    let cut = cut_of(c);
    let kind = c.rng.below(4);
    c.desc = format!("kind {kind}, cut {cut}, {} bytes", all.len());
    macro_rules! go {
        ($f:expr) => {{
            let mut f = $f;
            let e = drive(&mut d, cut, |cx| Pin::new(&mut f).poll(cx));
            c.nontrivial = !matches!(e, End::Done(_));
            quiet_drop(f, "an I/O operation");
            matches!(e, End::Done(Ok(_)))
        }};
    }
    match kind {
        0 => {
            let mut s = String::from("äb");
            let done = go!(r.read_to_string(&mut s));
            set_panic(0);
            ensure!(std::str::from_utf8(s.as_bytes()).is_ok(), "the string holds invalid UTF-8");
            if done {
                ensure!(s.starts_with("äb"), "the string lost its contents");
            }
        }
        1 => {
            let mut s = String::from("äb");
            go!(r.read_line(&mut s));
            ensure!(std::str::from_utf8(s.as_bytes()).is_ok(), "the string holds invalid UTF-8");
        }
        2 => {
            let mut v = vec![1, 2, 3];
            go!(r.read_to_end(&mut v));
            ensure!(v.starts_with(&[1, 2, 3]), "read_to_end lost the contents of its buffer");
            ensure!(all.starts_with(&v[3..]), "read_to_end, cut short, left {:?} which was never read", &v[3..]);
        }
        _ => {
            let mut v = vec![1, 2, 3];
            go!(r.read_until(b'\n', &mut v));
            ensure!(v.starts_with(&[1, 2, 3]), "read_until lost the contents of its buffer");
            ensure!(all.starts_with(&v[3..]), "read_until, cut short, left {:?} which was never read", &v[3..]);
        }
    }
    set_panic(0);
    mon::event(cut);
    drop(r);
    drop(d);
    wd::fire_all();
    mon::check_released();
}
fn main() {
    hv::main("C27", vec![
        hv::w("drops", 1_500_000, 40_000_000, drops),
        hv::w("panics", 1_500_000, 40_000_000, panics),
        hv::w("siblings", 600_000, 20_000_000, siblings),
        hv::w("collections", 600_000, 20_000_000, collections),
        hv::w("caught", 600_000, 20_000_000, caught),
        hv::w("sink_cuts", 300_000, 8_000_000, sink_cuts),
        hv::w("drop_bombs", 300_000, 8_000_000, drop_bombs),
        hv::w("io_cuts", 300_000, 8_000_000, io_cuts),
    ])
}
