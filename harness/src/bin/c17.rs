//! C17: stream adapters and consumers against the iterator computation.
use futures::stream::FusedStream;
use futures::{FutureExt, Stream, StreamExt};
use hv::mon::{self, Tok};
use hv::pipes::{self, fx, later, pr, Watch};
use hv::world as wd;
use hv::{ensure, vio, Case};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;
fn pipeline(c: &mut Case) {
    let p = pipes::random(c, Watch::default(), 5);
    c.nontrivial = !p.model.is_empty();
    if !p.finish() {
        return;
    }
    mon::check_released();
}
fn run<F: Future>(f: F, strict: bool) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut d = wd::Driver::new();
    d.strict = strict;
    d.run(f.as_mut())
}
fn vals(v: &[Tok]) -> Vec<u64> {
    v.iter().map(|t| t.get()).collect()
}
/// A consumer over a pipeline: its value, its closure calls, what is left of the source.
fn consumer(c: &mut Case) {
    let mut p = pipes::random(c, Watch::default(), 2);
    while !p.ordered {
        p = pipes::random(c, Watch::default(), 1);
    }
    let strict = p.strict;
    let (mut s, m, _, _) = p.into_parts();
    let which = c.rng.below(13);
    c.desc += &format!(" => consumer {which}");
    c.nontrivial = !m.is_empty();
    let key = c.rng.below(1000) as u64;
    let modl = *c.rng.pick(&[1u64, 2, 4]);
    let log: Rc<RefCell<Vec<u64>>> = Default::default();
    let l = log.clone();
    // how many items of the source are consumed; None: all and its end was seen
    let mut consumed: Option<usize> = None;
    let calls_until = |stop: &dyn Fn(u64) -> bool| -> (Vec<u64>, bool) {
        let mut v = vec![];
        for x in &m {
            v.push(*x);
            if stop(*x) {
                return (v, true);
            }
        }
        (v, false)
    };
    let mut want_calls: Option<Vec<u64>> = None;
    match which {
        0 => {
            let Some(r) = run(s.by_ref().collect::<Vec<Tok>>(), strict) else { return };
            ensure!(vals(&r) == m, "collect gives {:?}, expected {m:?}", vals(&r));
        }
        1 => {
            let Some(r) = run(s.by_ref().fold(mon::tok(key), move |a: Tok, t: Tok| { l.borrow_mut().push(t.get()); later(()).map(move |_| mon::tok(fx(a.get(), t.get()))) }), strict) else { return };
            let want = m.iter().fold(key, |a, x| fx(a, *x));
            ensure!(r.get() == want, "fold gives {}, expected {want}", r.get());
            want_calls = Some(m.clone());
        }
        2 => {
            let Some(r) = run(s.by_ref().map(|t| vec![t]).concat(), strict) else { return };
            ensure!(vals(&r) == m, "concat gives {:?}, expected {m:?}", vals(&r));
        }
        3 => {
            let Some((a, b)) = run(s.by_ref().map(|t| { let v = t.get(); (t, v) }).unzip::<Tok, u64, Vec<Tok>, Vec<u64>>(), strict) else { return };
            ensure!(vals(&a) == m && b == m, "unzip gives {:?} and {b:?}, expected {m:?}", vals(&a));
        }
        4 | 5 => {
            let any = which == 4;
            let (calls, decided) = calls_until(&|x| pr(x, key, modl * 2) == any);
            let f = move |t: Tok| { l.borrow_mut().push(t.get()); later(()).map(move |_| pr(t.get(), key, modl * 2)) };
            let r = if any { run(s.by_ref().any(f), strict) } else { run(s.by_ref().all(f), strict) };
            let Some(r) = r else { return };
            ensure!(r == (decided == any), "{} gives {r}, expected {}", if any { "any" } else { "all" }, decided == any);
            if decided { consumed = Some(calls.len()) }
            want_calls = Some(calls);
        }
        6 => {
            let Some(r) = run(s.by_ref().count(), strict) else { return };
            ensure!(r == m.len(), "count gives {r}, expected {}", m.len());
        }
        7 => {
            let Some(()) = run(s.by_ref().for_each(move |t: Tok| { l.borrow_mut().push(t.get()); later(()).map(move |_| drop(t)) }), strict) else { return };
            want_calls = Some(m.clone());
        }
        8 => {
            let (calls, failed) = calls_until(&|x| !pr(x, key, modl * 3));
            let Some(r) = run(s.by_ref().try_fold(mon::tok(key), move |a: Tok, t: Tok| { l.borrow_mut().push(t.get()); later(()).map(move |_| if pr(t.get(), key, modl * 3) { Ok(mon::tok(fx(a.get(), t.get()))) } else { Err(t) }) }), strict) else { return };
            let want = if failed { Err(*calls.last().unwrap()) } else { Ok(m.iter().fold(key, |a, x| fx(a, *x))) };
            let r = r.map(|t| t.get()).map_err(|t| t.get());
            ensure!(r == want, "try_fold gives {r:?}, expected {want:?}");
            if failed { consumed = Some(calls.len()) }
            want_calls = Some(calls);
        }
        9 => {
            let (calls, failed) = calls_until(&|x| !pr(x, key, modl * 3));
            let Some(r) = run(s.by_ref().try_for_each(move |t: Tok| { l.borrow_mut().push(t.get()); later(()).map(move |_| if pr(t.get(), key, modl * 3) { Ok(()) } else { Err(t) }) }), strict) else { return };
            let want = if failed { Err(*calls.last().unwrap()) } else { Ok(()) };
            let r = r.map_err(|t| t.get());
            ensure!(r == want, "try_for_each gives {r:?}, expected {want:?}");
            if failed { consumed = Some(calls.len()) }
            want_calls = Some(calls);
        }
        10 => {
            let n = c.rng.range(1, 4);
            for i in 0..n {
                let Some(r) = run(s.next(), strict) else { return };
                let r = r.map(|t| t.get());
                ensure!(r == m.get(i).copied(), "next number {i} gives {r:?}, expected {:?}", m.get(i));
                if r.is_none() { break }
            }
            if n <= m.len() { consumed = Some(n) }
        }
        11 => {
            let mut n = 0;
            while n < m.len() && n < 3 {
                if s.is_terminated() { vio!("terminated although items are left"); return }
                let Some(r) = run(s.select_next_some(), strict) else { return };
                ensure!(r.get() == m[n], "select_next_some gives {}, expected {}", r.get(), m[n]);
                n += 1;
            }
            consumed = Some(n);
        }
        _ => {
            let Some((r, rest)) = run(s.into_future(), strict) else { return };
            ensure!(r.as_ref().map(|t| t.get()) == m.first().copied(), "into_future gives {:?}, expected {:?}", r.map(|t| t.v), m.first());
            s = rest;
            if !m.is_empty() { consumed = Some(1) }
        }
    }
    if let Some(w) = want_calls {
        ensure!(*log.borrow() == w, "the closure was called with {:?}, expected {w:?}", log.borrow());
    }
    if let Some(n) = consumed {
        if !mon::violated() {
            let Some(rest) = wd::collect_strict(&mut s, strict) else { return };
            ensure!(vals(&rest) == m[n..], "the consumer left {:?} in the source, expected {:?}", vals(&rest), &m[n..]);
        }
    }
    drop(s);
    mon::check_released();
}
/// How far ahead an adapter reads its source.
fn lookahead(c: &mut Case) {
    let n = *c.rng.pick(&[0usize, 1, 2, 3, 5, 8]);
    let m: Vec<u64> = (0..n as u64).map(|i| fx(i, c.seed % 1000)).collect();
    let src = wd::stream(m.clone().into_iter().map(mon::tok));
    let st = src.stats();
    let key = c.rng.below(1000) as u64;
    let modl = *c.rng.pick(&[1u64, 2, 3]);
    let k = c.rng.below(6);
    let keep: Vec<usize> = (0..n).filter(|i| pr(m[*i], key, modl)).collect();
    let first_false = (0..n).find(|i| !pr(m[*i], key, modl));
    // need(i): items consumed when the i-th output (0-based) is given; end: when the end is given
    // (None = the source's end was seen)
    type Need = Box<dyn Fn(usize) -> usize>;
    let ident: Need = Box::new(|i| i + 1);
    let (mut s, name, need, end): (pipes::BS<Tok>, &str, Need, Option<usize>) = match c.rng.below(17) {
        0 => (Box::pin(src.map(|t| t)), "map", ident, None),
        1 => (Box::pin(src.enumerate().map(|(_, t)| t)), "enumerate", ident, None),
        2 => (Box::pin(src.inspect(|_| ())), "inspect", ident, None),
        3 => (Box::pin(src.then(|t| later(t))), "then", ident, None),
        4 => (Box::pin(src.filter(move |t| later(pr(t.get(), key, modl)))), "filter", Box::new(move |i| keep[i] + 1), None),
        5 => (Box::pin(src.filter_map(move |t| later(if pr(t.get(), key, modl) { Some(t) } else { None }))), "filter_map", Box::new(move |i| keep[i] + 1), None),
        6 => (Box::pin(src.take(k)), "take", ident, if k <= n { Some(k) } else { None }),
        7 => (Box::pin(src.skip(k)), "skip", Box::new(move |i| k + i + 1), None),
        8 => (Box::pin(src.take_while(move |t| later(pr(t.get(), key, modl)))), "take_while", ident, first_false.map(|p| p + 1)),
        9 => { let z = first_false.unwrap_or(n); (Box::pin(src.skip_while(move |t| later(pr(t.get(), key, modl)))), "skip_while", Box::new(move |i| z + i + 1), None) }
        10 => (Box::pin(src.scan((), move |_, t| later(if pr(t.get(), key, modl) { Some(((), t)) } else { None }))), "scan", ident, first_false.map(|p| p + 1)),
        11 => (Box::pin(src.chunks(k + 1).map(|mut v| v.pop().unwrap())), "chunks", Box::new(move |i| ((i + 1) * (k + 1)).min(n)), None),
        12 => (Box::pin(src.peekable()), "peekable", ident, None),
        13 => (Box::pin(src.fuse()), "fuse", ident, None),
        14 => (Box::pin(src.flat_map(move |t| { let v = t.get(); drop(t); futures::stream::iter(vec![mon::tok(v), mon::tok(v)]) })), "flat_map", Box::new(|i| i / 2 + 1), None),
        15 => (Box::pin(src.chain(futures::stream::empty())), "chain", ident, None),
        _ => (Box::pin(futures::stream::iter(0..k as u64).zip(src).map(|(_, t)| t)), "zip", ident, if k <= n { Some(k) } else { None }),
    };
    c.desc = format!("{name}({k}) over {n} items");
    c.nontrivial = n > 0;
    let mut d = wd::Driver::new();
    let mut i = 0;
    loop {
        let r = d.poll(|cx| s.as_mut().poll_next(cx));
        let got = st.yielded.get() as usize;
        match r {
            Poll::Ready(Some(_)) => {
                let w = need(i);
                // an already ended first source of zip may have taken one more
                ensure!(got == w, "{name}: {got} items of the source consumed with output {i}, expected {w}");
                i += 1;
            }
            Poll::Ready(None) => {
                match end {
                    // zip looks at both sides
                    Some(w) => ensure!((got == w || (name == "zip" && got <= w + 1)) && (name == "zip" || !st.ended.get()), "{name}: {got} items of the source consumed (end seen: {}) at the end, expected {w}", st.ended.get()),
                    None => ensure!(got == n && st.ended.get(), "{name} ended after {got} of {n} items"),
                }
                break;
            }
            Poll::Pending => {
                if !d.idle() {
                    if !mon::violated() {
                        vio!("lost wake-up");
                    }
                    return;
                }
            }
        }
        if mon::violated() || d.polls > 5000 {
            return;
        }
    }
    drop((s, d));
    mon::check_released();
}
/// A random sequence of peekable operations against a queue.
fn peeks(c: &mut Case) {
    let p = pipes::random(c, Watch::default(), 1);
    if !p.ordered {
        return;
    }
    let strict = p.strict;
    let (s, m, _, _) = p.into_parts();
    c.nontrivial = !m.is_empty();
    let mut q: std::collections::VecDeque<u64> = m.into();
    let mut s = Box::pin(s.peekable());
    let mut over = false;
    let mut trace = vec![];
    for _ in 0..c.rng.range(1, 8) {
        if over {
            break;
        }
        let op = c.rng.below(8);
        trace.push(op);
        let front = q.front().copied();
        match op {
            0 => {
                let Some(x) = run(s.as_mut().peek(), strict) else { return };
                ensure!(x.map(|t| t.get()) == front, "peek shows another item than {front:?}");
            }
            1 => {
                let Some(x) = run(s.as_mut().peek_mut(), strict) else { return };
                ensure!(x.as_ref().map(|t| t.get()) == front, "peek_mut shows another item than {front:?}");
                if let Some(t) = x {
                    if wd::chance(1, 2) {
                        *t = mon::tok(fx(front.unwrap(), 77));
                        q[0] = fx(front.unwrap(), 77);
                    }
                }
            }
            2 => {
                let key = c.rng.below(100) as u64;
                let seen = Rc::new(Cell::new(0));
                let se = seen.clone();
                let Some(x) = run(s.as_mut().next_if(move |t: &Tok| { se.set(se.get() + 1); pr(t.get(), key, 2) }), strict) else { return };
                let want = front.filter(|v| pr(*v, key, 2));
                ensure!(x.as_ref().map(|t| t.get()) == want, "next_if gives {:?}, expected {want:?}", x.map(|t| t.v));
                ensure!(seen.get() == front.is_some() as u32, "next_if called its predicate {} times", seen.get());
                if want.is_some() { q.pop_front(); }
            }
            3 => {
                let target = if c.rng.bool() { front.unwrap_or(0) } else { 123_456 };
                let probe = mon::tok(target);
                let Some(x) = run(s.as_mut().next_if_eq(&probe), strict) else { return };
                let want = front.filter(|v| *v == target);
                ensure!(x.as_ref().map(|t| t.get()) == want, "next_if_eq gives {:?}, expected {want:?}", x.map(|t| t.v));
                if want.is_some() { q.pop_front(); }
            }
            4 => {
                // a peek given up half-way changes nothing
                let mut d = wd::Driver::new();
                d.strict = strict;
                let mut f = s.as_mut().peek();
                let _ = d.poll(|cx| f.poll_unpin(cx).map(|_| ()));
            }
            5 => {
                let (lo, hi) = s.size_hint();
                ensure!(lo <= q.len() && hi.map_or(true, |h| h >= q.len()), "peekable: size_hint {lo}..{hi:?} but {} items left", q.len());
            }
            _ => {
                let Some(x) = run(s.next(), strict) else { return };
                ensure!(x.as_ref().map(|t| t.get()) == front, "next after peeking gives {:?}, expected {front:?}", x.map(|t| t.v));
                q.pop_front();
                over = front.is_none();
            }
        }
        if front.is_none() && op < 4 && op != 1 {
            // the end has been seen by the peek; it must also be reported by next, once
        }
        if mon::violated() {
            break;
        }
    }
    c.desc += &format!(" . peekable, ops {trace:?}");
    if !over && !mon::violated() {
        let Some(rest) = wd::collect_strict(s.as_mut(), strict) else { return };
        ensure!(vals(&rest) == Vec::from(q.clone()), "after peeking the stream still has {:?}, expected {q:?}", vals(&rest));
    }
    drop(s);
    mon::check_released();
}
/// take_until: stops at the future, gives it or its result back.
fn until(c: &mut Case) {
    let p = pipes::random(c, Watch::default(), 1);
    let strict = p.strict;
    let ordered = p.ordered;
    let (s, m, _, _) = p.into_parts();
    c.nontrivial = true;
    let hit = Rc::new(Cell::new(false));
    let h = hit.clone();
    let take_at = if c.rng.chance(1, 3) { Some(c.rng.below(3)) } else { None };
    c.desc += &format!(" . take_until, future taken out after {take_at:?}");
    let mut s = Box::pin(s.take_until(wd::fut(mon::tok(555)).on_done(move || h.set(true))));
    let mut got = vec![];
    let mut d = wd::Driver::new();
    d.strict = strict;
    let mut freed = false;
    loop {
        if Some(got.len()) == take_at && !freed {
            freed = true;
            let was = hit.get();
            let f = unsafe { s.as_mut().get_unchecked_mut() }.take_future();
            ensure!(f.is_some() != was, "take_future gives {} but the future was complete: {was}", f.is_some());
        }
        let before = hit.get();
        let r = d.poll(|cx| s.as_mut().poll_next(cx));
        match r {
            Poll::Ready(Some(t)) => {
                ensure!(!hit.get(), "take_until yields an item after its future was ready");
                got.push(t.get());
            }
            Poll::Ready(None) => break,
            Poll::Pending => {
                ensure!(!hit.get(), "take_until is pending although its future is ready");
                if !d.idle() {
                    if !mon::violated() {
                        vio!("lost wake-up");
                    }
                    return;
                }
            }
        }
        let _ = before;
        if mon::violated() || d.polls > 5000 {
            return;
        }
    }
    if ordered {
        ensure!(m.starts_with(&got), "take_until yields {got:?}, no prefix of {m:?}");
    }
    ensure!(hit.get() || got.len() == m.len(), "take_until stopped after {} of {} items although its future is not ready", got.len(), m.len());
    let res = unsafe { s.as_mut().get_unchecked_mut() }.take_result();
    let rv = res.map(|t| t.get());
    ensure!(rv == if hit.get() { Some(555) } else { None }, "take_result gives {rv:?}, future ready: {}", hit.get());
    ensure!(freed || s.is_terminated(), "take_until ended but is not terminated");
    drop((s, d));
    mon::check_released();
}
fn main() {
    hv::main("C17", vec![
        hv::w("pipeline", 2_500_000, 60_000_000, pipeline),
        hv::w("consumer", 1_000_000, 20_000_000, consumer),
        hv::w("lookahead", 500_000, 5_000_000, lookahead),
        hv::w("peeks", 500_000, 8_000_000, peeks),
        hv::w("until", 300_000, 5_000_000, until),
    ]);
}
