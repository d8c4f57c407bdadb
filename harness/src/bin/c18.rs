//! C18: fallible streams against the fold over Result items.
use futures::{FutureExt, TryStreamExt, StreamExt};
use hv::mon::{self, Tok};
use hv::pipes::{fx, later, pr, Watch, T2, BS};
use hv::tpipes::{self, raw, R};
use hv::world as wd;
use hv::{ensure, Case};
use std::cell::RefCell;
use std::rc::Rc;
fn pipeline(c: &mut Case) {
    let p = tpipes::random(c, Watch::default(), 4);
    c.nontrivial = !p.model.is_empty();
    if !p.finish() {
        return;
    }
    mon::check_released();
}
fn run<F: std::future::Future>(f: F, strict: bool) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut d = wd::Driver::new();
    d.strict = strict;
    d.run(f.as_mut())
}
/// A consumer over a pipeline: result, closure calls, and what is left in the source.
fn consumer(c: &mut Case) {
    let mut p = tpipes::random(c, Watch::default(), 2);
    if p.order != tpipes::Order::Full {
        p = tpipes::start(c, Watch::default());
    }
    let desc = p.desc.join(" . ");
    let (mut s, m, _, strict) = p.into_parts();
    let key = c.rng.below(1000) as u64;
    let modl = *c.rng.pick(&[1u64, 2, 3, 5]);
    let bad = *c.rng.pick(&[2u64, 5, 1_000_000]);
    let n = c.rng.below(4);
    let first_err = m.iter().position(|x| x.is_err());
    let upto = first_err.map_or(m.len(), |p| p + 1);
    let oks: Vec<u64> = m[..first_err.unwrap_or(m.len())].iter().map(|x| x.unwrap()).collect();
    let all: Result<Vec<u64>, u64> = match first_err { Some(p) => Err(m[p].unwrap_err()), None => Ok(oks.clone()) };
    let log: Rc<RefCell<Vec<u64>>> = Default::default();
    let l = log.clone();
    let which = c.rng.below(9);
    c.nontrivial = !m.is_empty();
    c.desc = format!("{desc} => consumer {which}");
    // values seen by the closure until it decides / fails
    let seen = |stop: &dyn Fn(u64) -> bool| -> (Vec<u64>, bool) {
        let mut v = vec![];
        for x in &oks {
            v.push(*x);
            if stop(*x) {
                return (v, true);
            }
        }
        (v, false)
    };
    // (items of the source consumed when finished, or None for "the end was seen")
    let consumed: usize;
    match which {
        0 => {
            let Some(r) = run(s.by_ref().try_collect::<Vec<Tok>>(), strict) else { return };
            let r = r.map(|v| v.iter().map(|t| t.get()).collect::<Vec<_>>()).map_err(|e| e.get());
            ensure!(r == all, "try_collect gives {r:?}, expected {all:?}");
            consumed = upto;
        }
        1 => {
            let Some(r) = run(s.by_ref().map_ok(|t| vec![t]).try_concat(), strict) else { return };
            let r = r.map(|v: Vec<Tok>| v.iter().map(|t| t.get()).collect::<Vec<_>>()).map_err(|e| e.get());
            ensure!(r == all, "try_concat gives {r:?}, expected {all:?}");
            consumed = upto;
        }
        2 => {
            let f = move |a: u64, x: u64| -> T2 { if pr(x, key, bad) { Ok(fx(a, x)) } else { Err(fx(x, 3)) } };
            let mut acc: T2 = Ok(key);
            let mut calls = vec![];
            for x in &oks {
                calls.push(*x);
                acc = f(acc.unwrap(), *x);
                if acc.is_err() { break }
            }
            let failed = acc.is_err();
            let want = if failed { acc } else if let Some(p) = first_err { m[p] } else { acc };
            let Some(r) = run(s.by_ref().try_fold(mon::tok(key), move |a: Tok, t: R| { if let Ok(t) = &t { l.borrow_mut().push(t.get()); } later(()).map(move |_| f(a.get(), t?.get()).map(mon::tok).map_err(mon::tok)) }), strict) else { return };
            ensure!(raw(&r) == want, "try_fold gives {:?}, expected {want:?}", raw(&r));
            ensure!(*log.borrow() == calls, "try_fold called its closure with {:?}, expected {calls:?}", log.borrow());
            consumed = if failed { calls.len() } else { upto };
        }
        3 => {
            let (calls, failed) = seen(&|x| !pr(x, key, bad));
            let want: Result<(), u64> = if failed { Err(fx(*calls.last().unwrap(), 3)) } else { all.clone().map(|_| ()) };
            let Some(r) = run(s.by_ref().try_for_each(move |t: R| { if let Ok(t) = &t { l.borrow_mut().push(t.get()); } later(()).map(move |_| { let t = t?; if pr(t.get(), key, bad) { Ok(()) } else { Err(mon::tok(fx(t.get(), 3))) } }) }), strict) else { return };
            let r = r.map_err(|e| e.get());
            ensure!(r == want, "try_for_each gives {r:?}, expected {want:?}");
            ensure!(*log.borrow() == calls, "try_for_each called its closure with {:?}, expected {calls:?}", log.borrow());
            consumed = if failed { calls.len() } else { upto };
        }
        4 | 5 => {
            let any = which == 4;
            let (calls, decided) = seen(&|x| pr(x, key, modl * 2) == any);
            let want: Result<bool, u64> = if decided { Ok(any) } else { all.clone().map(|_| !any) };
            let f = move |t: Tok| { l.borrow_mut().push(t.get()); later(()).map(move |_| pr(t.get(), key, modl * 2)) };
            let r = if any { run(s.by_ref().try_any(f), strict) } else { run(s.by_ref().try_all(f), strict) };
            let Some(r) = r else { return };
            let r = r.map_err(|e| e.get());
            ensure!(r == want, "try_{} gives {r:?}, expected {want:?}", if any { "any" } else { "all" });
            ensure!(*log.borrow() == calls, "try_any/all called its closure with {:?}, expected {calls:?}", log.borrow());
            consumed = if decided { calls.len() } else { upto };
        }
        6 => {
            for i in 0..=n {
                let want = m.get(i).copied();
                let Some(r) = run(s.try_next(), strict) else { return };
                let r = match r { Ok(None) => None, Ok(Some(t)) => Some(Ok(t.get())), Err(e) => Some(Err(e.get())) };
                ensure!(r == want, "try_next number {i} gives {r:?}, expected {want:?}");
                if want.is_none() { break }
            }
            consumed = n + 1;
        }
        7 => {
            // all at once, so that the first failing one wins among those started in order
            let lim = c.rng.range(1, 3);
            let (calls, failed) = seen(&|x| !pr(x, key, bad));
            let Some(r) = run(s.by_ref().try_for_each_concurrent(lim, move |t: R| { if let Ok(t) = &t { l.borrow_mut().push(t.get()); } later(()).map(move |_| { let v = t?.get(); if pr(v, key, bad) { Ok(()) } else { Err(mon::tok(fx(v, 3))) } }) }), false) else { return };
            let r = r.map_err(|e| e.get());
            let log = log.borrow();
            let aoks: Vec<u64> = m.iter().filter_map(|x| x.ok()).collect();
            ensure!(aoks.starts_with(&log), "try_for_each_concurrent called its closure with {log:?}, which is no prefix of {aoks:?}");
            match r {
                Ok(()) => ensure!(!failed && first_err.is_none() && *log == oks, "try_for_each_concurrent succeeds; calls {log:?} of {oks:?}, a failure expected: {failed} {first_err:?}"),
                Err(e) => {
                    let possible: Vec<u64> = log.iter().filter(|x| !pr(**x, key, bad)).map(|x| fx(*x, 3)).chain(m.iter().filter_map(|x| x.err())).collect();
                    ensure!(possible.contains(&e), "try_for_each_concurrent fails with {e}, which nobody reported ({possible:?})");
                }
            }
            let _ = calls;
            drop(s);
            mon::check_released();
            return;
        }
        _ => {
            let Some(r) = run(s.by_ref().try_collect::<Unz>(), strict) else { return };
            let r = r.map(|u| u.0).map_err(|e| e.get());
            ensure!(r == all, "try_collect gives {r:?}, expected {all:?}");
            consumed = upto;
        }
    }
    // what is left must be exactly the rest of the source (when its end was not reached)
    let end_seen = match which { 6 => n + 1 > m.len(), _ => consumed == m.len() && !m.last().is_some_and(|x| x.is_err()) && !decided_at_last(which, &log.borrow(), &oks, key, modl, bad) };
    if !end_seen && !mon::violated() {
        let Some(rest) = wd::collect_strict::<&mut BS<R>>(&mut s, strict) else { return };
        let rest: Vec<T2> = rest.iter().map(raw).collect();
        ensure!(rest == m[consumed.min(m.len())..], "after the consumer finished the source still has {rest:?}, expected {:?}", &m[consumed.min(m.len())..]);
    }
    drop(s);
    mon::check_released();
}
fn decided_at_last(which: usize, calls: &[u64], oks: &[u64], key: u64, modl: u64, bad: u64) -> bool {
    if calls.len() != oks.len() || calls.is_empty() {
        return false;
    }
    let x = *calls.last().unwrap();
    match which {
        2 | 3 => !pr(x, key, bad),
        4 => pr(x, key, modl * 2),
        5 => !pr(x, key, modl * 2),
        _ => false,
    }
}
#[derive(Default)]
struct Unz(Vec<u64>);
impl Extend<Tok> for Unz {
    fn extend<I: IntoIterator<Item = Tok>>(&mut self, i: I) {
        for t in i {
            self.0.push(t.get())
        }
    }
}
fn main() {
    hv::main("C18", vec![hv::w("pipeline", 1_500_000, 30_000_000, pipeline), hv::w("consumer", 1_500_000, 30_000_000, consumer)]);
}
