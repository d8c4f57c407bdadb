//! C14: join and try_join families.
use futures::future::{self, maybe_done, try_maybe_done, FusedFuture};
use futures::{FutureExt, TryFutureExt};
use hv::mon::{self, Tok};
use hv::world::{self as wd, Driver};
use hv::{ensure, logf, Case};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

type R = Result<Tok, Tok>;
type Fin = Rc<RefCell<Vec<usize>>>;
struct Kids {
    gates: Vec<usize>,
    errs: Vec<bool>,
    fin: Fin,
}
fn kids(n: usize, errs: &[bool]) -> (Vec<future::Map<wd::Lf<Tok>, impl FnOnce(Tok) -> R>>, Kids) {
    let fin: Fin = Default::default();
    let mut gates = vec![];
    let fs = (0..n)
        .map(|i| {
            let f2 = fin.clone();
            let f = wd::fut(mon::tok(i as u64)).on_done(move || f2.borrow_mut().push(i));
            gates.push(f.gate_id());
            let e = errs[i];
            f.map(move |t| if e { Err(t) } else { Ok(t) })
        })
        .collect();
    (fs, Kids { gates, errs: errs.to_vec(), fin })
}
type Root = Pin<Box<dyn Future<Output = Result<Vec<Tok>, Tok>>>>;
fn ok(r: R) -> Tok {
    match r {
        Ok(t) | Err(t) => t,
    }
}
/// Builds one of the forms; returns the root, its arity and whether it is one of the big ones.
fn family(c: &mut Case) {
    let form = c.rng.below(16);
    let is_try = form >= 8;
    let n = match form % 8 {
        0 => 2,
        1 => 3,
        2 => 4,
        3 => 5,
        4 => c.rng.range(1, 6),
        5 => 2,
        6 => *c.rng.pick(&[0, 1, 2, 3, 7, 29, 30]),
        _ => *c.rng.pick(&[1, 4, 31, 32, 40]),
    };
    let errp = *c.rng.pick(&[0usize, 1, 3]);
    let errs: Vec<bool> = (0..n).map(|_| is_try && c.rng.chance(errp, if n > 8 { 24 } else { 8 })).collect();
    let (fs, k) = kids(n, &errs);
    let big = form % 8 == 7;
    let name = ["join", "nested join of 3", "nested join of 4", "nested join of 5", "join!", "join(2)", "join_all", "join_all(big)", "try_join", "nested try_join of 3", "nested try_join of 4", "nested try_join of 5", "try_join!", "try_join(2)", "try_join_all", "try_join_all(big)"][form];
    c.desc = format!("{name} of {n}, failing: {:?}", errs.iter().enumerate().filter(|e| *e.1).map(|e| e.0).collect::<Vec<_>>());
    let mut fs = fs.into_iter();
    let mut nx = || fs.next().unwrap();
    let root: Root = match form {
        0 | 5 => {
            let j = future::join(nx(), nx());
            ensure!(!j.is_terminated(), "terminated before it was polled");
            Box::pin(j.map(|(a, b)| Ok(vec![ok(a), ok(b)])))
        }
        1 => Box::pin(future::join(future::join(nx(), nx()), nx()).map(|((a, b), c)| Ok(vec![ok(a), ok(b), ok(c)]))),
        2 => Box::pin(future::join(nx(), future::join(nx(), future::join(nx(), nx()))).map(|(a, (b, (c, d)))| Ok(vec![ok(a), ok(b), ok(c), ok(d)]))),
        3 => Box::pin(future::join(future::join(nx(), nx()), future::join(nx(), future::join(nx(), nx()))).map(|((a, b), (c, (d, e)))| Ok(vec![ok(a), ok(b), ok(c), ok(d), ok(e)]))),
        4 => match n {
            1 => { let a = nx(); Box::pin(async move { let (a,) = futures::join!(a); Ok(vec![ok(a)]) }) }
            2 => { let (a, b) = (nx(), nx()); Box::pin(async move { let (a, b) = futures::join!(a, b,); Ok(vec![ok(a), ok(b)]) }) }
            3 => { let (a, b, c) = (nx(), nx(), nx()); Box::pin(async move { let (a, b, c) = futures::join!(a, b, c); Ok(vec![ok(a), ok(b), ok(c)]) }) }
            4 => { let (a, b, c, d) = (nx(), nx(), nx(), nx()); Box::pin(async move { let (a, b, c, d) = futures::join!(a, b, c, d); Ok(vec![ok(a), ok(b), ok(c), ok(d)]) }) }
            5 => { let (a, b, c, d, e) = (nx(), nx(), nx(), nx(), nx()); Box::pin(async move { let (a, b, c, d, e) = futures::join!(a, b, c, d, e); Ok(vec![ok(a), ok(b), ok(c), ok(d), ok(e)]) }) }
            _ => { let (a, b, c, d, e, f) = (nx(), nx(), nx(), nx(), nx(), nx()); Box::pin(async move { let (a, b, c, d, e, f) = futures::join!(a, b, c, d, e, f); Ok(vec![ok(a), ok(b), ok(c), ok(d), ok(e), ok(f)]) }) }
        },
        6 => Box::pin(if c.rng.bool() { future::join_all(fs) } else { fs.collect::<future::JoinAll<_>>() }.map(|v| Ok(v.into_iter().map(ok).collect()))),
        7 => {
            // an iterator without an upper size bound, or a big one
            if n < 31 { Box::pin(future::join_all(std::iter::from_fn(move || fs.next())).map(|v| Ok(v.into_iter().map(ok).collect()))) } else { Box::pin(future::join_all(fs).map(|v| Ok(v.into_iter().map(ok).collect()))) }
        }
        8 | 13 => Box::pin(future::try_join(nx(), nx()).map_ok(|(a, b)| vec![a, b])),
        9 => Box::pin(future::try_join(future::try_join(nx(), nx()), nx()).map_ok(|((a, b), c)| vec![a, b, c])),
        10 => Box::pin(future::try_join(nx(), future::try_join(nx(), future::try_join(nx(), nx()))).map_ok(|(a, (b, (c, d)))| vec![a, b, c, d])),
        11 => Box::pin(future::try_join(future::try_join(nx(), nx()), future::try_join(nx(), future::try_join(nx(), nx()))).map_ok(|((a, b), (c, (d, e)))| vec![a, b, c, d, e])),
        12 => match n {
            1 => { let a = nx(); Box::pin(async move { let (a,) = futures::try_join!(a)?; Ok(vec![a]) }) }
            2 => { let (a, b) = (nx(), nx()); Box::pin(async move { let (a, b) = futures::try_join!(a, b,)?; Ok(vec![a, b]) }) }
            3 => { let (a, b, c) = (nx(), nx(), nx()); Box::pin(async move { let (a, b, c) = futures::try_join!(a, b, c)?; Ok(vec![a, b, c]) }) }
            4 => { let (a, b, c, d) = (nx(), nx(), nx(), nx()); Box::pin(async move { let (a, b, c, d) = futures::try_join!(a, b, c, d)?; Ok(vec![a, b, c, d]) }) }
            5 => { let (a, b, c, d, e) = (nx(), nx(), nx(), nx(), nx()); Box::pin(async move { let (a, b, c, d, e) = futures::try_join!(a, b, c, d, e)?; Ok(vec![a, b, c, d, e]) }) }
            _ => { let (a, b, c, d, e, f) = (nx(), nx(), nx(), nx(), nx(), nx()); Box::pin(async move { let (a, b, c, d, e, f) = futures::try_join!(a, b, c, d, e, f)?; Ok(vec![a, b, c, d, e, f]) }) }
        },
        14 => Box::pin(if c.rng.bool() { future::try_join_all(fs) } else { fs.collect::<future::TryJoinAll<_>>() }),
        _ => if n < 31 { Box::pin(future::try_join_all(std::iter::from_fn(move || fs.next()))) } else { Box::pin(future::try_join_all(fs)) },
    };
    watch(c, root, k, big);
}
fn watch(c: &mut Case, mut root: Root, k: Kids, big: bool) {
    let n = k.gates.len();
    let cut = if c.rng.chance(1, 6) { c.rng.below(6) as u64 } else { u64::MAX };
    let mut d = Driver::new();
    for g in &k.gates {
        ensure!(!wd::touched(*g), "a child was polled before the join was");
    }
    loop {
        if d.polls >= cut {
            break;
        }
        let p = d.poll(|cx| root.as_mut().poll(cx));
        let fin = k.fin.borrow().clone();
        let bad = fin.iter().position(|i| k.errs[*i]);
        match p {
            Poll::Ready(Ok(v)) => {
                ensure!(bad.is_none(), "succeeded although child {} failed", fin[bad.unwrap()]);
                let got: Vec<u64> = v.iter().map(|t| t.get()).collect();
                ensure!(got == (0..n as u64).collect::<Vec<_>>(), "outputs by position {got:?} of {n} children");
                break;
            }
            Poll::Ready(Err(e)) => {
                let e = e.get() as usize;
                ensure!(bad.map(|b| fin[b]) == Some(e), "failed with the error of {e}, completed in order {fin:?}");
                break;
            }
            Poll::Pending => {
                logf!("pending; finished {fin:?}");
                if !big || !wd::woken() {
                    ensure!(fin.len() < n, "pending although all {n} children have completed");
                    if let Some(b) = bad {
                        ensure!(false, "pending although child {} has failed", fin[b]);
                    }
                }
                if !wd::woken() {
                    for (i, g) in k.gates.iter().enumerate() {
                        ensure!(fin.contains(&i) || (wd::touched(*g) && !wd::unserved(*g)), "waits although child {i} was never polled, or not since it was woken");
                    }
                }
                if mon::violated() {
                    return;
                }
                if !d.idle() {
                    if !mon::violated() {
                        hv::vio!("lost wake-up: {} of {n} children done, nothing more can happen", fin.len());
                    }
                    return;
                }
            }
        }
    }
    let fin = k.fin.borrow().len();
    c.nontrivial = n > 0;
    c.count("children_completed", fin as u64);
    c.count("cancelled", (d.polls >= cut) as u64);
    drop((root, d));
    mon::check_released();
}
/// MaybeDone / TryMaybeDone as containers of one output.
fn maybe(c: &mut Case) {
    let n_ops = c.rng.range(2, 12);
    let is_try = c.rng.bool();
    let err = is_try && c.rng.bool();
    c.desc = format!("try {is_try} err {err}");
    let done = Rc::new(RefCell::new(false));
    let d2 = done.clone();
    let f = wd::fut(mon::tok(7)).on_done(move || *d2.borrow_mut() = true);
    let mut d = Driver::new();
    let mut taken = false;
    if is_try {
        let mut m = Box::pin(try_maybe_done(f.map(move |t| if err { Err(t) } else { Ok(t) })));
        let mut failed = false;
        for _ in 0..n_ops {
            let fin = *done.borrow();
            match c.rng.below(4) {
                0 if !taken && !failed => match d.poll(|cx| m.as_mut().poll(cx)) {
                    Poll::Ready(Ok(())) => ensure!(*done.borrow() && !err, "ready (ok) wrongly"),
                    Poll::Ready(Err(e)) => {
                        ensure!(err && e.get() == 7, "wrong error");
                        failed = true;
                    }
                    Poll::Pending => {
                        ensure!(!*done.borrow(), "pending after completion");
                        if !d.idle() {
                            return;
                        }
                    }
                },
                1 => {
                    let o = m.as_mut().output_mut().map(|t| t.get());
                    let want = if fin && !err && !taken { Some(7) } else { None };
                    ensure!(o == want, "output_mut is {o:?}, expected {want:?}");
                }
                2 if c.rng.bool() => {
                    let o = m.as_mut().take_output().map(|t| t.get());
                    let want = if fin && !err && !taken { Some(7) } else { None };
                    ensure!(o == want, "take_output is {o:?}, expected {want:?}");
                    taken |= o.is_some();
                }
                _ => ensure!(m.is_terminated() == fin, "is_terminated is {} but completed is {fin}", m.is_terminated()),
            }
            if mon::violated() {
                return;
            }
        }
        drop(m);
    } else {
        let mut m = Box::pin(maybe_done(f));
        for _ in 0..n_ops {
            let fin = *done.borrow();
            match c.rng.below(4) {
                0 if !taken => match d.poll(|cx| m.as_mut().poll(cx)) {
                    Poll::Ready(()) => ensure!(*done.borrow(), "ready too early"),
                    Poll::Pending => {
                        ensure!(!*done.borrow(), "pending after completion");
                        if !d.idle() {
                            return;
                        }
                    }
                },
                1 => {
                    let o = m.as_mut().output_mut().map(|t| t.get());
                    let want = if fin && !taken { Some(7) } else { None };
                    ensure!(o == want, "output_mut is {o:?}, expected {want:?}");
                }
                2 if c.rng.bool() => {
                    let o = m.as_mut().take_output().map(|t| t.get());
                    let want = if fin && !taken { Some(7) } else { None };
                    ensure!(o == want, "take_output is {o:?}, expected {want:?}");
                    taken |= o.is_some();
                }
                _ => ensure!(m.is_terminated() == fin, "is_terminated is {} but completed is {fin}", m.is_terminated()),
            }
            if mon::violated() {
                return;
            }
        }
        drop(m);
    }
    c.nontrivial = *done.borrow();
    drop(d);
    mon::check_released();
}
fn main() {
    hv::main("C14", vec![
        hv::w("family", 3_000_000, 60_000_000, family),
        hv::w("maybe", 500_000, 5_000_000, maybe),
    ]);
}
