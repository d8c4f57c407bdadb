//! C15: select families.
use futures::future::{self, Either, FusedFuture};
use futures::stream::FusedStream;
use futures::{FutureExt, StreamExt};
use hv::mon::{self, Tok};
use hv::world::{self as wd, Drive, Driver};
use hv::{ensure, logf, Case};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

type R = Result<Tok, Tok>;
type Fin = Rc<RefCell<Vec<usize>>>;
/// A child with an identity; records its completion.
struct Kid {
    id: usize,
    err: bool,
    f: wd::Lf<Tok>,
}
impl Future for Kid {
    type Output = R;
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<R> {
        let e = self.err;
        Pin::new(&mut self.f).poll(cx).map(|t| if e { Err(t) } else { Ok(t) })
    }
}
fn kid(id: usize, err: bool, fin: &Fin) -> Kid {
    let f2 = fin.clone();
    Kid { id, err, f: wd::fut(mon::tok(id as u64)).on_done(move || f2.borrow_mut().push(id)) }
}
fn val(r: &R) -> (usize, bool) {
    match r {
        Ok(t) => (t.get() as usize, false),
        Err(t) => (t.get() as usize, true),
    }
}
/// select / try_select: winner, loser usable.
fn two(c: &mut Case) {
    let fin: Fin = Default::default();
    let is_try = c.rng.bool();
    let errs = [c.rng.bool(), c.rng.bool()];
    let (a, b) = (kid(0, errs[0], &fin), kid(1, errs[1], &fin));
    let gates = [a.f.gate_id(), b.f.gate_id()];
    c.desc = format!("try {is_try} errs {errs:?}");
    let mut d = Driver::new();
    let mut sel = future::select(a, b);
    let mut tsel = None;
    if is_try {
        let (a, b) = (kid(0, errs[0], &fin), kid(1, errs[1], &fin));
        tsel = Some((future::try_select(a, b), ()));
    }
    let gates = if let Some(_) = &tsel { [gates[1] + 1, gates[1] + 2] } else { gates };
    ensure!(!sel.is_terminated(), "terminated before the first poll");
    let cut = if c.rng.chance(1, 8) { c.rng.below(4) as u64 } else { u64::MAX };
    let mut lost: Option<Kid> = None;
    while d.polls < cut {
        let p: Poll<((usize, bool), bool, Kid)> = d.poll(|cx| match &mut tsel {
            None => Pin::new(&mut sel).poll(cx).map(|e| match e {
                Either::Left((v, k)) => (val(&v), true, k),
                Either::Right((v, k)) => (val(&v), false, k),
            }),
            Some((t, _)) => Pin::new(t).poll(cx).map(|e| match e {
                Ok(Either::Left((v, k))) => ((v.get() as usize, false), true, k),
                Ok(Either::Right((v, k))) => ((v.get() as usize, false), false, k),
                Err(Either::Left((v, k))) => ((v.get() as usize, true), true, k),
                Err(Either::Right((v, k))) => ((v.get() as usize, true), false, k),
            }),
        });
        let f = fin.borrow().clone();
        match p {
            Poll::Ready(((v, e), left, k)) => {
                ensure!(f == [v], "resolved with {v} but completed were {f:?}");
                ensure!(left == (v == 0) && e == errs[v], "child {v} reported as left={left}, error={e}");
                ensure!(k.id == 1 - v, "the returned survivor is {}", k.id);
                ensure!(v == 0 || wd::seen_now(gates[0]), "the second was chosen without asking the first");
                if tsel.is_none() {
                    ensure!(sel.is_terminated(), "not terminated after resolving");
                }
                lost = Some(k);
                break;
            }
            Poll::Pending => {
                ensure!(f.is_empty(), "pending although {f:?} completed");
                if !wd::woken() {
                    ensure!(gates.iter().all(|g| wd::touched(*g) && !wd::unserved(*g)), "waits without having asked both");
                }
                if mon::violated() {
                    return;
                }
                if !d.idle() {
                    if !mon::violated() {
                        hv::vio!("lost wake-up");
                    }
                    return;
                }
            }
        }
    }
    if let Some(mut k) = lost {
        if c.rng.chance(3, 4) {
            let id = k.id;
            match d.drive(|cx| Pin::new(&mut k).poll(cx)) {
                Drive::Done(r) => ensure!(val(&r) == (id, errs[id]), "the survivor resolved to {:?}", val(&r)),
                _ => return,
            }
        }
    }
    c.nontrivial = true;
    drop((sel, tsel, d));
    mon::check_released();
}
/// select_all / select_ok repeated over the survivors.
fn list(c: &mut Case) {
    let fin: Fin = Default::default();
    let n = c.rng.range(1, 7);
    let ok_form = c.rng.bool();
    let errs: Vec<bool> = (0..n).map(|_| c.rng.chance(1, 2)).collect();
    c.desc = format!("{} of {n}, errs {errs:?}", if ok_form { "select_ok" } else { "select_all" });
    let mut rest: Vec<Kid> = (0..n).map(|i| kid(i, errs[i], &fin)).collect();
    let mut d = Driver::new();
    let mut total = 0;
    while !rest.is_empty() {
        let ids: Vec<usize> = rest.iter().map(|k| k.id).collect();
        let gates: Vec<usize> = rest.iter().map(|k| k.f.gate_id()).collect();
        fin.borrow_mut().clear();
        let mut all = None;
        let mut okf = None;
        if ok_form {
            okf = Some(if c.rng.bool() { future::select_ok(rest) } else { rest.into_iter().collect() });
        } else {
            all = Some(if c.rng.bool() { future::select_all(rest) } else { rest.into_iter().collect() });
        }
        rest = loop {
            let p = d.poll(|cx| match (&mut all, &mut okf) {
                (Some(s), _) => Pin::new(s).poll(cx).map(|(r, i, v)| (val(&r), Some(i), v)),
                (_, Some(s)) => Pin::new(s).poll(cx).map(|r| match r {
                    Ok((t, v)) => ((t.get() as usize, false), None, v),
                    Err(t) => ((t.get() as usize, true), None, vec![]),
                }),
                _ => unreachable!(),
            });
            let f = fin.borrow().clone();
            match p {
                Poll::Ready(((v, e), idx, left)) => {
                    logf!("resolved with {v} (err {e}) index {idx:?}; completed {f:?}");
                    ensure!(f.last() == Some(&v), "resolved with {v} but completed were {f:?}");
                    let mut li: Vec<usize> = left.iter().map(|k| k.id).collect();
                    li.sort();
                    let mut want: Vec<usize> = ids.iter().copied().filter(|i| !f.contains(i)).collect();
                    want.sort();
                    ensure!(li == want, "survivors {li:?}, expected {want:?}");
                    ensure!(e == errs[v], "result of {v} changed its kind");
                    let pos = ids.iter().position(|i| *i == v).unwrap();
                    if let Some(i) = idx {
                        ensure!(i == pos, "index {i} reported, the future was at {pos}");
                        ensure!(f.len() == 1, "{} children completed in one select", f.len());
                        ensure!(gates[..pos].iter().all(|g| wd::seen_now(*g)), "a later future was chosen without asking the earlier ones");
                    } else {
                        ensure!(f[..f.len() - 1].iter().all(|i| errs[*i]), "a success was dropped: completed {f:?}");
                        ensure!(!e || f.len() == ids.len(), "failed although {} of {} have not failed", ids.len() - f.len(), ids.len());
                    }
                    total += f.len();
                    break left;
                }
                Poll::Pending => {
                    if !ok_form {
                        ensure!(f.is_empty(), "pending although {f:?} completed");
                    } else {
                        ensure!(f.iter().all(|i| errs[*i]) && f.len() < ids.len(), "pending although {f:?} completed");
                    }
                    if !wd::woken() {
                        for (i, g) in gates.iter().enumerate() {
                            ensure!(f.contains(&ids[i]) || (wd::touched(*g) && !wd::unserved(*g)), "waits without having asked {}", ids[i]);
                        }
                    }
                    if mon::violated() {
                        return;
                    }
                    if !ok_form && c.rng.chance(1, 12) {
                        // take the futures back and select again
                        break all.take().unwrap().into_inner();
                    }
                    if !d.idle() {
                        if !mon::violated() {
                            hv::vio!("lost wake-up");
                        }
                        return;
                    }
                }
            }
        };
        if mon::violated() {
            return;
        }
        if c.rng.chance(1, 12) {
            break;
        }
    }
    c.nontrivial = true;
    c.count("completions", total as u64);
    drop((rest, d));
    mon::check_released();
}
/// select! and select_biased! in a loop over futures and streams.
fn macros(c: &mut Case) {
    let fin: Fin = Default::default();
    let biased = c.rng.bool();
    let with_default = c.rng.chance(1, 3);
    let (na, ns) = (c.rng.below(4), c.rng.below(4));
    c.desc = format!("biased {biased} default {with_default} items {na}/{ns}");
    let k0 = kid(0, false, &fin);
    let k1 = kid(1, false, &fin);
    let src = wd::stream((0..na).map(|i| mon::tok(100 + i as u64)));
    let src2 = wd::stream((0..ns).map(|i| mon::tok(200 + i as u64)));
    let gates = [k0.f.gate_id(), k1.f.gate_id(), src.gate_id(), src2.gate_id()];
    let stats = [src.stats(), src2.stats()];
    let out = Rc::new(RefCell::new(Vec::<u64>::new()));
    let defaults = Rc::new(std::cell::Cell::new(0u64));
    let (o, df) = (out.clone(), defaults.clone());
    // what the children had produced when the latest branch ran
    let prod = {
        let (fin, stats) = (fin.clone(), stats.clone());
        Rc::new(move || fin.borrow().len() + stats.iter().map(|s| s.yielded.get() as usize + s.ended.get() as usize).sum::<usize>())
    };
    let pr = prod.clone();
    let root = async move {
        let mut f0 = k0.fuse();
        let mut f1 = Box::pin(k1.fuse());
        let mut s0 = src;
        let mut s1 = src2.fuse();
        let mut runs = 0usize;
        loop {
            let before = pr();
            let mut dflt = false;
            macro_rules! arms { ($m:ident $(, $($d:tt)*)?) => {
                futures::$m! {
                    a = f0 => o.borrow_mut().push(val(&a).0 as u64),
                    b = f1 => o.borrow_mut().push(val(&b).0 as u64),
                    x = s0.next() => o.borrow_mut().push(x.map_or(199, |t| t.get())),
                    y = s1.select_next_some() => o.borrow_mut().push(y.get()),
                    complete => {
                        ensure!(f0.is_terminated() && f1.is_terminated() && s0.is_terminated() && s1.is_terminated(), "complete ran although a branch is not finished");
                        break;
                    }
                    $($($d)*)?
                }
            } }
            match (biased, with_default) {
                (false, false) => arms!(select),
                (true, false) => arms!(select_biased),
                (false, true) => arms!(select, default => dflt = true,),
                (true, true) => arms!(select_biased, default => dflt = true,),
            }
            let after = pr();
            // s1's end is consumed silently by select_next_some
            let silent = 1;
            if dflt {
                df.set(df.get() + 1);
                ensure!(after <= before + silent, "default ran although a branch produced a value");
                if df.get() > 3000 {
                    break;
                }
                // let the leaves progress
                let mut once = false;
                future::poll_fn(|cx| {
                    if once { Poll::Ready(()) } else { once = true; cx.waker().wake_by_ref(); Poll::Pending }
                }).await;
            } else {
                ensure!(after >= before, "impossible");
                runs += 1;
            }
            ensure!(runs < 100, "select loop does not end");
            if mon::violated() { break; }
        }
    };
    let mut root = Box::pin(root);
    let mut d = Driver::new();
    d.strict = !with_default; // `default` polls with a no-op waker
    loop {
        let p = d.poll(|cx| root.as_mut().poll(cx));
        let vals = out.borrow().len();
        // every value the children handed out was delivered to a branch
        let made = fin.borrow().len() + stats.iter().map(|s| s.yielded.get() as usize).sum::<usize>() + stats[0].ended.get() as usize;
        ensure!(vals == made, "{made} values were produced but {vals} reached a branch");
        match p {
            Poll::Ready(()) => break,
            Poll::Pending => {
                if !with_default && !wd::woken() {
                    for (i, g) in gates.iter().enumerate() {
                        let over = if i < 2 { fin.borrow().contains(&i) } else { stats[i - 2].ended.get() };
                        ensure!(over || (wd::touched(*g) && !wd::unserved(*g)), "waits without having asked branch {i}");
                    }
                }
                if mon::violated() {
                    return;
                }
                if with_default {
                    // the loop polls with a no-op waker: let events happen and poll again
                    wd::fire_random();
                    continue;
                }
                if !d.idle() {
                    if !mon::violated() {
                        hv::vio!("lost wake-up");
                    }
                    return;
                }
            }
        }
    }
    if mon::violated() {
        return;
    }
    let mut v = out.borrow().clone();
    let per: Vec<Vec<u64>> = (0..3).map(|k| v.iter().copied().filter(|x| x / 100 == k && *x != 199).collect()).collect();
    ensure!(per[1] == (0..na as u64).map(|i| 100 + i).collect::<Vec<_>>() && per[2] == (0..ns as u64).map(|i| 200 + i).collect::<Vec<_>>(), "stream items {per:?}");
    v.retain(|x| *x < 2);
    v.sort();
    ensure!(v == [0, 1], "future outputs {v:?}");
    c.nontrivial = true;
    c.count("branches_run", out.borrow().len() as u64);
    c.count("defaults_run", defaults.get());
    drop((root, d, out));
    mon::check_released();
}
/// Records the order in which the branches of one select are polled.
struct Probe {
    id: usize,
    order: Rc<RefCell<Vec<usize>>>,
    ready: Rc<std::cell::Cell<u32>>,
    over: Rc<std::cell::Cell<u32>>,
}
impl Future for Probe {
    type Output = usize;
    fn poll(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<usize> {
        self.order.borrow_mut().push(self.id);
        if self.ready.get() >> self.id & 1 == 1 { Poll::Ready(self.id) } else { Poll::Pending }
    }
}
impl FusedFuture for Probe {
    fn is_terminated(&self) -> bool {
        self.over.get() >> self.id & 1 == 1
    }
}
/// Exact rules of one macro evaluation: which branches are polled, in which order.
fn order(c: &mut Case) {
    let biased = c.rng.bool();
    let order: Rc<RefCell<Vec<usize>>> = Default::default();
    let ready = Rc::new(std::cell::Cell::new(0));
    let over = Rc::new(std::cell::Cell::new(0));
    let mk = |id| Probe { id, order: order.clone(), ready: ready.clone(), over: over.clone() };
    let (mut a, mut b, mut e, mut f) = (mk(0), mk(1), mk(2), mk(3));
    for _ in 0..8 {
        ready.set(c.rng.below(16) as u32 & c.rng.below(16) as u32);
        over.set(c.rng.below(16) as u32 & c.rng.below(16) as u32);
        if c.rng.chance(1, 8) { over.set(15) }
        order.borrow_mut().clear();
        const COMPLETE: usize = 98;
        const DEFAULT: usize = 99;
        let got = if biased {
            futures::select_biased! { x = a => x, x = b => x, x = e => x, x = f => x, complete => COMPLETE, default => DEFAULT }
        } else {
            futures::select! { x = a => x, x = b => x, x = e => x, x = f => x, complete => COMPLETE, default => DEFAULT }
        };
        let cand = ready.get() & !over.get() & 15;
        let ord = order.borrow().clone();
        mon::event(got as u64 * 256 + cand as u64 * 16 + over.get() as u64);
        ensure!(ord.iter().all(|i| over.get() >> i & 1 == 0), "a terminated branch was polled: {ord:?}, over {:04b}", over.get());
        let mut u = ord.clone();
        u.sort();
        u.dedup();
        ensure!(u.len() == ord.len(), "a branch was polled twice: {ord:?}");
        if over.get() == 15 {
            ensure!(got == COMPLETE, "all branches are finished but {got} ran");
        } else if cand == 0 {
            ensure!(got == DEFAULT, "no branch is ready but {got} ran");
            ensure!(ord.len() == 4 - (over.get() as u32).count_ones() as usize, "default ran without all branches having been asked: {ord:?}");
        } else {
            ensure!(got < 4 && cand >> got & 1 == 1, "{got} ran; ready and unfinished are {cand:04b}");
            ensure!(ord.last() == Some(&got), "more branches were polled after the ready one: {ord:?}");
            if biased {
                ensure!(got == cand.trailing_zeros() as usize, "biased select ran {got} although {cand:04b} are ready");
            }
        }
        if biased {
            ensure!(ord.windows(2).all(|w| w[0] < w[1]), "biased select polled in order {ord:?}");
        }
    }
    c.nontrivial = true;
}
/// select! over always-ready branches is fair.
fn fairness(c: &mut Case) {
    let n = 4000usize;
    macro_rules! round { ($k:expr, $($v:ident = $e:expr),*) => {{
        let k: usize = $k;
        let mut cnt = vec![0usize; k];
        let mut first = vec![vec![0usize; k]; k];
        for _ in 0..n * k {
            let order: Rc<RefCell<Vec<usize>>> = Default::default();
            let zero = Rc::new(std::cell::Cell::new(0));
            $( let mut $v = future::ready($e); )*
            let g = futures::select! { $( x = $v => x, )* default => unreachable!() };
            cnt[g] += 1;
            let mk = |id| Probe { id, order: order.clone(), ready: zero.clone(), over: zero.clone() };
            $( let mut $v = mk($e); )*
            futures::select! { $( _ = $v => (), )* default => () };
            let o = order.borrow();
            for i in 0..k { for j in i + 1..k { first[o[i]][o[j]] += 1; } }
        }
        for (i, x) in cnt.iter().enumerate() {
            ensure!(*x > n * 6 / 10 && *x < n * 14 / 10, "branch {i} of {k} always-ready ones ran {x} times out of {}", n * k);
        }
        for i in 0..k { for j in 0..k { if i != j {
            let p = first[i][j] as f64 / (n * k) as f64;
            ensure!(p > 0.35 && p < 0.65, "branch {i} is polled before {j} in {:.0}% of the polls", p * 100.0);
        } } }
    }} }
    match c.rng.below(4) {
        0 => round!(2, a = 0, b = 1),
        1 => round!(3, a = 0, b = 1, e = 2),
        2 => round!(4, a = 0, b = 1, e = 2, f = 3),
        _ => round!(5, a = 0, b = 1, e = 2, f = 3, g = 4),
    }
    mon::event(c.rng.next());
    c.nontrivial = true;
    c.count("selects", n as u64 * 2);
}
fn main() {
    hv::main("C15", vec![
        hv::w("two", 2_000_000, 20_000_000, two),
        hv::w("list", 2_000_000, 20_000_000, list),
        hv::w("macros", 1_500_000, 20_000_000, macros),
        hv::w("order", 1_000_000, 10_000_000, order),
        hv::w("fairness", 64, 400, fairness),
    ]);
}
