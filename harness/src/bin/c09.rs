//! C09: FuturesUnordered.
use futures::stream::{FusedStream, FuturesUnordered};
use futures::task::{LocalSpawnExt, SpawnExt};
use futures::{Stream, StreamExt};
use hv::aleaf::{leaf, Ctl, Leaf};
use hv::mon::{self, Tok};
use hv::sched::{self, Exec};
use hv::{ensure, logf, vio, Case, Rng};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

fn ids<'a>(it: impl Iterator<Item = &'a Leaf>) -> Vec<u64> {
    it.map(|l| l.ctl.0.borrow().id).collect()
}
/// Compares every read-only view of the set with the expected content.
fn views(set: &mut FuturesUnordered<Leaf>, model: &BTreeSet<u64>, ended: bool, which: usize) {
    let n = model.len();
    ensure!(set.len() == n, "len is {} with {n} futures inside", set.len());
    ensure!(set.is_empty() == (n == 0), "is_empty is {} with {n} futures inside", set.is_empty());
    ensure!(set.size_hint() == (n, Some(n)), "size_hint {:?} with {n} futures inside", set.size_hint());
    ensure!(set.is_terminated() == ended, "is_terminated {} (ended: {ended})", set.is_terminated());
    let mut hints_ok = true;
    let v = match which % 4 {
        0 => {
            let mut it = set.iter();
            let mut v = Vec::new();
            loop {
                hints_ok &= it.size_hint() == (n - v.len().min(n), Some(n - v.len().min(n)));
                match it.next() {
                    Some(l) => v.push(l.ctl.0.borrow().id),
                    None => break,
                }
                if v.len() > n + 3 {
                    break;
                }
            }
            v
        }
        1 => ids(Pin::new(&*set).iter_pin_ref().map(|p| p.get_ref())),
        2 => set.iter_mut().map(|l| l.ctl.0.borrow().id).collect(),
        _ => Pin::new(&mut *set).iter_pin_mut().map(|l| l.ctl.0.borrow().id).collect(),
    };
    ensure!(hints_ok, "iterator size_hint is wrong");
    let s: BTreeSet<u64> = v.iter().copied().collect();
    ensure!(s.len() == v.len() && s == *model, "iteration shows {v:?} instead of {model:?}");
}
struct Shared9 {
    set: UnsafeCell<FuturesUnordered<Leaf>>,
    stop: Cell<bool>,
}
fn concurrent(c: &mut Case) {
    run(c, false, false)
}
fn pushers(c: &mut Case) {
    run(c, true, false)
}
fn panicking(c: &mut Case) {
    run(c, false, true)
}
fn run(c: &mut Case, shared_push: bool, panics: bool) {
    let n = c.rng.range(1, 5);
    let mut leaves = Vec::new();
    let mut ctls: Vec<Ctl> = Vec::new();
    let mut events: Vec<usize> = Vec::new();
    for i in 0..n {
        let ev = *c.rng.pick(&[0, 0, 1, 1, 2, 3]);
        let (l, ctl) = leaf(10 + i as u64, ev);
        if panics && c.rng.chance(1, 3) {
            ctl.0.borrow_mut().panic_at = c.rng.range(1, 3) as u32;
        }
        leaves.push(l);
        ctls.push(ctl);
        events.push(ev);
    }
    let pre = c.rng.below(n + 1);
    let fate = if c.rng.chance(1, 3) { c.rng.range(1, 4) } else { 0 };
    let envs = c.rng.range(1, 3);
    c.desc = format!("{n} futures ({pre} pushed at first), events {events:?}, {envs} waking threads, shared pushes {shared_push}, panics {panics}, fate {fate}");
    let mut r = c.rng.fork();
    let sh = Rc::new(Shared9 { set: UnsafeCell::new(FuturesUnordered::new()), stop: Cell::new(false) });
    let out = Rc::new(RefCell::new(Vec::<u64>::new()));
    let polls = Rc::new(Cell::new(0u64));
    let outstanding = Rc::new(Cell::new(0usize));
    let all = ctls.clone();
    let ended_ok = Rc::new(Cell::new(false));
    let o = sched::run(&mut c.rng, || {
        let mut r = r.fork();
        // events shared among the env threads
        let mut script: Vec<(usize, u8)> = Vec::new();
        for (i, e) in events.iter().enumerate() {
            for _ in 0..*e {
                script.push((i, 0));
            }
        }
        for _ in 0..r.below(4) {
            script.push((r.below(n), 1 + r.below(3) as u8));
        }
        r.shuffle(&mut script);
        for e in 0..envs {
            let part: Vec<(usize, u8)> = script.iter().enumerate().filter(|(i, _)| i % envs == e).map(|(_, x)| *x).collect();
            let ctls = all.clone();
            let mut r = r.fork();
            sched::spawn(format!("env{e}"), move || {
                let mut kept = Vec::new();
                for (i, kind) in part {
                    sched::point();
                    if r.chance(3, 4) {
                        let want = 1 + ctls[i].0.borrow().fired;
                        for _ in 0..40 {
                            if ctls[i].polls() >= want || ctls[i].dropped() {
                                break;
                            }
                            sched::spin_point();
                        }
                    }
                    match kind {
                        0 => ctls[i].fire(),
                        1 => ctls[i].nudge(),
                        _ => {
                            if let Some(w) = ctls[i].steal() {
                                kept.push((i, w));
                            }
                        }
                    }
                    if !kept.is_empty() && r.chance(1, 3) {
                        let j = r.below(kept.len());
                        let (i, w) = &kept[j];
                        ctls[*i].0.borrow_mut().wakes += 1;
                        w.wake_by_ref();
                        if r.bool() {
                            drop(kept.swap_remove(j));
                        }
                    }
                }
                for (i, w) in kept {
                    sched::point();
                    match r.below(3) {
                        0 => drop(w),
                        1 => {
                            ctls[i].0.borrow_mut().wakes += 1;
                            w.wake_by_ref();
                            drop(w);
                        }
                        _ => {
                            ctls[i].0.borrow_mut().wakes += 1;
                            w.wake();
                        }
                    }
                }
            });
        }
        let mut queue: std::collections::VecDeque<Leaf> = leaves.drain(..).collect();
        let (sh, out, polls, outstanding, all, ended_ok) = (sh.clone(), out.clone(), polls.clone(), outstanding.clone(), all.clone(), ended_ok.clone());
        sched::spawn("consumer", move || {
            let set = unsafe { &mut *sh.set.get() };
            let mut model: BTreeSet<u64> = BTreeSet::new();
            let mut ended = false;
            let mut ex = Exec::new(&mut r);
            if r.bool() {
                let v: Vec<Leaf> = queue.drain(..pre).collect();
                model.extend(ids(v.iter()));
                if r.bool() {
                    *set = v.into_iter().collect();
                } else {
                    set.extend(v);
                }
            } else {
                for l in queue.drain(..pre) {
                    model.insert(l.ctl.0.borrow().id);
                    set.push(l);
                }
            }
            let mut steps = 0;
            loop {
                steps += 1;
                if mon::violated() || steps > 4000 {
                    ensure!(steps <= 4000, "set still polling after 4000 rounds");
                    return;
                }
                // pushes, possibly from several threads at once
                if shared_push && !queue.is_empty() && r.chance(1, 2) {
                    let k = r.range(1, 2.min(queue.len()));
                    let done = Rc::new(Cell::new(0usize));
                    let before: BTreeSet<u64> = model.clone();
                    let pushed = Rc::new(RefCell::new(before.clone()));
                    let started = Rc::new(RefCell::new(before));
                    for j in 0..k {
                        let l = queue.pop_front().unwrap();
                        let id = l.ctl.0.borrow().id;
                        model.insert(id);
                        let (sh, done, pushed, started) = (sh.clone(), done.clone(), pushed.clone(), started.clone());
                        sched::spawn(format!("push{j}-{id}"), move || {
                            let set = unsafe { &*sh.set.get() };
                            started.borrow_mut().insert(id);
                            set.push(l);
                            pushed.borrow_mut().insert(id);
                            done.set(done.get() + 1);
                        });
                    }
                    let set_ref = unsafe { &*sh.set.get() };
                    while done.get() < k {
                        if r.bool() {
                            let lo: BTreeSet<u64> = pushed.borrow().clone();
                            if r.bool() {
                                let l = set_ref.len();
                                let hi = started.borrow().len();
                                ensure!(l >= lo.len() && l <= hi, "len {l} during pushes: {} finished, {hi} started", lo.len());
                            } else {
                                let v = ids(set_ref.iter());
                                let hi = started.borrow().clone();
                                let s: BTreeSet<u64> = v.iter().copied().collect();
                                ensure!(s.len() == v.len() && lo.is_subset(&s) && s.is_subset(&hi), "iteration during pushes shows {v:?}; finished {lo:?}, started {hi:?}");
                            }
                        }
                        sched::spin_point();
                        if mon::violated() {
                            return;
                        }
                    }
                    ended = false;
                } else if !queue.is_empty() && (r.chance(1, 3) || model.is_empty()) {
                    let l = queue.pop_front().unwrap();
                    model.insert(l.ctl.0.borrow().id);
                    set.push(l);
                    ended = false;
                }
                if r.chance(1, 3) {
                    views(set, &model, ended, r.below(4));
                }
                if fate != 0 && r.chance(1, 6) {
                    break;
                }
                let p = catch_unwind(AssertUnwindSafe(|| ex.poll(|cx| set.poll_next_unpin(cx))));
                polls.set(polls.get() + 1);
                match p {
                    Err(_) => {
                        let gone: Vec<u64> = all.iter().map(|c| c.0.borrow()).filter(|s| s.panicked && model.contains(&s.id)).map(|s| s.id).collect();
                        ensure!(gone.len() == 1, "the poll panicked although no contained future did");
                        for g in gone {
                            model.remove(&g);
                            ensure!(all.iter().any(|c| c.0.borrow().id == g && c.dropped()), "the panicked future was not dropped");
                        }
                        continue;
                    }
                    Ok(Poll::Ready(Some(t))) => {
                        let v = t.get();
                        logf!("yielded {v}");
                        ensure!(model.remove(&v), "output {v} yielded but not outstanding");
                        ensure!(all.iter().any(|c| c.0.borrow().id == v && c.dropped()), "completed future {v} not dropped when its output was yielded");
                        out.borrow_mut().push(v);
                        continue;
                    }
                    Ok(Poll::Ready(None)) => {
                        ensure!(model.is_empty(), "stream ended with {model:?} outstanding");
                        ended = true;
                        if queue.is_empty() {
                            views(set, &model, true, 0);
                            ended_ok.set(true);
                            break;
                        }
                        continue;
                    }
                    // may also be Pending, woken, while a late wake-up of a removed future is half-way
                    // through entering the ready queue
                    Ok(Poll::Pending) => {}
                }
                if r.chance(1, 12) || !queue.is_empty() {
                    sched::point();
                    continue;
                }
                sched::wait_woken();
            }
            outstanding.set(model.len());
            if fate != 0 {
                match fate {
                    1 => {
                        logf!("clear");
                        set.clear();
                        views(set, &BTreeSet::new(), false, 1);
                    }
                    2 => {
                        logf!("into_iter");
                        let s = std::mem::take(set);
                        let mut it = s.into_iter();
                        let mut seen = BTreeSet::new();
                        let stop_after = if r.bool() { usize::MAX } else { r.below(n + 1) };
                        loop {
                            ensure!(it.size_hint().0 == model.len() - seen.len(), "IntoIter size_hint {:?} with {} left", it.size_hint(), model.len() - seen.len());
                            if seen.len() >= stop_after {
                                break;
                            }
                            match it.next() {
                                Some(l) => {
                                    let id = l.ctl.0.borrow().id;
                                    ensure!(!l.ctl.dropped(), "into_iter yields a dropped future");
                                    ensure!(model.contains(&id) && seen.insert(id), "into_iter yields {id}, not outstanding or twice");
                                }
                                None => {
                                    ensure!(seen == model, "into_iter yields {seen:?} instead of {model:?}");
                                    break;
                                }
                            }
                            if mon::violated() {
                                return;
                            }
                        }
                    }
                    _ => {
                        logf!("drop");
                        drop(std::mem::take(set));
                    }
                }
                for c in all.iter() {
                    let s = c.0.borrow();
                    ensure!(!model.contains(&s.id) || s.dropped, "future {} not dropped with the set", s.id);
                }
                let before: Vec<u32> = all.iter().map(|c| c.polls()).collect();
                sched::point();
                ensure!(before == all.iter().map(|c| c.polls()).collect::<Vec<_>>(), "a future of a dropped set was polled");
            }
            sh.stop.set(true);
            drop(queue);
        });
    });
    c.nontrivial = o.switches > 2;
    c.count("scheduling_points", o.steps);
    c.count("outputs", out.borrow().len() as u64);
    c.count("set_polls", polls.get());
    c.count("child_polls", ctls.iter().map(|c| c.polls() as u64).sum());
    sched::expect_done(&o);
    if o.deadlocked.is_empty() && o.failed.is_none() && !o.discarded && !o.livelock && !mon::violated() {
        for ctl in &ctls {
            let s = ctl.0.borrow();
            ensure!(s.polls <= 1 + s.wakes, "future {} polled {} times after {} wake-ups", s.id, s.polls, s.wakes);
            if fate == 0 && ended_ok.get() && !s.panicked {
                ensure!(s.done, "future {} never completed", s.id);
            }
            ensure!(s.dropped, "future {} never dropped", s.id);
        }
        if let Ok(s) = Rc::try_unwrap(sh) {
            drop(s);
        }
        mon::check_released();
    }
}
/// One thread: exact model after every call.
fn sequential(c: &mut Case) {
    thread_local!(static WOKEN: Cell<u64> = const { Cell::new(0) });
    WOKEN.with(|w| w.set(0));
    fn on(_: u64, gen: u64) {
        WOKEN.with(|w| w.set(w.get().max(gen)));
    }
    let mut set: FuturesUnordered<Leaf> = FuturesUnordered::new();
    let mut model: BTreeSet<u64> = BTreeSet::new();
    let mut ctls: Vec<Ctl> = Vec::new();
    // futures that must be polled at the next poll(s): new or woken
    let mut due: BTreeSet<u64> = BTreeSet::new();
    let mut polls_at: Vec<u32> = Vec::new();
    let mut ended = false;
    let mut gen = 0u64;
    let mut waiting: Option<u64> = None;
    let steps = c.rng.range(5, 60);
    let cap = *c.rng.pick(&[3usize, 8, 40]);
    let mut kept = Vec::new();
    for _ in 0..steps {
        let op = c.rng.below(16);
        match op {
            0..=3 if model.len() < cap => {
                let k = *c.rng.pick(&[1, 1, 2, 5]);
                for _ in 0..k {
                    let id = ctls.len() as u64;
                    let (l, ctl) = leaf(id, c.rng.below(4));
                    ctls.push(ctl);
                    polls_at.push(0);
                    model.insert(id);
                    due.insert(id);
                    ended = false;
                    set.push(l);
                }
                waiting = None; // a push requires a new poll
            }
            4..=9 => {
                gen += 1;
                let w = mon::new_waker(on, 0, gen);
                let before: Vec<u32> = ctls.iter().map(|c| c.polls()).collect();
                let p = set.poll_next_unpin(&mut Context::from_waker(&w));
                let polled: BTreeSet<u64> = (0..ctls.len() as u64).filter(|i| ctls[*i as usize].polls() > before[*i as usize]).collect();
                mon::event(polled.len() as u64 + 100 * p.is_ready() as u64);
                ensure!(polled.is_subset(&due), "polled {polled:?} but only {due:?} are new or woken");
                for x in &polled {
                    ensure!(ctls[*x as usize].polls() == before[*x as usize] + 1, "future {x} polled twice in one round without being woken");
                    due.remove(x);
                }
                match p {
                    Poll::Ready(Some(t)) => {
                        let v = t.get();
                        ensure!(model.remove(&v), "output {v} not outstanding");
                        ensure!(ctls[v as usize].dropped(), "future {v} not dropped on completion");
                        waiting = None;
                    }
                    Poll::Ready(None) => {
                        ensure!(model.is_empty(), "ended with {model:?} outstanding");
                        ended = true;
                        waiting = None;
                    }
                    Poll::Pending => {
                        ensure!(!model.is_empty(), "pending when empty");
                        let woken = WOKEN.with(|w| w.get()) == gen;
                        ensure!(due.is_empty() || woken, "returned Pending with {due:?} due and without waking its task");
                        waiting = Some(gen);
                    }
                }
            }
            10..=12 => {
                let cand: Vec<usize> = (0..ctls.len()).filter(|i| !ctls[*i].dropped() && ctls[*i].polls() > 0).collect();
                if cand.is_empty() {
                    continue;
                }
                let i = *c.rng.pick(&cand);
                let has = ctls[i].steal();
                if let Some(w) = has {
                    due.insert(i as u64);
                    if c.rng.chance(1, 4) {
                        kept.push(w);
                    }
                    if c.rng.chance(1, 3) {
                        ctls[i].nudge();
                    } else {
                        ctls[i].fire();
                    }
                    if let Some(g) = waiting {
                        ensure!(WOKEN.with(|w| w.get()) == g, "future {i} was woken but the task polling the set was not");
                    }
                } else {
                    ctls[i].fire();
                }
            }
            13 => views(&mut set, &model, ended, c.rng.below(4)),
            14 if c.rng.chance(1, 4) => {
                match c.rng.below(3) {
                    0 => set.clear(),
                    1 => {
                        let s = std::mem::take(&mut set);
                        let v: Vec<u64> = s.into_iter().map(|l| l.ctl.0.borrow().id).collect();
                        let s: BTreeSet<u64> = v.iter().copied().collect();
                        ensure!(s.len() == v.len() && s == model, "into_iter gave {v:?} instead of {model:?}");
                    }
                    _ => drop(std::mem::take(&mut set)),
                }
                for i in &model {
                    ensure!(ctls[*i as usize].dropped(), "future {i} survives the set");
                }
                model.clear();
                due.clear();
                waiting = None;
                ended = false;
            }
            15 if !kept.is_empty() => {
                // wakers that may outlive their future
                let w = kept.swap_remove(c.rng.below(kept.len()));
                if c.rng.bool() {
                    // which future it belongs to is unknown here: all live ones may be due
                    for i in &model {
                        due.insert(*i);
                    }
                    w.wake();
                    // conservatively re-synchronise: poll until nothing more happens
                    loop {
                        gen += 1;
                        let w = mon::new_waker(on, 0, gen);
                        match set.poll_next_unpin(&mut Context::from_waker(&w)) {
                            Poll::Ready(Some(t)) => {
                                ensure!(model.remove(&t.get()), "output {} not outstanding", t.get());
                            }
                            Poll::Ready(None) => {
                                ended = true;
                                waiting = None;
                                break;
                            }
                            Poll::Pending => {
                                if WOKEN.with(|w| w.get()) != gen {
                                    waiting = Some(gen);
                                    break;
                                }
                            }
                        }
                    }
                    due.clear();
                }
            }
            _ => {}
        }
        if mon::violated() {
            return;
        }
    }
    c.nontrivial = !ctls.is_empty();
    c.count("child_polls", ctls.iter().map(|c| c.polls() as u64).sum());
    drop(set);
    for (i, ctl) in ctls.iter().enumerate() {
        ensure!(ctl.dropped(), "future {i} never dropped");
    }
    drop(kept);
    mon::check_released();
}
/// spawn / spawn_local forms and children that push or wake during their own poll.
fn nested(c: &mut Case) {
    use futures::future::{FutureObj, LocalFutureObj};
    use hv::world as wd;
    let n = c.rng.range(1, 6);
    let log: Rc<RefCell<Vec<usize>>> = Default::default();
    if c.rng.bool() {
        let mut set: FuturesUnordered<LocalFutureObj<'static, ()>> = FuturesUnordered::new();
        for i in 0..n {
            let f = wd::fut(i);
            let log = log.clone();
            let t = mon::tok(i as u64);
            let r = set.spawn_local(async move {
                let v = f.await;
                wd::fut(()).await;
                log.borrow_mut().push(v);
                drop(t);
            });
            ensure!(r.is_ok(), "spawn_local failed");
        }
        let got = wd::collect(&mut set).map(|v| v.len());
        ensure!(got == Some(n), "{got:?} of {n} spawned futures completed");
    } else {
        let mut set: FuturesUnordered<FutureObj<'static, ()>> = FuturesUnordered::new();
        let cnt = std::sync::Arc::new(std::sync::Mutex::new(Vec::new()));
        for i in 0..n {
            let cnt = cnt.clone();
            let left = c.rng.below(4);
            let mut k = 0;
            let r = set.spawn(futures::future::poll_fn(move |cx| {
                if k == left {
                    cnt.lock().unwrap().push(i);
                    return Poll::Ready(());
                }
                k += 1;
                // woken during its own poll, once or twice
                cx.waker().wake_by_ref();
                if i % 2 == 0 {
                    cx.waker().clone().wake();
                }
                Poll::Pending
            }));
            ensure!(r.is_ok(), "spawn failed");
        }
        let got = wd::collect(&mut set).map(|v| v.len());
        ensure!(got == Some(n), "{got:?} of {n} spawned futures completed");
        *log.borrow_mut() = std::mem::take(&mut *cnt.lock().unwrap());
    }
    let mut l = log.borrow().clone();
    l.sort();
    ensure!(mon::violated() || l == (0..n).collect::<Vec<_>>(), "completed: {l:?} of {n}");
    c.nontrivial = true;
    mon::event(n as u64);
    let _: Option<Tok> = None;
    let _: Option<Rng> = None;
    mon::check_released();
}
fn main() {
    hv::main("C09", vec![
        hv::w("concurrent", 3_000_000, 60_000_000, concurrent),
        hv::w("pushers", 1_500_000, 20_000_000, pushers),
        hv::w("panicking", 800_000, 15_000_000, panicking),
        hv::w("sequential", 1_000_000, 20_000_000, sequential),
        hv::w("nested", 200_000, 3_000_000, nested),
    ]);
}
