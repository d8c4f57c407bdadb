//! C02: oneshot.
use futures::channel::oneshot;
use futures::future::FusedFuture;
use futures::FutureExt;
use hv::mon::{self, tok, Tok};
use hv::sched::{self, Exec};
use hv::{ensure, logf, vio, Case};
use std::cell::RefCell;
use std::rc::Rc;
use std::task::Poll;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Got {
    Value,
    Canceled,
    Empty,
}
#[derive(Default, Debug)]
struct Hist {
    // (start, end, ok)
    send: Option<(u64, u64, bool)>,
    // sender dropped without sending
    tx_drop: Option<(u64, u64)>,
    rx_close: Option<(u64, u64)>,
    rx_drop: Option<(u64, u64)>,
    /// receiver observations: start, end, what
    recv: Vec<(u64, u64, Got)>,
    /// is_canceled / poll_canceled observations
    canc: Vec<(u64, u64, bool)>,
}
type H = Rc<RefCell<Hist>>;

fn sender(tx: oneshot::Sender<Tok>, h: H, mut r: hv::Rng, will_cancel: bool) {
    let mut tx = Some(tx);
    let mut ex = Exec::new(&mut r);
    for _ in 0..r.below(4) {
        let t = tx.as_mut().unwrap();
        let t0 = sched::now();
        let v = match r.below(3) {
            0 => t.is_canceled(),
            1 => ex.poll(|cx| t.poll_canceled(cx)).is_ready(),
            _ => ex.poll(|cx| t.cancellation().poll_unpin(cx)).is_ready(),
        };
        let t1 = sched::now();
        logf!("sender: canceled? {v}");
        h.borrow_mut().canc.push((t0, t1, v));
    }
    if will_cancel && r.chance(1, 3) {
        // sleeps until the receiver goes away
        let t = tx.as_mut().unwrap();
        if r.bool() {
            ex.wait(|cx| t.poll_canceled(cx));
        } else {
            ex.block_on(t.cancellation());
        }
        let t1 = sched::now();
        logf!("sender: cancellation observed");
        h.borrow_mut().canc.push((t1, t1, true));
    }
    if r.chance(3, 4) {
        let val = tok(42);
        let id = val.id();
        let t0 = sched::now();
        let res = tx.take().unwrap().send(val);
        let t1 = sched::now();
        let ok = res.is_ok();
        if let Err(v) = res {
            ensure!(v.get() == 42 && v.id() == id, "send handed back a different value");
        }
        logf!("sender: send -> {}", if ok { "Ok" } else { "Err" });
        h.borrow_mut().send = Some((t0, t1, ok));
    } else {
        let t0 = sched::now();
        drop(tx.take());
        let t1 = sched::now();
        logf!("sender: dropped");
        h.borrow_mut().tx_drop = Some((t0, t1));
    }
}
fn receiver(mut rx: oneshot::Receiver<Tok>, h: H, mut r: hv::Rng, plan: usize) {
    let mut ex = Exec::new(&mut r);
    let mut done = false;
    let rec = |h: &H, t0: u64, g: Got| {
        logf!("receiver: {g:?}");
        h.borrow_mut().recv.push((t0, sched::now(), g));
    };
    let n = r.below(4);
    for i in 0..=n {
        if done {
            break;
        }
        if plan == 0 && i == n {
            let t0 = sched::now();
            rx.close();
            logf!("receiver: close");
            let mut hh = h.borrow_mut();
            let t1 = sched::now();
            if hh.rx_close.is_none() {
                hh.rx_close = Some((t0, t1));
            }
        }
        if i == n {
            break;
        }
        let t0 = sched::now();
        if r.bool() {
            match rx.try_recv() {
                Ok(Some(v)) => {
                    ensure!(v.get() == 42, "received {} instead of 42", v.get());
                    rec(&h, t0, Got::Value);
                    done = true;
                }
                Ok(None) => rec(&h, t0, Got::Empty),
                Err(oneshot::Canceled) => {
                    rec(&h, t0, Got::Canceled);
                    done = true;
                }
            }
        } else {
            match ex.poll(|cx| rx.poll_unpin(cx)) {
                Poll::Ready(Ok(v)) => {
                    ensure!(v.get() == 42, "received {} instead of 42", v.get());
                    rec(&h, t0, Got::Value);
                    done = true;
                }
                Poll::Ready(Err(oneshot::Canceled)) => {
                    rec(&h, t0, Got::Canceled);
                    done = true;
                }
                Poll::Pending => rec(&h, t0, Got::Empty),
            }
        }
    }
    if !done && plan != 1 {
        // run to the end
        let t0 = sched::now();
        let v = ex.wait(|cx| rx.poll_unpin(cx));
        match v {
            Ok(v) => {
                ensure!(v.get() == 42, "received {} instead of 42", v.get());
                rec(&h, t0, Got::Value)
            }
            Err(_) => rec(&h, t0, Got::Canceled),
        }
        done = true;
    }
    let last = h.borrow().recv.last().map(|x| x.2);
    // (after close, a Canceled may be followed by the value of a send that was in
    // progress; that delivery is still the only one, so only look again otherwise)
    if done && (last == Some(Got::Value) || plan != 0) && r.bool() {
        match rx.try_recv() {
            Ok(Some(_)) => vio!("a second value was received"),
            Ok(None) => {
                vio!("try_recv reports an open empty channel after {last:?}")
            }
            Err(_) => {}
        }
    }
    let t0 = sched::now();
    drop(rx);
    let t1 = sched::now();
    logf!("receiver: dropped");
    h.borrow_mut().rx_drop = Some((t0, t1));
}
fn check(h: &Hist) {
    let values: Vec<_> = h.recv.iter().filter(|r| r.2 == Got::Value).collect();
    ensure!(values.len() <= 1, "the value was received {} times", values.len());
    let gone = h.rx_close.or(h.rx_drop).unwrap();
    match h.send {
        None => ensure!(values.is_empty(), "a value was received that was never sent"),
        Some((s0, s1, ok)) => {
            if !ok {
                ensure!(values.is_empty(), "the value was received and also handed back to the sender");
                ensure!(gone.0 < s1, "send failed although the receiver was neither closed nor dropped");
            } else {
                ensure!(gone.1 > s0, "send succeeded after the receiver had been {}", if h.rx_close.is_some() { "closed" } else { "dropped" });
                for r in &h.recv {
                    if r.2 == Got::Canceled {
                        vio!("receiver reported Canceled although the send succeeded");
                    }
                    if r.2 == Got::Empty && r.0 > s1 {
                        vio!("receiver found nothing although the value had been sent");
                    }
                }
            }
            for v in values {
                ensure!(v.1 > s0, "value received before it was sent");
            }
        }
    }
    for r in &h.recv {
        if r.2 == Got::Canceled {
            let a = h.tx_drop.map_or(false, |d| d.0 < r.1);
            let b = h.rx_close.map_or(false, |d| d.0 < r.1);
            let c = h.send.map_or(false, |s| !s.2);
            ensure!(a || b || c, "receiver reported Canceled although the sender is alive and the channel open");
        }
        if r.2 == Got::Empty {
            if let Some(d) = h.tx_drop {
                ensure!(d.1 > r.0, "receiver found an open channel although the sender had been dropped");
            }
            if let Some(d) = h.rx_close {
                ensure!(d.1 > r.0, "receiver still pending after close");
            }
        }
    }
    for c in &h.canc {
        if c.2 {
            ensure!(gone.0 < c.1, "sender saw cancellation although the receiver was neither closed nor dropped");
        } else {
            ensure!(gone.1 > c.0, "sender did not see the cancellation that had happened before");
        }
    }
}
fn race(c: &mut Case) {
    let plan = c.rng.below(3); // 0 close, 1 drop, 2 run to the end
    let (tx, rx) = oneshot::channel::<Tok>();
    let h: H = Default::default();
    let mut r = c.rng.fork();
    c.desc = format!("receiver plan {}", ["close then drain", "poll then drop", "run to the end"][plan]);
    let o = sched::run(&mut c.rng, || {
        let (h1, r1) = (h.clone(), r.fork());
        sched::spawn("sender", move || sender(tx, h1, r1, plan < 2));
        let (h2, r2) = (h.clone(), r.fork());
        sched::spawn("receiver", move || receiver(rx, h2, r2, plan));
    });
    c.nontrivial = o.switches > 2;
    c.count("scheduling_points", o.steps);
    c.count("context_switches", o.switches);
    sched::expect_done(&o);
    if o.deadlocked.is_empty() && o.failed.is_none() && !o.discarded && !mon::violated() {
        check(&h.borrow());
        mon::check_released();
    }
}
/// Both ends on one thread, call by call, against an exact model.
fn sequential(c: &mut Case) {
    let (tx, rx) = oneshot::channel::<Tok>();
    let (mut tx, mut rx) = (Some(tx), Some(rx));
    #[derive(PartialEq, Debug)]
    enum M {
        Open,
        Sent,
        Taken,
        TxGone,
    }
    let mut m = M::Open;
    let mut rx_gone = false; // closed or dropped
    let mut rx_done = false;
    thread_local!(static WOKEN: RefCell<Vec<(u64, u64)>> = const { RefCell::new(Vec::new()) });
    WOKEN.with(|w| w.borrow_mut().clear());
    fn on(a: u64, b: u64) {
        WOKEN.with(|w| w.borrow_mut().push((a, b)));
    }
    let woken = |a: u64, b: u64| WOKEN.with(|w| w.borrow().contains(&(a, b)));
    let mut gen = 0;
    let (mut txw, mut rxw): (Option<(u64, std::task::Waker)>, Option<(u64, std::task::Waker)>) = (None, None);
    let n = c.rng.range(2, 10);
    for _ in 0..n {
        if mon::violated() {
            return;
        }
        let op = c.rng.below(10);
        mon::event(op as u64 + 100 * rx_gone as u64);
        gen += 1;
        match op {
            0 | 1 => {
                let Some(t) = tx.take() else { continue };
                let r = t.send(tok(7));
                logf!("send -> {}", r.is_ok());
                ensure!(r.is_ok() != rx_gone, "send returned ok={} with receiver gone={rx_gone}", r.is_ok());
                if r.is_ok() {
                    m = M::Sent;
                } else {
                    m = M::TxGone;
                }
                if let Some((g, _)) = &rxw {
                    if rx.is_some() && !rx_gone {
                        ensure!(woken(1, *g), "the waiting receiver was not woken by send");
                    }
                }
            }
            2 => {
                if tx.take().is_some() {
                    logf!("drop tx");
                    m = M::TxGone;
                    if let Some((g, _)) = &rxw {
                        if rx.is_some() && !rx_gone {
                            ensure!(woken(1, *g), "the waiting receiver was not woken by the drop of the sender");
                        }
                    }
                }
            }
            3 | 4 => {
                let Some(t) = tx.as_mut() else { continue };
                let w = mon::new_waker(on, 0, gen);
                let p = t.poll_canceled(&mut std::task::Context::from_waker(&w));
                logf!("poll_canceled -> {p:?}");
                ensure!(p.is_ready() == rx_gone, "poll_canceled ready={} with receiver gone={rx_gone}", p.is_ready());
                ensure!(t.is_canceled() == rx_gone, "is_canceled disagrees with receiver gone={rx_gone}");
                if p.is_pending() {
                    txw = Some((gen, w));
                }
                let o = oneshot::channel::<Tok>();
                ensure!(!t.is_connected_to(&o.1), "is_connected_to is true for another channel");
                if let Some(r) = &rx {
                    ensure!(t.is_connected_to(r), "is_connected_to is false for its own receiver");
                }
            }
            5 | 6 | 7 => {
                let Some(r) = rx.as_mut() else { continue };
                if rx_done {
                    continue;
                }
                let g = if op == 5 {
                    match r.try_recv() {
                        Ok(Some(v)) => {
                            ensure!(v.get() == 7, "wrong value");
                            Got::Value
                        }
                        Ok(None) => Got::Empty,
                        Err(_) => Got::Canceled,
                    }
                } else {
                    let w = mon::new_waker(on, 1, gen);
                    let p = r.poll_unpin(&mut std::task::Context::from_waker(&w));
                    match p {
                        Poll::Ready(Ok(v)) => {
                            ensure!(v.get() == 7, "wrong value");
                            Got::Value
                        }
                        Poll::Ready(Err(_)) => Got::Canceled,
                        Poll::Pending => {
                            rxw = Some((gen, w));
                            Got::Empty
                        }
                    }
                };
                let exp = match m {
                    M::Sent => Got::Value,
                    M::TxGone | M::Taken => Got::Canceled,
                    M::Open => if rx_gone { Got::Canceled } else { Got::Empty },
                };
                logf!("recv -> {g:?}");
                ensure!(g == exp, "receiver got {g:?}, expected {exp:?}");
                if g == Got::Value {
                    m = M::Taken;
                }
                if g != Got::Empty {
                    rx_done = true;
                    rxw = None;
                }
                ensure!(!rx_done || r.is_terminated(), "not terminated after {g:?}");
                ensure!(rx_done || rx_gone || !r.is_terminated(), "terminated although nothing was received");
            }
            8 => {
                let Some(r) = rx.as_mut() else { continue };
                logf!("close");
                r.close();
                let first = !rx_gone;
                rx_gone = true;
                if let (Some((g, _)), true, true) = (&txw, first, tx.is_some()) {
                    ensure!(woken(0, *g), "the waiting sender was not woken by close");
                }
            }
            _ => {
                if c.rng.bool() {
                    continue;
                }
                if rx.take().is_some() {
                    logf!("drop rx");
                    let first = !rx_gone;
                    rx_gone = true;
                    if let (Some((g, _)), true, true) = (&txw, first, tx.is_some()) {
                        ensure!(woken(0, *g), "the waiting sender was not woken by the drop of the receiver");
                    }
                }
            }
        }
    }
    c.nontrivial = true;
    drop((tx, rx));
    drop((txw, rxw));
    if !mon::violated() {
        mon::check_released();
    }
}
fn main() {
    hv::main("C02", vec![hv::w("race", 800_000, 40_000_000, race), hv::w("sequential", 200_000, 3_000_000, sequential)]);
}
