//! mpsc workloads and history oracles shared by C03, C04 and C05. Violations carry the
//! property they refute; each check reports only its own (and generic ones).
use crate::mon::{self, tok, Tok};
use crate::rng::Rng;
use crate::sched::{self, Exec};
use crate::{logf, Case};
use futures::channel::mpsc;
use futures::{FutureExt, SinkExt, Stream, StreamExt};
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub enum Tx {
    B(mpsc::Sender<Tok>),
    U(mpsc::UnboundedSender<Tok>),
}
pub enum Rx {
    B(mpsc::Receiver<Tok>),
    U(mpsc::UnboundedReceiver<Tok>),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum SendRes {
    Ok,
    Full,
    Disc,
}
pub enum TryRecv {
    Item(Tok),
    Empty,
    Closed,
}
impl Tx {
    fn try_send(&mut self, t: Tok) -> (SendRes, Option<Tok>) {
        match self {
            Tx::B(s) => match s.try_send(t) {
                Ok(()) => (SendRes::Ok, None),
                Err(e) => {
                    let r = if e.is_full() { SendRes::Full } else { SendRes::Disc };
                    (r, Some(e.into_inner()))
                }
            },
            Tx::U(s) => match s.unbounded_send(t) {
                Ok(()) => (SendRes::Ok, None),
                Err(e) => {
                    let r = if e.is_full() { SendRes::Full } else { SendRes::Disc };
                    (r, Some(e.into_inner()))
                }
            },
        }
    }
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), mpsc::SendError>> {
        match self {
            Tx::B(s) => s.poll_ready(cx),
            Tx::U(s) => s.poll_ready(cx),
        }
    }
    fn start_send(&mut self, t: Tok) -> Result<(), mpsc::SendError> {
        match self {
            Tx::B(s) => s.start_send(t),
            Tx::U(s) => s.start_send(t),
        }
    }
    fn is_closed(&self) -> bool {
        match self {
            Tx::B(s) => s.is_closed(),
            Tx::U(s) => s.is_closed(),
        }
    }
    fn close_channel(&mut self) {
        match self {
            Tx::B(s) => s.close_channel(),
            Tx::U(s) => s.close_channel(),
        }
    }
    fn disconnect(&mut self) {
        match self {
            Tx::B(s) => s.disconnect(),
            Tx::U(s) => s.disconnect(),
        }
    }
    fn dup(&self) -> Tx {
        match self {
            Tx::B(s) => Tx::B(s.clone()),
            Tx::U(s) => Tx::U(s.clone()),
        }
    }
    fn same(&self, o: &Tx) -> bool {
        match (self, o) {
            (Tx::B(a), Tx::B(b)) => a.same_receiver(b),
            (Tx::U(a), Tx::U(b)) => a.same_receiver(b),
            _ => false,
        }
    }
    fn connected(&self, o: &Rx) -> bool {
        match (self, o) {
            (Tx::B(a), Rx::B(b)) => a.is_connected_to(b),
            (Tx::U(a), Rx::U(b)) => a.is_connected_to(b),
            _ => false,
        }
    }
}
#[allow(deprecated)]
impl Rx {
    fn poll_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Tok>> {
        match self {
            Rx::B(r) => Pin::new(r).poll_next(cx),
            Rx::U(r) => Pin::new(r).poll_next(cx),
        }
    }
    fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<Tok>> {
        match self {
            Rx::B(r) => r.recv().poll_unpin(cx).map(|x| x.ok()),
            Rx::U(r) => r.recv().poll_unpin(cx).map(|x| x.ok()),
        }
    }
    fn try_recv(&mut self, old: bool) -> TryRecv {
        if old {
            let r = match self {
                Rx::B(r) => r.try_next(),
                Rx::U(r) => r.try_next(),
            };
            return match r {
                Ok(Some(t)) => TryRecv::Item(t),
                Ok(None) => TryRecv::Closed,
                Err(_) => TryRecv::Empty,
            };
        }
        let r = match self {
            Rx::B(r) => r.try_recv(),
            Rx::U(r) => r.try_recv(),
        };
        match r {
            Ok(t) => TryRecv::Item(t),
            Err(e) if e.is_closed() => TryRecv::Closed,
            Err(_) => TryRecv::Empty,
        }
    }
    fn close(&mut self) {
        match self {
            Rx::B(r) => r.close(),
            Rx::U(r) => r.close(),
        }
    }
    fn terminated(&self) -> bool {
        use futures::stream::FusedStream;
        match self {
            Rx::B(r) => r.is_terminated(),
            Rx::U(r) => r.is_terminated(),
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self {
            Rx::B(r) => r.size_hint(),
            Rx::U(r) => r.size_hint(),
        }
    }
}
pub fn chan(cap: Option<usize>) -> (Tx, Rx) {
    match cap {
        Some(n) => {
            let (a, b) = mpsc::channel(n);
            (Tx::B(a), Rx::B(b))
        }
        None => {
            let (a, b) = mpsc::unbounded();
            (Tx::U(a), Rx::U(b))
        }
    }
}

#[derive(Clone, Debug)]
struct Snd {
    val: u64,
    handle: usize,
    thread: usize,
    t0: u64,
    t1: u64,
    res: SendRes,
}
#[derive(Clone, Debug, PartialEq)]
enum RRes {
    Item(u64),
    Empty,
    Closed,
}
#[derive(Clone, Debug)]
struct Rcv {
    t0: u64,
    t1: u64,
    res: RRes,
}
#[derive(Default)]
struct Hist {
    cap: Option<usize>,
    sends: Vec<Snd>,
    recvs: Vec<Rcv>,
    /// is_closed observations (t0,t1,value)
    closed_obs: Vec<(u64, u64, bool)>,
    /// receiver-side close or drop: (start, end)
    rx_close: Vec<(u64, u64)>,
    rx_gone: Option<u64>,
    /// sender-side close_channel (start, end)
    tx_close: Vec<(u64, u64)>,
    /// last sender handle dropped: (start,end)
    last_drop: Option<(u64, u64)>,
    live: usize,
    next_handle: usize,
    waiting_send: HashMap<usize, u64>,
    rx_waiting: bool,
    v: Vec<(&'static str, String)>,
}
type H = Rc<RefCell<Hist>>;
macro_rules! bad { ($h:expr, $tag:expr, $($t:tt)*) => { { let m = format!($($t)*); logf!("!! [{}] {}", $tag, m); $h.v.push(($tag, m)) } } }

/// One concurrent run.
pub fn concurrent(c: &mut Case, prop: &'static str) {
    let cap = if c.rng.chance(2, 3) { Some(c.rng.below(4)) } else { None };
    run_concurrent(c, prop, cap, None);
}
pub fn concurrent_bounded(c: &mut Case, prop: &'static str) {
    let cap = Some(*c.rng.pick(&[0, 0, 1, 1, 2, 3]));
    run_concurrent(c, prop, cap, None);
}
/// Runs in which a close from some side always happens.
pub fn concurrent_close(c: &mut Case, prop: &'static str) {
    let cap = if c.rng.chance(2, 3) { Some(c.rng.below(3)) } else { None };
    let which = c.rng.below(4);
    run_concurrent(c, prop, cap, Some(which));
}

fn run_concurrent(c: &mut Case, prop: &'static str, cap: Option<usize>, force: Option<usize>) {
    let ns = c.rng.range(1, 3);
    let nmsg = c.rng.range(1, 4);
    // receiver plan: close after k items / drop after k items / run to the end
    let rx_plan = match force {
        Some(0) => 0,
        Some(1) => 1,
        Some(_) => 2,
        None => if c.rng.chance(1, 4) { c.rng.below(2) } else { 2 },
    };
    let rx_k = c.rng.below(4);
    let tx_close = force == Some(2) || (force.is_none() && c.rng.chance(1, 12));
    c.desc = format!("cap {cap:?}, {ns} senders x {nmsg} messages, receiver plan {} after {rx_k}, sender-side close: {tx_close}",
        ["close", "drop", "run to end"][rx_plan]);
    let (tx, rx) = chan(cap);
    let h: H = Rc::new(RefCell::new(Hist { cap, live: ns, next_handle: ns, ..Default::default() }));
    let mut r = c.rng.fork();
    let mut txs: Vec<Tx> = (1..ns).map(|_| tx.dup()).collect();
    txs.push(tx);
    let o = sched::run(&mut c.rng, || {
        for (i, tx) in txs.drain(..).enumerate() {
            let h = h.clone();
            let r = r.fork();
            let closer = tx_close && i == 0;
            sched::spawn(format!("sender{i}"), move || sender(i, tx, h, r, nmsg, closer));
        }
        let h = h.clone();
        let r = r.fork();
        sched::spawn("receiver", move || receiver(rx, h, r, rx_plan, rx_k));
    });
    c.count("scheduling_points", o.steps);
    c.count("context_switches", o.switches);
    c.nontrivial = o.switches > ns as u64 + 1;
    if o.discarded {
        return;
    }
    if let Some(f) = &o.failed {
        mon::violate(f.clone());
        return;
    }
    let mut hist = h.borrow_mut();
    c.count("sends", hist.sends.len() as u64);
    c.count("receives", hist.recvs.iter().filter(|r| matches!(r.res, RRes::Item(_))).count() as u64);
    if o.livelock {
        mon::violate("no progress under a fair schedule (livelock)");
        return;
    }
    if !o.deadlocked.is_empty() {
        classify_deadlock(&mut hist, &o.deadlocked);
    } else {
        check(&mut hist);
    }
    emit(&hist, prop);
    let quiet = !mon::violated();
    let clean = o.deadlocked.is_empty();
    drop(hist);
    if quiet && clean {
        drop(h);
        mon::check_released();
    }
}
fn emit(h: &Hist, prop: &'static str) {
    for (tag, m) in &h.v {
        if *tag == prop || *tag == "any" {
            mon::violate(format!("[{tag}] {m}"));
        }
    }
}
fn accepted(h: &Hist) -> HashSet<u64> {
    h.sends.iter().filter(|s| s.res == SendRes::Ok).map(|s| s.val).collect()
}
fn classify_deadlock(h: &mut Hist, who: &[String]) {
    let got: HashSet<u64> = h.recvs.iter().filter_map(|r| if let RRes::Item(v) = r.res { Some(v) } else { None }).collect();
    let outstanding = accepted(h).difference(&got).count();
    let rx_blocked = who.iter().any(|w| w == "receiver");
    let closed = !h.tx_close.is_empty() || !h.rx_close.is_empty() || h.live == 0;
    if rx_blocked && outstanding > 0 {
        bad!(h, "C03", "receiver sleeps for ever with {outstanding} accepted message(s) outstanding");
    } else if rx_blocked && h.live == 0 {
        bad!(h, "C05", "receiver sleeps for ever although all senders are gone");
    } else if rx_blocked && closed {
        bad!(h, "C05", "receiver sleeps for ever although the channel was closed");
    }
    if who.iter().any(|w| w.starts_with("sender")) {
        if h.rx_gone.is_some() || !h.rx_close.is_empty() {
            bad!(h, "C05", "sender(s) {who:?} sleep for ever although the receiver closed the channel");
            bad!(h, "C04", "sender(s) {who:?} sleep for ever although the receiver closed the channel");
        } else if outstanding == 0 || !rx_blocked {
            bad!(h, "C04", "sender(s) {who:?} wait for readiness for ever although the receiver took {} of {} messages", got.len(), accepted(h).len());
        }
    }
    if h.v.is_empty() {
        bad!(h, "any", "lost wake-up: {who:?} sleep for ever");
    }
}

fn sender(id: usize, tx: Tx, h: H, mut r: Rng, nmsg: usize, closer: bool) {
    let mut ex = Exec::new(&mut r);
    let mut handles: Vec<(usize, Tx)> = vec![(id, tx)];
    let mut seq = 0u64;
    let me = sched::me();
    let close_at = if closer { r.below(nmsg + 1) } else { usize::MAX };
    for n in 0..nmsg {
        if n == close_at {
            do_close_channel(&h, &mut handles[0].1);
        }
        if r.chance(1, 6) && handles.len() < 3 {
            let k = r.below(handles.len());
            let nh = {
                let mut hh = h.borrow_mut();
                hh.live += 1;
                hh.next_handle += 1;
                hh.next_handle - 1
            };
            let d = handles[k].1.dup();
            if !handles[k].1.same(&d) {
                bad!(h.borrow_mut(), "C05", "a cloned sender is not connected to the same receiver");
            }
            logf!("sender{id}: clone handle {} -> {nh}", handles[k].0);
            handles.push((nh, d));
        }
        if r.chance(1, 8) && handles.len() > 1 {
            let k = r.below(handles.len());
            let (hd, t) = handles.remove(k);
            drop_handle(&h, hd, t);
        }
        if r.chance(1, 6) {
            let t0 = sched::now();
            let v = handles[0].1.is_closed();
            let t1 = sched::now();
            h.borrow_mut().closed_obs.push((t0, t1, v));
        }
        let k = r.below(handles.len());
        let (hd, t) = &mut handles[k];
        seq += 1;
        let val = (me as u64 + 1) * 1000 + seq;
        let t0 = sched::now();
        let how = r.below(5);
        h.borrow_mut().waiting_send.insert(*hd, t0);
        let (res, back) = match how {
            0 | 1 => t.try_send(tok(val)),
            2 => {
                // Sink protocol by hand
                let rd = ex.wait(|cx| t.poll_ready(cx));
                match rd {
                    Err(e) => {
                        if !e.is_disconnected() {
                            bad!(h.borrow_mut(), "C04", "poll_ready failed with something other than disconnected");
                        }
                        (SendRes::Disc, Some(tok(val)))
                    }
                    Ok(()) => match t.start_send(tok(val)) {
                        Ok(()) => (SendRes::Ok, None),
                        Err(e) => {
                            if e.is_full() {
                                bad!(h.borrow_mut(), "C04", "poll_ready reported ready but start_send said full");
                            }
                            (SendRes::Disc, Some(tok(val)))
                        }
                    },
                }
            }
            3 => {
                let r = match t {
                    Tx::B(s) => ex.block_on(s.send(tok(val))),
                    Tx::U(s) => {
                        if r.bool() {
                            ex.block_on(s.send(tok(val)))
                        } else {
                            let mut rf: &mpsc::UnboundedSender<Tok> = s;
                            ex.block_on(SinkExt::send(&mut rf, tok(val)))
                        }
                    }
                };
                (if r.is_ok() { SendRes::Ok } else { SendRes::Disc }, if r.is_ok() { None } else { Some(tok(val)) })
            }
            _ => {
                let r = match t {
                    Tx::B(s) => ex.block_on(s.feed(tok(val))),
                    Tx::U(s) => ex.block_on(s.feed(tok(val))),
                };
                (if r.is_ok() { SendRes::Ok } else { SendRes::Disc }, if r.is_ok() { None } else { Some(tok(val)) })
            }
        };
        let t1 = sched::now();
        logf!("sender{id}: handle {hd} send {val} ({}) -> {res:?}", ["try_send", "try_send", "ready+start", "send", "feed"][how]);
        let mut hh = h.borrow_mut();
        hh.waiting_send.remove(hd);
        match (&res, &back) {
            (SendRes::Ok, Some(_)) | (SendRes::Full, None) | (SendRes::Disc, None) => unreachable!(),
            (SendRes::Ok, None) => {}
            (_, Some(b)) => {
                if b.get() != val {
                    bad!(hh, "C03", "failed send handed back {} instead of {val}", b.get());
                }
            }
        }
        hh.sends.push(Snd { val, handle: *hd, thread: me, t0, t1, res });
        drop(hh);
        if res == SendRes::Full && r.chance(2, 3) {
            // wait for readiness, then it must be accepted (or be disconnected)
            let (hd, t) = &mut handles[k];
            let t0 = sched::now();
            h.borrow_mut().waiting_send.insert(*hd, t0);
            let ok = ex.wait(|cx| t.poll_ready(cx)).is_ok();
            seq += 1;
            let val = (me as u64 + 1) * 1000 + seq;
            let t0 = sched::now();
            let (res, _) = t.try_send(tok(val));
            let t1 = sched::now();
            let mut hh = h.borrow_mut();
            hh.waiting_send.remove(hd);
            if ok && res == SendRes::Full {
                bad!(hh, "C04", "sender was told it is ready but the send reported full");
            }
            hh.sends.push(Snd { val, handle: *hd, thread: me, t0, t1, res });
        }
        if r.chance(1, 10) {
            // cancelled wait for readiness: must not disturb others
            let (_, t) = &mut handles[k];
            let _ = ex.poll(|cx| t.poll_ready(cx));
        }
    }
    if close_at == nmsg {
        do_close_channel(&h, &mut handles[0].1);
    }
    while !handles.is_empty() {
        let k = r.below(handles.len());
        let (hd, mut t) = handles.remove(k);
        match r.below(6) {
            0 => {
                // disconnect, then the dead handle refuses everything
                let last = {
                    let mut hh = h.borrow_mut();
                    hh.live -= 1;
                    hh.live == 0
                };
                let t0 = sched::now();
                t.disconnect();
                let t1 = sched::now();
                if last {
                    h.borrow_mut().last_drop = Some((t0, t1));
                }
                if !t.is_closed() {
                    bad!(h.borrow_mut(), "C05", "a disconnected sender does not report closed");
                }
                if t.try_send(tok(1)).0 != SendRes::Disc {
                    bad!(h.borrow_mut(), "C05", "a disconnected sender accepted a message");
                }
            }
            1 => {
                let last = {
                    let mut hh = h.borrow_mut();
                    hh.live -= 1;
                    hh.live == 0
                };
                let t0 = sched::now();
                let ok = match &mut t {
                    Tx::B(s) => ex.block_on(s.close()).is_ok(),
                    Tx::U(s) => ex.block_on(s.close()).is_ok(),
                };
                let t1 = sched::now();
                if last {
                    h.borrow_mut().last_drop = Some((t0, t1));
                }
                if !ok {
                    bad!(h.borrow_mut(), "C05", "closing a sender failed");
                }
            }
            _ => drop_handle(&h, hd, t),
        }
    }
}
fn do_close_channel(h: &H, t: &mut Tx) {
    let t0 = sched::now();
    t.close_channel();
    let t1 = sched::now();
    logf!("close_channel");
    h.borrow_mut().tx_close.push((t0, t1));
}
fn drop_handle(h: &H, hd: usize, t: Tx) {
    let last = {
        let mut hh = h.borrow_mut();
        hh.live -= 1;
        hh.live == 0
    };
    let t0 = sched::now();
    drop(t);
    let t1 = sched::now();
    logf!("drop handle {hd} (last: {last})");
    if last {
        h.borrow_mut().last_drop = Some((t0, t1));
    }
}
fn receiver(mut rx: Rx, h: H, mut r: Rng, plan: usize, k: usize) {
    let mut ex = Exec::new(&mut r);
    let mut got = 0;
    loop {
        if plan < 2 && got >= k {
            let t0 = sched::now();
            if plan == 0 {
                if h.borrow().rx_close.is_empty() {
                    rx.close();
                    let t1 = sched::now();
                    logf!("receiver: close");
                    h.borrow_mut().rx_close.push((t0, t1));
                }
            } else {
                logf!("receiver: drop");
                h.borrow_mut().rx_gone = Some(t0);
                drop(rx);
                let t1 = sched::now();
                h.borrow_mut().rx_close.push((t0, t1));
                return;
            }
        }
        let t0 = sched::now();
        let res = match r.below(4) {
            0 => match rx.try_recv(r.bool()) {
                TryRecv::Item(t) => RRes::Item(t.get()),
                TryRecv::Empty => RRes::Empty,
                TryRecv::Closed => RRes::Closed,
            },
            1 => {
                let p = ex.poll(|cx| if r.bool() { rx.poll_next(cx) } else { rx.poll_recv(cx) });
                match p {
                    Poll::Ready(Some(t)) => RRes::Item(t.get()),
                    Poll::Ready(None) => RRes::Closed,
                    Poll::Pending => RRes::Empty,
                }
            }
            n => {
                h.borrow_mut().rx_waiting = true;
                let p = ex.wait(|cx| if n == 2 { rx.poll_next(cx) } else { rx.poll_recv(cx) });
                h.borrow_mut().rx_waiting = false;
                match p {
                    Some(t) => RRes::Item(t.get()),
                    None => RRes::Closed,
                }
            }
        };
        let t1 = sched::now();
        logf!("receiver: {res:?}");
        let closed = res == RRes::Closed;
        if matches!(res, RRes::Item(_)) {
            got += 1;
        }
        if res == RRes::Empty {
            sched::spin_point();
        }
        h.borrow_mut().recvs.push(Rcv { t0, t1, res });
        if closed {
            break;
        }
    }
    if !rx.terminated() {
        bad!(h.borrow_mut(), "C05", "receiver ended but is_terminated is false");
    }
    // it must stay ended
    for _ in 0..2 {
        if !matches!(rx.try_recv(false), TryRecv::Closed) {
            bad!(h.borrow_mut(), "C05", "receiver yielded something after the end");
        }
    }
    if rx.size_hint() != (0, Some(0)) {
        bad!(h.borrow_mut(), "C05", "size_hint of an ended receiver is {:?}", rx.size_hint());
    }
}
/// Oracle over the recorded history.
fn check(h: &mut Hist) {
    let sends = h.sends.clone();
    let recvs = h.recvs.clone();
    let ok: Vec<&Snd> = sends.iter().filter(|s| s.res == SendRes::Ok).collect();
    // exactly once, nothing invented
    let mut pos: HashMap<u64, usize> = HashMap::new();
    let mut order = Vec::new();
    for r in recvs.iter() {
        if let RRes::Item(v) = r.res {
            if pos.insert(v, order.len()).is_some() {
                bad!(h, "C03", "message {v} received twice");
            }
            order.push((v, r.t0, r.t1));
            match sends.iter().find(|s| s.val == v) {
                None => bad!(h, "C03", "message {v} was never sent"),
                Some(s) if s.res != SendRes::Ok => bad!(h, "C03", "message {v} was received although its send failed"),
                Some(s) if s.t0 > r.t1 => bad!(h, "C03", "message {v} was received before it was sent"),
                _ => {}
            }
        }
    }
    let ended = recvs.iter().find(|r| r.res == RRes::Closed);
    if ended.is_some() || h.rx_gone.is_none() {
        for s in &ok {
            if !pos.contains_key(&s.val) {
                bad!(h, "C03", "message {} was accepted but never received", s.val);
                bad!(h, "C05", "the receiver ended although message {} was accepted before", s.val);
            }
        }
    }
    // order: per sender and real time
    for a in &ok {
        for b in &ok {
            if a.t1 < b.t0 {
                if let (Some(x), Some(y)) = (pos.get(&a.val), pos.get(&b.val)) {
                    if x > y {
                        let same = a.thread == b.thread;
                        bad!(h, "C03", "message {} was sent before {} {}but received after it", a.val, b.val, if same { "by the same sender " } else { "" });
                    }
                }
            }
        }
    }
    // no false Empty
    for r in recvs.iter().filter(|r| r.res == RRes::Empty || r.res == RRes::Closed) {
        for s in &ok {
            if s.t1 < r.t0 {
                let taken = order.iter().any(|(v, t0, _)| *v == s.val && *t0 < r.t0);
                if !taken {
                    bad!(h, if r.res == RRes::Empty { "C03" } else { "C05" }, "receiver found {:?} although message {} had been accepted and not received", r.res, s.val);
                }
            }
        }
    }
    // end only when closed
    let close_start = h.rx_close.iter().chain(h.tx_close.iter()).map(|x| x.0).chain(h.last_drop.map(|x| x.0)).min();
    let close_end = h.rx_close.iter().chain(h.tx_close.iter()).map(|x| x.1).chain(h.last_drop.map(|x| x.1)).min();
    if let Some(e) = ended {
        if close_start.map_or(true, |c| c > e.t1) {
            bad!(h, "C05", "receiver ended although the channel was open");
        }
    }
    for s in &sends {
        if s.res == SendRes::Disc && close_start.map_or(true, |c| c > s.t1) {
            bad!(h, "C05", "send of {} failed as disconnected although the channel was open", s.val);
        }
        if let Some(ce) = close_end {
            if ce < s.t0 && s.res == SendRes::Ok {
                bad!(h, "C05", "message {} was accepted after the channel had been closed", s.val);
            }
        }
        if s.res == SendRes::Full {
            if let Some(e) = h.rx_close.iter().map(|x| x.1).min() {
                if e < s.t0 {
                    bad!(h, "C05", "send reported full after the receiver had closed the channel");
                }
            }
        }
    }
    for (t0, t1, v) in h.closed_obs.clone() {
        if v && close_start.map_or(true, |c| c > t1) {
            bad!(h, "C05", "is_closed is true on an open channel");
        }
        if !v && close_end.map_or(false, |c| c < t0) {
            bad!(h, "C05", "is_closed is false after the channel was closed");
        }
    }
    // capacity
    if let Some(n) = h.cap {
        let recv_t0 = |v: u64| order.iter().find(|x| x.0 == v).map(|x| x.1);
        let mut times: Vec<u64> = ok.iter().map(|s| s.t1).collect();
        times.sort();
        for t in times {
            let certain: Vec<&&Snd> = ok.iter().filter(|s| s.t1 <= t && recv_t0(s.val).map_or(true, |r| r > t)).collect();
            let rx_gone = h.rx_gone.map_or(false, |g| g <= t);
            if rx_gone {
                continue;
            }
            // a sender may be released by the receipt of another sender's message, so
            // the slot a message occupies need not be its own sender's
            let hs: HashSet<usize> = ok.iter().filter(|s| s.t0 <= t).map(|s| s.handle).collect();
            if certain.len() > n + hs.len() {
                bad!(h, "C04", "{} messages outstanding with buffer {n} and {} sender handles", certain.len(), hs.len());
            }
        }
        for f in sends.iter().filter(|s| s.res == SendRes::Full) {
            // the handle's previous successful send must have met the limit
            let prev = ok.iter().filter(|s| s.handle == f.handle && s.t1 < f.t0).max_by_key(|s| s.t1);
            match prev {
                None => bad!(h, "C04", "a sender handle that never sent anything was told the channel is full"),
                Some(p) => {
                    let started = ok.iter().filter(|s| s.t0 <= p.t1).count();
                    let taken = order.iter().filter(|x| x.2 < p.t0).count();
                    if started.saturating_sub(taken) <= n {
                        bad!(h, "C04", "send reported full with at most {} messages outstanding and buffer {n}", started - taken);
                    }
                    // and its last message must not have been taken, with everything before
                    let all_taken = ok.iter().filter(|s| s.t0 < f.t1).all(|s| order.iter().any(|x| x.0 == s.val && x.2 < f.t0));
                    if all_taken {
                        bad!(h, "C04", "send reported full although every message had been received");
                    }
                }
            }
        }
    }
}

/// Sequential histories against exact bounds (no preemption: one thread, many handles).
pub fn sequential(c: &mut Case, prop: &'static str) {
    let cap = if prop == "C04" || c.rng.chance(2, 3) { Some(c.rng.below(5)) } else { None };
    let (tx, rx) = chan(cap);
    let mut rx = Some(rx);
    struct Hd {
        tx: Tx,
        id: u64,
        waiting: bool,
        waker: Option<std::task::Waker>,
        gen: u64,
    }
    thread_local!(static WOKEN: RefCell<HashMap<u64, u64>> = RefCell::new(HashMap::new()));
    thread_local!(static RXW: Cell<u64> = const { Cell::new(0) });
    WOKEN.with(|w| w.borrow_mut().clear());
    RXW.with(|w| w.set(0));
    fn on(a: u64, b: u64) {
        if a == u64::MAX {
            RXW.with(|w| w.set(w.get().max(b)));
        } else {
            WOKEN.with(|w| {
                let mut w = w.borrow_mut();
                let e = w.entry(a).or_insert(0);
                *e = (*e).max(b);
            });
        }
    }
    let mut h = Hist { cap, ..Default::default() };
    let mut handles = vec![Hd { tx, id: 0, waiting: false, waker: None, gen: 0 }];
    let mut next_id = 1;
    let mut out: std::collections::VecDeque<(u64, u64)> = Default::default(); // (val, handle)
    let (mut open, mut rx_closed) = (true, false);
    let mut seq = 0;
    let mut rx_gen = 0;
    let mut rx_wait = false;
    let mut rx_waker: Option<std::task::Waker> = None;
    let mut ended = false;
    let n = c.rng.range(5, 40);
    let mut nsent = 0;
    for _ in 0..n {
        if !h.v.is_empty() {
            break;
        }
        let op = c.rng.below(if open { 28 } else { 24 });
        match op {
            0..=6 if !handles.is_empty() => {
                let k = c.rng.below(handles.len());
                seq += 1;
                let (res, back) = handles[k].tx.try_send(tok(seq));
                logf!("try_send {seq} on {} -> {res:?} (outstanding {})", handles[k].id, out.len());
                if let Some(b) = back {
                    if b.get() != seq {
                        bad!(h, "C03", "failed send handed back another message");
                    }
                }
                match res {
                    SendRes::Ok => {
                        nsent += 1;
                        if !open {
                            bad!(h, "C05", "a message was accepted on a closed channel");
                        }
                        out.push_back((seq, handles[k].id));
                        if let Some(n) = cap {
                            let hs: HashSet<u64> = out.iter().map(|x| x.1).collect();
                            if out.len() > n + hs.len() {
                                bad!(h, "C04", "{} messages outstanding with buffer {n} and {} sender handles", out.len(), hs.len());
                            }
                        }
                        if rx_wait && RXW.with(|w| w.get()) < rx_gen {
                            bad!(h, "C03", "a message was accepted but the waiting receiver was not woken");
                        }
                    }
                    SendRes::Full => {
                        let n = cap.unwrap_or(usize::MAX);
                        if out.len() <= n {
                            bad!(h, "C04", "send reported full with {} messages outstanding and buffer {n}", out.len());
                        }
                        if rx_closed {
                            bad!(h, "C05", "send reported full although the receiver closed the channel");
                        }
                        // a try_send replaces nothing: the handle must be woken if it was waiting
                    }
                    SendRes::Disc => {
                        if open {
                            bad!(h, "C05", "send failed as disconnected on an open channel");
                        }
                    }
                }
                if res != SendRes::Full {
                    handles[k].waiting = false;
                }
            }
            7..=10 if !handles.is_empty() => {
                let k = c.rng.below(handles.len());
                let hd = &mut handles[k];
                hd.gen += 1;
                hd.waker = None;
                let w = mon::new_waker(on, hd.id, hd.gen);
                let p = hd.tx.poll_ready(&mut Context::from_waker(&w));
                hd.waker = Some(w);
                logf!("poll_ready on {} -> {p:?}", hd.id);
                hd.waiting = p.is_pending();
                match p {
                    Poll::Pending => {
                        if out.len() <= cap.unwrap_or(usize::MAX) {
                            bad!(h, "C04", "sender not ready with {} messages outstanding and buffer {cap:?}", out.len());
                        }
                        if !open {
                            bad!(h, "C05", "sender waits for readiness of a closed channel");
                        }
                    }
                    Poll::Ready(Ok(())) => {
                        if !open {
                            bad!(h, "C05", "sender reported ready on a closed channel");
                        }
                    }
                    Poll::Ready(Err(e)) => {
                        if open || !e.is_disconnected() {
                            bad!(h, "C05", "poll_ready failed on an open channel");
                        }
                    }
                }
            }
            11..=15 if rx.is_some() => {
                let res = match rx.as_mut().unwrap().try_recv(c.rng.bool()) {
                    TryRecv::Item(t) => RRes::Item(t.get()),
                    TryRecv::Empty => RRes::Empty,
                    TryRecv::Closed => RRes::Closed,
                };
                seq_recv(&mut h, res, &mut out, open, &mut ended);
            }
            16..=19 if rx.is_some() => {
                rx_gen += 1;
                drop(rx_waker.take());
                let w = mon::new_waker(on, u64::MAX, rx_gen);
                let p = {
                    let r = rx.as_mut().unwrap();
                    let mut cx = Context::from_waker(&w);
                    if c.rng.bool() { r.poll_next(&mut cx) } else { r.poll_recv(&mut cx) }
                };
                rx_waker = Some(w);
                rx_wait = p.is_pending();
                let res = match p {
                    Poll::Ready(Some(t)) => RRes::Item(t.get()),
                    Poll::Ready(None) => RRes::Closed,
                    Poll::Pending => RRes::Empty,
                };
                seq_recv(&mut h, res, &mut out, open, &mut ended);
            }
            20 | 21 if handles.len() < 5 && !handles.is_empty() => {
                let k = c.rng.below(handles.len());
                let d = handles[k].tx.dup();
                if !d.same(&handles[k].tx) {
                    bad!(h, "C05", "clone of a sender is not connected to the same receiver");
                }
                if let Some(rx) = &rx {
                    if !ended && !d.connected(rx) {
                        bad!(h, "C05", "clone of a sender is not connected to its receiver");
                    }
                }
                logf!("clone {} -> {next_id}", handles[k].id);
                handles.push(Hd { tx: d, id: next_id, waiting: false, waker: None, gen: 0 });
                next_id += 1;
            }
            22 if handles.len() > 1 || c.rng.chance(1, 4) => {
                if handles.is_empty() {
                    continue;
                }
                let k = c.rng.below(handles.len());
                let hd = handles.remove(k);
                logf!("drop handle {}", hd.id);
                drop(hd);
                if handles.is_empty() {
                    open = false;
                    if rx_wait && RXW.with(|w| w.get()) < rx_gen {
                        bad!(h, "C05", "the last sender was dropped but the waiting receiver was not woken");
                    }
                }
            }
            24 if !handles.is_empty() && c.rng.chance(1, 3) => {
                let k = c.rng.below(handles.len());
                handles[k].tx.close_channel();
                logf!("close_channel by {}", handles[k].id);
                open = false;
                if rx_wait && RXW.with(|w| w.get()) < rx_gen {
                    bad!(h, "C05", "the channel was closed by a sender but the waiting receiver was not woken");
                }
            }
            25 if rx.is_some() && c.rng.chance(1, 2) => {
                logf!("receiver close");
                rx.as_mut().unwrap().close();
                open = false;
                rx_closed = true;
                for hd in &handles {
                    if hd.waiting && WOKEN.with(|w| w.borrow().get(&hd.id).copied().unwrap_or(0)) < hd.gen {
                        bad!(h, "C05", "receiver closed the channel but waiting sender {} was not woken", hd.id);
                        bad!(h, "C04", "receiver closed the channel but waiting sender {} was not woken", hd.id);
                    }
                }
            }
            26 if c.rng.chance(1, 3) && rx.is_some() => {
                logf!("receiver drop");
                rx = None;
                rx_wait = false;
                rx_closed = true;
                open = false;
                out.clear();
                for hd in &handles {
                    if hd.waiting && WOKEN.with(|w| w.borrow().get(&hd.id).copied().unwrap_or(0)) < hd.gen {
                        bad!(h, "C05", "receiver dropped but waiting sender {} was not woken", hd.id);
                    }
                }
                let live = mon::live_toks();
                if live != 0 {
                    bad!(h, "C03", "{live} queued message(s) not dropped with the receiver");
                }
            }
            _ => {
                // observations
                for hd in &handles {
                    if hd.tx.is_closed() == open {
                        bad!(h, "C05", "is_closed() is {} on a channel that is {}", !open, if open { "open" } else { "closed" });
                    }
                    if let Tx::U(s) = &hd.tx {
                        if rx.is_some() && (s.len() != out.len() || s.is_empty() != out.is_empty()) {
                            bad!(h, "C03", "sender reports {} queued messages, {} are outstanding", s.len(), out.len());
                        }
                    }
                }
                if let Some(r) = &rx {
                    let (lo, hi) = r.size_hint();
                    if !ended {
                        if lo > out.len() && !open {
                            bad!(h, "C05", "receiver size_hint promises {lo} items, {} are queued", out.len());
                        }
                        if let Some(hi) = hi {
                            if hi < out.len() || open {
                                bad!(h, "C05", "receiver size_hint upper bound {hi} with {} queued, open {open}", out.len());
                            }
                        }
                    }
                    if r.terminated() != ended {
                        bad!(h, "C05", "receiver is_terminated {} but ended {ended}", r.terminated());
                    }
                }
            }
        }
        // how many waiting senders may still sleep
        if let Some(n) = cap {
            if rx.is_some() {
                let asleep: Vec<u64> = handles.iter().filter(|x| x.waiting && WOKEN.with(|w| w.borrow().get(&x.id).copied().unwrap_or(0)) < x.gen).map(|x| x.id).collect();
                let may = out.len().saturating_sub(n);
                if asleep.len() > may {
                    bad!(h, "C04", "senders {asleep:?} still sleep although only {} messages are outstanding with buffer {n}", out.len());
                }
            }
        }
        mon::event(op as u64 * 1000 + out.len() as u64 * 10 + open as u64);
    }
    // drain: afterwards every live sender can send
    if let (Some(r), true) = (rx.as_mut(), h.v.is_empty()) {
        loop {
            let res = match r.try_recv(false) {
                TryRecv::Item(t) => RRes::Item(t.get()),
                TryRecv::Empty => RRes::Empty,
                TryRecv::Closed => RRes::Closed,
            };
            let stop = !matches!(res, RRes::Item(_));
            seq_recv(&mut h, res, &mut out, open, &mut ended);
            if stop || !h.v.is_empty() {
                break;
            }
        }
        if open && h.v.is_empty() {
            for hd in handles.iter_mut() {
                if hd.waiting && WOKEN.with(|w| w.borrow().get(&hd.id).copied().unwrap_or(0)) < hd.gen {
                    bad!(h, "C04", "the channel is empty but waiting sender {} was never woken", hd.id);
                }
                if hd.tx.try_send(tok(seq)).0 != SendRes::Ok {
                    bad!(h, "C04", "the channel is empty but sender {} cannot send", hd.id);
                }
            }
        }
    }
    c.desc = format!("sequential history of {n} calls, cap {cap:?}, {nsent} accepted");
    c.nontrivial = nsent > 0;
    c.count("accepted", nsent);
    emit(&h, prop);
    drop(rx_waker);
    drop(handles);
    drop(rx);
    if !mon::violated() {
        mon::check_released();
    }
}
fn seq_recv(h: &mut Hist, res: RRes, out: &mut std::collections::VecDeque<(u64, u64)>, open: bool, ended: &mut bool) {
    logf!("recv -> {res:?} (expected {:?})", out.front());
    match res {
        RRes::Item(v) => match out.pop_front() {
            Some((e, _)) if e == v => {}
            Some((e, _)) => bad!(h, "C03", "received {v}, but {e} was sent first"),
            None => bad!(h, "C03", "received {v} from an empty channel"),
        },
        RRes::Empty => {
            if !out.is_empty() {
                bad!(h, "C03", "receiver found nothing although {} messages are queued", out.len());
            } else if !open {
                bad!(h, "C05", "receiver keeps waiting on a closed and empty channel");
            }
        }
        RRes::Closed => {
            *ended = true;
            if !out.is_empty() {
                bad!(h, "C05", "receiver ended although {} messages are queued", out.len());
                bad!(h, "C03", "receiver ended although {} messages are queued", out.len());
            } else if open {
                bad!(h, "C05", "receiver ended although the channel is open");
            }
        }
    }
}
/// A whole pipeline awaited through the stream/sink combinators.
pub fn forward_pipeline(c: &mut Case, prop: &'static str) {
    let cap = c.rng.below(3);
    let k = c.rng.range(1, 5) as u64;
    let (tx, rx) = mpsc::channel::<Tok>(cap);
    let (tx2, rx2) = mpsc::unbounded::<Tok>();
    c.desc = format!("send_all {k} items into a bounded({cap}) channel, forwarded into an unbounded one");
    let out: Rc<RefCell<Vec<u64>>> = Default::default();
    let mut r = c.rng.fork();
    let o = sched::run(&mut c.rng, || {
        let mut r1 = r.fork();
        let mut tx = tx;
        sched::spawn("source", move || {
            let mut ex = Exec::new(&mut r1);
            let mut items = futures::stream::iter((0..k).map(|i| Ok(tok(i))));
            ex.block_on(async { tx.send_all(&mut items).await }).expect("send_all failed");
        });
        let mut r2 = r.fork();
        sched::spawn("relay", move || {
            let mut ex = Exec::new(&mut r2);
            ex.block_on(rx.forward(tx2)).expect("forward failed");
        });
        let mut r3 = r.fork();
        let out = out.clone();
        sched::spawn("receiver", move || {
            let mut ex = Exec::new(&mut r3);
            let v: Vec<Tok> = ex.block_on(rx2.collect::<Vec<_>>());
            *out.borrow_mut() = v.iter().map(|t| t.get()).collect();
        });
    });
    sched::expect_done(&o);
    c.nontrivial = o.switches > 3;
    if o.deadlocked.is_empty() && o.failed.is_none() && !o.discarded {
        let v = out.borrow().clone();
        if v != (0..k).collect::<Vec<_>>() {
            crate::vio!("[{prop}] pipeline delivered {v:?} instead of 0..{k}");
        }
        mon::check_released();
    }
}
/// A task polls for readiness, tries a non-blocking send meanwhile, and sleeps: it must still be woken.
pub fn ready_then_try(c: &mut Case, prop: &'static str) {
    let cap = c.rng.below(3);
    let (mut tx, mut rx) = mpsc::channel::<Tok>(cap);
    c.desc = format!("bounded({cap}): poll_ready pending, then try_send fails, then sleep");
    let mut r = c.rng.fork();
    let o = sched::run(&mut c.rng, || {
        let mut r1 = r.fork();
        sched::spawn("sender0", move || {
            let mut ex = Exec::new(&mut r1);
            for i in 0..cap as u64 + 3 {
                // one poll function: not ready -> try anyway -> wait for the wake-up
                let mut item = Some(tok(i));
                let ok = ex.wait(|cx| match tx.poll_ready(cx) {
                    Poll::Pending => match tx.try_send(item.take().unwrap()) {
                        Ok(()) => Poll::Ready(true),
                        Err(e) => {
                            item = Some(e.into_inner());
                            Poll::Pending
                        }
                    },
                    Poll::Ready(Ok(())) => Poll::Ready(tx.try_send(item.take().unwrap()).is_ok()),
                    Poll::Ready(Err(_)) => Poll::Ready(false),
                });
                if !ok {
                    break;
                }
            }
        });
        let mut r2 = r.fork();
        sched::spawn("receiver", move || {
            let mut ex = Exec::new(&mut r2);
            while let Some(t) = ex.wait(|cx| Pin::new(&mut rx).poll_next(cx)) {
                drop(t);
            }
        });
    });
    c.nontrivial = o.switches > 2;
    if o.discarded {
        return;
    }
    if let Some(f) = &o.failed {
        mon::violate(f.clone());
    } else if !o.deadlocked.is_empty() || o.livelock {
        mon::violate(format!("[{prop}] a sender that polled for readiness, then tried a non-blocking send, was never woken: {:?}", o.deadlocked));
    } else {
        mon::check_released();
    }
}
