//! C28: real threads over every concurrent part, with plain (non-atomic) data guarded only by
//! the library's synchronisation. Meant for ThreadSanitizer and AddressSanitizer; the functional
//! expectations are checked as well.
use futures::channel::{mpsc, oneshot};
use futures::executor::{block_on, LocalPool, ThreadPool};
use futures::future::{self, AbortHandle, Abortable, FutureExt};
use futures::io::{AsyncReadExt, AsyncWriteExt};
use futures::lock::{BiLock, Mutex, MutexGuard};
use futures::sink::SinkExt;
use futures::stream::{self, FuturesOrdered, FuturesUnordered, SelectAll, StreamExt};
use futures::task::{AtomicWaker, LocalSpawnExt, SpawnExt};
use hv::mon;
use hv::rng::Rng;
use hv::{ensure, vio, Case};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;
use std::task::Poll;
use std::thread::{self, JoinHandle};

/// A message with data behind a pointer, counted on drop.
struct Pay {
    v: Box<[u64; 3]>,
    live: Arc<AtomicUsize>,
}
impl Pay {
    fn new(x: u64, live: &Arc<AtomicUsize>) -> Pay {
        live.fetch_add(1, Relaxed);
        Pay { v: Box::new([x, !x, x ^ 7]), live: live.clone() }
    }
    fn open(mut self) -> u64 {
        let x = self.v[0];
        assert!(self.v[1] == !x && self.v[2] == x ^ 7, "torn message");
        self.v[0] = 0;
        x
    }
}
impl Drop for Pay {
    fn drop(&mut self) {
        self.v[2] = 9;
        self.live.fetch_sub(1, Relaxed);
    }
}
struct Rig {
    rng: Rng,
    live: Arc<AtomicUsize>,
    ts: Vec<JoinHandle<Result<(), String>>>,
}
fn rig(c: &mut Case) -> Rig {
    let level = *c.rng.pick(&[0usize, 3, 10]);
    hv::stress::set(level, c.seed);
    c.nontrivial = true;
    Rig { rng: c.rng.fork(), live: Default::default(), ts: Vec::new() }
}
impl Rig {
    fn go(&mut self, f: impl FnOnce(Rng) -> Result<(), String> + Send + 'static) {
        let r = self.rng.fork();
        self.ts.push(thread::spawn(move || f(r)));
    }
    fn end(self) {
        for t in self.ts {
            match t.join() {
                Ok(Ok(())) => {}
                Ok(Err(e)) => vio!("{e}"),
                Err(e) => vio!("a thread panicked: {}", hv::sched::panic_msg(&*e)),
            }
        }
        // tasks given up may still be on their way to being dropped by a worker
        let t = std::time::Instant::now();
        while self.live.load(Relaxed) != 0 && t.elapsed().as_secs() < 20 {
            thread::yield_now();
        }
        let n = self.live.load(Relaxed);
        ensure!(n == 0, "{n} message(s) never dropped (leak)");
        hv::stress::set(0, 0);
        mon::event(hv::stress::HITS.load(Relaxed));
    }
}
fn jitter(r: &mut Rng) {
    match r.below(6) {
        0 => thread::yield_now(),
        1 => {
            for _ in 0..r.below(300) {
                std::hint::spin_loop()
            }
        }
        _ => {}
    }
}
fn channels(c: &mut Case) {
    let mut g = rig(c);
    let n = 1 + c.rng.below(3) as u64;
    let k = 4 + c.rng.below(24) as u64;
    let cap = c.rng.below(4);
    let unbounded = c.rng.chance(1, 3);
    let stop = if c.rng.chance(1, 3) { c.rng.below((n * k) as usize) as u64 } else { u64::MAX };
    let close = c.rng.chance(1, 2);
    let stopped = stop != u64::MAX;
    c.desc = format!("{n} senders of {k}, cap {cap}, unbounded {unbounded}, stop {stop}");
    let live = g.live.clone();
    macro_rules! recv {
        ($rx:expr) => {{
            let mut rx = $rx;
            g.go(move |mut r| {
                let mut next = vec![0u64; n as usize];
                let mut got = 0u64;
                loop {
                    if got == stop {
                        if close {
                            rx.close();
                        } else {
                            return Ok(());
                        }
                    }
                    let m = if r.chance(1, 4) {
                        match rx.try_recv() {
                            Ok(m) => Some(m),
                            Err(mpsc::TryRecvError::Closed) => None,
                            Err(mpsc::TryRecvError::Empty) => {
                                thread::yield_now();
                                continue;
                            }
                        }
                    } else {
                        block_on(rx.next())
                    };
                    let Some(m) = m else { break };
                    got += 1;
                    let x = Pay::open(m);
                    let (s, i) = ((x / 1000) as usize, x % 1000);
                    if next[s] != i {
                        return Err(format!("sender {s}: message {i} arrives, expected {}", next[s]));
                    }
                    next[s] += 1;
                    jitter(&mut r);
                }
                if !stopped && got != n * k {
                    return Err(format!("{got} messages arrived of {}", n * k));
                }
                Ok(())
            });
        }};
    }
    if unbounded {
        let (tx, rx) = mpsc::unbounded::<Pay>();
        for s in 0..n {
            let (tx, live) = (tx.clone(), live.clone());
            g.go(move |mut r| {
                for i in 0..k {
                    jitter(&mut r);
                    if tx.unbounded_send(Pay::new(s * 1000 + i, &live)).is_err() {
                        return if stopped { Ok(()) } else { Err("send fails".into()) };
                    }
                }
                Ok(())
            });
        }
        drop(tx);
        recv!(rx);
    } else {
        let (tx, rx) = mpsc::channel::<Pay>(cap);
        for s in 0..n {
            let (mut tx, live) = (tx.clone(), live.clone());
            g.go(move |mut r| {
                for i in 0..k {
                    jitter(&mut r);
                    let m = Pay::new(s * 1000 + i, &live);
                    let ok = match r.below(3) {
                        0 => block_on(tx.send(m)).is_ok(),
                        1 => block_on(tx.feed(m)).is_ok(),
                        _ => match tx.try_send(m) {
                            Ok(()) => true,
                            Err(e) if e.is_full() => block_on(tx.send(e.into_inner())).is_ok(),
                            Err(_) => false,
                        },
                    };
                    if !ok {
                        return if stopped { Ok(()) } else { Err("send fails".into()) };
                    }
                    if r.chance(1, 6) {
                        let t2 = tx.clone();
                        drop(tx);
                        tx = t2;
                    }
                }
                Ok(())
            });
        }
        drop(tx);
        recv!(rx);
    }
    g.end();
}
fn oneshots(c: &mut Case) {
    let mut g = rig(c);
    let k = 4 + c.rng.below(24) as u64;
    c.desc = format!("{k} oneshots");
    let (mut txs, mut rxs) = (Vec::new(), Vec::new());
    for _ in 0..k {
        let (t, r) = oneshot::channel::<Pay>();
        txs.push(t);
        rxs.push(r);
    }
    let live = g.live.clone();
    g.go(move |mut r| {
        for (i, mut t) in txs.into_iter().enumerate() {
            jitter(&mut r);
            match r.below(4) {
                0 => drop(t),
                1 => {
                    // watch for cancellation while waiting a little
                    for _ in 0..r.below(3) {
                        let _ = block_on(future::poll_immediate(t.cancellation()));
                    }
                    let _ = t.send(Pay::new(i as u64, &live));
                }
                2 => {
                    let c = t.is_canceled();
                    let e = t.send(Pay::new(i as u64, &live));
                    if c && e.is_ok() {
                        return Err("sent to a dropped receiver".into());
                    }
                }
                _ => {
                    let _ = t.send(Pay::new(i as u64, &live));
                }
            }
        }
        Ok(())
    });
    g.go(move |mut r| {
        for (i, mut rx) in rxs.into_iter().enumerate() {
            jitter(&mut r);
            match r.below(5) {
                0 => drop(rx),
                1 => {
                    rx.close();
                    if let Ok(Some(m)) = rx.try_recv() {
                        if m.open() != i as u64 {
                            return Err("wrong message".into());
                        }
                    }
                }
                2 => loop {
                    match rx.try_recv() {
                        Ok(None) => thread::yield_now(),
                        Ok(Some(m)) => {
                            if m.open() != i as u64 {
                                return Err("wrong message".into());
                            }
                            break;
                        }
                        Err(_) => break,
                    }
                },
                _ => {
                    if let Ok(m) = block_on(rx) {
                        if m.open() != i as u64 {
                            return Err("wrong message".into());
                        }
                    }
                }
            }
        }
        Ok(())
    });
    g.end();
}
fn locks(c: &mut Case) {
    let mut g = rig(c);
    let n = 2 + c.rng.below(3) as u64;
    let k = 5 + c.rng.below(40) as u64;
    c.desc = format!("{n} threads, {k} rounds");
    let m = Arc::new(Mutex::new((0u64, vec![0u64; 2])));
    let total = Arc::new(AtomicUsize::new(0));
    for _ in 0..n {
        let (m, total) = (m.clone(), total.clone());
        g.go(move |mut r| {
            for _ in 0..k {
                jitter(&mut r);
                match r.below(6) {
                    0 => {
                        let mut l = block_on(m.clone().lock_owned());
                        l.0 += 1;
                        l.1[0] += 1;
                    }
                    1 => {
                        let Some(mut l) = m.try_lock() else { continue };
                        l.0 += 1;
                        l.1[0] += 1;
                    }
                    2 => {
                        // a lock attempt given up
                        if let Some(mut l) = block_on(future::poll_immediate(m.lock())) {
                            l.0 += 1;
                            l.1[0] += 1;
                        } else {
                            continue;
                        }
                    }
                    3 => {
                        let l = block_on(m.lock());
                        let mut l = MutexGuard::map(l, |x| {
                            x.0 += 1;
                            &mut x.1
                        });
                        l[0] += 1;
                    }
                    4 => {
                        // given up after having waited
                        let mut f = m.lock();
                        let mut left = 2;
                        let got = block_on(future::poll_fn(|cx| {
                            if let Poll::Ready(l) = f.poll_unpin(cx) {
                                return Poll::Ready(Some(l));
                            }
                            left -= 1;
                            if left == 0 {
                                return Poll::Ready(None);
                            }
                            cx.waker().wake_by_ref();
                            Poll::Pending
                        }));
                        let Some(mut l) = got else { continue };
                        l.0 += 1;
                        l.1[0] += 1;
                    }
                    _ => {
                        let mut l = block_on(m.lock());
                        l.0 += 1;
                        jitter(&mut r);
                        l.1[0] += 1;
                    }
                }
                total.fetch_add(1, Relaxed);
            }
            Ok(())
        });
    }
    let (a, b) = BiLock::new(Box::new(0u64));
    for h in [a, b] {
        g.go(move |mut r| {
            for _ in 0..k {
                jitter(&mut r);
                if r.chance(1, 3) {
                    if let Some(mut l) = block_on(future::poll_immediate(h.lock())) {
                        **l += 1;
                    }
                } else {
                    **block_on(h.lock()) += 1;
                }
            }
            Ok(())
        });
    }
    g.end();
    let Some(mut l) = m.try_lock() else {
        vio!("locked after everybody is gone");
        return;
    };
    let t = total.load(Relaxed) as u64;
    ensure!(l.0 == t && l.1[0] == t, "{} and {} increments, expected {t}", l.0, l.1[0]);
    l.0 = 0;
}
fn shareds(c: &mut Case) {
    let mut g = rig(c);
    let n = 2 + c.rng.below(3);
    let rounds = 1 + c.rng.below(6);
    c.desc = format!("{n} handles, {rounds} rounds");
    for _ in 0..rounds {
        let (tx, rx) = oneshot::channel::<Pay>();
        let live = g.live.clone();
        let sh = rx.map(|r| Arc::new(r.map(|p| p.v[0]).unwrap_or(0))).boxed().shared();
        let weak = sh.downgrade();
        for _ in 0..n {
            let h = sh.clone();
            let weak = weak.clone();
            g.go(move |mut r| {
                jitter(&mut r);
                match r.below(5) {
                    0 => {
                        drop(block_on(future::poll_immediate(h)));
                    }
                    1 => {
                        let h2 = h.clone();
                        if block_on(h) != block_on(h2) {
                            return Err("different outputs".into());
                        }
                    }
                    2 => {
                        h.peek().map(|v| **v);
                        let _ = weak.and_then(|w| w.upgrade()).map(|h| block_on(h));
                    }
                    _ => {
                        let v = block_on(h);
                        if *v != 77 {
                            return Err(format!("output {v}"));
                        }
                    }
                }
                Ok(())
            });
        }
        drop(sh);
        g.go(move |mut r| {
            jitter(&mut r);
            let _ = tx.send(Pay::new(77, &live));
            Ok(())
        });
    }
    g.end();
}
fn collections(c: &mut Case) {
    let mut g = rig(c);
    let n = 1 + c.rng.below(10) as u64;
    let kind = c.rng.below(6);
    let cut = if c.rng.chance(1, 3) { c.rng.below(n as usize + 1) as u64 } else { u64::MAX };
    c.desc = format!("kind {kind}, {n} children, cut {cut}");
    let live = g.live.clone();
    let mut rxs = Vec::new();
    let mut txs = Vec::new();
    for i in 0..n {
        let (t, r) = oneshot::channel::<Pay>();
        txs.push((i, t));
        rxs.push(r.map(move |p| (i, p.ok().map(|p| p.open()))));
    }
    g.rng.shuffle(&mut txs);
    let half = txs.split_off(txs.len() / 2);
    for part in [txs, half] {
        let live = live.clone();
        g.go(move |mut r| {
            for (i, t) in part {
                jitter(&mut r);
                let _ = t.send(Pay::new(i, &live));
            }
            Ok(())
        });
    }
    g.go(move |mut r| {
        let mut got = Vec::new();
        macro_rules! drain {
            ($s:expr) => {{
                let mut s = $s;
                while (got.len() as u64) < cut {
                    jitter(&mut r);
                    match block_on(s.next()) {
                        Some((i, v)) => got.push((i, v)),
                        None => break,
                    }
                }
                drop(s);
            }};
        }
        match kind {
            0 => {
                let f: FuturesUnordered<_> = rxs.into_iter().collect();
                // polled on one thread, then moved to another
                let mut f = f;
                for _ in 0..r.below(3) {
                    if (got.len() as u64) < cut {
                        if let Some(x) = block_on(future::poll_immediate(f.next())).flatten() {
                            got.push(x);
                        }
                    }
                }
                let h = thread::spawn(move || {
                    let mut v = Vec::new();
                    while (v.len() as u64) < cut {
                        match block_on(f.next()) {
                            Some(x) => v.push(x),
                            None => break,
                        }
                    }
                    v
                });
                got.extend(h.join().map_err(|_| "child thread panicked".to_string())?);
            }
            1 => drain!(rxs.into_iter().collect::<FuturesOrdered<_>>()),
            2 => drain!(stream::iter(rxs).buffer_unordered(1 + r.below(4))),
            3 => drain!(rxs.into_iter().map(|x| stream::once(x)).collect::<SelectAll<_>>()),
            4 => drain!(stream::iter(rxs.into_iter().map(|x| stream::once(x))).flatten_unordered(1 + r.below(4))),
            _ => {
                let f = rxs.into_iter().collect::<FuturesUnordered<_>>();
                let mut f = f;
                while (got.len() as u64) < cut {
                    match block_on(f.next()) {
                        Some(x) => got.push(x),
                        None => break,
                    }
                    for x in f.iter_mut() {
                        let _ = x;
                    }
                    if r.chance(1, 8) {
                        f.clear();
                    }
                }
                return Ok(());
            }
        }
        for (i, v) in &got {
            if *v != Some(*i) {
                return Err(format!("child {i} yields {v:?}"));
            }
        }
        got.sort();
        got.dedup();
        if cut == u64::MAX && got.len() as u64 != n {
            return Err(format!("{} of {n} children", got.len()));
        }
        Ok(())
    });
    g.end();
}
fn handles(c: &mut Case) {
    let mut g = rig(c);
    let k = 1 + c.rng.below(8);
    c.desc = format!("{k} rounds");
    for _ in 0..k {
        let live = g.live.clone();
        let (tx, rx) = oneshot::channel::<Pay>();
        let (ah, reg) = AbortHandle::new_pair();
        let f = Abortable::new(rx.map(|p| p.map(|p| p.open()).unwrap_or(0)), reg);
        g.go(move |mut r| {
            jitter(&mut r);
            match block_on(f) {
                Ok(5) | Err(_) => Ok(()),
                Ok(v) => Err(format!("output {v}")),
            }
        });
        let l2 = live.clone();
        g.go(move |mut r| {
            jitter(&mut r);
            let h2 = ah.clone();
            if r.chance(1, 2) {
                h2.abort();
            }
            let _ = tx.send(Pay::new(5, &l2));
            ah.abort();
            if !ah.is_aborted() {
                return Err("not aborted".into());
            }
            Ok(())
        });
        let (rem, h) = async move { Pay::new(6, &live) }.remote_handle();
        g.go(move |mut r| {
            jitter(&mut r);
            block_on(rem);
            Ok(())
        });
        g.go(move |mut r| {
            jitter(&mut r);
            match r.below(3) {
                0 => drop(h),
                1 => h.forget(),
                _ => {
                    if block_on(h).open() != 6 {
                        return Err("wrong output".into());
                    }
                }
            }
            Ok(())
        });
    }
    g.end();
}
fn executors(c: &mut Case) {
    let mut g = rig(c);
    let n = 1 + c.rng.below(10) as u64;
    let size = 1 + c.rng.below(3);
    c.desc = format!("{n} tasks, {size} workers");
    let live = g.live.clone();
    let r = &mut g.rng;
    let pool = ThreadPool::builder().pool_size(size).create().expect("pool");
    let mut hs = Vec::new();
    let mut txs = Vec::new();
    for i in 0..n {
        let (tx, rx) = oneshot::channel::<Pay>();
        txs.push(tx);
        hs.push(
            pool.spawn_with_handle(async move {
                let v = rx.await.map(|p| p.open()).unwrap_or(99);
                vec![v, i]
            })
            .expect("spawn"),
        );
    }
    let cut = r.chance(1, 4);
    let l2 = live.clone();
    g.go(move |mut r| {
        for (i, t) in txs.into_iter().enumerate() {
            jitter(&mut r);
            let _ = t.send(Pay::new(i as u64, &l2));
        }
        Ok(())
    });
    g.go(move |mut r| {
        let mut lp = LocalPool::new();
        let sp = lp.spawner();
        let (tx, rx) = mpsc::unbounded();
        for h in hs {
            if cut && r.chance(1, 2) {
                drop(h);
                continue;
            }
            let tx = tx.clone();
            sp.spawn_local(async move {
                let v = h.await;
                let _ = tx.unbounded_send(v);
            })
            .expect("spawn");
        }
        drop(tx);
        let all: Vec<Vec<u64>> = lp.run_until(rx.collect());
        for v in all {
            if v[0] != v[1] {
                return Err(format!("task {} got {}", v[1], v[0]));
            }
        }
        Ok(())
    });
    if c.rng.chance(1, 2) {
        drop(pool);
    }
    g.end();
}
fn wakers(c: &mut Case) {
    let mut g = rig(c);
    let k = 5 + c.rng.below(40) as u64;
    c.desc = format!("{k} rounds");
    struct Sh {
        w: AtomicWaker,
        flag: AtomicUsize,
        data: std::cell::UnsafeCell<u64>,
    }
    unsafe impl Sync for Sh {}
    for _ in 0..2 {
        let s = Arc::new(Sh { w: AtomicWaker::new(), flag: AtomicUsize::new(0), data: Default::default() });
        let s2 = s.clone();
        g.go(move |mut r| {
            for i in 0..k {
                // the flag is published by the usual release store
                block_on(future::poll_fn(|cx| {
                    if s.flag.load(std::sync::atomic::Ordering::Acquire) as u64 > i {
                        return Poll::Ready(());
                    }
                    s.w.register(cx.waker());
                    if s.flag.load(std::sync::atomic::Ordering::Acquire) as u64 > i {
                        return Poll::Ready(());
                    }
                    Poll::Pending
                }));
                jitter(&mut r);
                if r.chance(1, 5) {
                    drop(s.w.take());
                }
            }
            // SAFETY: written before the last release store
            if unsafe { *s.data.get() } != 3 {
                return Err("data".into());
            }
            Ok(())
        });
        g.go(move |mut r| {
            // SAFETY: nobody else looks before the flag says so
            unsafe { *s2.data.get() = 3 };
            for i in 0..k {
                jitter(&mut r);
                s2.flag.store(i as usize + 1, std::sync::atomic::Ordering::Release);
                if r.chance(1, 3) {
                    if let Some(w) = s2.w.take() {
                        w.wake()
                    }
                } else {
                    s2.w.wake();
                }
            }
            Ok(())
        });
    }
    g.end();
}
fn halves(c: &mut Case) {
    let mut g = rig(c);
    let k = 5 + c.rng.below(40) as u64;
    c.desc = format!("{k} bytes");
    // stream + sink halves over a channel pair
    let (tx, rx) = mpsc::channel::<Pay>(1);
    let live = g.live.clone();
    struct Duplex(mpsc::Sender<Pay>, mpsc::Receiver<Pay>, u64);
    impl futures::Stream for Duplex {
        type Item = Pay;
        fn poll_next(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Option<Pay>> {
            self.2 += 1;
            self.1.poll_next_unpin(cx)
        }
    }
    impl futures::Sink<Pay> for Duplex {
        type Error = mpsc::SendError;
        fn poll_ready(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Result<(), Self::Error>> {
            self.2 += 1;
            self.0.poll_ready_unpin(cx)
        }
        fn start_send(mut self: std::pin::Pin<&mut Self>, item: Pay) -> Result<(), Self::Error> {
            self.2 += 1;
            self.0.start_send_unpin(item)
        }
        fn poll_flush(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Result<(), Self::Error>> {
            self.2 += 1;
            self.0.poll_flush_unpin(cx)
        }
        fn poll_close(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Result<(), Self::Error>> {
            self.0.poll_close_unpin(cx)
        }
    }
    let (mut sk, mut st) = Duplex(tx, rx, 0).split::<Pay>();
    let (back_tx, back_rx) = oneshot::channel();
    g.go(move |mut r| {
        for i in 0..k {
            jitter(&mut r);
            if block_on(sk.send(Pay::new(i, &live))).is_err() {
                return Err("send fails".into());
            }
        }
        let _ = back_tx.send(sk);
        Ok(())
    });
    g.go(move |mut r| {
        for i in 0..k {
            jitter(&mut r);
            match block_on(st.next()) {
                Some(p) if p.v[0] == i => drop(p),
                _ => return Err("wrong item".into()),
            }
        }
        let Ok(sk) = block_on(back_rx) else { return Err("no half".into()) };
        let d = sk.reunite(st).map_err(|_| "halves do not match".to_string())?;
        if d.2 < 2 * k {
            return Err("lost updates".into());
        }
        Ok(())
    });
    // byte halves
    let (mut rd, mut wr) = futures::io::Cursor::new(vec![7u8; 64]).split();
    g.go(move |mut r| {
        for _ in 0..k.min(20) {
            jitter(&mut r);
            let mut b = [0u8; 1];
            block_on(rd.read(&mut b)).map_err(|e| e.to_string())?;
        }
        Ok(())
    });
    g.go(move |mut r| {
        for _ in 0..k.min(20) {
            jitter(&mut r);
            block_on(wr.write(&[7u8])).map_err(|e| e.to_string())?;
        }
        Ok(())
    });
    g.end();
}
struct Dx<'a>(&'a mut Rng);
impl hv::pins::Dice for Dx<'_> {
    fn below(&mut self, n: usize) -> usize {
        let x = self.0.below(n);
        mon::event((n * 64 + x) as u64);
        x
    }
}
/// Address-sensitive leaves nested unboxed in the adapters.
fn pins(c: &mut Case) {
    let g = c.rng.below(hv::pins::GROUPS);
    let s = hv::pins::scenario(&mut Dx(&mut c.rng), g);
    c.nontrivial = true;
    for v in hv::pins::verdict() {
        vio!("scenario {s}: {v}");
    }
    c.desc = s;
}
fn main() {
    hv::main("C28", vec![
        hv::w("pins", 1_000_000, 50_000_000, pins),
        hv::ws("channels", 600, 20_000, channels),
        hv::ws("oneshots", 600, 20_000, oneshots),
        hv::ws("locks", 400, 20_000, locks),
        hv::ws("shareds", 400, 20_000, shareds),
        hv::ws("collections", 600, 20_000, collections),
        hv::ws("handles", 400, 20_000, handles),
        hv::ws("executors", 400, 20_000, executors),
        hv::ws("wakers", 400, 20_000, wakers),
        hv::ws("halves", 400, 20_000, halves),
    ])
}
