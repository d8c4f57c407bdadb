//! C29: wakers and task objects.
use futures::task::{noop_waker, noop_waker_ref, waker, waker_ref, ArcWake, FutureObj, LocalFutureObj, LocalSpawn, LocalSpawnExt, Spawn, SpawnError, SpawnExt, UnsafeFutureObj, WakerRef};
use hv::mon::{self, tok, Tok};
use hv::world as wd;
use hv::{ensure, logf, vio, Case};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::mem::ManuallyDrop;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

// ------------------------------------------------------------------ wakers
#[derive(Default)]
struct Cnt {
    refs: AtomicU64,
    vals: AtomicU64,
    drops: AtomicU64,
}
trait Val: ArcWake + 'static {
    fn new(c: Arc<Cnt>, id: u64) -> Self;
    const BOTH: bool;
}
/// Only `wake_by_ref`: `wake` is the provided method.
struct W1(Arc<Cnt>, u64, Tok);
#[repr(align(128))]
struct W2(Arc<Cnt>, u64, Tok, [u8; 200]);
impl ArcWake for W1 {
    fn wake_by_ref(s: &Arc<Self>) {
        ensure!(s.2.get() == s.1, "the waker calls wake on a different value");
        s.0.refs.fetch_add(1, SeqCst);
    }
}
impl ArcWake for W2 {
    fn wake_by_ref(s: &Arc<Self>) {
        ensure!(s.2.get() == s.1 && s.3[199] == 7, "the waker calls wake on a different value");
        s.0.refs.fetch_add(1, SeqCst);
    }
    fn wake(self: Arc<Self>) {
        ensure!(self.2.get() == self.1 && self.3[199] == 7, "the waker calls wake on a different value");
        self.0.vals.fetch_add(1, SeqCst);
    }
}
impl Val for W1 {
    fn new(c: Arc<Cnt>, id: u64) -> Self {
        W1(c, id, tok(id))
    }
    const BOTH: bool = false;
}
impl Val for W2 {
    fn new(c: Arc<Cnt>, id: u64) -> Self {
        W2(c, id, tok(id), [7; 200])
    }
    const BOTH: bool = true;
}
impl Drop for W1 {
    fn drop(&mut self) {
        self.0.drops.fetch_add(1, SeqCst);
    }
}
impl Drop for W2 {
    fn drop(&mut self) {
        self.0.drops.fetch_add(1, SeqCst);
    }
}
struct Slot<V> {
    keep: Vec<Arc<V>>,
    weak: std::sync::Weak<V>,
    wakers: Vec<Waker>,
    cnt: Arc<Cnt>,
    refs: u64,
    vals: u64,
}
impl<V: Val> Slot<V> {
    fn new(id: u64) -> Self {
        let cnt = Arc::new(Cnt::default());
        let a = Arc::new(V::new(cnt.clone(), id));
        Slot { weak: Arc::downgrade(&a), keep: vec![a], wakers: vec![], cnt, refs: 0, vals: 0 }
    }
    fn by_val(&mut self) {
        if V::BOTH {
            self.vals += 1
        } else {
            self.refs += 1
        }
    }
    fn check(&self, what: &str) {
        let want = self.keep.len() + self.wakers.len();
        ensure!(self.weak.strong_count() == want, "{what}: {} strong references, {want} handles and wakers exist", self.weak.strong_count());
        ensure!(self.weak.weak_count() == 1 || want == 0, "{what}: weak count {}", self.weak.weak_count());
        let (r, v, d) = (self.cnt.refs.load(SeqCst), self.cnt.vals.load(SeqCst), self.cnt.drops.load(SeqCst));
        ensure!((r, v) == (self.refs, self.vals), "{what}: woken {r} times by reference and {v} by value, expected {} and {}", self.refs, self.vals);
        ensure!(d == (want == 0) as u64, "{what}: dropped {d} times with {want} handles and wakers left");
    }
}
fn wakers_of<V: Val>(c: &mut Case) {
    let n = 1 + c.rng.below(3);
    let mut s: Vec<Slot<V>> = (0..n).map(|i| Slot::new(i as u64 + 1)).collect();
    let steps = 3 + c.rng.below(25);
    for _ in 0..steps {
        let i = c.rng.below(n);
        let op = c.rng.below(14);
        let sl = &mut s[i];
        let what: &'static str;
        let k = if sl.wakers.is_empty() { 0 } else { c.rng.below(sl.wakers.len()) };
        match op {
            0 | 1 if !sl.keep.is_empty() => {
                what = "waker";
                let w = waker(sl.keep[0].clone());
                sl.wakers.push(w);
            }
            2 if !sl.keep.is_empty() => {
                what = "waker of the given Arc";
                let a = sl.keep.pop().unwrap();
                sl.wakers.push(waker(a));
            }
            3 | 4 if !sl.wakers.is_empty() => {
                what = "clone";
                let w = sl.wakers[k].clone();
                sl.wakers.push(w);
            }
            5 if !sl.wakers.is_empty() => {
                what = "wake";
                sl.by_val();
                sl.wakers.swap_remove(k).wake();
            }
            6 if !sl.wakers.is_empty() => {
                what = "wake_by_ref";
                sl.refs += 1;
                sl.wakers[k].wake_by_ref();
            }
            7 | 8 if !sl.wakers.is_empty() => {
                what = "drop";
                drop(sl.wakers.swap_remove(k));
            }
            9 if !sl.keep.is_empty() => {
                what = "waker_ref";
                let a = sl.keep[0].clone();
                {
                    let r = waker_ref(&a);
                    ensure!(Arc::strong_count(&a) == sl.keep.len() + 1 + sl.wakers.len(), "waker_ref: it counts as a handle");
                    match c.rng.below(5) {
                        0 => {
                            sl.refs += 1;
                            r.wake_by_ref();
                        }
                        1 => sl.wakers.push((*r).clone()),
                        2 => {
                            sl.by_val();
                            (*r).clone().wake();
                        }
                        3 => {
                            let r2 = WakerRef::new(&r);
                            sl.refs += 1;
                            r2.wake_by_ref();
                            let w = (*r2).clone();
                            drop(r2);
                            sl.wakers.push(w);
                        }
                        _ => {
                            let mut cx = Context::from_waker(&r);
                            let w = cx.waker().clone();
                            let _ = &mut cx;
                            sl.wakers.push(w);
                        }
                    }
                }
                sl.keep.push(a);
            }
            10 if !sl.wakers.is_empty() => {
                what = "WakerRef::new";
                let r = WakerRef::new(&sl.wakers[k]);
                if c.rng.chance(1, 2) {
                    r.wake_by_ref();
                    sl.refs += 1;
                }
                let w = if c.rng.chance(1, 2) { Some((*r).clone()) } else { None };
                sl.wakers.extend(w);
            }
            11 if !sl.wakers.is_empty() => {
                what = "clone_from";
                let w = sl.wakers[k].clone();
                let j = c.rng.below(sl.wakers.len());
                sl.wakers[j].clone_from(&w);
            }
            12 if n > 1 => {
                what = "clone_from another";
                let j = (i + 1) % n;
                if !s[i].wakers.is_empty() && !s[j].wakers.is_empty() {
                    ensure!(!s[i].wakers[0].will_wake(&s[j].wakers[0]), "wakers of different values claim to wake each other");
                    let src = s[j].wakers[0].clone();
                    let mut w = s[i].wakers.pop().unwrap();
                    w.clone_from(&src);
                    drop(src);
                    s[j].wakers.push(w);
                    s[j].check("clone_from another");
                }
            }
            13 if sl.keep.len() > 1 || (!sl.keep.is_empty() && c.rng.chance(1, 3)) => {
                what = "drop of the Arc";
                sl.keep.pop();
            }
            _ => {
                what = "unowned";
                if let Some(w) = sl.wakers.last() {
                    let r = WakerRef::new_unowned(ManuallyDrop::new(unsafe { std::ptr::read(w) }));
                    sl.refs += 1;
                    r.wake_by_ref();
                }
            }
        }
        logf!("{what} on value {i}");
        mon::event(op as u64 * 8 + i as u64);
        s[i].check(what);
    }
    // everything away, in random order
    for mut sl in s {
        while !sl.wakers.is_empty() || !sl.keep.is_empty() {
            if !sl.keep.is_empty() && c.rng.chance(1, 2) {
                sl.keep.pop();
            } else if let Some(w) = sl.wakers.pop() {
                if c.rng.chance(1, 3) {
                    sl.by_val();
                    w.wake();
                }
            }
            sl.check("clean-up");
        }
    }
    c.nontrivial = true;
}
fn wakers(c: &mut Case) {
    if c.rng.chance(1, 2) {
        wakers_of::<W1>(c)
    } else {
        wakers_of::<W2>(c)
    }
    mon::check_released();
}
/// A panicking wake leaves the counts right.
struct Boom(Arc<Cnt>, bool);
impl ArcWake for Boom {
    fn wake_by_ref(s: &Arc<Self>) {
        s.0.refs.fetch_add(1, SeqCst);
        if s.1 {
            panic!("wake panics");
        }
    }
}
impl Drop for Boom {
    fn drop(&mut self) {
        self.0.drops.fetch_add(1, SeqCst);
    }
}
fn panics(c: &mut Case) {
    let cnt = Arc::new(Cnt::default());
    let a = Arc::new(Boom(cnt.clone(), true));
    let mut ws: Vec<Waker> = (0..1 + c.rng.below(3)).map(|_| waker(a.clone())).collect();
    let mut n = 0;
    c.nontrivial = true;
    for _ in 0..1 + c.rng.below(5) {
        if ws.is_empty() {
            break;
        }
        n += 1;
        let kind = c.rng.below(3);
        mon::event(kind as u64);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match kind {
            0 => ws.pop().unwrap().wake(),
            1 => ws[0].wake_by_ref(),
            _ => waker_ref(&a).wake_by_ref(),
        }));
        ensure!(r.is_err(), "the panic of the wake was swallowed");
        ensure!(cnt.refs.load(SeqCst) == n, "woken {} times instead of {n}", cnt.refs.load(SeqCst));
        ensure!(Arc::strong_count(&a) == 1 + ws.len(), "{} strong references, {} handles and wakers exist", Arc::strong_count(&a), 1 + ws.len());
    }
    drop(ws);
    ensure!(cnt.drops.load(SeqCst) == 0 && Arc::strong_count(&a) == 1, "value dropped early");
    drop(a);
    ensure!(cnt.drops.load(SeqCst) == 1, "value dropped {} times", cnt.drops.load(SeqCst));
}
fn noop(c: &mut Case) {
    let mut ws = vec![noop_waker(), noop_waker_ref().clone()];
    for _ in 0..c.rng.below(12) {
        let i = c.rng.below(ws.len());
        match c.rng.below(5) {
            0 => ws.push(ws[i].clone()),
            1 => ws[i].wake_by_ref(),
            2 => noop_waker_ref().wake_by_ref(),
            3 => ws.push(noop_waker()),
            _ if ws.len() > 1 => ws.swap_remove(i).wake(),
            _ => {}
        }
        mon::event(ws.len() as u64);
    }
    // a no-op waker never polls anything by itself
    let polls = Rc::new(Cell::new(0));
    let mut f = wd::fut(1).counted(&polls);
    let before = polls.get();
    let r = Pin::new(&mut f).poll(&mut Context::from_waker(&ws[0]));
    ws.iter().for_each(|w| w.wake_by_ref());
    ensure!(polls.get() == before + 1, "polled {} times", polls.get());
    c.nontrivial = r.is_pending() || ws.len() > 1;
}

// ------------------------------------------------------------------ task objects
#[derive(Default, Debug)]
struct Fst {
    addr: Cell<usize>,
    polls: Cell<u32>,
    drops: Cell<u32>,
    done: Cell<bool>,
}
/// Future of various layouts; watches its own address.
struct F<L> {
    st: Rc<Fst>,
    val: u64,
    inner: wd::Lf<u64>,
    _t: Tok,
    boom: Option<u32>,
    drop_boom: bool,
    lay: L,
}
trait Lay: 'static {
    fn new(v: u64) -> Self;
    fn ok(&self, v: u64) -> bool;
}
impl Lay for () {
    fn new(_: u64) {}
    fn ok(&self, _: u64) -> bool {
        true
    }
}
#[repr(align(256))]
struct Big([u64; 40]);
impl Lay for Big {
    fn new(v: u64) -> Self {
        Big([v; 40])
    }
    fn ok(&self, v: u64) -> bool {
        self.0.iter().all(|x| *x == v) && self as *const _ as usize % 256 == 0
    }
}
impl<L: Lay> F<L> {
    fn new(c: &mut Case, st: &Rc<Fst>) -> Self {
        let v = c.rng.below(1000) as u64;
        let boom = if c.rng.chance(1, 8) { Some(c.rng.below(3) as u32) } else { None };
        F { st: st.clone(), val: v, inner: wd::fut(v), _t: tok(v), boom, drop_boom: c.rng.chance(1, 12), lay: L::new(v) }
    }
    fn at(&self, what: &str) {
        let a = self as *const _ as *const u8 as usize;
        if self.st.addr.get() == 0 {
            self.st.addr.set(a);
        }
        ensure!(self.st.addr.get() == a, "{what}: the pinned future moved");
        ensure!(self.lay.ok(self.val), "{what}: the future's memory was overwritten");
        ensure!(self.st.drops.get() == 0, "{what}: the future was dropped before");
    }
}
impl<L: Lay> Future for F<L> {
    type Output = u64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        let this = unsafe { self.get_unchecked_mut() };
        this.at("poll");
        this.st.polls.set(this.st.polls.get() + 1);
        if this.boom == Some(this.st.polls.get()) {
            panic!("poll panics");
        }
        let r = Pin::new(&mut this.inner).poll(cx);
        this.st.done.set(r.is_ready());
        r
    }
}
impl<L> Drop for F<L> {
    fn drop(&mut self) {
        self.st.drops.set(self.st.drops.get() + 1);
        if self.st.addr.get() != 0 {
            ensure!(self.st.addr.get() == self as *const _ as *const u8 as usize, "drop: the pinned future moved");
        }
        if self.drop_boom && !std::thread::panicking() {
            panic!("drop panics");
        }
    }
}
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
impl<X: Future> Future for Force<X> {
    type Output = X::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<X::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}
/// Polls the object for a while; returns its result, None when dropped early.
fn exercise<'a, O: Future<Output = u64> + Unpin + 'a>(c: &mut Case, d: &mut wd::Driver, mut o: O, st: &Rc<Fst>, val: u64, boom: Option<u32>) {
    let stop = if c.rng.chance(1, 3) { c.rng.below(3) as u64 } else { u64::MAX };
    let mut n = 0;
    ensure!(st.polls.get() == 0, "making the object polls the future");
    let drop_now = |o: O| {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(o)));
    };
    loop {
        if n == stop {
            return drop_now(o);
        }
        n += 1;
        let before = st.polls.get();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.poll(|cx| Pin::new(&mut o).poll(cx))));
        ensure!(st.polls.get() == before + 1, "one poll of the object polls the future {} times", st.polls.get() - before);
        match r {
            Err(_) => {
                ensure!(boom == Some(st.polls.get()), "unexpected panic");
                ensure!(st.drops.get() == 0, "a panicking poll drops the future early");
                return drop_now(o);
            }
            Ok(Poll::Ready(v)) => {
                ensure!(v == val && st.done.get(), "result {v}, expected {val}");
                ensure!(st.drops.get() == 0, "the object drops its future at completion");
                return drop_now(o);
            }
            Ok(Poll::Pending) => {
                if mon::violated() || !d.idle() {
                    if !mon::violated() {
                        vio!("lost wake-up: pending, its latest waker not woken, and no event outstanding");
                    }
                    return drop_now(o);
                }
            }
        }
        // an object may be moved, and turned into a local one
        let moved = Box::new(o);
        o = *moved;
    }
}
fn objects_of<L: Lay>(c: &mut Case) {
    let st = Rc::new(Fst::default());
    let f = F::<L>::new(c, &st);
    let (v, b) = (f.val, f.boom);
    let kind = c.rng.below(20);
    c.desc = format!("pointer kind {kind}, size {}, panics at poll {b:?}, drop panics {}", std::mem::size_of::<F<L>>(), f.drop_boom);
    c.nontrivial = true;
    mon::event(kind as u64);
    let mut d = wd::Driver::new();
    type Dy<'a> = dyn Future<Output = u64> + 'a;
    type Ds<'a> = dyn Future<Output = u64> + Send + 'a;
    fn loc<'a>(c: &mut Case, x: impl UnsafeFutureObj<'a, u64> + 'a) -> LocalFutureObj<'a, u64> {
        let o = LocalFutureObj::new(x);
        if c.rng.chance(1, 3) {
            LocalFutureObj::from(unsafe { o.into_future_obj() })
        } else {
            o
        }
    }
    let owned = match kind {
        0 => {
            let o = loc(c, Box::new(f));
            exercise(c, &mut d, o, &st, v, b);
            true
        }
        1 => {
            let o = loc(c, Box::new(f) as Box<Dy>);
            exercise(c, &mut d, o, &st, v, b);
            true
        }
        2 => {
            let o = loc(c, Box::pin(f));
            exercise(c, &mut d, o, &st, v, b);
            true
        }
        3 => {
            let o = loc(c, Box::pin(f) as Pin<Box<Dy>>);
            exercise(c, &mut d, o, &st, v, b);
            true
        }
        4 => {
            let o = FutureObj::new(Box::new(Force(f)));
            exercise(c, &mut d, o, &st, v, b);
            true
        }
        5 => {
            let o = FutureObj::new(Box::new(Force(f)) as Box<Ds>);
            exercise(c, &mut d, o, &st, v, b);
            true
        }
        6 => {
            let o = FutureObj::new(Box::pin(Force(f)));
            exercise(c, &mut d, o, &st, v, b);
            true
        }
        7 => {
            let o = FutureObj::new(Box::pin(Force(f)) as Pin<Box<Ds>>);
            exercise(c, &mut d, o, &st, v, b);
            true
        }
        8 => {
            let o = loc(c, Box::new(Force(f)) as Box<Ds>);
            exercise(c, &mut d, o, &st, v, b);
            true
        }
        9 => {
            let o = loc(c, Box::pin(Force(f)) as Pin<Box<Ds>>);
            exercise(c, &mut d, o, &st, v, b);
            true
        }
        // borrowed: the object never drops what it borrows
        10 | 11 => {
            let mut g = Box::pin(f);
            {
                let o = if kind == 10 { loc(c, &mut g) } else { loc(c, &mut g as &mut (dyn Future<Output = u64> + Unpin)) };
                exercise(c, &mut d, o, &st, v, b);
            }
            ensure!(st.drops.get() == 0, "the object drops a future it only borrows");
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(g)));
            true
        }
        12 | 13 => {
            let mut g = Box::pin(f);
            {
                let o = if kind == 12 { loc(c, g.as_mut()) } else { loc(c, g.as_mut() as Pin<&mut Dy>) };
                exercise(c, &mut d, o, &st, v, b);
            }
            ensure!(st.drops.get() == 0, "the object drops a future it only borrows");
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(g)));
            true
        }
        14 => {
            let mut g = Box::pin(Force(f));
            {
                let o = FutureObj::new(g.as_mut());
                exercise(c, &mut d, o, &st, v, b);
            }
            ensure!(st.drops.get() == 0, "the object drops a future it only borrows");
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(g)));
            true
        }
        // From conversions (unit output)
        _ => {
            let out = Rc::new(Cell::new(None));
            let o2 = out.clone();
            let g = async move {
                o2.set(Some(f.await));
            };
            let mut o: LocalFutureObj<'static, ()> = match kind {
                15 => LocalFutureObj::from(Box::new(g)),
                16 => LocalFutureObj::from(Box::new(g) as Box<dyn Future<Output = ()>>),
                17 => LocalFutureObj::from(Box::pin(g)),
                18 => LocalFutureObj::from(Box::pin(g) as Pin<Box<dyn Future<Output = ()>>>),
                _ => {
                    let g = Force(g);
                    match c.rng.below(4) {
                        0 => FutureObj::from(Box::new(g)).into(),
                        1 => FutureObj::from(Box::new(g) as Box<dyn Future<Output = ()> + Send>).into(),
                        2 => FutureObj::from(Box::pin(g)).into(),
                        _ => FutureObj::from(Box::pin(g) as Pin<Box<dyn Future<Output = ()> + Send>>).into(),
                    }
                }
            };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.run(Pin::new(&mut o))));
            if let Ok(r) = r {
                if r.is_some() {
                    ensure!(out.get() == Some(v), "result {:?}, expected {v}", out.get());
                }
            }
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(o)));
            true
        }
    };
    if owned {
        ensure!(st.drops.get() == 1, "the future was dropped {} times", st.drops.get());
    }
    drop(d);
    mon::check_released();
}
fn objects(c: &mut Case) {
    if c.rng.chance(1, 2) {
        objects_of::<()>(c)
    } else {
        objects_of::<Big>(c)
    }
}
/// Zero-sized futures.
thread_local! { static ZDROPS: Cell<u32> = const { Cell::new(0) }; }
struct Zst;
impl Future for Zst {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        Poll::Ready(())
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        ZDROPS.with(|z| z.set(z.get() + 1));
    }
}
fn zst(c: &mut Case) {
    ZDROPS.with(|z| z.set(0));
    let mut o: LocalFutureObj<'static, ()> = match c.rng.below(4) {
        0 => Box::new(Zst).into(),
        1 => Box::pin(Zst).into(),
        2 => FutureObj::from(Box::new(Zst)).into(),
        _ => (Box::new(Zst) as Box<dyn Future<Output = ()>>).into(),
    };
    if c.rng.chance(1, 2) {
        ensure!(Pin::new(&mut o).poll(&mut Context::from_waker(noop_waker_ref())).is_ready(), "not ready");
    }
    ensure!(ZDROPS.with(|z| z.get()) == 0, "dropped early");
    drop(o);
    ensure!(ZDROPS.with(|z| z.get()) == 1, "dropped {} times", ZDROPS.with(|z| z.get()));
    c.nontrivial = true;
}

// ------------------------------------------------------------------ spawners
#[derive(Default)]
struct Rec {
    send: RefCell<Vec<FutureObj<'static, ()>>>,
    local: RefCell<Vec<LocalFutureObj<'static, ()>>>,
    shut: Cell<bool>,
    asked: Cell<u32>,
}
impl Spawn for Rec {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        if self.shut.get() {
            return Err(SpawnError::shutdown());
        }
        self.send.borrow_mut().push(f);
        Ok(())
    }
    fn status(&self) -> Result<(), SpawnError> {
        self.asked.set(self.asked.get() + 1);
        if self.shut.get() {
            Err(SpawnError::shutdown())
        } else {
            Ok(())
        }
    }
}
impl LocalSpawn for Rec {
    fn spawn_local_obj(&self, f: LocalFutureObj<'static, ()>) -> Result<(), SpawnError> {
        if self.shut.get() {
            return Err(SpawnError::shutdown());
        }
        self.local.borrow_mut().push(f);
        Ok(())
    }
    fn status_local(&self) -> Result<(), SpawnError> {
        self.asked.set(self.asked.get() + 1000);
        if self.shut.get() {
            Err(SpawnError::shutdown())
        } else {
            Ok(())
        }
    }
}
trait Both: Spawn + LocalSpawn {}
impl<T: Spawn + LocalSpawn> Both for T {}
/// Forwards to the shared recorder, so that it can be wrapped by value.
struct Fwd(Rc<Rec>);
impl Spawn for Fwd {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        self.0.spawn_obj(f)
    }
    fn status(&self) -> Result<(), SpawnError> {
        Spawn::status(&self.0)
    }
}
impl LocalSpawn for Fwd {
    fn spawn_local_obj(&self, f: LocalFutureObj<'static, ()>) -> Result<(), SpawnError> {
        self.0.spawn_local_obj(f)
    }
    fn status_local(&self) -> Result<(), SpawnError> {
        LocalSpawn::status_local(&self.0)
    }
}
fn spawners(c: &mut Case) {
    let rec = Rc::new(Rec::default());
    let mut kinds = Vec::new();
    let mut s: Box<dyn Both> = Box::new(Fwd(rec.clone()));
    for _ in 0..1 + c.rng.below(3) {
        let k = c.rng.below(6);
        kinds.push(k);
        s = match k {
            0 => Box::new(Box::new(s)),
            1 => Box::new(Rc::new(s)),
            2 => Box::new(Arc::new(s)),
            3 => Box::new(Rc::from(s) as Rc<dyn Both>),
            4 => Box::new(Arc::from(s) as Arc<dyn Both>),
            _ => Box::new(s),
        };
    }
    c.desc = format!("wrappers {kinds:?}");
    c.nontrivial = true;
    let mut want_ok = 0;
    let (mut ns, mut nl) = (0, 0);
    let mut sts = Vec::new();
    let mut handles = Vec::new();
    for _ in 0..1 + c.rng.below(6) {
        if c.rng.chance(1, 8) {
            rec.shut.set(!rec.shut.get());
        }
        let shut = rec.shut.get();
        let before = rec.asked.get();
        let m = &mut s;
        let by = c.rng.below(3);
        let (a, l) = match by {
            0 => (Spawn::status(&*m), LocalSpawn::status_local(&*m)),
            1 => (Spawn::status(&&*m), LocalSpawn::status_local(&&*m)),
            _ => (Spawn::status(&&mut *m), LocalSpawn::status_local(&&mut *m)),
        };
        ensure!(a.is_err() == shut && l.is_err() == shut, "status {a:?} / {l:?} of a spawner with shutdown={shut}");
        ensure!(rec.asked.get() == before + 1001, "status was not asked of the underlying spawner once each");
        let st = Rc::new(Fst::default());
        let f = F::<()> { st: st.clone(), val: 3, inner: wd::fut(3), _t: tok(3), boom: None, drop_boom: false, lay: () };
        let kind = c.rng.below(6);
        mon::event(kind as u64 * 2 + shut as u64);
        let (r, is_send) = match kind {
            0 => (s.spawn_obj(FutureObj::new(Box::new(Force(async { drop(f.await) })))), true),
            1 => (s.spawn_local_obj(LocalFutureObj::new(Box::new(async { drop(f.await) }))), false),
            2 => (s.spawn(Force(async { drop(f.await) })), true),
            3 => (s.spawn_local(async { drop(f.await) }), false),
            4 => match s.spawn_with_handle(Force(Box::pin(f))) {
                Ok(h) => {
                    handles.push(h);
                    (Ok(()), true)
                }
                Err(e) => (Err(e), true),
            },
            _ => match s.spawn_local_with_handle(f) {
                Ok(h) => {
                    handles.push(h);
                    (Ok(()), false)
                }
                Err(e) => (Err(e), false),
            },
        };
        ensure!(r.is_err() == shut, "spawn gives {r:?} on a spawner with shutdown={shut}");
        if let Err(e) = r {
            ensure!(e.is_shutdown(), "spawn error is not a shutdown error");
            ensure!(e.to_string() == "Executor is shutdown", "spawn error reads '{e}'");
            ensure!(st.drops.get() == 1 && st.polls.get() == 0, "refused task: dropped {} times, polled {} times", st.drops.get(), st.polls.get());
        } else {
            want_ok += 1;
            if is_send {
                ns += 1
            } else {
                nl += 1
            }
            ensure!(st.drops.get() == 0 && st.polls.get() == 0, "spawned task: dropped {} times, polled {} times", st.drops.get(), st.polls.get());
            sts.push(st);
        }
        ensure!(rec.send.borrow().len() == ns && rec.local.borrow().len() == nl, "{} + {} tasks arrived, expected {ns} + {nl}", rec.send.borrow().len(), rec.local.borrow().len());
    }
    drop(s);
    let mut d = wd::Driver::new();
    let tasks: Vec<_> = rec.send.borrow_mut().drain(..).collect();
    let loc: Vec<_> = rec.local.borrow_mut().drain(..).collect();
    for t in tasks.into_iter().map(LocalFutureObj::from).chain(loc) {
        let mut t = t;
        if d.run(Pin::new(&mut t)).is_none() {
            return;
        }
    }
    for h in handles {
        let mut h = h;
        ensure!(d.run(Pin::new(&mut h)) == Some(3), "handle gives a wrong value");
    }
    for st in &sts {
        ensure!(st.done.get() && st.drops.get() == 1, "task: done {}, dropped {} times", st.done.get(), st.drops.get());
    }
    ensure!(sts.len() == want_ok, "internal");
    drop(d);
    mon::check_released();
}
/// Real threads cloning, waking and dropping.
fn threads(c: &mut Case) {
    let cnt = Arc::new(Cnt::default());
    struct V(Arc<Cnt>, Box<u64>);
    impl ArcWake for V {
        fn wake_by_ref(s: &Arc<Self>) {
            assert_eq!(*s.1, 5);
            s.0.refs.fetch_add(1, SeqCst);
        }
    }
    impl Drop for V {
        fn drop(&mut self) {
            self.0.drops.fetch_add(1, SeqCst);
        }
    }
    let a = Arc::new(V(cnt.clone(), Box::new(5)));
    let n = 2 + c.rng.below(3);
    let k = 5 + c.rng.below(30) as u64;
    let ts: Vec<_> = (0..n)
        .map(|i| {
            let w = waker(a.clone());
            std::thread::spawn(move || {
                let mut v = vec![w];
                for j in 0..k {
                    let w = v[0].clone();
                    if (j + i as u64) % 3 == 0 {
                        v.push(w.clone());
                    }
                    if j % 2 == 0 {
                        w.wake();
                    } else {
                        w.wake_by_ref();
                    }
                }
            })
        })
        .collect();
    if c.rng.chance(1, 2) {
        let r = waker_ref(&a);
        let w = (*r).clone();
        drop(w);
    }
    drop(a);
    for t in ts {
        t.join().unwrap();
    }
    ensure!(cnt.refs.load(SeqCst) == n as u64 * k, "{} wakes, expected {}", cnt.refs.load(SeqCst), n as u64 * k);
    ensure!(cnt.drops.load(SeqCst) == 1, "dropped {} times", cnt.drops.load(SeqCst));
    c.nontrivial = true;
    mon::event(k);
}
fn main() {
    hv::main(
        "C29",
        vec![
            hv::w("wakers", 400_000, 8_000_000, wakers),
            hv::w("panics", 50_000, 500_000, panics),
            hv::w("noop", 50_000, 500_000, noop),
            hv::w("objects", 400_000, 8_000_000, objects),
            hv::w("zst", 10_000, 100_000, zst),
            hv::w("spawners", 200_000, 4_000_000, spawners),
            hv::ws("threads", 300, 5_000, threads),
        ],
    )
}
