//! Shared across threads.
use futures::FutureExt;
use mw::*;
use std::sync::Arc;
fn main() {
    let mut r = Rng::new();
    let ev = r.below(3);
    let (l, ctl) = lf(7, ev);
    let data = Arc::new(Plain::new(0u64));
    let d2 = data.clone();
    let sh = l.map(move |t| { d2.set(5); t }).shared();
    let k = r.range(2, 3);
    let weak = sh.downgrade().unwrap();
    let mut ts = Vec::new();
    for i in 0..k {
        let mut h = sh.clone();
        let data = data.clone();
        ts.push(spawn(move || {
            let mut r = Rng::new();
            if r.chance(1, 3) {
                let mut e = Exec::new();
                let rdy = e.poll(|cx| h.poll_unpin(cx)).is_ready();
                if rdy { return }
                if r.bool() { return } // cancelled
                let h2 = h.clone();
                drop(h);
                h = h2;
            }
            if i == 0 && r.bool() {
                if let Some(t) = h.peek() { monitor!(*t.0 == 7, "peek shows a wrong value") }
            }
            let mut e = Exec::new();
            let v = loop {
                if let std::task::Poll::Ready(v) = e.poll(|cx| h.poll_unpin(cx)) { break v }
                e.sleep();
                if r.chance(1, 4) { e.refresh() }
            };
            monitor!(*v.0 == 7, "wrong output");
            monitor!(data.get() == 5, "effects of the inner future not visible");
        }));
    }
    let keep = r.bool();
    let sh = if keep { Some(sh) } else { drop(sh); None };
    let t = spawn(move || { for _ in 0..ev { ctl.fire() } });
    if let Some(s) = sh {
        let v = block_on(s);
        monitor!(*v.0 == 7, "wrong output");
    }
    for t in ts { t.join().unwrap() }
    t.join().unwrap();
    monitor!(weak.upgrade().is_none(), "future alive without handles");
    end();
}
