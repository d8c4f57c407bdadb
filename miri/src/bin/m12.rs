//! Abortable / RemoteHandle / oneshot hand-over across threads.
use futures::future::{abortable, FutureExt};
use futures::stream::{self, StreamExt};
use mw::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
fn main() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        if !s.contains("planned") { eprintln!("{s}\nthread '?' panicked at {s}\n") }
    }));
    let mut r = Rng::new();
    match r.below(4) {
        0 => {
            let ev = r.below(2);
            let (l, ctl) = lf(7, ev);
            let (f, h) = abortable(l);
            let h2 = h.clone();
            let data = Arc::new(Plain::new(0u64));
            let d2 = data.clone();
            let t = spawn(move || { d2.set(4); h2.abort(); monitor!(h2.is_aborted(), "not aborted after abort") });
            let t2 = spawn(move || { for _ in 0..ev { ctl.fire() } });
            match block_on(f) {
                Ok(t) => monitor!(*t.0 == 7, "wrong output"),
                Err(_) => { monitor!(h.is_aborted(), "aborted without abort"); }
            }
            t.join().unwrap();
            t2.join().unwrap();
        }
        1 => {
            let (mut s, h) = stream::abortable(stream::pending::<u8>());
            let t = spawn(move || h.abort());
            monitor!(block_on(s.next()).is_none(), "item from pending");
            t.join().unwrap();
            monitor!(s.is_aborted(), "not aborted");
        }
        _ => {
            let ev = r.below(2);
            let (l, ctl) = lf(7, ev);
            let plan = r.below(4);
            let data = Arc::new(Plain::new(0u64));
            let d2 = data.clone();
            let fut = async move {
                let t = l.await;
                if plan == 3 { panic!("planned") }
                d2.set(8);
                t
            };
            let (rem, mut h) = fut.remote_handle();
            let t = spawn(move || block_on(rem));
            let t2 = spawn(move || { for _ in 0..ev { ctl.fire() } });
            match plan {
                0 => drop(h),
                1 => h.forget(),
                _ => {
                    if r.bool() { let mut e = Exec::new(); let p = catch_unwind(AssertUnwindSafe(|| e.poll(|cx| h.poll_unpin(cx)).is_ready())); if !matches!(p, Ok(false)) { t.join().unwrap(); t2.join().unwrap(); drop(h); drop(p); end_(); return } }
                    match catch_unwind(AssertUnwindSafe(|| block_on(h))) {
                        Ok(v) => { monitor!(*v.0 == 7 && plan == 2, "wrong result"); monitor!(data.get() == 8, "writes of the remote future not visible"); }
                        Err(_) => monitor!(plan == 3, "handle panicked although the future did not"),
                    }
                }
            }
            t.join().unwrap();
            t2.join().unwrap();
            if plan == 1 { monitor!(data.get() == 8, "forgotten future did not run to completion") }
        }
    }
    end_();
}
fn end_() { let _ = std::panic::take_hook(); end(); }
