//! oneshot across threads.
use futures::channel::oneshot;
use futures::FutureExt;
use mw::*;
use std::sync::Arc;
fn main() {
    let mut r = Rng::new();
    for _ in 0..2 {
        let data = Arc::new(Plain::new(0u64));
        let (mut tx, mut rx) = oneshot::channel::<Tok>();
        let rx_plan = r.below(4);
        let tx_plan = r.below(3);
        let spins = r.below(3);
        let d2 = data.clone();
        let t = spawn(move || {
            for _ in 0..spins {
                let mut e = Exec::new();
                let _ = e.poll(|cx| tx.poll_canceled(cx));
                let _ = tx.is_canceled();
            }
            match tx_plan {
                0 | 1 => {
                    d2.set(9);
                    match tx.send(Tok::new(5)) {
                        Ok(()) => Some(true),
                        Err(v) => {
                            monitor!(*v.0 == 5, "send handed back another value");
                            Some(false)
                        }
                    }
                }
                _ => {
                    if rx_plan < 2 {
                        block_on(tx.cancellation());
                    }
                    None
                }
            }
        });
        let mut got = None;
        match rx_plan {
            0 => rx.close(),
            1 => {
                let mut e = Exec::new();
                let _ = e.poll(|cx| rx.poll_unpin(cx)).is_ready() && { got = Some(()); true };
            }
            2 => {
                if let Ok(Some(v)) = rx.try_recv() {
                    monitor!(*v.0 == 5, "wrong value");
                    got = Some(());
                }
            }
            _ => {}
        }
        if rx_plan != 1 && got.is_none() {
            match block_on(&mut rx) {
                Ok(v) => {
                    monitor!(*v.0 == 5, "wrong value");
                    monitor!(data.get() == 9, "data written before send not visible");
                    got = Some(());
                }
                Err(_) => {}
            }
        }
        drop(rx);
        let s = t.join().unwrap();
        if rx_plan != 1 {
            monitor!(got.is_some() == (s == Some(true)), "send said {s:?} but receiver got a value: {}", got.is_some());
        }
    }
    end();
}
