//! BiLock and split halves across threads.
use futures::lock::BiLock;
use futures::{AsyncReadExt, AsyncWriteExt, SinkExt, StreamExt};
use mw::*;
use std::task::Poll;
struct Duplex {
    out: Vec<u64>,
    next: u64,
    n: u64,
    closed: bool,
}
impl futures::Stream for Duplex {
    type Item = u64;
    fn poll_next(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Option<u64>> {
        if self.next == self.n {
            return Poll::Ready(None);
        }
        self.next += 1;
        if self.next % 2 == 0 {
            cx.waker().wake_by_ref();
            self.next -= 1;
            self.n -= 1;
            return Poll::Pending;
        }
        Poll::Ready(Some(self.next))
    }
}
impl futures::Sink<u64> for Duplex {
    type Error = ();
    fn poll_ready(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
    fn start_send(mut self: std::pin::Pin<&mut Self>, x: u64) -> Result<(), ()> {
        self.out.push(x);
        Ok(())
    }
    fn poll_flush(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<Result<(), ()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<Result<(), ()>> {
        self.closed = true;
        Poll::Ready(Ok(()))
    }
}
fn main() {
    let mut r = Rng::new();
    match r.below(4) {
        0 | 1 => {
            let (a, b) = BiLock::new((Plain::new(0u64), Tok::new(1)));
            let per = r.range(1, 3);
            let work = move |l: BiLock<(Plain<u64>, Tok)>| {
                let mut r = Rng::new();
                for _ in 0..per {
                    if r.bool() {
                        let g = block_on(l.lock());
                        g.0.set(g.0.get() + 1);
                    } else {
                        let mut e = Exec::new();
                        let g = e.wait(|cx| l.poll_lock(cx));
                        let v = g.0.get();
                        if r.bool() {
                            std::thread::yield_now();
                        }
                        g.0.set(v + 1);
                    }
                    if r.chance(1, 4) {
                        // an abandoned attempt
                        let mut e = Exec::new();
                        let _ = e.poll(|cx| l.poll_lock(cx).is_ready());
                    }
                }
                l
            };
            let t = spawn(move || work(a));
            let b = work(b);
            if r.bool() {
                let a = t.join().unwrap();
                let v = a.reunite(b).ok().expect("MONITOR-VIOLATION: halves of one BiLock do not reunite");
                monitor!(v.0.get() == 2 * per as u64, "{} increments instead of {}", v.0.get(), 2 * per);
            } else {
                drop(b);
                drop(t.join().unwrap());
            }
        }
        2 => {
            let n = r.range(1, 3) as u64;
            let (mut tx, rx) = Duplex { out: vec![], next: 0, n, closed: false }.split::<u64>();
            let t = spawn(move || {
                for i in 0..3 {
                    block_on(tx.feed(i)).unwrap();
                }
                block_on(tx.close()).unwrap();
                tx
            });
            let mut rx = rx;
            let mut got = 0;
            while let Some(_) = block_on(rx.next()) {
                got += 1;
            }
            monitor!(got <= 3, "invented items");
            let tx = t.join().unwrap();
            let d = rx.reunite(tx).ok().expect("MONITOR-VIOLATION: split halves do not reunite");
            monitor!(d.out == [0, 1, 2] && d.closed, "sink half delivered {:?}", d.out);
        }
        _ => {
            let (mut rd, mut wr) = futures::io::Cursor::new(vec![0u8; 16]).split();
            let t = spawn(move || {
                for _ in 0..2 {
                    block_on(wr.write_all(&[7, 7])).unwrap();
                }
                block_on(wr.flush()).unwrap();
                wr
            });
            let mut buf = [0u8; 3];
            let n = block_on(rd.read(&mut buf)).unwrap();
            monitor!(n == 3, "short read of a cursor");
            let wr = t.join().unwrap();
            let c = rd.reunite(wr).expect("MONITOR-VIOLATION: io halves do not reunite");
            monitor!(c.position() == 7, "cursor at {}", c.position());
        }
    }
    end();
}
