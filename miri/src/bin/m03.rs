//! mpsc across threads: order, exactly-once, close, back-pressure, data visibility.
use futures::channel::mpsc;
use futures::{SinkExt, StreamExt};
use mw::*;
use std::sync::Arc;
enum Tx { B(mpsc::Sender<Tok>), U(mpsc::UnboundedSender<Tok>) }
impl Tx {
    fn dup(&self) -> Tx { match self { Tx::B(s) => Tx::B(s.clone()), Tx::U(s) => Tx::U(s.clone()) } }
    fn send(&mut self, r: &mut Rng, v: u64) -> bool {
        match self {
            Tx::B(s) => match r.below(3) {
                0 => { let mut t = Some(Tok::new(v)); let mut e = Exec::new(); loop {
                    match s.try_send(t.take().unwrap()) {
                        Ok(()) => return true,
                        Err(e2) if e2.is_full() => { t = Some(e2.into_inner()); if e.wait(|cx| s.poll_ready(cx)).is_err() { return false } }
                        Err(_) => return false,
                    } } }
                1 => block_on(s.send(Tok::new(v))).is_ok(),
                _ => block_on(s.feed(Tok::new(v))).is_ok(),
            },
            Tx::U(s) => if r.bool() { s.unbounded_send(Tok::new(v)).is_ok() } else { block_on(s.send(Tok::new(v))).is_ok() },
        }
    }
}
enum Rx { B(mpsc::Receiver<Tok>), U(mpsc::UnboundedReceiver<Tok>) }
impl Rx {
    fn next(&mut self) -> Option<Tok> { match self { Rx::B(r) => block_on(r.next()), Rx::U(r) => block_on(r.next()) } }
    fn tryr(&mut self) -> Option<Tok> { match self { Rx::B(r) => r.try_recv().ok(), Rx::U(r) => r.try_recv().ok() } }
    fn close(&mut self) { match self { Rx::B(r) => r.close(), Rx::U(r) => r.close() } }
}
fn main() {
    let mut r = Rng::new();
    let (tx, mut rx) = if r.chance(2, 3) { let (a, b) = mpsc::channel(r.below(3)); (Tx::B(a), Rx::B(b)) } else { let (a, b) = mpsc::unbounded(); (Tx::U(a), Rx::U(b)) };
    let ns = r.range(1, 3);
    let per = r.range(1, 3);
    let plan = r.below(4); // 0 close early, 1 drop early, else run to the end
    let data: Arc<Vec<Plain<u64>>> = Arc::new((0..ns * per).map(|_| Plain::new(0)).collect());
    let mut ts = Vec::new();
    for i in 0..ns {
        let mut tx = tx.dup();
        let data = data.clone();
        ts.push(spawn(move || {
            let mut r = Rng::new();
            let mut n = 0;
            for j in 0..per {
                if r.chance(1, 4) { let d = tx.dup(); tx = d; }
                data[i * per + j].set(1);
                if tx.send(&mut r, (i * per + j) as u64) { n += 1 } else { break }
            }
            n
        }));
    }
    drop(tx);
    let mut last = vec![None; ns];
    let mut got = 0;
    let stop = r.below(3);
    let mut dropped = false;
    loop {
        if plan < 2 && got == stop {
            if plan == 1 { dropped = true; break }
            rx.close();
        }
        let v = if r.chance(1, 4) { match rx.tryr() { Some(v) => Some(v), None => rx.next() } } else { rx.next() };
        let Some(v) = v else { break };
        let k = *v.0 as usize;
        monitor!(data[k].get() == 1, "data written before send not visible to the receiver");
        let (i, j) = (k / per, k % per);
        monitor!(last[i].map_or(true, |l| j > l), "message {j} of sender {i} after {:?}", last[i]);
        last[i] = Some(j);
        got += 1;
    }
    drop(rx);
    let sent: usize = ts.into_iter().map(|t| t.join().unwrap()).sum();
    if dropped { monitor!(got <= sent, "received {got} of {sent}") } else { monitor!(got == sent, "received {got} of {sent} accepted messages") }
    end();
}
