//! FuturesUnordered: wakes, concurrent pushes, late wakers, drops across threads.
use futures::stream::FuturesUnordered;
use futures::StreamExt;
use mw::*;
use std::sync::Arc;
fn main() {
    let mut r = Rng::new();
    let n = r.range(1, 4);
    let mut ls = Vec::new();
    let mut ctls = Vec::new();
    let mut evs = Vec::new();
    for i in 0..n {
        let e = r.below(3);
        let (l, c) = lf(i as u64, e);
        ls.push(l);
        ctls.push(c);
        evs.push(e);
    }
    let set: Arc<FuturesUnordered<Lf>> = Arc::new(FuturesUnordered::new());
    // concurrent pushes and observations through a shared reference
    let half = ls.split_off(n / 2);
    let s2 = set.clone();
    let pt = spawn(move || { for l in half { s2.push(l) } });
    for l in ls { set.push(l) }
    if r.bool() {
        let k = set.len();
        monitor!(k >= n / 2 && k <= n, "len {k} during pushes");
        let c = set.iter().map(|l| l.val.as_ref().map_or(0, |t| *t.0)).count();
        monitor!(c >= n / 2 && c <= n, "iteration shows {c} futures");
    }
    pt.join().unwrap();
    let mut set = Arc::try_unwrap(set).ok().unwrap();
    let mut ts = Vec::new();
    for (i, c) in ctls.into_iter().enumerate() {
        let e = evs[i];
        ts.push(spawn(move || {
            let mut r = Rng::new();
            for _ in 0..e {
                let w = if r.chance(1, 3) { c.peek_waker() } else { None };
                c.fire();
                if r.chance(1, 4) { c.nudge() }
                if let Some(w) = w { w.wake() }
            }
        }));
    }
    let early = r.chance(1, 3);
    let mut got = vec![false; n];
    let mut cnt = 0;
    loop {
        if early && r.chance(1, 3) { break }
        match block_on(set.next()) {
            None => { monitor!(cnt == n, "ended after {cnt} of {n} outputs"); break }
            Some(t) => {
                let v = *t.0 as usize;
                monitor!(!got[v], "output {v} twice");
                got[v] = true;
                cnt += 1;
                monitor!(set.len() == n - cnt, "len {} with {} outstanding", set.len(), n - cnt);
            }
        }
    }
    match r.below(3) {
        0 => set.clear(),
        1 => { monitor!(set.into_iter().count() == n - cnt, "into_iter count"); }
        _ => drop(set),
    }
    for t in ts { t.join().unwrap() }
    end();
}
