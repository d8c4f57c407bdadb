//! C21: size_hint and is_terminated.
use hv::pipes::{self, Watch};
use hv::{fpipes, tpipes};
use hv::world as wd;
use hv::ensure;
use futures::StreamExt;
use std::cell::Cell;
use std::rc::Rc;
use hv::{mon, Case};
fn hints(c: &mut Case) {
    let p = pipes::random(c, Watch { hints: true, terms: false }, 4);
    c.nontrivial = true;
    p.finish();
}
fn terms(c: &mut Case) {
    let p = pipes::random(c, Watch { hints: false, terms: true }, 4);
    c.nontrivial = true;
    p.finish();
}
fn try_hints(c: &mut Case) {
    let p = tpipes::random(c, Watch { hints: true, terms: false }, 3);
    c.nontrivial = true;
    p.finish();
}
fn try_terms(c: &mut Case) {
    let p = tpipes::random(c, Watch { hints: false, terms: true }, 3);
    c.nontrivial = true;
    p.finish();
}
/// Futures: is_terminated is false until completion and true afterwards.
fn futs(c: &mut Case) {
    let p = fpipes::random(c, Watch { hints: false, terms: true }, 4);
    c.nontrivial = true;
    p.finish();
}
/// take_until with a real stop future: hints, termination, and what is left of it.
fn until(c: &mut Case) {
    c.nontrivial = true;
    let w = Watch { hints: true, terms: true };
    let p = pipes::random(c, Watch::default(), 1);
    let strict = p.strict;
    let (s, m, ordered, _) = p.into_parts();
    c.desc += " . take_until(leaf)";
    let hit = Rc::new(Cell::new(false));
    let h = hit.clone();
    let f = wd::fut(mon::tok(5)).on_done(move || h.set(true));
    let (st, _) = pipes::stage(s.take_until(f), "take_until", w, true);
    let Some(v) = wd::collect_strict(st, strict) else { return };
    let got: Vec<u64> = v.iter().map(|t| t.get()).collect();
    if ordered {
        ensure!(m.starts_with(&got), "take_until yields {got:?}, not a prefix of {m:?}");
    }
    ensure!(got.len() == m.len() || hit.get(), "take_until stopped early without its future being ready");
    drop(v);
    mon::check_released();
}
/// Endless streams and compositions of them: no bound may be claimed that is exceeded, and
/// asking must not panic.
fn endless(c: &mut Case) {
    use futures::stream::{self, BoxStream};
    use futures::{FutureExt, StreamExt};
    c.nontrivial = true;
    fn src(c: &mut Case) -> (BoxStream<'static, u64>, &'static str) {
        match c.rng.below(6) {
            5 => (stream::repeat(4u64).take(usize::MAX).boxed(), "repeat.take(MAX)"),
            0 => (stream::repeat(1u64).boxed(), "repeat"),
            1 => (stream::repeat_with(|| 2u64).boxed(), "repeat_with"),
            2 => (stream::iter([1u64, 2]).cycle().boxed(), "cycle"),
            3 => (stream::iter(0u64..).boxed(), "iter(0..)"),
            _ => (stream::iter(vec![3u64; 3]).boxed(), "iter3"),
        }
    }
    let (mut s, n) = src(c);
    let mut d = n.to_string();
    for _ in 0..c.rng.range(1, 4) {
        let k = c.rng.range(1, 3);
        let (o, on) = src(c);
        let (ns, what): (BoxStream<'static, u64>, &str) = match c.rng.below(17) {
            0 => (stream::select(s, o).boxed(), "select"),
            1 => (s.chain(o).boxed(), "chain"),
            2 => (s.zip(o).map(|(a, b)| a ^ b).boxed(), "zip"),
            3 => (futures::stream_select!(s, o).boxed(), "stream_select!"),
            4 => { let (p, _) = src(c); (futures::stream_select!(s, o, p).boxed(), "stream_select!3") }
            5 => (s.skip(k).boxed(), "skip"),
            6 => (s.take(200).boxed(), "take"),
            7 => (s.chunks(k).map(|v| v.len() as u64).boxed(), "chunks"),
            8 => (s.ready_chunks(k).map(|v| v.len() as u64).boxed(), "ready_chunks"),
            9 => (s.peekable().boxed(), "peekable"),
            10 => (s.filter(|x| futures::future::ready(*x != 1_000_003)).boxed(), "filter"),
            11 => (s.then(|x| futures::future::ready(x)).boxed(), "then"),
            12 => (s.flat_map(|x| stream::iter([x, x])).boxed(), "flat_map"),
            13 => (s.enumerate().map(|(i, x)| i as u64 ^ x).boxed(), "enumerate"),
            14 => (stream::select_all([s, o]).boxed(), "select_all"),
            15 => (s.map(futures::future::ready).buffered(Some(k)).boxed(), "buffered"),
            _ => (stream::select_with_strategy(s, o, |_: &mut ()| stream::PollNext::Left).boxed(), "select_with_strategy"),
        };
        s = ns;
        d += &format!(" . {what}({on})");
    }
    c.desc = d;
    let mut hints = vec![];
    let mut n = 0usize;
    let mut ended = false;
    for _ in 0..c.rng.range(1, 60) {
        let h = s.size_hint();
        hints.push((n, h));
        mon::event(h.0 as u64 ^ h.1.map_or(1 << 40, |x| (x as u64).wrapping_mul(3)));
        match s.next().now_or_never() {
            Some(Some(_)) => n += 1,
            Some(None) => { ended = true; break }
            None => {}
        }
    }
    for (at, (lo, hi)) in hints {
        let rest = n - at;
        ensure!(hi.map_or(true, |hi| hi >= rest), "size_hint upper bound {hi:?} but {rest} more items came");
        ensure!(!ended || lo <= rest, "size_hint lower bound {lo} but only {rest} more items came");
        ensure!(hi.map_or(true, |hi| hi >= lo), "size_hint lower bound {lo} above the upper bound {hi:?}");
    }
}
fn main() {
    hv::main("C21", vec![hv::w("hints", 2_000_000, 40_000_000, hints), hv::w("terms", 2_000_000, 40_000_000, terms), hv::w("try_hints", 1_000_000, 30_000_000, try_hints), hv::w("try_terms", 1_000_000, 30_000_000, try_terms),
        hv::w("futs", 1_000_000, 20_000_000, futs), hv::w("until", 500_000, 10_000_000, until), hv::w("endless", 300_000, 5_000_000, endless)]);
}
