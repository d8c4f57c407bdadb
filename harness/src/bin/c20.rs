//! C20: Pending always means the latest waker will be woken.
use hv::mon;
use hv::soup;
use hv::world as wd;
use hv::{ensure, vio, Case};
use std::future::Future;
use std::task::Poll;

fn programs(c: &mut Case) {
    let depth = *c.rng.pick(&[1, 2, 2, 3, 3, 4, 5]);
    let p = soup::prog(c, depth);
    c.desc = p.desc.clone();
    let mut f = p.f;
    let mut d = wd::Driver::new();
    let mut own = 0u64; // polls the program asked for without any leaf having stirred
    let mut seen = 0;
    let got = loop {
        let before = wd::with(|w| w.stir);
        let asked = d.polls > 0 && wd::woken();
        if asked && before == seen {
            own += 1;
        }
        seen = before;
        match d.poll(|cx| f.as_mut().poll(cx)) {
            Poll::Ready(v) => break v,
            Poll::Pending => {}
        }
        if d.polls > 20_000 {
            vio!("not finished after {} polls although every leaf makes progress", d.polls);
        }
        if mon::violated() {
            return;
        }
        d.strict = false;
        if !d.idle() {
            if !mon::violated() {
                vio!("lost wake-up: pending, its latest waker not woken, and no event outstanding");
            }
            return;
        }
    };
    drop(f);
    let mut want = p.model;
    want.sort();
    let vals = soup::vals(&got);
    ensure!(vals == want, "result {vals:?}, expected {want:?}");
    drop(got);
    let stir = wd::with(|w| w.stir);
    c.count("polls", d.polls);
    c.count("own", own);
    c.count("leaf_wakes", stir);
    let r = own * 100 / (p.size + 1);
    let b = match r {
        0 => "r0",
        1..=25 => "r25",
        26..=50 => "r50",
        51..=100 => "r100",
        101..=200 => "r200",
        _ => "rmore",
    };
    c.count(b, 1);
    c.nontrivial = wd::pendings() > 0;
    drop(d);
    mon::check_released();
}
fn main() {
    hv::main("C20", vec![hv::w("programs", 6_000_000, 200_000_000, programs)])
}
