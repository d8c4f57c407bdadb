//! Engine B: delay injection for real OS threads at the library's hook points.
use crate::rng::{mix, Rng};
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

static LEVEL: AtomicUsize = AtomicUsize::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
static NEXT: AtomicU64 = AtomicU64::new(0);
pub static HITS: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static R: RefCell<Option<Rng>> = const { RefCell::new(None) };
}
/// level 0: off; otherwise roughly one hook point in `level` is delayed.
pub fn set(level: usize, seed: u64) {
    SEED.store(seed, Ordering::Relaxed);
    LEVEL.store(level, Ordering::Relaxed);
}
#[inline]
pub fn native_point() {
    let l = LEVEL.load(Ordering::Relaxed);
    if l == 0 {
        return;
    }
    HITS.fetch_add(1, Ordering::Relaxed);
    let d = R
        .try_with(|r| {
            let mut r = r.borrow_mut();
            let r = r.get_or_insert_with(|| Rng::new(mix(SEED.load(Ordering::Relaxed), NEXT.fetch_add(1, Ordering::Relaxed))));
            if r.chance(1, l) { r.range(1, 4) } else { 0 }
        })
        .unwrap_or(0);
    match d {
        0 => {}
        1 => std::thread::yield_now(),
        2 => {
            for _ in 0..200 {
                std::hint::spin_loop()
            }
        }
        3 => {
            for _ in 0..3000 {
                std::hint::spin_loop()
            }
        }
        _ => std::thread::sleep(std::time::Duration::from_micros(30)),
    }
}
