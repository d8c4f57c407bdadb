//! Address-sensitive leaves nested unboxed in every adapter, interpreted: aliasing, moves of pinned
//! values, uninitialised reads, use after free, leaks.
#[path = "../../../harness/src/pins.rs"]
mod pins;
use mw::*;
struct Dx<'a>(&'a mut Rng);
impl pins::Dice for Dx<'_> {
    fn below(&mut self, n: usize) -> usize {
        self.0.below(n)
    }
}
fn main() {
    let mut r = Rng::new();
    for _ in 0..30 {
        let g = r.below(pins::GROUPS);
        let s = pins::scenario(&mut Dx(&mut r), g);
        for v in pins::verdict() {
            monitor!(false, "scenario {s}: {v}");
        }
    }
    end();
}
