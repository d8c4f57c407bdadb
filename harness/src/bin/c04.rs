//! C04: bounded mpsc capacity and back-pressure.
use hv::mpscw;
fn main() {
    hv::main("C04", vec![
        hv::w("concurrent_bounded", 400_000, 20_000_000, |c| mpscw::concurrent_bounded(c, "C04")),
        hv::w("sequential", 150_000, 3_000_000, |c| mpscw::sequential(c, "C04")),
        hv::w("pipeline", 40_000, 1_000_000, |c| mpscw::forward_pipeline(c, "C04")),
        hv::w("ready_then_try", 40_000, 500_000, |c| mpscw::ready_then_try(c, "C04")),
    ]);
}
