//! C03: mpsc delivery.
use hv::mpscw;
fn main() {
    hv::main("C03", vec![
        hv::w("concurrent", 400_000, 20_000_000, |c| mpscw::concurrent(c, "C03")),
        hv::w("sequential", 100_000, 3_000_000, |c| mpscw::sequential(c, "C03")),
        hv::w("pipeline", 40_000, 1_000_000, |c| mpscw::forward_pipeline(c, "C03")),
    ]);
}
