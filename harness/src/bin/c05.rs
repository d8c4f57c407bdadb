//! C05: mpsc closing.
use hv::mpscw;
fn main() {
    hv::main("C05", vec![
        hv::w("concurrent_close", 400_000, 20_000_000, |c| mpscw::concurrent_close(c, "C05")),
        hv::w("sequential", 150_000, 3_000_000, |c| mpscw::sequential(c, "C05")),
    ]);
}
