pub mod rng;
pub use rng::Rng; pub mod mon; pub mod sched;
pub mod iow;
pub mod sinkops;
pub mod sinks; pub mod stress; pub mod runner; pub mod world; pub mod mpscw; pub mod aleaf; pub mod pipes;
pub mod tpipes;
pub mod fpipes;
pub mod soup;
pub use runner::{main, w, ws, Case};
pub mod pins;
