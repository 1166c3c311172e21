mod atomics;
pub mod driver;
pub mod fs;
pub mod hooks;
pub mod plan;
pub mod raw;
pub mod rng;
pub(crate) mod sched;
pub mod world;

pub use rng::Rng;
pub use world::{reset_world, run, world, Fault, FaultKind, Out, Phase, PhaseInfo, Policy, SchedCfg};
