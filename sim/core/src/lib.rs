//! The simulator's core: world, devices, reference models, walker sessions and
//! dynamic access to the types under simulation.
#[macro_use]
pub mod world;
pub mod dynt;
pub mod hooks;
pub mod imp;
pub mod io;
pub mod refenc;
pub mod sched;
pub mod types;
pub mod val;
pub mod walkers;
