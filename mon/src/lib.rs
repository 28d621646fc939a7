//! Runtime monitors for rapiddlt: workload generators, an independent reference model, and the case runner.
pub mod hints;
pub mod rng;
pub mod model;
pub mod gen;
pub mod hostile;
pub mod patterns;
pub mod rec;
pub mod rt;
pub mod relog;
pub mod reports;
pub mod cli;
pub mod exer;
