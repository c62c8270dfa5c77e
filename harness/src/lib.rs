pub mod analysis;
pub mod case;
pub mod explain;
pub mod gen;
pub mod metrics;
pub mod rng;
pub mod run;
pub mod search;
pub mod view;
