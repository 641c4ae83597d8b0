//! Runtime monitors for lopez86/rust-store.
pub mod conc;
pub mod gen;
pub mod handlers;
pub mod http;
pub mod lin;
pub mod model;
pub mod proc;
pub mod refparse;
pub mod report;
pub mod rng;
pub mod servers;
pub mod texts;
