//! Runtime monitors for scale-decode: models, workload generators, reference oracles and recording visitors.
#![allow(clippy::all)]
pub mod any;
pub mod common;
pub mod chase;
pub mod conv;
pub mod convrun;
pub mod explore;
pub mod faults;
pub mod model;
pub mod resolvers;
pub mod plat;
pub mod rng;
pub mod run;
pub mod targets;
pub mod tick;
pub mod val;
pub mod wild;
