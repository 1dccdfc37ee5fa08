//! Bounded exhaustive exploration of actiondb (see /verif/DESIGN.md).
pub mod doc;
pub mod engine;
pub mod gram;
pub mod logcap;
pub mod model;
pub mod real;
pub mod routes;
pub mod space;
pub mod strings;
pub mod nested;
pub mod step;
pub mod threads;
