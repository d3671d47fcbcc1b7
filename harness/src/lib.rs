//! Property checks for uwuhi: generators, reference models, oracles and the search engine.

pub mod dict;
#[macro_use]
pub mod engine;
pub mod inject;
pub mod logcap;
pub mod model;
pub mod net;
pub mod props;
pub mod reg;
pub mod render;
pub mod uw;
pub mod wire;
