//! The properties, one `Prop` each.

pub mod codec;
pub mod netprops;
pub mod service;

use crate::engine::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(codec::props());
    v.extend(service::props());
    v.extend(netprops::props());
    v.sort_by_key(|p| p.id);
    v
}
