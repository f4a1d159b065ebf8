//! Stand-in for `sc-network`: names only.
use std::sync::Arc;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct PeerId(pub u64);
#[derive(Clone, Debug, PartialEq, Eq)] pub enum ProtocolName { Static(&'static str), OnHeap(Arc<str>) }
impl From<&'static str> for ProtocolName { fn from(s: &'static str) -> Self { Self::Static(s) } }
pub mod config { pub struct NonDefaultSetConfig { pub protocol: super::ProtocolName, pub max_notification_size: u64, pub slots: (u32, u32) } impl NonDefaultSetConfig { pub fn new(protocol: super::ProtocolName, max_notification_size: u64) -> Self { Self { protocol, max_notification_size, slots: (0, 0) } } pub fn allow_non_reserved(&mut self, i: u32, o: u32) { self.slots = (i, o) } } }
