//! Stand-in for `sp-consensus`.
use std::sync::Arc;
pub trait SyncOracle { fn is_major_syncing(&self) -> bool; fn is_offline(&self) -> bool; }
impl<T: SyncOracle + ?Sized> SyncOracle for Arc<T> { fn is_major_syncing(&self) -> bool { (**self).is_major_syncing() } fn is_offline(&self) -> bool { (**self).is_offline() } }
