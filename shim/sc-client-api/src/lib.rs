//! Stand-in for `sc-client-api`: the parts a gadget is given.
use sp_blockchain::HeaderBackend; use sp_runtime::traits::Block; use std::sync::Arc;
#[derive(Clone, Debug)] pub struct FinalityNotification<B: Block> { pub hash: B::Hash, pub header: B::Header, pub tree_route: Arc<[B::Hash]>, pub stale_heads: Arc<[B::Hash]> }
pub type FinalityNotifications<B> = futures::channel::mpsc::UnboundedReceiver<FinalityNotification<B>>;
pub trait BlockchainEvents<B: Block> { fn finality_notification_stream(&self) -> FinalityNotifications<B>; }
pub trait Finalizer<B: Block, BE> {}
pub mod backend {
	use super::*;
	pub trait AuxStore { fn insert_aux<'a, 'b: 'a, 'c: 'a, I: IntoIterator<Item = &'a (&'c [u8], &'c [u8])>, D: IntoIterator<Item = &'a &'b [u8]>>(&self, insert: I, delete: D) -> sp_blockchain::Result<()>; fn get_aux(&self, key: &[u8]) -> sp_blockchain::Result<Option<Vec<u8>>>; }
	pub trait Backend<B: Block>: AuxStore + Send + Sync { type Blockchain: HeaderBackend<B>; fn blockchain(&self) -> &Self::Blockchain; fn insert_aux<'a, 'b: 'a, 'c: 'a, I: IntoIterator<Item = &'a (&'c [u8], &'c [u8])>, D: IntoIterator<Item = &'a &'b [u8]>>(&self, insert: I, delete: D) -> sp_blockchain::Result<()> { AuxStore::insert_aux(self, insert, delete) } }
}
pub use backend::{AuxStore, Backend};
