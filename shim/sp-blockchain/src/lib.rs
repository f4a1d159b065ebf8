//! Stand-in for `sp-blockchain`: what a gadget asks of a block database.
use sp_runtime::traits::{Block, NumberFor};
#[derive(Debug, Clone, PartialEq, Eq)] pub enum Error { UnknownBlock(String), Backend(String) }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug, Clone, PartialEq, Eq)] pub struct Info<B: Block> { pub best_hash: B::Hash, pub best_number: NumberFor<B>, pub genesis_hash: B::Hash, pub finalized_hash: B::Hash, pub finalized_number: NumberFor<B> }
pub trait HeaderBackend<B: Block>: Send + Sync {
	fn header(&self, hash: B::Hash) -> Result<Option<B::Header>>;
	fn info(&self) -> Info<B>;
	fn number(&self, hash: B::Hash) -> Result<Option<NumberFor<B>>>;
	fn hash(&self, number: NumberFor<B>) -> Result<Option<B::Hash>>;
	fn expect_header(&self, hash: B::Hash) -> Result<B::Header> { self.header(hash)?.ok_or_else(|| Error::UnknownBlock(format!("{hash:?}"))) }
}
