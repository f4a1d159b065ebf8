//! Stand-in for `jsonrpsee`: server traits called directly.
use futures::{Stream, StreamExt};
pub mod proc_macros { pub use jsonrpsee_macros::rpc; }
pub mod core { pub use jsonrpsee_macros::async_trait; pub type RpcResult<T> = Result<T, crate::types::ErrorObject>; }
pub mod types { #[derive(Debug)] pub struct ErrorObject(pub String); #[derive(Debug)] pub struct SubscriptionEmptyError; }
/// hands every item of the subscription to the harness
pub struct SubscriptionSink(pub Box<dyn FnMut(Box<dyn std::any::Any + Send>) + Send>);
impl SubscriptionSink { pub async fn pipe_from_stream<S: Stream + Send + Unpin>(&mut self, mut s: S) where S::Item: Send + 'static { while let Some(x) = s.next().await { (self.0)(Box::new(x)) } } }
