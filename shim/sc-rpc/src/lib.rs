//! Stand-in for `sc-rpc`.
use futures::future::BoxFuture; use std::sync::Arc;
pub trait SpawnNamed: Send + Sync { fn spawn(&self, name: &'static str, group: Option<&'static str>, f: BoxFuture<'static, ()>); }
pub type SubscriptionTaskExecutor = Arc<dyn SpawnNamed>;
