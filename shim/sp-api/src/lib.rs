//! Stand-in for `sp-api`.
pub use sp_runtime::traits::{Block as BlockT, Header as HeaderT};
#[derive(Debug, Clone, PartialEq, Eq)] pub struct ApiError(pub String);
pub struct ApiRef<'a, T>(pub T, pub std::marker::PhantomData<&'a ()>);
impl<'a, T> From<T> for ApiRef<'a, T> { fn from(t: T) -> Self { Self(t, std::marker::PhantomData) } }
impl<'a, T> std::ops::Deref for ApiRef<'a, T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
pub trait ProvideRuntimeApi<B: BlockT> { type Api; fn runtime_api(&self) -> ApiRef<'_, Self::Api>; }
/// the client's side of the one runtime API a gadget calls
#[macro_export] macro_rules! decl_runtime_apis {
	($(#[$m:meta])* pub trait EthyApi { $($(#[$d:meta])* fn $f:ident() -> $r:ty;)* }) => { pub trait EthyApi<Block: $crate::BlockT> { $(fn $f(&self, at: Block::Hash) -> Result<$r, $crate::ApiError>;)* } };
	($($t:tt)*) => {};
}
