//! Stand-in for `sp-consensus-babe`.
pub type AuthorityId = sp_core::sr25519::Public;
