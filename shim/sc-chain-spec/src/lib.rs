//! Stand-in for `sc-chain-spec`.
pub trait ChainSpec { fn fork_id(&self) -> Option<&str>; }
