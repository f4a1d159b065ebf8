//! Stand-in for `sp-version`.
use codec::{Decode, Encode};
#[derive(Clone, Debug, Default, PartialEq, Eq, Encode, Decode)]
pub struct RuntimeVersion { pub spec_name: sp_runtime::RuntimeString, pub impl_name: sp_runtime::RuntimeString, pub authoring_version: u32, pub spec_version: u32, pub impl_version: u32, pub transaction_version: u32, pub state_version: u8 }
