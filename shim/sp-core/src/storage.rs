use std::collections::BTreeMap;
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct StorageChild { pub data: BTreeMap<Vec<u8>, Vec<u8>> }
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Storage { pub top: BTreeMap<Vec<u8>, Vec<u8>>, pub children_default: BTreeMap<Vec<u8>, StorageChild> }
#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash, codec::Encode, codec::Decode, serde::Serialize, serde::Deserialize)]
pub struct StorageKey(pub Vec<u8>);
#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash, codec::Encode, codec::Decode, serde::Serialize, serde::Deserialize)]
pub struct StorageData(pub Vec<u8>);
pub mod well_known_keys { pub const CODE: &[u8] = b":code"; pub const HEAP_PAGES: &[u8] = b":heappages"; pub const EXTRINSIC_INDEX: &[u8] = b":extrinsic_index"; }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum StateVersion { V0, V1 }
