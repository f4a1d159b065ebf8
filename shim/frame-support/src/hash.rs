use codec::{Codec, MaxEncodedLen};
use sp_io::hashing::*;
pub trait Hashable: Sized { fn blake2_128(&self) -> [u8; 16]; fn blake2_256(&self) -> [u8; 32]; fn blake2_128_concat(&self) -> Vec<u8>; fn twox_128(&self) -> [u8; 16]; fn twox_256(&self) -> [u8; 32]; fn twox_64_concat(&self) -> Vec<u8>; fn identity(&self) -> Vec<u8>; }
impl<T: Codec> Hashable for T {
	fn blake2_128(&self) -> [u8; 16] { self.using_encoded(blake2_128) } fn blake2_256(&self) -> [u8; 32] { self.using_encoded(blake2_256) }
	fn blake2_128_concat(&self) -> Vec<u8> { self.using_encoded(Blake2_128Concat::hash) } fn twox_128(&self) -> [u8; 16] { self.using_encoded(twox_128) } fn twox_256(&self) -> [u8; 32] { self.using_encoded(twox_256) }
	fn twox_64_concat(&self) -> Vec<u8> { self.using_encoded(Twox64Concat::hash) } fn identity(&self) -> Vec<u8> { self.encode() }
}
pub trait StorageHasher: 'static { type Output: AsRef<[u8]>; fn hash(x: &[u8]) -> Self::Output; fn max_len<K: MaxEncodedLen>() -> usize; }
pub trait ReversibleStorageHasher: StorageHasher { fn reverse(x: &[u8]) -> &[u8]; }
pub struct Identity; pub struct Twox64Concat; pub struct Blake2_128Concat; pub struct Blake2_128; pub struct Blake2_256; pub struct Twox128; pub struct Twox256;
impl StorageHasher for Identity { type Output = Vec<u8>; fn hash(x: &[u8]) -> Vec<u8> { x.to_vec() } fn max_len<K: MaxEncodedLen>() -> usize { K::max_encoded_len() } }
impl ReversibleStorageHasher for Identity { fn reverse(x: &[u8]) -> &[u8] { x } }
impl StorageHasher for Twox64Concat { type Output = Vec<u8>; fn hash(x: &[u8]) -> Vec<u8> { twox_64(x).iter().chain(x.iter()).copied().collect() } fn max_len<K: MaxEncodedLen>() -> usize { K::max_encoded_len().saturating_add(8) } }
impl ReversibleStorageHasher for Twox64Concat { fn reverse(x: &[u8]) -> &[u8] { x.get(8..).unwrap_or(&[]) } }
impl StorageHasher for Blake2_128Concat { type Output = Vec<u8>; fn hash(x: &[u8]) -> Vec<u8> { blake2_128(x).iter().chain(x.iter()).copied().collect() } fn max_len<K: MaxEncodedLen>() -> usize { K::max_encoded_len().saturating_add(16) } }
impl ReversibleStorageHasher for Blake2_128Concat { fn reverse(x: &[u8]) -> &[u8] { x.get(16..).unwrap_or(&[]) } }
impl StorageHasher for Blake2_128 { type Output = [u8; 16]; fn hash(x: &[u8]) -> [u8; 16] { blake2_128(x) } fn max_len<K: MaxEncodedLen>() -> usize { 16 } }
impl StorageHasher for Blake2_256 { type Output = [u8; 32]; fn hash(x: &[u8]) -> [u8; 32] { blake2_256(x) } fn max_len<K: MaxEncodedLen>() -> usize { 32 } }
impl StorageHasher for Twox128 { type Output = [u8; 16]; fn hash(x: &[u8]) -> [u8; 16] { twox_128(x) } fn max_len<K: MaxEncodedLen>() -> usize { 16 } }
impl StorageHasher for Twox256 { type Output = [u8; 32]; fn hash(x: &[u8]) -> [u8; 32] { twox_256(x) } fn max_len<K: MaxEncodedLen>() -> usize { 32 } }
