//! Stand-in for `impl-serde`.
#[doc(hidden)] pub use {hex, serde};
#[macro_export]
macro_rules! impl_fixed_hash_serde { ($n:ident, $len:expr) => {
	impl $crate::serde::Serialize for $n { fn serialize<S: $crate::serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&format!("0x{}", $crate::hex::encode(&self.0))) } }
	impl<'de> $crate::serde::Deserialize<'de> for $n { fn deserialize<D: $crate::serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let s = <String as $crate::serde::Deserialize>::deserialize(d)?; let h = s.strip_prefix("0x").unwrap_or(&s); let mut o = [0u8; $len]; $crate::hex::decode_to_slice(h, &mut o).map_err(|_| $crate::serde::de::Error::custom("invalid hex"))?; Ok($n(o)) } }
} }
