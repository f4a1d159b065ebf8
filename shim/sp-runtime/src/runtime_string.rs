use codec::{Decode, Encode};
impl Default for RuntimeString { fn default() -> Self { Self::Borrowed("") } }
#[derive(Eq, Debug, Clone)] pub enum RuntimeString { Borrowed(&'static str), Owned(String) }
impl std::ops::Deref for RuntimeString { type Target = str; fn deref(&self) -> &str { match self { Self::Borrowed(s) => s, Self::Owned(s) => s } } }
impl PartialEq for RuntimeString { fn eq(&self, o: &Self) -> bool { **self == **o } }
impl From<&'static str> for RuntimeString { fn from(s: &'static str) -> Self { Self::Borrowed(s) } }
impl From<String> for RuntimeString { fn from(s: String) -> Self { Self::Owned(s) } }
impl AsRef<[u8]> for RuntimeString { fn as_ref(&self) -> &[u8] { self.as_bytes() } }
impl Encode for RuntimeString { fn encode_to<O: codec::Output + ?Sized>(&self, o: &mut O) { self.as_bytes().encode_to(o) } }
impl Decode for RuntimeString { fn decode<I: codec::Input>(i: &mut I) -> Result<Self, codec::Error> { String::decode(i).map(Self::Owned) } }
impl std::fmt::Display for RuntimeString { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self) } }
