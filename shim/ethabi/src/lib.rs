//! Stand-in for `ethabi`: ABI encoding and decoding of tokens (Solidity ABI specification).
pub use ethereum_types;
pub type Address = ethereum_types::H160; pub type Uint = ethereum_types::U256; pub type Bytes = Vec<u8>; pub type FixedBytes = Vec<u8>;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Token { Address(Address), FixedBytes(FixedBytes), Bytes(Bytes), Int(Uint), Uint(Uint), Bool(bool), String(String), FixedArray(Vec<Token>), Array(Vec<Token>), Tuple(Vec<Token>) }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ParamType { Address, Bytes, Int(usize), Uint(usize), Bool, String, Array(Box<ParamType>), FixedBytes(usize), FixedArray(Box<ParamType>, usize), Tuple(Vec<ParamType>) }
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error { InvalidData, InvalidName(String), Other(String) }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for Error {}
impl Token {
	pub fn is_dynamic(&self) -> bool { match self { Token::Bytes(_) | Token::String(_) | Token::Array(_) => true, Token::FixedArray(t) | Token::Tuple(t) => t.iter().any(Token::is_dynamic), _ => false } }
	pub fn into_address(self) -> Option<Address> { if let Token::Address(a) = self { Some(a) } else { None } }
	pub fn into_uint(self) -> Option<Uint> { if let Token::Uint(a) = self { Some(a) } else { None } }
	pub fn into_bytes(self) -> Option<Bytes> { if let Token::Bytes(a) = self { Some(a) } else { None } }
	pub fn into_fixed_bytes(self) -> Option<FixedBytes> { if let Token::FixedBytes(a) = self { Some(a) } else { None } }
	pub fn into_bool(self) -> Option<bool> { if let Token::Bool(a) = self { Some(a) } else { None } }
	pub fn into_string(self) -> Option<String> { if let Token::String(a) = self { Some(a) } else { None } }
	pub fn into_array(self) -> Option<Vec<Token>> { if let Token::Array(a) = self { Some(a) } else { None } }
	pub fn into_tuple(self) -> Option<Vec<Token>> { if let Token::Tuple(a) = self { Some(a) } else { None } }
	fn head_len(&self) -> usize { if self.is_dynamic() { 32 } else { match self { Token::FixedArray(t) | Token::Tuple(t) => t.iter().map(Token::head_len).sum(), Token::FixedBytes(b) => (b.len() + 31) / 32 * 32, _ => 32 } } }
}
impl ParamType { pub fn is_dynamic(&self) -> bool { match self { ParamType::Bytes | ParamType::String | ParamType::Array(_) => true, ParamType::FixedArray(p, _) => p.is_dynamic(), ParamType::Tuple(p) => p.iter().any(ParamType::is_dynamic), _ => false } } }
fn word(n: usize) -> [u8; 32] { let mut w = [0; 32]; w[24..].copy_from_slice(&(n as u64).to_be_bytes()); w }
fn padded(b: &[u8]) -> Vec<u8> { let mut v = b.to_vec(); while v.len() % 32 != 0 { v.push(0) } v }
fn body(t: &Token) -> Vec<u8> { match t {
	Token::Address(a) => { let mut w = [0u8; 32]; w[12..].copy_from_slice(a.as_bytes()); w.to_vec() },
	Token::Uint(u) | Token::Int(u) => { let mut w = [0u8; 32]; u.to_big_endian(&mut w); w.to_vec() },
	Token::Bool(b) => word(*b as usize).to_vec(),
	Token::FixedBytes(b) => padded(b),
	Token::Bytes(b) => { let mut v = word(b.len()).to_vec(); v.extend(padded(b)); v },
	Token::String(s) => { let mut v = word(s.len()).to_vec(); v.extend(padded(s.as_bytes())); v },
	Token::Array(a) => { let mut v = word(a.len()).to_vec(); v.extend(encode(a)); v },
	Token::FixedArray(a) | Token::Tuple(a) => encode(a),
} }
pub fn encode(tokens: &[Token]) -> Bytes {
	let head: usize = tokens.iter().map(Token::head_len).sum();
	let (mut h, mut t) = (vec![], vec![]);
	for k in tokens { let b = body(k); if k.is_dynamic() { h.extend(word(head + t.len())); t.extend(b) } else { h.extend(b) } }
	h.extend(t); h
}
fn peek(d: &[u8], o: usize, n: usize) -> Result<&[u8], Error> { let e = o.checked_add(n).ok_or(Error::InvalidData)?; d.get(o..e).ok_or(Error::InvalidData) }
fn as_usize(w: &[u8]) -> Result<usize, Error> { if w[..28].iter().any(|b| *b != 0) { return Err(Error::InvalidData) } Ok(u32::from_be_bytes(w[28..].try_into().unwrap()) as usize) }
fn one(p: &ParamType, d: &[u8], o: usize) -> Result<(Token, usize), Error> {
	let off = |o| -> Result<usize, Error> { as_usize(peek(d, o, 32)?) };
	Ok(match p {
		ParamType::Address => { let w = peek(d, o, 32)?; (Token::Address(Address::from_slice(&w[12..])), o + 32) },
		ParamType::Uint(_) => (Token::Uint(Uint::from_big_endian(peek(d, o, 32)?)), o + 32),
		ParamType::Int(_) => (Token::Int(Uint::from_big_endian(peek(d, o, 32)?)), o + 32),
		ParamType::Bool => { let w = peek(d, o, 32)?; if w[..31].iter().any(|b| *b != 0) { return Err(Error::InvalidData) } (Token::Bool(w[31] == 1), o + 32) },
		ParamType::FixedBytes(n) => { let w = peek(d, o, (*n + 31) / 32 * 32)?; (Token::FixedBytes(w[..*n].to_vec()), o + (*n + 31) / 32 * 32) },
		ParamType::Bytes => { let at = off(o)?; let l = off(at)?; (Token::Bytes(peek(d, at + 32, l)?.to_vec()), o + 32) },
		ParamType::String => { let at = off(o)?; let l = off(at)?; (Token::String(String::from_utf8_lossy(peek(d, at + 32, l)?).into_owned()), o + 32) },
		ParamType::Array(t) => { let at = off(o)?; let l = off(at)?; let tail = d.get(at + 32..).ok_or(Error::InvalidData)?; let mut v = vec![]; let mut no = 0; for _ in 0..l { let (k, n) = one(t, tail, no)?; v.push(k); no = n } (Token::Array(v), o + 32) },
		ParamType::FixedArray(t, l) => { let (tail, mut no) = if p.is_dynamic() { (d.get(off(o)?..).ok_or(Error::InvalidData)?, 0) } else { (d, o) }; let mut v = vec![]; for _ in 0..*l { let (k, n) = one(t, tail, no)?; v.push(k); no = n } (Token::FixedArray(v), if p.is_dynamic() { o + 32 } else { no }) },
		ParamType::Tuple(ts) => { let (tail, mut no) = if p.is_dynamic() { (d.get(off(o)?..).ok_or(Error::InvalidData)?, 0) } else { (d, o) }; let mut v = vec![]; for t in ts { let (k, n) = one(t, tail, no)?; v.push(k); no = n } (Token::Tuple(v), if p.is_dynamic() { o + 32 } else { no }) },
	})
}
pub fn decode(types: &[ParamType], data: &[u8]) -> Result<Vec<Token>, Error> { let mut v = vec![]; let mut o = 0; if !types.is_empty() && data.is_empty() { return Err(Error::InvalidData) } for p in types { let (t, n) = one(p, data, o)?; v.push(t); o = n } Ok(v) }
