//! U256/U512 and fixed hashes with the primitive-types API.
pub mod uint;
pub mod hash;
pub use uint::*;
pub use hash::*;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Error { Overflow }
pub fn to_hex(b: &[u8]) -> String { let mut s = String::with_capacity(b.len() * 2); for x in b { s.push_str(&format!("{:02x}", x)) } s }
pub fn from_hex(s: &str) -> Result<Vec<u8>, FromHexError> {
	let s = s.strip_prefix("0x").unwrap_or(s);
	let c: Vec<char> = s.chars().collect();
	if c.len() % 2 != 0 { return Err(FromHexError::InvalidHexLength) }
	c.chunks(2).enumerate().map(|(i, p)| { let h = p[0].to_digit(16).ok_or(FromHexError::InvalidHexCharacter(p[0], 2 * i))?; let l = p[1].to_digit(16).ok_or(FromHexError::InvalidHexCharacter(p[1], 2 * i + 1))?; Ok((h * 16 + l) as u8) }).collect()
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum FromHexError { InvalidHexCharacter(char, usize), InvalidHexLength }
impl std::fmt::Display for FromHexError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for FromHexError {}
