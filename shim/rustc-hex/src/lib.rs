//! Stand-in for `rustc-hex`.
pub trait ToHex { fn to_hex<T: std::iter::FromIterator<char>>(&self) -> T; }
impl<U: ?Sized + AsRef<[u8]>> ToHex for U { fn to_hex<T: std::iter::FromIterator<char>>(&self) -> T { self.as_ref().iter().flat_map(|b| { let s = format!("{:02x}", b); s.chars().collect::<Vec<_>>() }).collect() } }
#[derive(Debug, Clone, PartialEq)] pub enum FromHexError { InvalidHexCharacter(char, usize), InvalidHexLength }
pub trait FromHex { fn from_hex<T: std::iter::FromIterator<u8>>(&self) -> Result<T, FromHexError>; }
impl FromHex for str { fn from_hex<T: std::iter::FromIterator<u8>>(&self) -> Result<T, FromHexError> { let c: Vec<char> = self.chars().collect(); if c.len() % 2 != 0 { return Err(FromHexError::InvalidHexLength) } c.chunks(2).enumerate().map(|(i, p)| { let h = p[0].to_digit(16).ok_or(FromHexError::InvalidHexCharacter(p[0], 2 * i))?; let l = p[1].to_digit(16).ok_or(FromHexError::InvalidHexCharacter(p[1], 2 * i + 1))?; Ok((h * 16 + l) as u8) }).collect() } }
