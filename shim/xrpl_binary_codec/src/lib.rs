//! Stand-in for `xrpl_binary_codec`: the XRPL binary format for the field types a transaction envelope uses.
#![allow(clippy::all)]
#[derive(Debug, Clone, PartialEq, Eq)] pub enum Error { InsufficientBytes, UnknownField(u16, u16), InvalidLength, TooDeep }
pub mod serializer {
	pub mod field_id { #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum TypeCode { Object, Array } }
	pub mod field_info {
		/// (type code, field code) -> JSON name
		pub type FieldInfo = &'static [((u16, u16), &'static str)];
		pub fn field_info_lookup() -> FieldInfo { &[
			((1, 2), "TransactionType"), ((2, 1), "NetworkID"), ((2, 2), "Flags"), ((2, 3), "SourceTag"), ((2, 4), "Sequence"), ((2, 14), "DestinationTag"), ((2, 27), "LastLedgerSequence"), ((2, 41), "TicketSequence"),
			((5, 9), "AccountTxnID"), ((5, 17), "InvoiceID"), ((6, 1), "Amount"), ((6, 8), "Fee"), ((7, 3), "SigningPubKey"), ((7, 4), "TxnSignature"), ((7, 12), "MemoType"), ((7, 13), "MemoData"), ((7, 14), "MemoFormat"),
			((8, 1), "Account"), ((8, 3), "Destination"), ((14, 10), "Memo"), ((15, 9), "Memos")] }
	}
	#[derive(Default)] pub struct Serializer(Vec<u8>);
	impl Serializer { pub fn new() -> Self { Self(vec![]) } pub fn into_bytes(self) -> Result<Vec<u8>, crate::Error> { Ok(self.0) } }
	impl xrpl_types::serialize::Sink for Serializer {
		fn field(&mut self, t: u16, f: u16, b: &[u8]) {
			match (t < 16, f < 16) { (true, true) => self.0.push((t << 4 | f) as u8), (true, false) => self.0.extend([(t << 4) as u8, f as u8]), (false, true) => self.0.extend([f as u8, t as u8]), _ => self.0.extend([0, t as u8, f as u8]) }
			self.0.extend_from_slice(b)
		}
		fn blob(&mut self, t: u16, f: u16, b: &[u8]) -> Result<(), xrpl_types::Error> {
			let n = b.len(); let l: Vec<u8> = if n <= 192 { vec![n as u8] } else if n <= 12480 { let m = n - 193; vec![193 + (m >> 8) as u8, m as u8] } else if n <= 918744 { let m = n - 12481; vec![241 + (m >> 16) as u8, (m >> 8) as u8, m as u8] } else { return Err(xrpl_types::Error) };
			self.field(t, f, &l); self.0.extend_from_slice(b); Ok(())
		}
	}
}
pub mod deserializer {
	use super::{serializer::{field_id::TypeCode, field_info::FieldInfo}, Error};
	use serde_json::{Map, Value};
	pub struct Deserializer { data: Vec<u8>, pos: usize, info: FieldInfo }
	impl Deserializer {
		pub fn new(data: Vec<u8>, info: FieldInfo) -> Self { Self { data, pos: 0, info } }
		fn take(&mut self, n: usize) -> Result<Vec<u8>, Error> { let e = self.pos.checked_add(n).ok_or(Error::InsufficientBytes)?; let r = self.data.get(self.pos..e).ok_or(Error::InsufficientBytes)?.to_vec(); self.pos = e; Ok(r) }
		fn byte(&mut self) -> Result<u8, Error> { Ok(self.take(1)?[0]) }
		fn id(&mut self) -> Result<(u16, u16), Error> { let b = self.byte()?; let (mut t, mut f) = ((b >> 4) as u16, (b & 15) as u16); if t == 0 { t = self.byte()? as u16 } if f == 0 { f = self.byte()? as u16 } Ok((t, f)) }
		fn len(&mut self) -> Result<usize, Error> { let a = self.byte()? as usize; Ok(if a <= 192 { a } else if a <= 240 { 193 + (a - 193) * 256 + self.byte()? as usize } else if a <= 254 { let b = self.byte()? as usize; let c = self.byte()? as usize; 12481 + (a - 241) * 65536 + b * 256 + c } else { return Err(Error::InvalidLength) }) }
		fn uint(&mut self, n: usize) -> Result<u64, Error> { Ok(self.take(n)?.iter().fold(0u64, |a, b| a << 8 | *b as u64)) }
		fn hex(&mut self, n: usize) -> Result<Value, Error> { Ok(Value::String(hex::encode_upper(self.take(n)?))) }
		fn value(&mut self, t: u16, depth: u8) -> Result<Value, Error> {
			if depth > 10 { return Err(Error::TooDeep) }
			Ok(match t {
				1 => self.uint(2)?.into(), 2 => self.uint(4)?.into(), 3 => self.hex(8)?, 4 => self.hex(16)?, 5 => self.hex(32)?, 16 => self.uint(1)?.into(), 17 => self.hex(20)?,
				6 => { let h = *self.data.get(self.pos).ok_or(Error::InsufficientBytes)?; if h & 0x80 == 0 { Value::String((self.uint(8)? & 0x3fff_ffff_ffff_ffff).to_string()) } else { self.hex(48)? } },
				7 => { let n = self.len()?; self.hex(n)? },
				8 => { let n = self.len()?; let b = self.take(n)?; Value::String(xrpl_types::AccountId(b.try_into().map_err(|_| Error::InvalidLength)?).to_address()) },
				14 => self.object(true, depth)?,
				15 => { let mut v = vec![]; loop { let (t, f) = self.id()?; if (t, f) == (15, 1) { break } let k = self.name(t, f)?; let mut m = Map::new(); let x = self.value(t, depth + 1)?; m.insert(k, x); v.push(Value::Object(m)); } Value::Array(v) },
				_ => return Err(Error::UnknownField(t, 0)),
			})
		}
		fn name(&self, t: u16, f: u16) -> Result<String, Error> { self.info.iter().find(|x| x.0 == (t, f)).map(|x| x.1.to_string()).ok_or(Error::UnknownField(t, f)) }
		fn object(&mut self, inner: bool, depth: u8) -> Result<Value, Error> {
			let mut m = Map::new();
			loop {
				if !inner && self.pos == self.data.len() { break }
				let (t, f) = self.id()?;
				if (t, f) == (14, 1) { if inner { break } return Err(Error::UnknownField(t, f)) }
				let k = self.name(t, f)?; let v = self.value(t, depth + 1)?; m.insert(k, v);
			}
			Ok(Value::Object(m))
		}
		pub fn to_json(&mut self, _t: &TypeCode, bytes: &[u8]) -> Result<Value, Error> { self.data = bytes.to_vec(); self.pos = 0; self.object(false, 0) }
	}
}
