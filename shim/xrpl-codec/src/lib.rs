//! Stand-in for the XRPL transaction codec: it writes the XRPL binary format
//! for the few transaction kinds the bridge produces.
extern crate alloc;

pub mod traits {
	pub trait BinarySerialize {
		fn binary_serialize(&self, for_signing: bool) -> alloc::vec::Vec<u8>;
	}
}

pub mod types {
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub struct AccountIdType(pub [u8; 20]);

	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub enum CurrencyCodeType {
		Standard([u8; 3]),
		NonStandard([u8; 20]),
	}
	impl CurrencyCodeType {
		pub fn is_valid(&self) -> bool {
			match self {
				Self::Standard(c) =>
					c != b"XRP"
						&& c.iter().all(|b| b.is_ascii_alphanumeric() || b"?!@#$%^&*<>(){}[]|".contains(b)),
				Self::NonStandard(c) => c[0] != 0,
			}
		}
		pub fn to_bytes(&self) -> [u8; 20] {
			match self {
				Self::Standard(c) => {
					let mut o = [0u8; 20];
					o[12..15].copy_from_slice(c);
					o
				},
				Self::NonStandard(c) => *c,
			}
		}
	}

	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub enum Error {
		OutOfRange,
		InvalidCurrency,
	}

	pub const MIN_MANTISSA: u64 = 1_000_000_000_000_000;
	pub const MAX_MANTISSA: u64 = 9_999_999_999_999_999;

	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub struct IssuedValueType {
		pub mantissa: i64,
		pub exponent: i8,
	}
	impl IssuedValueType {
		pub fn from_mantissa_exponent(mantissa: i64, exponent: i8) -> Result<Self, Error> {
			if mantissa == 0 {
				return Ok(Self { mantissa: 0, exponent: 0 });
			}
			let neg = mantissa < 0;
			let mut m = mantissa.unsigned_abs();
			let mut e = exponent as i32;
			while m < MIN_MANTISSA {
				m *= 10;
				e -= 1;
			}
			while m > MAX_MANTISSA {
				m /= 10;
				e += 1;
			}
			if !(-96..=80).contains(&e) {
				return Err(Error::OutOfRange);
			}
			Ok(Self { mantissa: if neg { -(m as i64) } else { m as i64 }, exponent: e as i8 })
		}
	}

	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub struct IssuedAmountType {
		pub value: IssuedValueType,
		pub currency: CurrencyCodeType,
		pub issuer: AccountIdType,
	}
	impl IssuedAmountType {
		pub fn from_issued_value(
			value: IssuedValueType,
			currency: CurrencyCodeType,
			issuer: AccountIdType,
		) -> Result<Self, Error> {
			if !currency.is_valid() {
				return Err(Error::InvalidCurrency);
			}
			Ok(Self { value, currency, issuer })
		}
	}

	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub enum AmountType {
		Drops(u64),
		Issued(IssuedAmountType),
	}
}

pub mod field {
	use crate::types::AmountType;
	use alloc::vec::Vec;
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub struct Amount(pub AmountType);
	impl Amount {
		pub fn put(&self, out: &mut Vec<u8>) {
			match &self.0 {
				AmountType::Drops(d) => {
					out.extend_from_slice(&(*d | 0x4000_0000_0000_0000).to_be_bytes())
				},
				AmountType::Issued(i) => {
					let mut v: u64 = 0x8000_0000_0000_0000;
					if i.value.mantissa != 0 {
						if i.value.mantissa > 0 {
							v |= 0x4000_0000_0000_0000;
						}
						v |= ((i.value.exponent as i64 + 97) as u64) << 54;
						v |= i.value.mantissa.unsigned_abs();
					}
					out.extend_from_slice(&v.to_be_bytes());
					out.extend_from_slice(&i.currency.to_bytes());
					out.extend_from_slice(&i.issuer.0);
				},
			}
		}
	}
}

pub mod transaction {
	use crate::{
		field::Amount,
		traits::BinarySerialize,
		types::AmountType,
	};
	use alloc::vec::Vec;

	/// (field header, encoded value), kept in the canonical order
	#[derive(Debug, Clone, Default)]
	pub struct Fields(Vec<(u16, u16, Vec<u8>)>);
	impl Fields {
		fn add(mut self, ty: u16, field: u16, v: Vec<u8>) -> Self {
			self.0.push((ty, field, v));
			self
		}
		fn u16(self, f: u16, v: u16) -> Self {
			self.add(1, f, v.to_be_bytes().to_vec())
		}
		fn u32(self, f: u16, v: u32) -> Self {
			self.add(2, f, v.to_be_bytes().to_vec())
		}
		fn account(self, f: u16, v: [u8; 20]) -> Self {
			let mut o = alloc::vec![20u8];
			o.extend_from_slice(&v);
			self.add(8, f, o)
		}
		fn amount(self, f: u16, v: Amount) -> Self {
			let mut o = Vec::new();
			v.put(&mut o);
			self.add(6, f, o)
		}
		fn key(self, k: Option<[u8; 33]>) -> Self {
			match k {
				Some(k) => {
					let mut o = alloc::vec![33u8];
					o.extend_from_slice(&k);
					self.add(7, 3, o)
				},
				None => self.add(7, 3, alloc::vec![0u8]),
			}
		}
		fn finish(&self, for_signing: bool) -> Vec<u8> {
			let mut f = self.0.clone();
			f.sort_by_key(|x| (x.0, x.1));
			let mut out = Vec::new();
			if for_signing {
				// multi-signing prefix
				out.extend_from_slice(&[0x53, 0x4D, 0x54, 0x00]);
			}
			for (t, n, v) in f {
				header(&mut out, t, n);
				out.extend_from_slice(&v);
			}
			out
		}
	}
	fn header(out: &mut Vec<u8>, t: u16, n: u16) {
		match (t < 16, n < 16) {
			(true, true) => out.push(((t << 4) | n) as u8),
			(true, false) => out.extend_from_slice(&[(t << 4) as u8, n as u8]),
			(false, true) => out.extend_from_slice(&[n as u8, t as u8]),
			(false, false) => out.extend_from_slice(&[0, t as u8, n as u8]),
		}
	}
	fn common(
		kind: u16,
		flags: u32,
		account: [u8; 20],
		nonce: u32,
		ticket: u32,
		fee: u64,
		source_tag: u32,
		key: Option<[u8; 33]>,
	) -> Fields {
		Fields::default()
			.u16(2, kind)
			.u32(2, flags)
			.u32(3, source_tag)
			.u32(4, nonce)
			.u32(41, ticket)
			.amount(8, Amount(AmountType::Drops(fee)))
			.key(key)
			.account(1, account)
	}
	macro_rules! ser { ($($t:ident),*) => { $(
		#[derive(Debug, Clone)]
		pub struct $t(Fields);
		impl BinarySerialize for $t {
			fn binary_serialize(&self, for_signing: bool) -> Vec<u8> { self.0.finish(for_signing) }
		}
	)* } }
	ser!(Payment, PaymentWithDestinationTag, PaymentAltCurrency, PaymentAltCurrencyWithDestinationTag, SignerListSet, NFTokenAcceptOffer, NFTokenCreateOffer);

	const CANONICAL: u32 = 0x8000_0000;
	type Key = Option<[u8; 33]>;

	impl Payment {
		pub fn new(account: [u8; 20], destination: [u8; 20], amount: u64, nonce: u32, ticket: u32, fee: u64, source_tag: u32, key: Key) -> Self {
			Self(common(0, CANONICAL, account, nonce, ticket, fee, source_tag, key)
				.amount(1, Amount(AmountType::Drops(amount)))
				.account(3, destination))
		}
	}
	impl PaymentWithDestinationTag {
		pub fn new(account: [u8; 20], destination: [u8; 20], amount: u64, nonce: u32, ticket: u32, fee: u64, source_tag: u32, destination_tag: u32, key: Key) -> Self {
			Self(Payment::new(account, destination, amount, nonce, ticket, fee, source_tag, key).0.u32(14, destination_tag))
		}
	}
	impl PaymentAltCurrency {
		pub fn new(account: [u8; 20], destination: [u8; 20], amount: Amount, nonce: u32, ticket: u32, fee: u64, source_tag: u32, key: Key) -> Self {
			Self(common(0, CANONICAL, account, nonce, ticket, fee, source_tag, key)
				.amount(1, amount)
				.account(3, destination))
		}
	}
	impl PaymentAltCurrencyWithDestinationTag {
		pub fn new(account: [u8; 20], destination: [u8; 20], amount: Amount, nonce: u32, ticket: u32, fee: u64, source_tag: u32, destination_tag: u32, key: Key) -> Self {
			Self(PaymentAltCurrency::new(account, destination, amount, nonce, ticket, fee, source_tag, key).0.u32(14, destination_tag))
		}
	}
	impl SignerListSet {
		pub fn new(account: [u8; 20], fee: u64, nonce: u32, ticket: u32, quorum: u32, entries: Vec<([u8; 20], u16)>, source_tag: u32, key: Key) -> Self {
			let mut o = Vec::new();
			for (a, w) in entries {
				header(&mut o, 14, 11);
				header(&mut o, 1, 3);
				o.extend_from_slice(&w.to_be_bytes());
				header(&mut o, 8, 1);
				o.push(20);
				o.extend_from_slice(&a);
				o.push(0xE1);
			}
			o.push(0xF1);
			Self(common(12, CANONICAL, account, nonce, ticket, fee, source_tag, key).u32(35, quorum).add(15, 4, o))
		}
	}
	impl NFTokenAcceptOffer {
		pub fn new(account: [u8; 20], sell_offer: [u8; 32], nonce: u32, ticket: u32, fee: u64, source_tag: u32, key: Key) -> Self {
			Self(common(29, CANONICAL, account, nonce, ticket, fee, source_tag, key).add(5, 29, sell_offer.to_vec()))
		}
	}
	impl NFTokenCreateOffer {
		pub fn new(account: [u8; 20], destination: [u8; 20], token: [u8; 32], amount: u64, nonce: u32, ticket: u32, fee: u64, source_tag: u32, key: Key) -> Self {
			Self(common(27, CANONICAL | 1, account, nonce, ticket, fee, source_tag, key)
				.add(5, 10, token.to_vec())
				.amount(1, Amount(AmountType::Drops(amount)))
				.account(3, destination))
		}
	}
}

pub mod utils {
	use ripemd::{Digest as _, Ripemd160};
	use sha2::{Digest as _, Sha256, Sha512};
	/// XRPL account id of a public key: RIPEMD160(SHA256(key))
	pub fn account_id(public_key: &[u8]) -> [u8; 20] {
		let h = Sha256::digest(public_key);
		let mut r = Ripemd160::new();
		r.update(&h);
		let o = r.finalize();
		let mut out = [0u8; 20];
		out.copy_from_slice(&o[..]);
		out
	}
	/// half-SHA512 of the multi-signing message for `public_key`
	pub fn digest_for_multi_signing_pre(tx: &[u8], public_key: [u8; 33]) -> [u8; 32] {
		let mut h = Sha512::new();
		h.update(tx);
		h.update(account_id(&public_key));
		let o = h.finalize();
		let mut out = [0u8; 32];
		out.copy_from_slice(&o[..32]);
		out
	}
}
