use codec::{Decode, Encode};
use crate::DispatchError;
pub type TransactionPriority = u64; pub type TransactionLongevity = u64; pub type TransactionTag = Vec<u8>;
#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug)]
pub enum InvalidTransaction { Call, Payment, Future, Stale, BadProof, AncientBirthBlock, ExhaustsResources, Custom(u8), BadMandatory, MandatoryValidation, BadSigner }
impl InvalidTransaction { pub fn exhausted_resources(&self) -> bool { matches!(self, Self::ExhaustsResources) } pub fn was_mandatory(&self) -> bool { matches!(self, Self::BadMandatory) } }
impl From<InvalidTransaction> for &'static str { fn from(_: InvalidTransaction) -> &'static str { "InvalidTransaction" } }
#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug)] pub enum UnknownTransaction { CannotLookup, NoUnsignedValidator, Custom(u8) }
#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug)] pub enum TransactionValidityError { Invalid(InvalidTransaction), Unknown(UnknownTransaction) }
impl TransactionValidityError { pub fn exhausted_resources(&self) -> bool { matches!(self, Self::Invalid(e) if e.exhausted_resources()) } pub fn was_mandatory(&self) -> bool { matches!(self, Self::Invalid(e) if e.was_mandatory()) } }
impl From<InvalidTransaction> for TransactionValidityError { fn from(e: InvalidTransaction) -> Self { Self::Invalid(e) } }
impl From<UnknownTransaction> for TransactionValidityError { fn from(e: UnknownTransaction) -> Self { Self::Unknown(e) } }
impl std::fmt::Display for TransactionValidityError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for TransactionValidityError {}
pub type TransactionValidity = Result<ValidTransaction, TransactionValidityError>;
impl From<InvalidTransaction> for TransactionValidity { fn from(e: InvalidTransaction) -> Self { Err(e.into()) } }
impl From<UnknownTransaction> for TransactionValidity { fn from(e: UnknownTransaction) -> Self { Err(e.into()) } }
#[derive(PartialEq, Eq, Clone, Copy, Debug, Encode, Decode)] pub enum TransactionSource { InBlock, Local, External }
#[derive(Clone, PartialEq, Eq, Encode, Decode, Debug)]
pub struct ValidTransaction { pub priority: TransactionPriority, pub requires: Vec<TransactionTag>, pub provides: Vec<TransactionTag>, pub longevity: TransactionLongevity, pub propagate: bool }
impl Default for ValidTransaction { fn default() -> Self { Self { priority: 0, requires: vec![], provides: vec![], longevity: u64::MAX, propagate: true } } }
impl ValidTransaction {
	pub fn with_tag_prefix(p: &'static str) -> ValidTransactionBuilder { ValidTransactionBuilder { prefix: Some(p), validity: Default::default() } }
	pub fn combine_with(mut self, mut o: ValidTransaction) -> Self { Self { priority: self.priority.saturating_add(o.priority), requires: { self.requires.append(&mut o.requires); self.requires }, provides: { self.provides.append(&mut o.provides); self.provides }, longevity: self.longevity.min(o.longevity), propagate: self.propagate && o.propagate } }
}
#[derive(Default, Clone, Debug)] pub struct ValidTransactionBuilder { prefix: Option<&'static str>, validity: ValidTransaction }
impl ValidTransactionBuilder {
	pub fn priority(mut self, p: u64) -> Self { self.validity.priority = p; self } pub fn longevity(mut self, p: u64) -> Self { self.validity.longevity = p; self } pub fn propagate(mut self, p: bool) -> Self { self.validity.propagate = p; self }
	fn tag(p: Option<&str>, t: impl Encode) -> Vec<u8> { match p { Some(p) => (p, t).encode(), None => t.encode() } }
	pub fn and_requires(mut self, t: impl Encode) -> Self { let x = Self::tag(self.prefix, t); self.validity.requires.push(x); self }
	pub fn and_provides(mut self, t: impl Encode) -> Self { let x = Self::tag(self.prefix, t); self.validity.provides.push(x); self }
	pub fn combine_with(mut self, v: ValidTransaction) -> Self { self.validity = self.validity.combine_with(v); self }
	pub fn build(self) -> TransactionValidity { self.into() }
}
impl From<ValidTransactionBuilder> for TransactionValidity { fn from(b: ValidTransactionBuilder) -> Self { Ok(b.validity) } }
impl From<ValidTransactionBuilder> for ValidTransaction { fn from(b: ValidTransactionBuilder) -> Self { b.validity } }
#[allow(unused)] fn _d(_: DispatchError) {}
