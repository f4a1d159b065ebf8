use crate::{traits::{self, *}, transaction_validity::*, ConsensusEngineId, OpaqueExtrinsic};
use codec::{Compact, Decode, Encode, EncodeLike, Error, Input, MaxEncodedLen, Output};
use std::fmt::Debug;
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum OpaqueDigestItemId<'a> { PreRuntime(&'a ConsensusEngineId), Consensus(&'a ConsensusEngineId), Seal(&'a ConsensusEngineId), Other }
#[derive(PartialEq, Eq, Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum DigestItem { PreRuntime(ConsensusEngineId, Vec<u8>), Consensus(ConsensusEngineId, Vec<u8>), Seal(ConsensusEngineId, Vec<u8>), Other(Vec<u8>), RuntimeEnvironmentUpdated }
impl Encode for DigestItem { fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { match self { Self::Other(v) => { d.push_byte(0); v.encode_to(d) }, Self::Consensus(i, v) => { d.push_byte(4); (i, v).encode_to(d) }, Self::Seal(i, v) => { d.push_byte(5); (i, v).encode_to(d) }, Self::PreRuntime(i, v) => { d.push_byte(6); (i, v).encode_to(d) }, Self::RuntimeEnvironmentUpdated => d.push_byte(8) } } }
impl EncodeLike for DigestItem {}
impl Decode for DigestItem { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(match i.read_byte()? { 0 => Self::Other(Decode::decode(i)?), 4 => { let (a, b) = Decode::decode(i)?; Self::Consensus(a, b) }, 5 => { let (a, b) = Decode::decode(i)?; Self::Seal(a, b) }, 6 => { let (a, b) = Decode::decode(i)?; Self::PreRuntime(a, b) }, 8 => Self::RuntimeEnvironmentUpdated, _ => return Err("digest item".into()) }) } }
impl DigestItem {
	pub fn as_pre_runtime(&self) -> Option<(ConsensusEngineId, &[u8])> { if let Self::PreRuntime(i, v) = self { Some((*i, v)) } else { None } } pub fn as_consensus(&self) -> Option<(ConsensusEngineId, &[u8])> { if let Self::Consensus(i, v) = self { Some((*i, v)) } else { None } } pub fn as_seal(&self) -> Option<(ConsensusEngineId, &[u8])> { if let Self::Seal(i, v) = self { Some((*i, v)) } else { None } } pub fn as_other(&self) -> Option<&[u8]> { if let Self::Other(v) = self { Some(v) } else { None } }
	pub fn try_as_raw(&self, id: OpaqueDigestItemId) -> Option<&[u8]> { match (id, self) { (OpaqueDigestItemId::PreRuntime(w), Self::PreRuntime(i, v)) | (OpaqueDigestItemId::Consensus(w), Self::Consensus(i, v)) | (OpaqueDigestItemId::Seal(w), Self::Seal(i, v)) if w == i => Some(v), (OpaqueDigestItemId::Other, Self::Other(v)) => Some(v), _ => None } }
	pub fn try_to<T: Decode>(&self, id: OpaqueDigestItemId) -> Option<T> { self.try_as_raw(id).and_then(|mut x| T::decode(&mut x).ok()) }
	pub fn consensus_try_to<T: Decode>(&self, id: &ConsensusEngineId) -> Option<T> { self.try_to(OpaqueDigestItemId::Consensus(id)) } pub fn pre_runtime_try_to<T: Decode>(&self, id: &ConsensusEngineId) -> Option<T> { self.try_to(OpaqueDigestItemId::PreRuntime(id)) } pub fn seal_try_to<T: Decode>(&self, id: &ConsensusEngineId) -> Option<T> { self.try_to(OpaqueDigestItemId::Seal(id)) }
}
#[derive(PartialEq, Eq, Clone, Debug, Default, Encode, Decode, serde::Serialize, serde::Deserialize)] pub struct Digest { pub logs: Vec<DigestItem> }
impl Digest { pub fn logs(&self) -> &[DigestItem] { &self.logs } pub fn push(&mut self, i: DigestItem) { self.logs.push(i) } pub fn pop(&mut self) -> Option<DigestItem> { self.logs.pop() } pub fn log<T: ?Sized, F: Fn(&DigestItem) -> Option<&T>>(&self, p: F) -> Option<&T> { self.logs().iter().find_map(p) } pub fn convert_first<T, F: Fn(&DigestItem) -> Option<T>>(&self, p: F) -> Option<T> { self.logs().iter().find_map(p) } }
#[derive(PartialEq, Eq, Clone, Debug)]
pub struct Header<Number: Copy + Into<u64>, H: traits::Hash> { pub parent_hash: H::Output, pub number: Number, pub state_root: H::Output, pub extrinsics_root: H::Output, pub digest: Digest }
impl<N: Copy + Into<u64> + codec::HasCompact, H: traits::Hash> Encode for Header<N, H> { fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { self.parent_hash.encode_to(d); codec::HasCompact::compact_encode_to(&self.number, d); self.state_root.encode_to(d); self.extrinsics_root.encode_to(d); self.digest.encode_to(d) } }
impl<N: Copy + Into<u64> + codec::HasCompact, H: traits::Hash> EncodeLike for Header<N, H> {}
impl<N: Copy + Into<u64> + codec::HasCompact, H: traits::Hash> Decode for Header<N, H> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(Header { parent_hash: Decode::decode(i)?, number: codec::HasCompact::compact_decode(i)?, state_root: Decode::decode(i)?, extrinsics_root: Decode::decode(i)?, digest: Decode::decode(i)? }) } }
impl<N, H: traits::Hash> traits::Header for Header<N, H> where N: traits::BlockNumber + Copy + Into<u64> + codec::HasCompact {
	type Number = N; type Hash = H::Output; type Hashing = H;
	fn new(number: N, extrinsics_root: H::Output, state_root: H::Output, parent_hash: H::Output, digest: Digest) -> Self { Self { number, extrinsics_root, state_root, parent_hash, digest } }
	fn number(&self) -> &N { &self.number } fn set_number(&mut self, n: N) { self.number = n } fn extrinsics_root(&self) -> &H::Output { &self.extrinsics_root } fn set_extrinsics_root(&mut self, r: H::Output) { self.extrinsics_root = r } fn state_root(&self) -> &H::Output { &self.state_root } fn set_state_root(&mut self, r: H::Output) { self.state_root = r } fn parent_hash(&self) -> &H::Output { &self.parent_hash } fn set_parent_hash(&mut self, r: H::Output) { self.parent_hash = r } fn digest(&self) -> &Digest { &self.digest } fn digest_mut(&mut self) -> &mut Digest { &mut self.digest }
}
#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode)] pub struct Block<H, E> { pub header: H, pub extrinsics: Vec<E> }
impl<H: traits::Header + 'static, E: traits::Extrinsic + Encode + Decode + Eq + Clone + Debug + Send + Sync + 'static> traits::Block for Block<H, E> { type Extrinsic = E; type Header = H; type Hash = H::Hash; fn header(&self) -> &H { &self.header } fn extrinsics(&self) -> &[E] { &self.extrinsics } fn deconstruct(self) -> (H, Vec<E>) { (self.header, self.extrinsics) } fn new(header: H, extrinsics: Vec<E>) -> Self { Block { header, extrinsics } } }
#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode)] pub struct SignedBlock<B> { pub block: B, pub justifications: Option<crate::Justifications> }
#[derive(PartialEq, Eq, Clone, Debug)] pub enum BlockId<B: traits::Block> { Hash(B::Hash), Number(traits::NumberFor<B>) }
impl<B: traits::Block> BlockId<B> { pub fn hash(h: B::Hash) -> Self { BlockId::Hash(h) } pub fn number(n: traits::NumberFor<B>) -> Self { BlockId::Number(n) } }
#[derive(PartialEq, Eq, Clone, Copy, Debug)] pub enum Era { Immortal, Mortal(u64, u64) }
impl Era {
	pub fn mortal(period: u64, current: u64) -> Self { let period = period.checked_next_power_of_two().unwrap_or(1 << 16).clamp(4, 1 << 16); let phase = current % period; let qf = (period >> 12).max(1); Era::Mortal(period, phase / qf * qf) }
	pub fn immortal() -> Self { Era::Immortal } pub fn is_immortal(&self) -> bool { matches!(self, Era::Immortal) }
	pub fn birth(self, current: u64) -> u64 { match self { Era::Immortal => 0, Era::Mortal(p, ph) => (current.max(ph) - ph) / p * p + ph } }
	pub fn death(self, current: u64) -> u64 { match self { Era::Immortal => u64::MAX, Era::Mortal(p, _) => self.birth(current) + p } }
}
impl Encode for Era { fn encode_to<T: Output + ?Sized>(&self, o: &mut T) { match self { Era::Immortal => o.push_byte(0), Era::Mortal(p, ph) => { let qf = (*p >> 12).max(1); let e = (p.trailing_zeros() - 1).clamp(1, 15) as u16 | ((ph / qf) << 4) as u16; e.encode_to(o) } } } }
impl EncodeLike for Era {}
impl Decode for Era { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { let f = i.read_byte()?; if f == 0 { Ok(Era::Immortal) } else { let e = f as u64 + ((i.read_byte()? as u64) << 8); let p = 2 << (e % (1 << 4)); let qf = (p >> 12).max(1); let ph = (e >> 4) * qf; if p >= 4 && ph < p { Ok(Era::Mortal(p, ph)) } else { Err("Invalid period and phase".into()) } } } }
#[derive(PartialEq, Eq, Clone, Debug)]
pub struct UncheckedExtrinsic<A, C, S, E> { pub signature: Option<(A, S, E)>, pub function: C }
impl<A, C, S, E> UncheckedExtrinsic<A, C, S, E> { pub fn new_signed(function: C, a: A, s: S, e: E) -> Self { Self { signature: Some((a, s, e)), function } } pub fn new_unsigned(function: C) -> Self { Self { signature: None, function } } }
impl<A, C, S, E: SignedExtension> traits::Extrinsic for UncheckedExtrinsic<A, C, S, E> { type Call = C; type SignaturePayload = (A, S, E); fn is_signed(&self) -> Option<bool> { Some(self.signature.is_some()) } fn new(f: C, s: Option<(A, S, E)>) -> Option<Self> { Some(Self { signature: s, function: f }) } }
impl<A, C, S, E: SignedExtension> traits::ExtrinsicMetadata for UncheckedExtrinsic<A, C, S, E> { const VERSION: u8 = 4; type SignedExtensions = E; }
impl<A: Encode, C: Encode, S: Encode, E: Encode> Encode for UncheckedExtrinsic<A, C, S, E> { fn encode(&self) -> Vec<u8> { let mut t = vec![]; match &self.signature { Some(s) => { t.push(0x84); s.encode_to(&mut t) }, None => t.push(4) } self.function.encode_to(&mut t); let mut o = vec![]; Compact(t.len() as u32).encode_to(&mut o); o.extend(t); o } fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { let e = self.encode(); d.write(&e) } }
impl<A: Encode, C: Encode, S: Encode, E: Encode> EncodeLike for UncheckedExtrinsic<A, C, S, E> {}
impl<A: Decode, C: Decode, S: Decode, E: Decode> Decode for UncheckedExtrinsic<A, C, S, E> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { let _l = Compact::<u32>::decode(i)?; let v = i.read_byte()?; if v & 0x7f != 4 { return Err("Invalid transaction version".into()) } let signature = if v & 0x80 != 0 { Some(Decode::decode(i)?) } else { None }; Ok(Self { signature, function: Decode::decode(i)? }) } }
impl<A, C: Encode, S: Verify, E: SignedExtension, L> traits::Checkable<L> for UncheckedExtrinsic<A, C, S, E> where C: Encode + traits::Member, A: traits::Member + traits::MaybeDisplay2, S: traits::Member + Verify, <S::Signer as IdentifyAccount>::AccountId: traits::Member, E: SignedExtension<AccountId = <S::Signer as IdentifyAccount>::AccountId>, L: traits::Lookup<Source = A, Target = <S::Signer as IdentifyAccount>::AccountId> {
	type Checked = CheckedExtrinsic<<S::Signer as IdentifyAccount>::AccountId, C, E>;
	fn check(self, lookup: &L) -> Result<Self::Checked, TransactionValidityError> { Ok(match self.signature { Some((a, s, e)) => { let who = lookup.lookup(a).map_err(|_| TransactionValidityError::Unknown(UnknownTransaction::CannotLookup))?; let p = SignedPayload::new(self.function, e)?; if !p.using_encoded(|b| s.verify(b, &who)) { return Err(InvalidTransaction::BadProof.into()) } let (f, e, _) = p.deconstruct(); CheckedExtrinsic { signed: Some((who, e)), function: f } }, None => CheckedExtrinsic { signed: None, function: self.function } }) }
}
#[derive(PartialEq, Eq, Clone, Debug)] pub struct CheckedExtrinsic<A, C, E> { pub signed: Option<(A, E)>, pub function: C }
impl<A, C, E, O> traits::Applyable for CheckedExtrinsic<A, C, E> where A: traits::Member, C: traits::Member + Dispatchable<RuntimeOrigin = O>, E: SignedExtension<AccountId = A, Call = C>, O: From<Option<A>> {
	type Call = C;
	fn validate<U: ValidateUnsigned<Call = C>>(&self, source: TransactionSource, info: &DispatchInfoOf<C>, len: usize) -> TransactionValidity { match &self.signed { Some((id, e)) => e.validate(id, &self.function, info, len), None => { let v = E::validate_unsigned(&self.function, info, len)?; let u = U::validate_unsigned(source, &self.function)?; Ok(v.combine_with(u)) } } }
	fn apply<U: ValidateUnsigned<Call = C>>(self, info: &DispatchInfoOf<C>, len: usize) -> crate::ApplyExtrinsicResultWithInfo<PostDispatchInfoOf<C>> { let (who, pre) = match self.signed { Some((id, e)) => { let p = e.pre_dispatch(&id, &self.function, info, len)?; (Some(id), Some(p)) }, None => { E::pre_dispatch_unsigned(&self.function, info, len)?; U::pre_dispatch(&self.function)?; (None, None) } };
		let res = self.function.dispatch(O::from(who)); let post = match res { Ok(i) => i, Err(e) => e.post_info }; E::post_dispatch(pre, info, &post, len, &res.map(|_| ()).map_err(|e| e.error))?; Ok(res) }
}
pub struct SignedPayload<C, E: SignedExtension>((C, E, E::AdditionalSigned));
impl<C: Encode, E: SignedExtension> SignedPayload<C, E> { pub fn new(c: C, e: E) -> Result<Self, TransactionValidityError> { let a = e.additional_signed()?; Ok(Self((c, e, a))) } pub fn from_raw(c: C, e: E, a: E::AdditionalSigned) -> Self { Self((c, e, a)) } pub fn deconstruct(self) -> (C, E, E::AdditionalSigned) { self.0 } }
impl<C: Encode, E: SignedExtension> Encode for SignedPayload<C, E> { fn encode_to<W: Output + ?Sized>(&self, d: &mut W) { let e = (&self.0 .0, &self.0 .1, &self.0 .2).encode(); if e.len() > 256 { d.write(&sp_io::hashing::blake2_256(&e)) } else { d.write(&e) } } }
#[allow(unused)] fn _x<T: MaxEncodedLen>(_: OpaqueExtrinsic) {}
