//! Stand-in for Frontier's `fp-self-contained`.
use codec::{Decode, Encode};
use frame_support::dispatch::{DispatchInfo, GetDispatchInfo};
use sp_runtime::{generic, traits::{self, Checkable, DispatchInfoOf, Dispatchable, IdentifyAccount, Lookup, PostDispatchInfoOf, SignedExtension, ValidateUnsigned, Verify, Applyable}, transaction_validity::*};
use std::fmt::Debug;
pub trait SelfContainedCall: Dispatchable {
	type SignedInfo;
	fn is_self_contained(&self) -> bool;
	fn check_self_contained(&self) -> Option<Result<Self::SignedInfo, TransactionValidityError>>;
	fn validate_self_contained(&self, info: &Self::SignedInfo, dispatch_info: &DispatchInfoOf<Self>, len: usize) -> Option<TransactionValidity>;
	fn pre_dispatch_self_contained(&self, info: &Self::SignedInfo, dispatch_info: &DispatchInfoOf<Self>, len: usize) -> Option<Result<(), TransactionValidityError>>;
	fn apply_self_contained(self, info: Self::SignedInfo, dispatch_info: &DispatchInfoOf<Self>, len: usize) -> Option<sp_runtime::DispatchResultWithInfo<PostDispatchInfoOf<Self>>>;
}
#[derive(PartialEq, Eq, Clone, Debug)]
pub struct UncheckedExtrinsic<A, C, S, E>(pub generic::UncheckedExtrinsic<A, C, S, E>);
impl<A, C, S, E> UncheckedExtrinsic<A, C, S, E> {
	pub fn new_signed(function: C, a: A, s: S, e: E) -> Self { Self(generic::UncheckedExtrinsic::new_signed(function, a, s, e)) }
	pub fn new_unsigned(function: C) -> Self { Self(generic::UncheckedExtrinsic::new_unsigned(function)) }
}
impl<A, C, S, E: SignedExtension> traits::Extrinsic for UncheckedExtrinsic<A, C, S, E> where C: SelfContainedCall { type Call = C; type SignaturePayload = (A, S, E);
	fn is_signed(&self) -> Option<bool> { Some(self.0.signature.is_some() || self.0.function.is_self_contained()) }
	fn new(f: C, s: Option<(A, S, E)>) -> Option<Self> { Some(Self(generic::UncheckedExtrinsic { signature: s, function: f })) } }
impl<A, C, S, E: SignedExtension> traits::ExtrinsicMetadata for UncheckedExtrinsic<A, C, S, E> { const VERSION: u8 = 4; type SignedExtensions = E; }
impl<A: Encode, C: Encode, S: Encode, E: Encode> Encode for UncheckedExtrinsic<A, C, S, E> { fn encode(&self) -> Vec<u8> { self.0.encode() } fn encode_to<W: codec::Output + ?Sized>(&self, d: &mut W) { self.0.encode_to(d) } }
impl<A: Encode, C: Encode, S: Encode, E: Encode> codec::EncodeLike for UncheckedExtrinsic<A, C, S, E> {}
impl<A: Decode, C: Decode, S: Decode, E: Decode> Decode for UncheckedExtrinsic<A, C, S, E> { fn decode<I: codec::Input>(i: &mut I) -> Result<Self, codec::Error> { Ok(Self(Decode::decode(i)?)) } }
impl<A, C: GetDispatchInfo, S, E> GetDispatchInfo for UncheckedExtrinsic<A, C, S, E> { fn get_dispatch_info(&self) -> DispatchInfo { self.0.function.get_dispatch_info() } }
#[derive(PartialEq, Eq, Clone, Debug)]
pub enum CheckedSignature<A, E, S> { Signed(A, E), Unsigned, SelfContained(S) }
#[derive(PartialEq, Eq, Clone, Debug)]
pub struct CheckedExtrinsic<A, C, E, S> { pub signed: CheckedSignature<A, E, S>, pub function: C }
impl<A, C: GetDispatchInfo, E, S> GetDispatchInfo for CheckedExtrinsic<A, C, E, S> { fn get_dispatch_info(&self) -> DispatchInfo { self.function.get_dispatch_info() } }
impl<A, C, S, E, L> Checkable<L> for UncheckedExtrinsic<A, C, S, E>
where C: Encode + traits::Member + SelfContainedCall, A: traits::Member + traits::MaybeDisplay2, S: traits::Member + Verify, <S::Signer as IdentifyAccount>::AccountId: traits::Member,
	E: SignedExtension<AccountId = <S::Signer as IdentifyAccount>::AccountId>, L: Lookup<Source = A, Target = <S::Signer as IdentifyAccount>::AccountId> {
	type Checked = CheckedExtrinsic<<S::Signer as IdentifyAccount>::AccountId, C, E, C::SignedInfo>;
	fn check(self, lookup: &L) -> Result<Self::Checked, TransactionValidityError> {
		if self.0.function.is_self_contained() {
			if self.0.signature.is_some() { return Err(TransactionValidityError::Invalid(InvalidTransaction::BadProof)) }
			let signed_info = self.0.function.check_self_contained().ok_or(TransactionValidityError::Invalid(InvalidTransaction::BadProof))??;
			Ok(CheckedExtrinsic { signed: CheckedSignature::SelfContained(signed_info), function: self.0.function })
		} else {
			let c = Checkable::<L>::check(self.0, lookup)?;
			Ok(CheckedExtrinsic { signed: match c.signed { Some((id, extra)) => CheckedSignature::Signed(id, extra), None => CheckedSignature::Unsigned }, function: c.function })
		}
	}
}
impl<A, C, E, S, O> Applyable for CheckedExtrinsic<A, C, E, S>
where A: traits::Member, C: traits::Member + Dispatchable<RuntimeOrigin = O> + SelfContainedCall<SignedInfo = S>, E: SignedExtension<AccountId = A, Call = C>, S: Send + Sync + 'static, O: From<Option<A>> {
	type Call = C;
	fn validate<U: ValidateUnsigned<Call = C>>(&self, source: TransactionSource, info: &DispatchInfoOf<C>, len: usize) -> TransactionValidity {
		match &self.signed {
			CheckedSignature::Signed(id, e) => e.validate(id, &self.function, info, len),
			CheckedSignature::Unsigned => { let v = E::validate_unsigned(&self.function, info, len)?; let u = U::validate_unsigned(source, &self.function)?; Ok(v.combine_with(u)) },
			CheckedSignature::SelfContained(s) => self.function.validate_self_contained(s, info, len).ok_or(TransactionValidityError::Invalid(InvalidTransaction::BadProof))?,
		}
	}
	fn apply<U: ValidateUnsigned<Call = C>>(self, info: &DispatchInfoOf<C>, len: usize) -> sp_runtime::ApplyExtrinsicResultWithInfo<PostDispatchInfoOf<C>> {
		match self.signed {
			CheckedSignature::Signed(id, e) => {
				let pre = e.pre_dispatch(&id, &self.function, info, len)?;
				let res = self.function.dispatch(O::from(Some(id)));
				let post = match &res { Ok(i) => *i, Err(e) => e.post_info };
				E::post_dispatch(Some(pre), info, &post, len, &res.clone().map(|_| ()).map_err(|e| e.error))?;
				Ok(res)
			},
			CheckedSignature::Unsigned => {
				E::pre_dispatch_unsigned(&self.function, info, len)?; U::pre_dispatch(&self.function)?;
				let res = self.function.dispatch(O::from(None));
				let post = match &res { Ok(i) => *i, Err(e) => e.post_info };
				E::post_dispatch(None, info, &post, len, &res.clone().map(|_| ()).map_err(|e| e.error))?;
				Ok(res)
			},
			CheckedSignature::SelfContained(s) => {
				let bad = TransactionValidityError::Invalid(InvalidTransaction::BadProof);
				// charges nothing by itself: the call's own pre-dispatch does
				self.function.pre_dispatch_self_contained(&s, info, len).ok_or(bad)??;
				Ok(self.function.apply_self_contained(s, info, len).ok_or(bad)?)
			},
		}
	}
}
