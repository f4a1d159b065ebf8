//! The transaction extensions of `frame-system`.
use super::*;
use sp_runtime::traits::SignedExtension;
macro_rules! ext { ($n:ident, $s:ty, $add:expr, $chk:expr) => {
	#[derive(Encode, Decode)] #[codec(encode_bound())] #[codec(decode_bound())] pub struct $n<T: Config + Send + Sync>(std::marker::PhantomData<T>);
	impl<T: Config + Send + Sync> $n<T> { pub fn new() -> Self { Self(Default::default()) } } impl<T: Config + Send + Sync> Default for $n<T> { fn default() -> Self { Self::new() } }
	impl<T: Config + Send + Sync> Clone for $n<T> { fn clone(&self) -> Self { Self::new() } } impl<T: Config + Send + Sync> PartialEq for $n<T> { fn eq(&self, _: &Self) -> bool { true } } impl<T: Config + Send + Sync> Eq for $n<T> {} impl<T: Config + Send + Sync> Debug for $n<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(stringify!($n)) } }
	impl<T: Config + Send + Sync> SignedExtension for $n<T> { const IDENTIFIER: &'static str = stringify!($n); type AccountId = T::AccountId; type Call = T::RuntimeCall; type AdditionalSigned = $s; type Pre = ();
		fn additional_signed(&self) -> Result<$s, TransactionValidityError> { let f: fn(()) -> Result<$s, TransactionValidityError> = $add; f(()) }
		fn validate(&self, w: &T::AccountId, _: &T::RuntimeCall, _: &DispatchInfoOf<T::RuntimeCall>, _: usize) -> TransactionValidity { let f: fn(&T::AccountId) -> Result<(), TransactionValidityError> = $chk; f(w).map(|_| ValidTransaction::default()) }
		fn pre_dispatch(self, w: &T::AccountId, _: &T::RuntimeCall, _: &DispatchInfoOf<T::RuntimeCall>, _: usize) -> Result<(), TransactionValidityError> { let f: fn(&T::AccountId) -> Result<(), TransactionValidityError> = $chk; f(w) } }
} }
ext!(CheckNonZeroSender, (), |_x| Ok(()), |w: &T::AccountId| if Encode::encode(w).iter().all(|b| *b == 0) { Err(InvalidTransaction::BadSigner.into()) } else { Ok(()) });
ext!(CheckSpecVersion, u32, |_x| Ok(T::Version::get().spec_version), |_w| Ok(()));
ext!(CheckTxVersion, u32, |_x| Ok(T::Version::get().transaction_version), |_w| Ok(()));
ext!(CheckGenesis, T::Hash, |_x| Ok(Pallet::<T>::block_hash(BlockNumberFor::<T>::zero())), |_w| Ok(()));
ext!(CheckWeight, (), |_x| Ok(()), |_w| Ok(()));
#[derive(Encode, Decode)] #[codec(encode_bound())] #[codec(decode_bound())] pub struct CheckEra<T: Config + Send + Sync>(generic::Era, std::marker::PhantomData<T>);
impl<T: Config + Send + Sync> Clone for CheckEra<T> { fn clone(&self) -> Self { Self(self.0, Default::default()) } } impl<T: Config + Send + Sync> PartialEq for CheckEra<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } } impl<T: Config + Send + Sync> Eq for CheckEra<T> {} impl<T: Config + Send + Sync> Debug for CheckEra<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "CheckEra({:?})", self.0) } }
impl<T: Config + Send + Sync> CheckEra<T> { pub fn from(e: generic::Era) -> Self { Self(e, Default::default()) } }
impl<T: Config + Send + Sync> SignedExtension for CheckEra<T> { const IDENTIFIER: &'static str = "CheckMortality"; type AccountId = T::AccountId; type Call = T::RuntimeCall; type AdditionalSigned = T::Hash; type Pre = ();
	fn additional_signed(&self) -> Result<T::Hash, TransactionValidityError> { let now: u64 = Pallet::<T>::block_number().try_into().ok().unwrap(); let n: BlockNumberFor<T> = self.0.birth(now).try_into().ok().unwrap(); if !n.is_zero() && !BlockHash::<T>::contains_key(n) { return Err(InvalidTransaction::AncientBirthBlock.into()) } Ok(Pallet::<T>::block_hash(n)) }
	fn pre_dispatch(self, _: &T::AccountId, _: &T::RuntimeCall, _: &DispatchInfoOf<T::RuntimeCall>, _: usize) -> Result<(), TransactionValidityError> { Ok(()) } }
#[derive(Encode, Decode, Clone, PartialEq, Eq)] #[codec(encode_bound())] #[codec(decode_bound())] pub struct CheckNonce<T: Config>(#[codec(compact)] pub T::Nonce) where T::Nonce: codec::HasCompact;
impl<T: Config> CheckNonce<T> where T::Nonce: codec::HasCompact { pub fn from(n: T::Nonce) -> Self { Self(n) } }
impl<T: Config> Debug for CheckNonce<T> where T::Nonce: codec::HasCompact { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "CheckNonce({:?})", self.0) } }
impl<T: Config + Send + Sync> SignedExtension for CheckNonce<T> where T::Nonce: codec::HasCompact {
	const IDENTIFIER: &'static str = "CheckNonce"; type AccountId = T::AccountId; type Call = T::RuntimeCall; type AdditionalSigned = (); type Pre = ();
	fn additional_signed(&self) -> Result<(), TransactionValidityError> { Ok(()) }
	fn pre_dispatch(self, who: &T::AccountId, _: &T::RuntimeCall, _: &DispatchInfoOf<T::RuntimeCall>, _: usize) -> Result<(), TransactionValidityError> { let mut a = Account::<T>::get(who); if self.0 != a.nonce { return Err(if self.0 < a.nonce { InvalidTransaction::Stale } else { InvalidTransaction::Future }.into()) } a.nonce += T::Nonce::one(); Account::<T>::insert(who, a); Ok(()) }
	fn validate(&self, who: &T::AccountId, _: &T::RuntimeCall, _: &DispatchInfoOf<T::RuntimeCall>, _: usize) -> TransactionValidity { let a = Account::<T>::get(who); if self.0 < a.nonce { return InvalidTransaction::Stale.into() } let provides = vec![Encode::encode(&(who, self.0))]; let requires = if a.nonce < self.0 { vec![Encode::encode(&(who, self.0 - One::one()))] } else { vec![] }; Ok(ValidTransaction { priority: 0, requires, provides, longevity: TransactionLongevity::max_value(), propagate: true }) }
}
