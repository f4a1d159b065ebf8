use super::*;
use sp_runtime::app_crypto::RuntimeAppPublic;
pub trait SigningTypes: crate::Config { type Public: Clone + PartialEq + IdentifyAccount<AccountId = Self::AccountId> + Debug + Codec + Ord; type Signature: Clone + PartialEq + Debug + Codec; }
pub trait AppCrypto<Public, Signature> { type RuntimeAppPublic: RuntimeAppPublic; type GenericPublic; type GenericSignature; fn sign(_payload: &[u8], _public: Public) -> Option<Signature> { None } }
pub trait SendTransactionTypes<LocalCall> { type Extrinsic: traits::Extrinsic<Call = Self::OverarchingCall> + Encode; type OverarchingCall: From<LocalCall> + Encode; }
pub trait CreateSignedTransaction<LocalCall>: SendTransactionTypes<LocalCall> + SigningTypes { fn create_transaction<C: AppCrypto<Self::Public, Self::Signature>>(call: Self::OverarchingCall, public: Self::Public, account: Self::AccountId, nonce: Self::Nonce) -> Option<(Self::OverarchingCall, <Self::Extrinsic as traits::Extrinsic>::SignaturePayload)>; }
pub struct SubmitTransaction<T, C>(std::marker::PhantomData<(T, C)>);
impl<LocalCall, T: SendTransactionTypes<LocalCall>> SubmitTransaction<T, LocalCall> {
	pub fn submit_transaction(call: T::OverarchingCall, s: Option<<T::Extrinsic as traits::Extrinsic>::SignaturePayload>) -> Result<(), ()> { let x = T::Extrinsic::new(call, s).ok_or(())?; sp_io::offchain::submit_transaction(x.encode()) }
	pub fn submit_unsigned_transaction(call: T::OverarchingCall) -> Result<(), ()> { Self::submit_transaction(call, None) }
}
pub struct Signer<T, C, X = ()>(std::marker::PhantomData<(T, C, X)>);
pub trait SendSignedTransaction {} pub trait SendUnsignedTransaction {} pub trait SignedPayload {} pub trait SignMessage {}
