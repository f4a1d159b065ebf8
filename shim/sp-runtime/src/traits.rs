use crate::{generic::Digest, transaction_validity::*, DispatchResult, KeyTypeId};
use codec::{Codec, Decode, Encode, EncodeLike, FullCodec, Input, MaxEncodedLen};
pub use sp_arithmetic::traits::*;
pub use sp_core::{crypto::ByteArray, ConstBool, ConstI128, ConstI16, ConstI32, ConstI64, ConstI8, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, GetDefault, TypedGet, Hasher};
use sp_core::{crypto::Pair, ecdsa, ed25519, sr25519, H256};
use std::{fmt::{Debug, Display}, hash::Hash as StdHash, marker::PhantomData, str::FromStr};

pub trait Lazy<T: ?Sized> { fn get(&mut self) -> &T; }
impl<'a> Lazy<[u8]> for &'a [u8] { fn get(&mut self) -> &[u8] { self } }
impl<const N: usize> Lazy<[u8]> for [u8; N] { fn get(&mut self) -> &[u8] { &self[..] } }
pub trait IdentifyAccount { type AccountId; fn into_account(self) -> Self::AccountId; }
pub trait Verify { type Signer: IdentifyAccount; fn verify<L: Lazy<[u8]>>(&self, m: L, signer: &<Self::Signer as IdentifyAccount>::AccountId) -> bool; }
macro_rules! ver { ($m:ident) => { impl IdentifyAccount for $m::Public { type AccountId = Self; fn into_account(self) -> Self { self } } impl Verify for $m::Signature { type Signer = $m::Public; fn verify<L: Lazy<[u8]>>(&self, mut m: L, s: &$m::Public) -> bool { $m::Pair::verify(self, m.get(), s) } } } }
ver!(ed25519); ver!(sr25519); ver!(ecdsa);
#[derive(PartialEq, Eq, Clone, Copy, Debug)] pub struct BadOrigin;
impl From<BadOrigin> for &'static str { fn from(_: BadOrigin) -> &'static str { "Bad origin" } }
#[derive(PartialEq, Eq, Clone, Copy, Debug)] pub struct LookupError;
impl From<LookupError> for &'static str { fn from(_: LookupError) -> &'static str { "Can not lookup" } }
impl From<LookupError> for TransactionValidityError { fn from(_: LookupError) -> Self { UnknownTransaction::CannotLookup.into() } }
pub trait Lookup { type Source; type Target; fn lookup(&self, s: Self::Source) -> Result<Self::Target, LookupError>; }
pub trait StaticLookup { type Source: Codec + Clone + PartialEq + Debug; type Target; fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>; fn unlookup(t: Self::Target) -> Self::Source; }
pub struct IdentityLookup<T>(PhantomData<T>);
impl<T> Default for IdentityLookup<T> { fn default() -> Self { Self(PhantomData) } }
impl<T: Codec + Clone + PartialEq + Debug> StaticLookup for IdentityLookup<T> { type Source = T; type Target = T; fn lookup(x: T) -> Result<T, LookupError> { Ok(x) } fn unlookup(x: T) -> T { x } }
impl<T> Lookup for IdentityLookup<T> { type Source = T; type Target = T; fn lookup(&self, x: T) -> Result<T, LookupError> { Ok(x) } }
pub struct AccountIdLookup<A, I>(PhantomData<(A, I)>);
impl<A: Codec + Clone + PartialEq + Debug, I: Codec + Clone + PartialEq + Debug + codec::HasCompact> StaticLookup for AccountIdLookup<A, I> { type Source = crate::MultiAddress<A, I>; type Target = A; fn lookup(x: Self::Source) -> Result<A, LookupError> { match x { crate::MultiAddress::Id(i) => Ok(i), _ => Err(LookupError) } } fn unlookup(x: A) -> Self::Source { crate::MultiAddress::Id(x) } }
pub trait Convert<A, B> { fn convert(a: A) -> B; }
impl<A, B: Default> Convert<A, B> for () { fn convert(_: A) -> B { Default::default() } }
pub trait ConvertBack<A, B>: Convert<A, B> { fn convert_back(b: B) -> A; }
pub trait MaybeConvert<A, B> { fn maybe_convert(a: A) -> Option<B>; }
pub trait TryConvert<A, B> { fn try_convert(a: A) -> Result<B, A>; }
pub struct Identity; impl<T> Convert<T, T> for Identity { fn convert(a: T) -> T { a } } impl<T> ConvertBack<T, T> for Identity { fn convert_back(a: T) -> T { a } }
pub struct ConvertInto; impl<A: Into<B>, B> Convert<A, B> for ConvertInto { fn convert(a: A) -> B { a.into() } }
pub trait MaybeDisplay2 {} impl<T> MaybeDisplay2 for T {}
macro_rules! alias { ($($n:ident: $($b:path),*);*) => { $( pub trait $n: $($b+)* {} impl<T: $($b+)*> $n for T {} )* } }
alias!(MaybeDisplay: Display; MaybeFromStr: FromStr; MaybeHash: StdHash; MaybeSerialize: serde::Serialize);
pub trait MaybeSerializeDeserialize: serde::Serialize + serde::de::DeserializeOwned {} impl<T: serde::Serialize + serde::de::DeserializeOwned> MaybeSerializeDeserialize for T {}
pub trait Member: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static {} impl<T: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static> Member for T {}
pub trait IsMember<M> { fn is_member(m: &M) -> bool; }
pub trait HashOutput: Member + Debug + Default + Encode + Decode + EncodeLike + MaxEncodedLen + StdHash + AsRef<[u8]> + AsMut<[u8]> + Copy + Ord + Display + serde::Serialize + serde::de::DeserializeOwned {} impl<T: Member + Debug + Default + Encode + Decode + EncodeLike + MaxEncodedLen + StdHash + AsRef<[u8]> + AsMut<[u8]> + Copy + Ord + Display + serde::Serialize + serde::de::DeserializeOwned> HashOutput for T {}
pub trait Hash: 'static + Debug + Clone + Eq + PartialEq + Send + Sync { type Output: HashOutput; fn hash(s: &[u8]) -> Self::Output; fn hash_of<S: Encode>(s: &S) -> Self::Output { Self::hash(&s.encode()) } fn ordered_trie_root(i: Vec<Vec<u8>>, _: crate::StateVersion) -> Self::Output { Self::hash(&i.encode()) } fn trie_root(i: Vec<(Vec<u8>, Vec<u8>)>, _: crate::StateVersion) -> Self::Output { Self::hash(&i.encode()) } }
#[derive(PartialEq, Eq, Clone, Copy, Debug, serde::Serialize, serde::Deserialize)] pub struct BlakeTwo256; impl Hash for BlakeTwo256 { type Output = H256; fn hash(s: &[u8]) -> H256 { sp_core::blake2_256(s).into() } }
#[derive(PartialEq, Eq, Clone, Copy, Debug, serde::Serialize, serde::Deserialize)] pub struct Keccak256; impl Hash for Keccak256 { type Output = H256; fn hash(s: &[u8]) -> H256 { sp_core::keccak_256(s).into() } }
pub trait CheckEqual { fn check_equal(&self, o: &Self); } impl CheckEqual for H256 { fn check_equal(&self, _: &Self) {} }
pub trait SimpleBitOps {} impl<T> SimpleBitOps for T {}
pub trait MaybeEquivalence<A, B> { fn convert(a: &A) -> Option<B>; fn convert_back(b: &B) -> Option<A>; }
pub trait BlockNumber: Member + MaybeSerializeDeserialize + FromStr + Debug + StdHash + Copy + Display + AtLeast32BitUnsigned + Default + MaxEncodedLen + FullCodec + EncodeLike {}
impl<T: Member + MaybeSerializeDeserialize + FromStr + Debug + StdHash + Copy + Display + AtLeast32BitUnsigned + Default + MaxEncodedLen + FullCodec + EncodeLike> BlockNumber for T {}
pub trait Header: Clone + Send + Sync + Codec + Eq + Debug + 'static { type Number: BlockNumber; type Hash: HashOutput; type Hashing: Hash<Output = Self::Hash>;
	fn new(n: Self::Number, er: Self::Hash, sr: Self::Hash, ph: Self::Hash, d: Digest) -> Self;
	fn number(&self) -> &Self::Number; fn set_number(&mut self, n: Self::Number); fn extrinsics_root(&self) -> &Self::Hash; fn set_extrinsics_root(&mut self, r: Self::Hash); fn state_root(&self) -> &Self::Hash; fn set_state_root(&mut self, r: Self::Hash); fn parent_hash(&self) -> &Self::Hash; fn set_parent_hash(&mut self, r: Self::Hash); fn digest(&self) -> &Digest; fn digest_mut(&mut self) -> &mut Digest;
	fn hash(&self) -> Self::Hash { <Self::Hashing as Hash>::hash_of(self) } }
pub trait Extrinsic: Sized { type Call; type SignaturePayload; fn is_signed(&self) -> Option<bool> { None } fn new(_: Self::Call, _: Option<Self::SignaturePayload>) -> Option<Self> { None } }
pub trait ExtrinsicMetadata { const VERSION: u8; type SignedExtensions: SignedExtension; }
pub trait HeaderProvider { type HeaderT: Header; }
impl<H: Header, E> HeaderProvider for crate::generic::Block<H, E> { type HeaderT = H; }
pub trait Block: HeaderProvider<HeaderT = <Self as Block>::Header> + Clone + Send + Sync + Codec + Eq + Debug + 'static { type Extrinsic: Member + Codec + Extrinsic; type Header: Header<Hash = Self::Hash>; type Hash: HashOutput; fn header(&self) -> &Self::Header; fn extrinsics(&self) -> &[Self::Extrinsic]; fn deconstruct(self) -> (Self::Header, Vec<Self::Extrinsic>); fn new(h: Self::Header, e: Vec<Self::Extrinsic>) -> Self; fn hash(&self) -> Self::Hash { <<Self::Header as Header>::Hashing as Hash>::hash_of(self.header()) } }
impl<H: Header + 'static, E: Extrinsic + Encode + Decode + Eq + Clone + Debug + Send + Sync + 'static> MaybeBlock for crate::generic::Block<H, E> {}
#[doc(hidden)] pub trait MaybeBlock {}
pub type HashingFor<B> = <<B as Block>::Header as Header>::Hashing;
pub type NumberFor<B> = <<B as Block>::Header as Header>::Number;

pub type HeaderFor<B> = <B as HeaderProvider>::HeaderT;
pub trait BlockIdTo<B: Block> { type Error: std::error::Error; }
pub trait Checkable<C>: Sized { type Checked; fn check(self, c: &C) -> Result<Self::Checked, TransactionValidityError>; }
pub trait Printable { fn print(&self) {} } impl Printable for () {}
pub trait Dispatchable { type RuntimeOrigin: Debug; type Config; type Info; type PostInfo: Eq + PartialEq + Clone + Copy + Encode + Decode + Printable; fn dispatch(self, o: Self::RuntimeOrigin) -> crate::DispatchResultWithInfo<Self::PostInfo>; }
pub type DispatchInfoOf<T> = <T as Dispatchable>::Info;
pub type PostDispatchInfoOf<T> = <T as Dispatchable>::PostInfo;
impl Dispatchable for () { type RuntimeOrigin = (); type Config = (); type Info = (); type PostInfo = (); fn dispatch(self, _: ()) -> crate::DispatchResultWithInfo<()> { panic!("not dispatchable") } }
pub trait SignedExtension: Codec + Debug + Sync + Send + Clone + Eq + PartialEq {
	const IDENTIFIER: &'static str; type AccountId; type Call: Dispatchable; type AdditionalSigned: Encode; type Pre;
	fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError>;
	fn validate(&self, _who: &Self::AccountId, _call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity { Ok(ValidTransaction::default()) }
	fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, TransactionValidityError>;
	fn validate_unsigned(_call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity { Ok(ValidTransaction::default()) }
	fn pre_dispatch_unsigned(call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<(), TransactionValidityError> { Self::validate_unsigned(call, info, len).map(|_| ()) }
	fn post_dispatch(_pre: Option<Self::Pre>, _info: &DispatchInfoOf<Self::Call>, _post: &PostDispatchInfoOf<Self::Call>, _len: usize, _r: &DispatchResult) -> Result<(), TransactionValidityError> { Ok(()) }
}
macro_rules! tse { ($( ($($n:ident $i:tt),+) )*) => { $(
	impl<AccountId, Call: Dispatchable, $($n: SignedExtension<AccountId = AccountId, Call = Call>),+> SignedExtension for ($($n,)+) {
		const IDENTIFIER: &'static str = "tuple"; type AccountId = AccountId; type Call = Call; type AdditionalSigned = ($($n::AdditionalSigned,)+); type Pre = ($($n::Pre,)+);
		fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError> { Ok(($(self.$i.additional_signed()?,)+)) }
		fn validate(&self, w: &AccountId, c: &Call, i: &DispatchInfoOf<Call>, l: usize) -> TransactionValidity { let mut v = ValidTransaction::default(); $( v = v.combine_with(self.$i.validate(w, c, i, l)?); )+ Ok(v) }
		fn pre_dispatch(self, w: &AccountId, c: &Call, i: &DispatchInfoOf<Call>, l: usize) -> Result<Self::Pre, TransactionValidityError> { Ok(($(self.$i.pre_dispatch(w, c, i, l)?,)+)) }
		fn validate_unsigned(c: &Call, i: &DispatchInfoOf<Call>, l: usize) -> TransactionValidity { let mut v = ValidTransaction::default(); $( v = v.combine_with($n::validate_unsigned(c, i, l)?); )+ Ok(v) }
		fn pre_dispatch_unsigned(c: &Call, i: &DispatchInfoOf<Call>, l: usize) -> Result<(), TransactionValidityError> { $( $n::pre_dispatch_unsigned(c, i, l)?; )+ Ok(()) }
		fn post_dispatch(pre: Option<Self::Pre>, i: &DispatchInfoOf<Call>, p: &PostDispatchInfoOf<Call>, l: usize, r: &DispatchResult) -> Result<(), TransactionValidityError> { match pre { Some(x) => { $( $n::post_dispatch(Some(x.$i), i, p, l, r)?; )+ }, None => { $( $n::post_dispatch(None, i, p, l, r)?; )+ } } Ok(()) }
	} )* } }
tse! { (A 0) (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) (A 0, B 1, C 2, D 3, E 4) (A 0, B 1, C 2, D 3, E 4, F 5) (A 0, B 1, C 2, D 3, E 4, F 5, G 6) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, J 8) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, J 8, K 9) }
impl SignedExtension for () { const IDENTIFIER: &'static str = "UnitSignedExtension"; type AccountId = u64; type Call = (); type AdditionalSigned = (); type Pre = (); fn additional_signed(&self) -> Result<(), TransactionValidityError> { Ok(()) } fn pre_dispatch(self, _: &u64, _: &(), _: &(), _: usize) -> Result<(), TransactionValidityError> { Ok(()) } }
pub trait Applyable: Sized + Send + Sync { type Call: Dispatchable; fn validate<V: ValidateUnsigned<Call = Self::Call>>(&self, s: TransactionSource, i: &DispatchInfoOf<Self::Call>, l: usize) -> TransactionValidity; fn apply<V: ValidateUnsigned<Call = Self::Call>>(self, i: &DispatchInfoOf<Self::Call>, l: usize) -> crate::ApplyExtrinsicResultWithInfo<PostDispatchInfoOf<Self::Call>>; }
pub trait ValidateUnsigned { type Call; fn pre_dispatch(c: &Self::Call) -> Result<(), TransactionValidityError> { Self::validate_unsigned(TransactionSource::InBlock, c).map(|_| ()).map_err(Into::into) } fn validate_unsigned(s: TransactionSource, c: &Self::Call) -> TransactionValidity; }
pub trait OpaqueKeys: Clone { type KeyTypeIdProviders; fn key_ids() -> &'static [KeyTypeId]; fn get_raw(&self, i: KeyTypeId) -> &[u8]; fn get<T: Decode>(&self, i: KeyTypeId) -> Option<T> { T::decode(&mut self.get_raw(i)).ok() } fn ownership_proof_is_valid(&self, _p: &[u8]) -> bool { true } }
pub struct AppendZerosInput<'a, T>(&'a mut T);
impl<'a, T> AppendZerosInput<'a, T> { pub fn new(x: &'a mut T) -> Self { Self(x) } }
pub struct TrailingZeroInput<'a>(&'a [u8]);
impl<'a> TrailingZeroInput<'a> { pub fn new(d: &'a [u8]) -> Self { Self(d) } pub fn zeroes() -> Self { Self(&[]) } }
impl<'a> Input for TrailingZeroInput<'a> { fn remaining_len(&mut self) -> Result<Option<usize>, codec::Error> { Ok(None) } fn read(&mut self, into: &mut [u8]) -> Result<(), codec::Error> { let n = into.len().min(self.0.len()); into[..n].copy_from_slice(&self.0[..n]); for b in &mut into[n..] { *b = 0 } self.0 = &self.0[n..]; Ok(()) } }
pub trait AccountIdConversion<A>: Sized { fn into_account_truncating(&self) -> A { self.into_sub_account_truncating(()) } fn try_into_account(&self) -> Option<A> { self.try_into_sub_account(()) } fn try_from_account(a: &A) -> Option<Self> { Self::try_from_sub_account::<()>(a).map(|x| x.0) } fn into_sub_account_truncating<S: Encode>(&self, s: S) -> A; fn try_into_sub_account<S: Encode>(&self, s: S) -> Option<A>; fn try_from_sub_account<S: Decode>(x: &A) -> Option<(Self, S)>; }
pub trait TypeId { const TYPE_ID: [u8; 4]; }
impl<T: Encode + Decode, Id: Encode + Decode + TypeId> AccountIdConversion<T> for Id {
	fn into_sub_account_truncating<S: Encode>(&self, s: S) -> T { (Id::TYPE_ID, self, s).using_encoded(|b| T::decode(&mut TrailingZeroInput(b))).expect("All byte sequences are valid `AccountIds`; qed") }
	fn try_into_sub_account<S: Encode>(&self, s: S) -> Option<T> { let e = (Id::TYPE_ID, self, s).encode(); let a = T::decode(&mut TrailingZeroInput(&e)).expect("qed"); if a.encode().len() <= e.len() || true { if a.encode() == { let mut x = e.clone(); x.resize(a.encode().len().max(e.len()), 0); x } { return Some(a) } } None }
	fn try_from_sub_account<S: Decode>(x: &T) -> Option<(Self, S)> { x.using_encoded(|d| { if d[0..4] != Id::TYPE_ID { return None } let mut c = &d[4..]; let r = Decode::decode(&mut c).ok()?; if c.iter().all(|x| *x == 0) { Some(r) } else { None } }) }
}
pub trait BlockNumberProvider { type BlockNumber: Codec + Clone + Ord + Eq + AtLeast32BitUnsigned + Debug + MaxEncodedLen + Copy + EncodeLike + Default; fn current_block_number() -> Self::BlockNumber; }
impl BlockNumberProvider for () { type BlockNumber = u32; fn current_block_number() -> u32 { 0 } }
pub trait GetRuntimeBlockType { type RuntimeBlock: Block; }
pub trait GetNodeBlockType { type NodeBlock: Block; }
pub trait StorageProof2 {}
pub trait MaybeParameterIdDestroy {}
pub trait Scale<O> { type Output; fn mul(self, o: O) -> Self::Output; fn div(self, o: O) -> Self::Output; fn rem(self, o: O) -> Self::Output; }
pub trait ModuleErrorTraits {}
pub struct ReduceBy2; pub trait Morph<A> { type Outcome; fn morph(a: A) -> Self::Outcome; }
macro_rules! scale_impl { ($($a:ty => $($b:ty),+);+) => { $($(impl Scale<$b> for $a { type Output = Self; fn mul(self, o: $b) -> $a { self * o as $a } fn div(self, o: $b) -> $a { self / o as $a } fn rem(self, o: $b) -> $a { self % o as $a } })+)+ } }
scale_impl!(u128 => u128, u64, u32, u16, u8; u64 => u64, u32, u16, u8; u32 => u32, u16, u8);
