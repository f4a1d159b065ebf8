pub use crate::traits::{CallMetadata, GetCallIndex, GetCallMetadata, GetCallName, GetStorageVersion, UnfilteredDispatchable};
pub use crate::storage::types as _types;
pub use codec::{Codec, Decode, Encode, EncodeLike, HasCompact, Input, MaxEncodedLen, Output};
pub use sp_runtime::{traits::Dispatchable, DispatchError, DispatchErrorWithPostInfo, DispatchResult};
pub use sp_weights::Weight;
use crate::traits::OriginTrait as _;
use sp_runtime::traits::Printable;
pub type DispatchResultWithPostInfo = sp_runtime::DispatchResultWithInfo<PostDispatchInfo>;
pub type DispatchErrorWithPostInfoT = DispatchErrorWithPostInfo<PostDispatchInfo>;
pub trait Parameter: Codec + EncodeLike + Clone + Eq + std::fmt::Debug {}
impl<T: Codec + EncodeLike + Clone + Eq + std::fmt::Debug> Parameter for T {}
#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, MaxEncodedLen, Copy)]
pub enum RawOrigin<AccountId> { Root, Signed(AccountId), None }
impl<A> From<Option<A>> for RawOrigin<A> { fn from(s: Option<A>) -> Self { match s { Some(w) => RawOrigin::Signed(w), None => RawOrigin::None } } }
impl<A> RawOrigin<A> { pub fn as_signed(&self) -> Option<&A> { match self { RawOrigin::Signed(a) => Some(a), _ => None } } }
#[derive(PartialEq, Eq, Clone, Copy, Debug, Default, Encode, Decode, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize)]
pub enum DispatchClass { #[default] Normal, Operational, Mandatory }
impl DispatchClass { pub const fn all() -> &'static [DispatchClass] { &[DispatchClass::Normal, DispatchClass::Operational, DispatchClass::Mandatory] } pub const fn non_mandatory() -> &'static [DispatchClass] { &[DispatchClass::Normal, DispatchClass::Operational] } }
#[derive(PartialEq, Eq, Clone, Copy, Debug, Default, Encode, Decode)]
pub enum Pays { #[default] Yes, No }
impl From<Pays> for PostDispatchInfo { fn from(p: Pays) -> Self { Self { actual_weight: None, pays_fee: p } } }
#[derive(PartialEq, Eq, Clone, Copy, Debug, Default, Encode, Decode)]
pub struct DispatchInfo { pub weight: Weight, pub class: DispatchClass, pub pays_fee: Pays }
#[derive(PartialEq, Eq, Clone, Copy, Debug, Default, Encode, Decode)]
pub struct PostDispatchInfo { pub actual_weight: Option<Weight>, pub pays_fee: Pays }
impl PostDispatchInfo { pub fn calc_unspent(&self, i: &DispatchInfo) -> Weight { i.weight.saturating_sub(self.calc_actual_weight(i)) } pub fn calc_actual_weight(&self, i: &DispatchInfo) -> Weight { match self.actual_weight { Some(w) => w.min(i.weight), None => i.weight } } pub fn pays_fee(&self, i: &DispatchInfo) -> Pays { if i.pays_fee == Pays::No || self.pays_fee == Pays::No { Pays::No } else { Pays::Yes } } }
pub fn extract_actual_weight(r: &DispatchResultWithPostInfo, i: &DispatchInfo) -> Weight { match r { Ok(p) => *p, Err(e) => e.post_info }.calc_actual_weight(i) }
pub fn extract_actual_pays_fee(r: &DispatchResultWithPostInfo, i: &DispatchInfo) -> Pays { match r { Ok(p) => *p, Err(e) => e.post_info }.pays_fee(i) }
impl From<(Option<Weight>, Pays)> for PostDispatchInfo { fn from((actual_weight, pays_fee): (Option<Weight>, Pays)) -> Self { Self { actual_weight, pays_fee } } }
impl From<Option<Weight>> for PostDispatchInfo { fn from(actual_weight: Option<Weight>) -> Self { Self { actual_weight, pays_fee: Default::default() } } }
impl From<()> for PostDispatchInfo { fn from(_: ()) -> Self { Self::default() } }
impl std::fmt::Display for PostDispatchInfo { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl Printable for PostDispatchInfo {}
pub trait WithPostDispatchInfo { fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo<PostDispatchInfo>; }
impl<T: Into<DispatchErrorWithPostInfo<PostDispatchInfo>>> WithPostDispatchInfo for T { fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo<PostDispatchInfo> { let e = self.into(); DispatchErrorWithPostInfo { post_info: PostDispatchInfo { actual_weight: Some(w), pays_fee: Default::default() }, error: e.error } } }
pub trait GetDispatchInfo { fn get_dispatch_info(&self) -> DispatchInfo; }
impl GetDispatchInfo for () { fn get_dispatch_info(&self) -> DispatchInfo { DispatchInfo::default() } }
impl<C: Encode + GetDispatchInfo, E: Encode> GetDispatchInfo for sp_runtime::testing::TestXt<C, E> { fn get_dispatch_info(&self) -> DispatchInfo { self.call.get_dispatch_info() } }
impl<A, C: GetDispatchInfo, S, E> GetDispatchInfo for sp_runtime::generic::UncheckedExtrinsic<A, C, S, E> { fn get_dispatch_info(&self) -> DispatchInfo { self.function.get_dispatch_info() } }
impl<A, C: GetDispatchInfo, E> GetDispatchInfo for sp_runtime::generic::CheckedExtrinsic<A, C, E> { fn get_dispatch_info(&self) -> DispatchInfo { self.function.get_dispatch_info() } }
/// What `#[pallet::weight]` may evaluate to.
pub trait WeightSpec { fn spec(self) -> DispatchInfo; }
impl WeightSpec for Weight { fn spec(self) -> DispatchInfo { DispatchInfo { weight: self, ..Default::default() } } }
impl WeightSpec for u64 { fn spec(self) -> DispatchInfo { DispatchInfo { weight: Weight::from_parts(self, 0), ..Default::default() } } }
impl WeightSpec for i32 { fn spec(self) -> DispatchInfo { (self as u64).spec() } }
impl<W: WeightSpec> WeightSpec for (W, DispatchClass) { fn spec(self) -> DispatchInfo { DispatchInfo { class: self.1, ..self.0.spec() } } }
impl<W: WeightSpec> WeightSpec for (W, Pays) { fn spec(self) -> DispatchInfo { DispatchInfo { pays_fee: self.1, ..self.0.spec() } } }
impl<W: WeightSpec> WeightSpec for (W, DispatchClass, Pays) { fn spec(self) -> DispatchInfo { DispatchInfo { class: self.1, pays_fee: self.2, ..self.0.spec() } } }
#[derive(Clone, PartialEq, Eq, Debug, Default, Encode, Decode)]
pub struct PerDispatchClass<T> { normal: T, operational: T, mandatory: T }
impl<T> PerDispatchClass<T> {
	pub fn new(f: impl Fn(DispatchClass) -> T) -> Self { Self { normal: f(DispatchClass::Normal), operational: f(DispatchClass::Operational), mandatory: f(DispatchClass::Mandatory) } }
	pub fn get(&self, c: DispatchClass) -> &T { match c { DispatchClass::Normal => &self.normal, DispatchClass::Operational => &self.operational, DispatchClass::Mandatory => &self.mandatory } }
	pub fn get_mut(&mut self, c: DispatchClass) -> &mut T { match c { DispatchClass::Normal => &mut self.normal, DispatchClass::Operational => &mut self.operational, DispatchClass::Mandatory => &mut self.mandatory } }
	pub fn set(&mut self, n: T, c: impl Into<Vec<DispatchClass>>) where T: Clone { for x in c.into() { *self.get_mut(x) = n.clone() } }
}
impl PerDispatchClass<Weight> { pub fn total(&self) -> Weight { self.normal + self.operational + self.mandatory } pub fn add(&mut self, w: Weight, c: DispatchClass) { let v = self.get_mut(c); *v = *v + w } pub fn accrue(&mut self, w: Weight, c: DispatchClass) { let v = self.get_mut(c); *v = v.saturating_add(w) } }
/// Dispatch with the origin's filter left out when the origin is root.
pub trait DispatchableWithStorageLayer { type RuntimeOrigin; fn dispatch_with_storage_layer(self, o: Self::RuntimeOrigin) -> DispatchResultWithPostInfo; fn dispatch_bypass_filter_with_storage_layer(self, o: Self::RuntimeOrigin) -> DispatchResultWithPostInfo; }
impl<T: Dispatchable<PostInfo = PostDispatchInfo> + UnfilteredDispatchable<RuntimeOrigin = <T as Dispatchable>::RuntimeOrigin>> DispatchableWithStorageLayer for T {
	type RuntimeOrigin = <T as Dispatchable>::RuntimeOrigin;
	fn dispatch_with_storage_layer(self, o: Self::RuntimeOrigin) -> DispatchResultWithPostInfo { crate::storage::with_storage_layer(|| self.dispatch(o)) }
	fn dispatch_bypass_filter_with_storage_layer(self, o: Self::RuntimeOrigin) -> DispatchResultWithPostInfo { crate::storage::with_storage_layer(|| self.dispatch_bypass_filter(o)) }
}
#[doc(hidden)] pub fn _u<O: crate::traits::OriginTrait>(o: &O) -> &O::PalletsOrigin { o.caller() }
