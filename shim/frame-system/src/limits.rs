use frame_support::dispatch::{DispatchClass, PerDispatchClass};
use frame_support::weights::{constants, Weight};
use sp_runtime::{traits::{Bounded}, Perbill};
#[derive(Clone, Debug)] pub struct BlockLength { pub max: PerDispatchClass<u32> }
impl Default for BlockLength { fn default() -> Self { Self::max_with_normal_ratio(5 * 1024 * 1024, Perbill::from_percent(75)) } }
impl BlockLength { pub fn max(m: u32) -> Self { Self { max: PerDispatchClass::new(|_| m) } } pub fn max_with_normal_ratio(m: u32, n: Perbill) -> Self { Self { max: PerDispatchClass::new(|c| if c == DispatchClass::Normal { n * m } else { m }) } } }
#[derive(Clone, Debug)] pub struct WeightsPerClass { pub base_extrinsic: Weight, pub max_extrinsic: Option<Weight>, pub max_total: Option<Weight>, pub reserved: Option<Weight> }
#[derive(Clone, Debug)] pub struct BlockWeights { pub base_block: Weight, pub max_block: Weight, pub per_class: PerDispatchClass<WeightsPerClass> }
impl Default for BlockWeights { fn default() -> Self { Self::with_sensible_defaults(Weight::from_parts(constants::WEIGHT_REF_TIME_PER_SECOND, u64::MAX), Perbill::from_percent(75)) } }
impl BlockWeights {
	pub fn get(&self, c: DispatchClass) -> &WeightsPerClass { self.per_class.get(c) }
	pub fn validate(self) -> Result<Self, String> { Ok(self) }
	pub fn with_sensible_defaults(total: Weight, normal: Perbill) -> Self { let b = constants::ExtrinsicBaseWeight::get(); Self { base_block: constants::BlockExecutionWeight::get(), max_block: total, per_class: PerDispatchClass::new(|c| WeightsPerClass { base_extrinsic: b, max_extrinsic: None, max_total: Some(if c == DispatchClass::Normal { Weight::from_parts(normal * total.ref_time(), normal * total.proof_size()) } else { total }), reserved: None }) } }
	pub fn simple_max(m: Weight) -> Self { Self::with_sensible_defaults(m, Perbill::from_percent(100)) }
	pub fn builder() -> BlockWeightsBuilder { BlockWeightsBuilder(Self { base_block: constants::BlockExecutionWeight::get(), max_block: Weight::zero(), per_class: PerDispatchClass::new(|_| WeightsPerClass { base_extrinsic: constants::ExtrinsicBaseWeight::get(), max_extrinsic: None, max_total: None, reserved: None }) }) }
}
pub struct BlockWeightsBuilder(BlockWeights);
impl BlockWeightsBuilder {
	pub fn base_block(mut self, w: Weight) -> Self { self.0.base_block = w; self }
	pub fn for_class(mut self, c: impl AsRef<[DispatchClass]>, f: impl Fn(&mut WeightsPerClass)) -> Self { for x in c.as_ref() { f(self.0.per_class.get_mut(*x)) } for x in DispatchClass::all() { if let Some(m) = self.0.per_class.get(*x).max_total { self.0.max_block = self.0.max_block.max(m) } } self }
	pub fn avg_block_initialization(self, _: Perbill) -> Self { self }
	pub fn build(self) -> Result<BlockWeights, String> { Ok(self.0) } pub fn build_or_panic(self) -> BlockWeights { self.0 }
}
#[doc(hidden)] pub fn _u() -> u32 { <u32 as Bounded>::max_value() }
