use sp_runtime::generic;
pub type MockUncheckedExtrinsic<T, Signature = (), Extra = ()> = generic::UncheckedExtrinsic<<T as crate::Config>::AccountId, <T as crate::Config>::RuntimeCall, Signature, Extra>;
pub type MockBlock<T> = generic::Block<generic::Header<u64, sp_runtime::traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
pub type MockBlockU32<T> = generic::Block<generic::Header<u32, sp_runtime::traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
