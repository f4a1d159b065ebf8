//! Stand-in for `frame-executive`: applies and validates single extrinsics the way the real one does.
use codec::Encode;
use frame_support::{dispatch::{DispatchInfo, GetDispatchInfo, PostDispatchInfo}, traits::{OffchainWorker, OnFinalize, OnIdle, OnInitialize, OnRuntimeUpgrade}};
use sp_runtime::{generic, traits::{self, Applyable, Checkable, Header as _, One, ValidateUnsigned, Dispatchable}, transaction_validity::*, ApplyExtrinsicResult};
use std::marker::PhantomData;
pub struct Executive<System, Block, Context, UnsignedValidator, AllPallets, OnRuntimeUpgrade = ()>(PhantomData<(System, Block, Context, UnsignedValidator, AllPallets, OnRuntimeUpgrade)>);
type CheckedOf<E, C> = <E as Checkable<C>>::Checked;
type CallOf<E, C> = <CheckedOf<E, C> as Applyable>::Call;
impl<System, Block, Context, U, All, M> Executive<System, Block, Context, U, All, M>
where System: frame_system::Config, Block: traits::Block<Header = frame_system::pallet_prelude::HeaderFor<System>, Hash = System::Hash>, Context: Default,
	Block::Extrinsic: Checkable<Context> + Encode, CheckedOf<Block::Extrinsic, Context>: Applyable + GetDispatchInfo,
	CallOf<Block::Extrinsic, Context>: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>, U: ValidateUnsigned<Call = CallOf<Block::Extrinsic, Context>>,
	All: OnInitialize<frame_system::pallet_prelude::BlockNumberFor<System>> + OnFinalize<frame_system::pallet_prelude::BlockNumberFor<System>>, {
	pub fn initialize_block(header: &Block::Header) {
		frame_system::Pallet::<System>::initialize(header.number(), header.parent_hash(), header.digest());
		All::on_initialize(*header.number());
		frame_system::Pallet::<System>::note_finished_initialize();
	}
	pub fn finalize_block() -> Block::Header {
		frame_system::Pallet::<System>::note_finished_extrinsics();
		All::on_finalize(frame_system::Pallet::<System>::block_number());
		frame_system::Pallet::<System>::finalize()
	}
	pub fn apply_extrinsic(uxt: Block::Extrinsic) -> ApplyExtrinsicResult {
		let encoded = uxt.encode(); let len = encoded.len();
		let xt = uxt.check(&Default::default())?;
		frame_system::Pallet::<System>::note_extrinsic(encoded);
		let info = xt.get_dispatch_info();
		let r = Applyable::apply::<U>(xt, &info, len)?;
		frame_system::Pallet::<System>::note_applied_extrinsic(&r, info);
		Ok(r.map(|_| ()).map_err(|e| e.error))
	}
	pub fn validate_transaction(source: TransactionSource, uxt: Block::Extrinsic, block_hash: Block::Hash) -> TransactionValidity {
		frame_system::Pallet::<System>::initialize(&(frame_system::Pallet::<System>::block_number() + One::one()), &block_hash, &Default::default());
		let len = uxt.encode().len();
		let xt = uxt.check(&Default::default())?;
		let info = xt.get_dispatch_info();
		xt.validate::<U>(source, &info, len)
	}
}
#[allow(unused)] fn _x<T: OffchainWorker<u32> + OnIdle<u32> + OnRuntimeUpgrade>(_: generic::Era) {}
