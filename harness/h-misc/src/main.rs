//! Crowdsales, reward vortex, multi-block migration, fee configuration and the fee pot (C14, C24, C28, C34)
#![allow(clippy::all)]
use seed_pallet_common::test_prelude::*;
use sp_runtime::testing::TestXt;
use std::collections::BTreeMap;
use vkit::{self as vk, ensure, ensure_eq, Rng};
mod sale;
mod vortex;
mod migr;
mod fees;

pub type Extrinsic = TestXt<RuntimeCall, ()>;
construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		Nft: pallet_nft,
		Crowdsale: pallet_crowdsale,
		Timestamp: pallet_timestamp,
		Staking: pallet_staking,
		Vortex: pallet_vortex_distribution,
		Migration: pallet_migration,
		FeeControl: pallet_fee_control,
		TxFeePot: pallet_tx_fee_pot,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
parameter_types! {
	pub const NftPalletId: PalletId = PalletId(*b"nftokens");
	pub const MaxTokensPerCollection: u32 = 1000;
	pub const MintLimit: u32 = 12;
	pub const StringLimit: u32 = 50;
	pub const CrowdSalePalletId: PalletId = PalletId(*b"crowdsal");
	pub const MaxSalesPerBlock: u32 = 2;
	pub static MaxConsecutiveSales: u32 = 2;
	pub const MaxPaymentsPerBlock: u32 = 3;
	pub const MaxSaleDuration: u64 = 12;
	pub const UnsignedInterval: u32 = 3;
}
impl pallet_nft::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type MaxTokensPerCollection = MaxTokensPerCollection;
	type MintLimit = MintLimit;
	type OnTransferSubscription = ();
	type OnNewAssetSubscription = ();
	type MultiCurrency = AssetsExt;
	type PalletId = NftPalletId;
	type ParachainId = TestParachainId;
	type StringLimit = StringLimit;
	type WeightInfo = ();
	type Xls20MintRequest = ();
	type NFIRequest = ();
}
impl<C> frame_system::offchain::SendTransactionTypes<C> for Test where RuntimeCall: From<C> { type OverarchingCall = RuntimeCall; type Extrinsic = Extrinsic; }
/// what the runtime allows an administrator to do as the vault
pub struct VaultCalls;
impl seed_pallet_common::ExtrinsicChecker for VaultCalls {
	type Call = RuntimeCall; type Extra = (); type Result = DispatchResult;
	fn check_extrinsic(call: &RuntimeCall, _: &()) -> DispatchResult {
		match call { RuntimeCall::System(frame_system::Call::remark { .. }) | RuntimeCall::Nft(pallet_nft::Call::set_base_uri { .. } | pallet_nft::Call::set_name { .. } | pallet_nft::Call::set_royalties_schedule { .. }) => Ok(()), _ => Err(DispatchError::Other("vault call refused")) }
	}
}
impl pallet_crowdsale::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type PalletId = CrowdSalePalletId;
	type StringLimit = StringLimit;
	type ProxyCallValidator = VaultCalls;
	type MultiCurrency = AssetsExt;
	type NFTExt = Nft;
	type MaxSalesPerBlock = MaxSalesPerBlock;
	type MaxConsecutiveSales = MaxConsecutiveSales;
	type MaxPaymentsPerBlock = MaxPaymentsPerBlock;
	type MaxSaleDuration = MaxSaleDuration;
	type UnsignedInterval = UnsignedInterval;
	type WeightInfo = ();
}
impl_pallet_timestamp_config!(Test);
impl pallet_staking::Config for Test {
	type MaxNominations = (); type Currency = (); type CurrencyBalance = Balance; type UnixTime = (); type CurrencyToVote = (); type RewardRemainder = (); type RuntimeEvent = RuntimeEvent; type Slash = (); type Reward = (); type SessionsPerEra = (); type SlashDeferDuration = (); type BondingDuration = (); type SessionInterface = (); type EraPayout = (); type NextNewSession = (); type MaxNominatorRewardedPerValidator = (); type OffendingValidatorsThreshold = (); type ElectionProvider = (); type GenesisElectionProvider = (); type VoterList = (); type MaxUnlockingChunks = (); type HistoryDepth = (); type TargetList = (); type BenchmarkingConfig = (); type WeightInfo = (); type AdminOrigin = (); type EventListeners = ();
}
parameter_types! {
	pub const VtxPotId: PalletId = PalletId(*b"vtx/vpot");
	pub const RootPotId: PalletId = PalletId(*b"vtx/rpot");
	pub const FeePotId: PalletId = PalletId(*b"txfeepot");
	pub const VtxInterval: u64 = 7;
	pub const PayoutBatchSize: u32 = 4;
	pub const HistoryDepth: u32 = 84;
	pub const VtxAsset: AssetId = 3;
	pub const RootAsset: AssetId = 1;
}
impl pallet_vortex_distribution::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type NativeAssetId = RootAsset;
	type VtxAssetId = VtxAsset;
	type VtxDistPotId = VtxPotId;
	type RootPotId = RootPotId;
	type TxFeePotId = FeePotId;
	type UnsignedInterval = VtxInterval;
	type PayoutBatchSize = PayoutBatchSize;
	type VtxDistIdentifier = u32;
	type MultiCurrency = AssetsExt;
	type HistoryDepth = HistoryDepth;
	type MaxAssetPrices = frame_support::traits::ConstU32<10>;
	type MaxRewards = frame_support::traits::ConstU32<10>;
	type MaxStringLength = frame_support::traits::ConstU32<1000>;
}
impl pallet_migration::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type CurrentMigration = migr::Mig;
	type MaxMigrationWeight = migr::MaxWeight;
	type WeightInfo = ();
}
impl pallet_fee_control::Config for Test { type RuntimeEvent = RuntimeEvent; type WeightInfo = (); type FeeConfig = fees::Defaults; }
impl pallet_tx_fee_pot::Config for Test { type FeeCurrency = pallet_assets_ext::AssetCurrency<Test, fees::Xrp>; type StakeCurrency = Balances; type TxFeePotId = FeePotId; }
include!("../../common/ledger.rs");
pub fn sg(w: AccountId) -> RuntimeOrigin { RuntimeOrigin::signed(w) }

fn main() {
	vk::main(&[
		vk::Spec { pid: "C24", run: vortex::run, required: &["created", "registered", "triggered", "started", "paid", "done", "redeemed", "redeem_rejected", "disabled", "refused", "reregistered", "pay_ignored"] },
		vk::Spec { pid: "C28", run: migr::run, required: &["steps", "completed", "paused", "delayed", "budget_stopped", "limit_stopped", "blocked", "restarted", "upgrade_during_migration"] },
		vk::Spec { pid: "C34", run: fees::run, required: &["weight_fee", "length_fee", "fee_collected", "payout_burn", "set_ok", "set_rejected", "era_paid"] },
		vk::Spec { pid: "C14", run: sale::run, required: &["sale_created", "sale_rejected", "enabled", "participated", "participate_rejected", "closed_soft", "closed_over", "closed_empty", "paid_by_distribution", "paid_by_claim", "claim_rejected", "redeemed", "redeem_rejected", "distribution_failed", "forced", "completed", "vault_call_ok", "vault_call_rejected", "settled_all"] },
	])
}
