//! NFTs, semi-fungible tokens, approvals, extra data and the marketplace (C06-C13, C29)
#![allow(clippy::all)]
use seed_pallet_common::test_prelude::*;
use std::collections::BTreeMap;
use vkit::{self as vk, ensure, ensure_eq, Rng};
mod market;
mod nft;
mod sft;

construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		Nft: pallet_nft,
		Sft: pallet_sft,
		Marketplace: pallet_marketplace,
		Nfi: pallet_nfi,
		TokenApprovals: pallet_token_approvals,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
parameter_types! {
	pub const NftPalletId: PalletId = PalletId(*b"nftokens");
	pub static MaxTokensPerCollection: u32 = 40;
	pub static MintLimit: u32 = 12;
	pub const StringLimit: u32 = 50;
	pub const SftPalletId: PalletId = PalletId(*b"sftokens");
	pub const MaxTokensPerSftCollection: u32 = 40;
	pub const MaxSerialsPerSftMint: u32 = 6;
	pub const MaxOwnersPerSftToken: u32 = 5;
	pub const MarketplacePalletId: PalletId = PalletId(*b"marketpl");
	pub const DefaultListingDuration: u64 = 50;
	pub const MaxTokensPerListing: u32 = 4;
	pub const MaxListingsPerMultiBuy: u32 = 4;
	pub const MaxOffers: u32 = 3;
	pub const FeePotId: PalletId = PalletId(*b"txfeepot");
	pub const DefaultFeeTo: Option<PalletId> = Some(FeePotId::get());
	pub const NetworkFeePercentage: Permill = Permill::from_perthousand(5);
	pub const MaxDataLength: u32 = 100;
	pub const MaxByteLength: u32 = 500;
	pub const ChainId: u64 = 7672;
}
impl pallet_nft::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type MaxTokensPerCollection = MaxTokensPerCollection;
	type MintLimit = MintLimit;
	type OnTransferSubscription = TokenApprovals;
	type OnNewAssetSubscription = ();
	type MultiCurrency = AssetsExt;
	type PalletId = NftPalletId;
	type ParachainId = TestParachainId;
	type StringLimit = StringLimit;
	type WeightInfo = ();
	type Xls20MintRequest = ();
	type NFIRequest = Nfi;
}
impl pallet_sft::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type MultiCurrency = AssetsExt;
	type NFTExt = Nft;
	type OnTransferSubscription = TokenApprovals;
	type OnNewAssetSubscription = ();
	type PalletId = SftPalletId;
	type ParachainId = TestParachainId;
	type StringLimit = StringLimit;
	type WeightInfo = ();
	type MaxTokensPerSftCollection = MaxTokensPerSftCollection;
	type MaxSerialsPerMint = MaxSerialsPerSftMint;
	type MaxOwnersPerSftToken = MaxOwnersPerSftToken;
	type NFIRequest = Nfi;
}
impl pallet_nfi::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type MultiCurrency = AssetsExt;
	type NFTExt = Nft;
	type SFTExt = Sft;
	type NetworkFeePercentage = NetworkFeePercentage;
	type MaxDataLength = MaxDataLength;
	type MaxByteLength = MaxByteLength;
	type WeightInfo = ();
	type ChainId = ChainId;
}
impl pallet_token_approvals::Config for Test { type NFTExt = Nft; type WeightInfo = (); }
impl pallet_marketplace::Config for Test {
	type RuntimeCall = RuntimeCall;
	type DefaultListingDuration = DefaultListingDuration;
	type RuntimeEvent = RuntimeEvent;
	type DefaultFeeTo = DefaultFeeTo;
	type MultiCurrency = AssetsExt;
	type NFTExt = Nft;
	type SFTExt = Sft;
	type PalletId = MarketplacePalletId;
	type NetworkFeePercentage = NetworkFeePercentage;
	type WeightInfo = ();
	type MaxTokensPerListing = MaxTokensPerListing;
	type MaxListingsPerMultiBuy = MaxListingsPerMultiBuy;
	type MaxOffers = MaxOffers;
}
include!("../../common/ledger.rs");
pub fn sg(w: AccountId) -> RuntimeOrigin { RuntimeOrigin::signed(w) }

fn main() {
	vk::main(&[
		vk::Spec { pid: "C07", run: nft::run, required: &["mint_ok", "transfer_ok", "burn_ok", "bridged_mint_ok", "transfer_rejected", "burn_rejected", "mint_rejected"] },
		vk::Spec { pid: "C08", run: nft::run, required: &["transfer_ok", "burn_ok", "setting_ok", "setting_rejected", "transfer_rejected", "locked_rejected", "flag_rejected"] },
		vk::Spec { pid: "C09", run: nft::run, required: &["public_mint_paid", "mint_rejected", "sft_public_mint_paid", "sft_mint_rejected"] },
		vk::Spec { pid: "C10", run: sft::run, required: &["sft_mint_ok", "sft_transfer_ok", "sft_burn_ok", "sft_transfer_rejected", "sft_burn_rejected", "reserve_ok"] },
		vk::Spec { pid: "C11", run: nft::run, required: &["approve_ok", "approve_rejected", "approved_query", "allowance_spent", "allowance_rejected", "approval_ended"] },
		vk::Spec { pid: "C29", run: nft::run, required: &["nfi_paid", "nfi_set", "nfi_rejected", "nfi_removed_by_burn", "nfi_sft", "nfi_sft_requested"] },
		vk::Spec { pid: "C12", run: market::run, required: &["buy_ok", "auction_settled", "offer_accepted", "royalty_paid", "buy_rejected"] },
		vk::Spec { pid: "C13", run: market::run, required: &["bid_ok", "outbid", "offer_made", "offer_cancelled", "listing_expired", "sale_cancelled"] },
	])
}
