//! Fungible ledger and exchange: pallet-assets-ext, pallet-dex (C01-C05)
#![allow(clippy::all)]
use seed_pallet_common::test_prelude::*;
use std::collections::BTreeMap;
use vkit::{self as vk, ensure, ensure_eq, Rng};
mod dex;
mod ledger;

construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		Dex: pallet_dex,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
parameter_types! {
	pub const GetExchangeFee: (u32, u32) = (3, 1000);
	pub const TradingPathLimit: u32 = 3;
	pub const DEXBurnPalletId: PalletId = PalletId(*b"burnaddr");
	pub const LPTokenDecimals: u8 = 6;
	pub const TxFeePotId: PalletId = PalletId(*b"txfeepot");
	pub const DefaultFeeTo: Option<PalletId> = Some(TxFeePotId::get());
}
impl pallet_dex::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type GetExchangeFee = GetExchangeFee;
	type TradingPathLimit = TradingPathLimit;
	type DEXBurnPalletId = DEXBurnPalletId;
	type LPTokenDecimals = LPTokenDecimals;
	type DefaultFeeTo = DefaultFeeTo;
	type WeightInfo = ();
	type MultiCurrency = AssetsExt;
}

include!("../../common/ledger.rs");
pub fn conserve(what: &str) {
	let b = balances(); let s = sums(&b);
	for a in all_assets() {
		// the dust of a reaped account (assets with a minimum above 1) may leave the accounts without leaving the issuance: pallet-assets' own behaviour
		if pallet_assets::Asset::<Test>::get(a).map_or(false, |d| d.min_balance > 1) { ensure!(["C04"], s.get(&a).copied().unwrap_or(0) <= issuance(a), "sum-vs-issuance", "after {what}: the balances of asset {a} exceed its issuance"); continue }
		ensure_eq!(["C04"], s.get(&a).copied().unwrap_or(0), issuance(a), "sum-vs-issuance", "after {what}: sum of balances of asset {a} vs total issuance"); }
}
pub fn digest() { vk::state(&(balances().into_iter().map(|(k, v)| (k.0, k.1 .0, v)).collect::<Vec<_>>())) }

fn main() {
	vk::main(&[
		vk::Spec { pid: "C01", run: dex::run, required: &["swap_supply_ok", "swap_target_ok", "multi_hop_ok", "swap_with_donation"] },
		vk::Spec { pid: "C02", run: dex::run, required: &["add_ok", "remove_ok", "swap_supply_ok", "fee_lp_minted", "network_fee_measured", "fee_to_toggled", "remove_all_ok"] },
		vk::Spec { pid: "C03", run: dex::run, required: &["add_ok", "remove_ok", "swap_supply_ok", "swap_target_ok", "rejected_deadline", "rejected_disabled", "rejected_limit"] },
		vk::Spec { pid: "C04", run: ledger::run, required: &["transfer_ok", "mint_ok", "burn_ok", "withdraw_drop", "merge", "split_transfer_ok"] },
		vk::Spec { pid: "C05", run: ledger::run, required: &["hold_ok", "release_ok", "spend_ok", "many_holders", "full", "hold_rejected", "release_rejected", "spend_rejected"] },
	])
}
