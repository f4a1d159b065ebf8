//! Bridges: ethy (incoming claims, challenges, outgoing proofs, state oracle), the ERC-20 and NFT pegs, the XRPL bridge and XLS-20 (C15-C21, C35, C36)
#![allow(clippy::all)]
use codec::{Decode, Encode};
use frame_support::traits::{Hooks, ValidatorSet as ValidatorSetT};
use frame_support::sp_runtime::Percent;
use pallet_ethy::{BridgeEthereumRpcApi, BridgeRpcError, EthBlock, EthCallId, EthHash, LatestOrNumber, TransactionReceipt};
use seed_pallet_common::test_prelude::*;
use seed_pallet_common::{EthCallFailure, EthCallOracleSubscriber, EthereumBridge, EthereumEventRouter, EthereumEventSubscriber, EventRouterError, EventRouterResult, FinalSessionTracker, XrplBridgeToEthyAdapter};
use seed_primitives::{ethy::{crypto::AuthorityId, EventProofId}, Signature};
use sp_runtime::{testing::TestXt, traits::{Convert, Extrinsic as ExtrinsicT, Verify}};
use std::{cell::RefCell, collections::BTreeMap};
use vkit::{self as vk, ensure, ensure_eq, Rng};
mod ethy;
mod pegs;
mod xrpl;

construct_runtime!(
	pub enum Test {
		System: frame_system,
		Balances: pallet_balances,
		Assets: pallet_assets,
		AssetsExt: pallet_assets_ext,
		TimestampPallet: pallet_timestamp,
		Scheduler: pallet_scheduler,
		EthBridge: pallet_ethy,
		Erc20Peg: pallet_erc20_peg,
		NftPeg: pallet_nft_peg,
		Echo: pallet_echo,
		Nft: pallet_nft,
		XRPLBridge: pallet_xrpl_bridge,
		Xls20: pallet_xls20,
	}
);
impl_frame_system_config!(Test);
impl_pallet_balance_config!(Test);
impl_pallet_assets_config!(Test);
impl_pallet_assets_ext_config!(Test);
impl_pallet_timestamp_config!(Test);
impl_pallet_scheduler_config!(Test);

pub const CHALLENGE_BOND: Balance = 100;
pub const RELAYER_BOND: Balance = 202;
pub const EPOCH: u64 = 20;
pub const AUTH_DELAY: u32 = 6;
pub const MAX_CHALLENGES: u32 = 4;
pub const MAX_MSGS: u32 = 5;
pub const MAX_DATA: usize = 1024;
/// share of the notaries (in percent) which must agree; chosen per episode, mostly the value of the runtime
pub fn thr() -> u32 { w(|x| x.threshold).max(1) }
pub struct NotarizationThreshold;
impl frame_support::traits::Get<Percent> for NotarizationThreshold { fn get() -> Percent { Percent::from_parts(thr() as u8) } }
parameter_types! {
	pub const BridgePalletId: PalletId = PalletId(*b"ethybrdg");
	pub const EpochDuration: u64 = EPOCH;
	pub const ChallengerBond: Balance = CHALLENGE_BOND;
	pub const RelayerBond: Balance = RELAYER_BOND;
	pub const MaxXrplKeys: u8 = 8;
	pub const MaxNewSigners: u8 = 20;
	pub const AuthorityChangeDelay: BlockNumber = AUTH_DELAY as BlockNumber;
	pub const MaxAuthorities: u32 = 1000;
	pub const MaxEthData: u32 = MAX_DATA as u32;
	pub const MaxChallenges: u32 = MAX_CHALLENGES;
	pub const MaxMessagesPerBlock: u32 = MAX_MSGS;
	pub const MaxCallRequests: u32 = 1000;
	pub const MaxProcessedMessageIds: u32 = 10;
}
// ---- what the environment of the pallets is told and what it observes
#[derive(Clone, Debug, PartialEq)] pub enum Out { Eth { source: H160, dest: H160, msg: Vec<u8> }, Xrpl(Vec<u8>) }
#[derive(Clone, Debug)] pub struct Sent { pub out: Out, pub id: Option<EventProofId>, pub paused: bool }
#[derive(Clone, Debug)] pub struct Routed { pub source: H160, pub dest: H160, pub data: Vec<u8>, pub ok: bool }
#[derive(Clone, Debug, PartialEq)] pub enum CallDone { Ok([u8; 32], u64, u64), Failed(u8) }
#[derive(Default)] pub struct World {
	pub sent: Vec<Sent>, pub routed: Vec<Routed>, pub calls: Vec<(EthCallId, CallDone)>,
	pub validators: usize, pub last_session: bool, pub log_only: bool, pub threshold: u32,
	pub receipts: BTreeMap<EthHash, Result<Option<TransactionReceipt>, ()>>, pub latest: Option<Result<Option<EthBlock>, ()>>, pub blocks: BTreeMap<u64, Result<Option<EthBlock>, ()>>, pub eth_calls: BTreeMap<(u64, H160), Result<Vec<u8>, ()>>,
}
thread_local! { pub static W: RefCell<World> = RefCell::new(World::default()); }
pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R { W.with(|x| f(&mut x.borrow_mut())) }

pub struct Validators;
pub struct Noop;
impl Convert<AccountId, Option<AccountId>> for Noop { fn convert(a: AccountId) -> Option<AccountId> { Some(a) } }
impl ValidatorSetT<AccountId> for Validators {
	type ValidatorId = AccountId;
	type ValidatorIdOf = Noop;
	fn session_index() -> u32 { 1 }
	fn validators() -> Vec<AccountId> { (1..=w(|x| x.validators) as u64).map(create_account).collect() }
}
pub struct Sessions;
impl FinalSessionTracker for Sessions { fn is_active_session_final() -> bool { w(|x| x.last_session) } }
pub struct Client;
impl BridgeEthereumRpcApi for Client {
	fn get_block_by_number(n: LatestOrNumber) -> Result<Option<EthBlock>, BridgeRpcError> { w(|x| match n { LatestOrNumber::Latest => x.latest.clone().unwrap_or(Ok(None)), LatestOrNumber::Number(n) => x.blocks.get(&n).cloned().unwrap_or(Ok(None)) }).map_err(|_| BridgeRpcError::HttpFetch) }
	fn get_transaction_receipt(h: EthHash) -> Result<Option<TransactionReceipt>, BridgeRpcError> { w(|x| x.receipts.get(&h).cloned().unwrap_or(Ok(None))).map_err(|_| BridgeRpcError::HttpFetch) }
	fn eth_call(target: H160, _input: &[u8], at: LatestOrNumber) -> Result<Vec<u8>, BridgeRpcError> { w(|x| match at { LatestOrNumber::Number(n) => x.eth_calls.get(&(n, target)).cloned().unwrap_or(Ok(vec![])), LatestOrNumber::Latest => Err(()) }).map_err(|_| BridgeRpcError::HttpFetch) }
}
pub fn fail_no(r: &EthCallFailure) -> u8 { match r { EthCallFailure::ReturnDataExceedsLimit => 1, EthCallFailure::ReturnDataEmpty => 2, EthCallFailure::Internal => 3 } }
pub struct Subscriber;
impl EthCallOracleSubscriber for Subscriber {
	type CallId = EthCallId;
	fn on_eth_call_complete(id: EthCallId, d: &[u8; 32], b: u64, t: u64) { w(|x| x.calls.push((id, CallDone::Ok(*d, b, t)))) }
	fn on_eth_call_failed(id: EthCallId, r: EthCallFailure) { w(|x| x.calls.push((id, CallDone::Failed(fail_no(&r))))) }
}
/// routes like the runtime's router and records every delivery
pub struct Router;
impl EthereumEventRouter for Router {
	fn route(source: &H160, dest: &H160, data: &[u8]) -> EventRouterResult {
		let r = if w(|x| x.log_only) { Ok(Weight::zero()) }
			else if *dest == <Echo as EthereumEventSubscriber>::address() { <Echo as EthereumEventSubscriber>::process_event(source, data).map_err(|(w, e)| (w, EventRouterError::FailedProcessing(e))) }
			else if *dest == <Erc20Peg as EthereumEventSubscriber>::address() { <Erc20Peg as EthereumEventSubscriber>::process_event(source, data).map_err(|(w, e)| (w, EventRouterError::FailedProcessing(e))) }
			else if *dest == <NftPeg as EthereumEventSubscriber>::address() { <NftPeg as EthereumEventSubscriber>::process_event(source, data).map_err(|(w, e)| (w, EventRouterError::FailedProcessing(e))) }
			else { Err((Weight::zero(), EventRouterError::NoReceiver)) };
		w(|x| x.routed.push(Routed { source: *source, dest: *dest, data: data.to_vec(), ok: r.is_ok() }));
		r
	}
}
/// records every outgoing request before handing it to the real bridge
pub struct Bridge;
impl EthereumBridge for Bridge {
	fn send_event(s: &H160, d: &H160, m: &[u8]) -> Result<EventProofId, DispatchError> {
		let paused = EthBridge::bridge_paused();
		let r = <EthBridge as EthereumBridge>::send_event(s, d, m);
		w(|x| x.sent.push(Sent { out: Out::Eth { source: *s, dest: *d, msg: m.to_vec() }, id: r.as_ref().ok().copied(), paused }));
		r
	}
}
impl XrplBridgeToEthyAdapter<AuthorityId> for Bridge {
	fn sign_xrpl_transaction(d: &[u8]) -> Result<EventProofId, DispatchError> {
		let paused = EthBridge::bridge_paused();
		let r = <EthBridge as XrplBridgeToEthyAdapter<AuthorityId>>::sign_xrpl_transaction(d);
		w(|x| x.sent.push(Sent { out: Out::Xrpl(d.to_vec()), id: r.as_ref().ok().copied(), paused }));
		r
	}
	fn validators() -> Vec<AuthorityId> { <EthBridge as XrplBridgeToEthyAdapter<AuthorityId>>::validators() }
	fn xrp_validators() -> Vec<AuthorityId> { <EthBridge as XrplBridgeToEthyAdapter<AuthorityId>>::xrp_validators() }
}
type Extrinsic = TestXt<RuntimeCall, ()>;
impl frame_system::offchain::SigningTypes for Test { type Public = <Signature as Verify>::Signer; type Signature = Signature; }
impl<C> frame_system::offchain::SendTransactionTypes<C> for Test where RuntimeCall: From<C> { type OverarchingCall = RuntimeCall; type Extrinsic = Extrinsic; }
impl<L> frame_system::offchain::CreateSignedTransaction<L> for Test where RuntimeCall: From<L> {
	fn create_transaction<C: frame_system::offchain::AppCrypto<Self::Public, Self::Signature>>(call: RuntimeCall, _p: <Signature as Verify>::Signer, _a: AccountId, nonce: u32) -> Option<(RuntimeCall, <Extrinsic as ExtrinsicT>::SignaturePayload)> { Some((call, (nonce as u64, ()))) }
}
impl pallet_ethy::Config for Test {
	type AuthorityChangeDelay = AuthorityChangeDelay;
	type AuthoritySet = Validators;
	type BridgePalletId = BridgePalletId;
	type EthCallSubscribers = Subscriber;
	type EthereumRpcClient = Client;
	type EthyId = AuthorityId;
	type EventRouter = Router;
	type FinalSessionTracker = Sessions;
	type NotarizationThreshold = NotarizationThreshold;
	type UnixTime = TimestampPallet;
	type RuntimeCall = RuntimeCall;
	type RuntimeEvent = RuntimeEvent;
	type EpochDuration = EpochDuration;
	type ChallengeBond = ChallengerBond;
	type MultiCurrency = AssetsExt;
	type NativeAssetId = NativeAssetId;
	type RelayerBond = RelayerBond;
	type MaxXrplKeys = MaxXrplKeys;
	type Scheduler = Scheduler;
	type PalletsOrigin = OriginCaller;
	type MaxNewSigners = MaxNewSigners;
	type XrplBridgeAdapter = XRPLBridge;
	type MaxAuthorities = MaxAuthorities;
	type MaxEthData = MaxEthData;
	type MaxChallenges = MaxChallenges;
	type MaxMessagesPerBlock = MaxMessagesPerBlock;
	type MaxCallRequests = MaxCallRequests;
	type WeightInfo = ();
	type MaxProcessedMessageIds = MaxProcessedMessageIds;
}
parameter_types! {
	pub const PegPalletId: PalletId = PalletId(*b"py/erc20");
	pub const MaxDelaysPerBlock: u32 = 10;
	pub const MaxReadyBlocks: u32 = 100;
	pub const StringLimit: u32 = 50;
	pub const NftPegPalletId: PalletId = PalletId(*b"  nftpeg");
	pub const DelayLength: BlockNumber = 5;
	pub const MaxAddresses: u32 = 6;
	pub const MaxTokensPerMint: u32 = 10;
	pub const MaxCollectionsPerWithdraw: u32 = 4;
	pub const MaxSerialsPerWithdraw: u32 = 10;
	pub const EchoPalletId: PalletId = PalletId(*b"pingpong");
	pub const NftPalletId: PalletId = PalletId(*b"nftokens");
	pub static MaxTokensPerCollection: u32 = 25;
	pub static MintLimit: u32 = 12;
	pub const XrpTxChallengePeriod: u32 = 15;
	pub const TicketSequenceThreshold: Percent = Percent::from_percent(66_u8);
	pub const XRPTransactionLimit: u32 = 10;
	pub const XRPLTransactionLimitPerLedger: u32 = 10;
	pub const MaxPrunedTransactionsPerBlock: u32 = 5000;
	pub const MaxDelayedPaymentsPerBlock: u32 = 4;
	pub const DelayedPaymentBlockLimit: BlockNumber = 1000;
	pub const XrpAssetId: u32 = XRP_ASSET_ID;
	pub const XrplPalletId: PalletId = PalletId(*b"xrpl-peg");
	pub static MaxTokensPerXls20Mint: u32 = 8;
	pub const Xls20PalletId: PalletId = PalletId(*b"xls20nft");
}
impl pallet_erc20_peg::Config for Test {
	type EthBridge = Bridge;
	type RuntimeEvent = RuntimeEvent;
	type MultiCurrency = AssetsExt;
	type PegPalletId = PegPalletId;
	type WeightInfo = ();
	type NativeAssetId = NativeAssetId;
	type StringLimit = StringLimit;
	type MaxDelaysPerBlock = MaxDelaysPerBlock;
	type MaxReadyBlocks = MaxReadyBlocks;
}
impl pallet_nft_peg::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type PalletId = NftPegPalletId;
	type DelayLength = DelayLength;
	type MaxAddresses = MaxAddresses;
	type MaxTokensPerMint = MaxTokensPerMint;
	type EthBridge = Bridge;
	type NftPegWeightInfo = ();
	type MaxCollectionsPerWithdraw = MaxCollectionsPerWithdraw;
	type MaxSerialsPerWithdraw = MaxSerialsPerWithdraw;
	type NFTMinter = Nft;
}
impl pallet_echo::Config for Test { type RuntimeEvent = RuntimeEvent; type EthereumBridge = Bridge; type PalletId = EchoPalletId; type WeightInfo = (); }
impl pallet_nft::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type MaxTokensPerCollection = MaxTokensPerCollection;
	type MintLimit = MintLimit;
	type OnTransferSubscription = ();
	type OnNewAssetSubscription = ();
	type MultiCurrency = AssetsExt;
	type PalletId = NftPalletId;
	type ParachainId = TestParachainId;
	type StringLimit = StringLimit;
	type WeightInfo = ();
	type Xls20MintRequest = Xls20;
	type NFIRequest = ();
}
impl pallet_xrpl_bridge::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type EthyAdapter = Bridge;
	type MultiCurrency = AssetsExt;
	type ApproveOrigin = EnsureRoot<AccountId>;
	type WeightInfo = ();
	type XrpAssetId = XrpAssetId;
	type NativeAssetId = NativeAssetId;
	type PalletId = XrplPalletId;
	type ChallengePeriod = XrpTxChallengePeriod;
	type MaxPrunedTransactionsPerBlock = MaxPrunedTransactionsPerBlock;
	type MaxDelayedPaymentsPerBlock = MaxDelayedPaymentsPerBlock;
	type DelayedPaymentBlockLimit = DelayedPaymentBlockLimit;
	type UnixTime = TimestampPallet;
	type TicketSequenceThreshold = TicketSequenceThreshold;
	type XRPTransactionLimit = XRPTransactionLimit;
	type XRPLTransactionLimitPerLedger = XRPLTransactionLimitPerLedger;
	type NFTExt = Nft;
	type Xls20Ext = Xls20;
}
impl pallet_xls20::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type PalletId = Xls20PalletId;
	type MaxTokensPerXls20Mint = MaxTokensPerXls20Mint;
	type MultiCurrency = AssetsExt;
	type WeightInfo = ();
	type NFTExt = Nft;
	type NFTCollectionInfo = Nft;
	type Xls20PaymentAsset = XrpAssetId;
	type NFTMinter = Nft;
	type Migrator = ();
}
include!("../../common/ledger.rs");
pub fn sg(w: AccountId) -> RuntimeOrigin { RuntimeOrigin::signed(w) }
pub fn root() -> RuntimeOrigin { RuntimeOrigin::root() }
/// a dispatchable that may record outgoing requests: they do not count when it is rolled back
pub fn txs<R>(f: impl FnOnce() -> Result<R, DispatchError>) -> Result<R, DispatchError> { let n = w(|x| x.sent.len()); let r = tx(f); if r.is_err() { w(|x| x.sent.truncate(n)) } r }
/// run and always roll back
pub fn probe<R>(f: impl FnOnce() -> R) -> R {
	let (n, m) = w(|x| (x.sent.len(), x.routed.len())); let mut out = None;
	let _ = frame_support::storage::with_storage_layer::<(), DispatchError, _>(|| { out = Some(f()); Err(DispatchError::Other("probe")) });
	w(|x| { x.sent.truncate(n); x.routed.truncate(m) }); out.unwrap()
}
// ---- independent ABI encoding
pub fn word(v: impl Into<u128>) -> Vec<u8> { let mut o = vec![0u8; 16]; o.extend(v.into().to_be_bytes()); o }
pub fn aword(a: H160) -> Vec<u8> { let mut o = vec![0u8; 12]; o.extend(a.0); o }
pub fn abytes(b: &[u8]) -> Vec<u8> { let mut o = word(b.len() as u64); o.extend(b); while o.len() % 32 != 0 { o.push(0) } o }
/// head of fixed words and offsets, then the dynamic tails in order
pub fn abi(parts: &[Result<Vec<u8>, Vec<u8>>]) -> Vec<u8> {
	let (mut head, mut tail): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
	for p in parts { match p { Ok(x) => head.extend(x), Err(d) => { head.extend(word((parts.len() * 32 + tail.len()) as u64)); tail.extend(d) } } }
	head.extend(tail); head
}
pub fn arr(words: &[Vec<u8>]) -> Vec<u8> { let mut o = word(words.len() as u64); for x in words { o.extend(x) } o }
pub fn arr_dyn(items: &[Vec<u8>]) -> Vec<u8> { let mut o = word(items.len() as u64); let mut off = items.len() * 32; for i in items { o.extend(word(off as u64)); off += i.len() } for i in items { o.extend(i) } o }
pub fn pallet_h160(p: PalletId) -> H160 { use sp_runtime::traits::AccountIdConversion; let a: AccountId = p.into_account_truncating(); a.into() }
pub fn acct(p: PalletId) -> AccountId { use sp_runtime::traits::AccountIdConversion; p.into_account_truncating() }
pub fn reset_world() { w(|x| *x = World::default()) }

fn main() {
	vk::main(&[
		vk::Spec { pid: "C17", run: ethy::run, required: &["claim_ok", "delivered", "delivery_extended", "claim_rejected_invalid", "resubmitted", "missed_claimed", "replay_rejected", "batch_full"] },
		vk::Spec { pid: "C18", run: ethy::run, required: &["challenged", "proven_valid", "proven_invalid", "bond_withdrawn", "vote_rejected", "slashed", "challenge_rejected"] },
		vk::Spec { pid: "C19", run: ethy::run, required: &["proof_requested", "proof_delayed", "proof_emitted", "delayed_emitted", "set_changed", "too_large_rejected", "forced_set_change"] },
		vk::Spec { pid: "C36", run: ethy::run, required: &["call_requested", "call_complete", "call_failed", "call_no_consensus", "ocw_vote_valid", "ocw_vote_invalid"] },
		vk::Spec { pid: "C20", run: pegs::run, required: &["deposit_ok", "deposit_delayed", "withdraw_ok", "withdraw_delayed", "deposit_rejected", "withdraw_rejected", "delayed_paid"] },
		vk::Spec { pid: "C21", run: pegs::run_nft, required: &["nft_deposit_ok", "nft_blocked", "nft_withdraw_ok", "nft_reclaimed", "nft_reclaim_rejected", "nft_withdraw_rejected"] },
		vk::Spec { pid: "C15", run: xrpl::run, required: &["credited", "xrp_deposit", "asset_deposit", "root_deposit", "xls20_deposit", "challenged_not_credited", "replay_rejected", "outside_window_rejected", "relay_rejected", "deposit_failed", "pruned", "ledger_over_limit"] },
		vk::Spec { pid: "C16", run: xrpl::run, required: &["withdraw_xrp", "withdraw_root", "withdraw_asset", "rounded", "rounding_refused", "delayed", "delayed_sent", "delayed_waits", "withdraw_rejected", "signer_list", "accept_offer", "next_tickets", "next_tickets_rejected"] },
		vk::Spec { pid: "C35", run: xrpl::run, required: &["xls20_enabled", "xls20_enable_rejected", "xls20_mint", "xls20_fee_paid", "re_requested", "re_request_rejected", "fulfilled", "fulfil_rejected", "withdraw_nft", "withdraw_nft_rejected", "xls20_deposit", "xls20_collection", "burnable_refused"] },
	])
}
