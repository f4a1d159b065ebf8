//! Stand-in for `fp-evm`: the precompile interface of Frontier at polkadot-v1.0.
#![allow(clippy::all)]
use codec::{Decode, Encode};
use scale_info::TypeInfo;
use serde::{Deserialize, Serialize};
use sp_core::{H160, H256, U256};
use sp_weights::Weight;
use std::borrow::Cow;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Context { pub address: H160, pub caller: H160, pub apparent_value: U256 }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Transfer { pub source: H160, pub target: H160, pub value: U256 }
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, Serialize, Deserialize)]
pub struct Log { pub address: H160, pub topics: Vec<H256>, pub data: Vec<u8> }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, Serialize, Deserialize)]
pub enum ExitSucceed { Stopped, Returned, Suicided }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, Serialize, Deserialize)]
pub enum ExitRevert { Reverted }
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, Serialize, Deserialize)]
pub enum ExitError { StackUnderflow, StackOverflow, InvalidJump, InvalidRange, DesignatedInvalid, CallTooDeep, CreateCollision, CreateContractLimit, InvalidCode(u8), OutOfOffset, OutOfGas, OutOfFund, PCUnderflow, CreateEmpty, Other(Cow<'static, str>), MaxNonce }
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, Serialize, Deserialize)]
pub enum ExitFatal { NotSupported, UnhandledInterrupt, CallErrorAsFatal(ExitError), Other(Cow<'static, str>) }
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, Serialize, Deserialize)]
pub enum ExitReason { Succeed(ExitSucceed), Error(ExitError), Revert(ExitRevert), Fatal(ExitFatal) }
impl ExitReason { pub fn is_succeed(&self) -> bool { matches!(self, Self::Succeed(_)) } pub fn is_error(&self) -> bool { matches!(self, Self::Error(_)) } pub fn is_revert(&self) -> bool { matches!(self, Self::Revert(_)) } pub fn is_fatal(&self) -> bool { matches!(self, Self::Fatal(_)) } }
impl From<ExitSucceed> for ExitReason { fn from(s: ExitSucceed) -> Self { Self::Succeed(s) } }
impl From<ExitRevert> for ExitReason { fn from(s: ExitRevert) -> Self { Self::Revert(s) } }
impl From<ExitError> for ExitReason { fn from(s: ExitError) -> Self { Self::Error(s) } }
impl From<ExitFatal> for ExitReason { fn from(s: ExitFatal) -> Self { Self::Fatal(s) } }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PrecompileOutput { pub exit_status: ExitSucceed, pub output: Vec<u8> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum PrecompileFailure { Error { exit_status: ExitError }, Revert { exit_status: ExitRevert, output: Vec<u8> }, Fatal { exit_status: ExitFatal } }
impl From<ExitError> for PrecompileFailure { fn from(e: ExitError) -> Self { Self::Error { exit_status: e } } }
pub type PrecompileResult = Result<PrecompileOutput, PrecompileFailure>;

pub trait PrecompileHandle {
	fn call(&mut self, to: H160, transfer: Option<Transfer>, input: Vec<u8>, gas_limit: Option<u64>, is_static: bool, context: &Context) -> (ExitReason, Vec<u8>);
	fn record_cost(&mut self, cost: u64) -> Result<(), ExitError>;
	fn record_external_cost(&mut self, ref_time: Option<u64>, proof_size: Option<u64>) -> Result<(), ExitError>;
	fn refund_external_cost(&mut self, ref_time: Option<u64>, proof_size: Option<u64>);
	fn remaining_gas(&self) -> u64;
	fn log(&mut self, address: H160, topics: Vec<H256>, data: Vec<u8>) -> Result<(), ExitError>;
	fn code_address(&self) -> H160;
	fn input(&self) -> &[u8];
	fn context(&self) -> &Context;
	fn is_static(&self) -> bool;
	fn gas_limit(&self) -> Option<u64>;
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum IsPrecompileResult { Answer { is_precompile: bool, extra_cost: u64 }, OutOfGas }
pub trait Precompile { fn execute(handle: &mut impl PrecompileHandle) -> PrecompileResult; }
pub trait PrecompileSet { fn execute(&self, handle: &mut impl PrecompileHandle) -> Option<PrecompileResult>; fn is_precompile(&self, address: H160, remaining_gas: u64) -> IsPrecompileResult; }
impl PrecompileSet for () { fn execute(&self, _: &mut impl PrecompileHandle) -> Option<PrecompileResult> { None } fn is_precompile(&self, _: H160, _: u64) -> IsPrecompileResult { IsPrecompileResult::Answer { is_precompile: false, extra_cost: 0 } } }
pub trait LinearCostPrecompile { const BASE: u64; const WORD: u64; fn execute(input: &[u8], cost: u64) -> Result<(ExitSucceed, Vec<u8>), PrecompileFailure>; }
/// The base fee source of the EVM.
pub trait FeeCalculator { fn min_gas_price() -> (U256, Weight); }
impl FeeCalculator for () { fn min_gas_price() -> (U256, Weight) { (U256::zero(), Weight::zero()) } }
#[derive(Clone, Debug, Default, PartialEq, Eq, Encode, Decode, TypeInfo, Serialize, Deserialize)]
pub struct Vicinity { pub gas_price: U256, pub origin: H160 }
#[derive(Clone, Debug, Default, PartialEq, Eq, Encode, Decode, TypeInfo, Serialize, Deserialize)]
pub struct GenesisAccount { pub nonce: U256, pub balance: U256, pub storage: std::collections::BTreeMap<H256, H256>, pub code: Vec<u8> }
#[derive(Clone, Debug, Default, PartialEq, Eq, Encode, Decode, TypeInfo, Serialize, Deserialize)]
pub struct Account { pub nonce: U256, pub balance: U256 }
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Encode, Decode, TypeInfo, Serialize, Deserialize)]
pub struct UsedGas { pub standard: U256, pub effective: U256 }
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Encode, Decode, TypeInfo, Serialize, Deserialize)]
pub struct WeightInfo { pub ref_time_limit: Option<u64>, pub proof_size_limit: Option<u64>, pub ref_time_usage: Option<u64>, pub proof_size_usage: Option<u64> }
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, Serialize, Deserialize)]
pub struct ExecutionInfoV2<T> { pub exit_reason: ExitReason, pub value: T, pub used_gas: UsedGas, pub weight_info: Option<WeightInfo>, pub logs: Vec<Log> }
pub type CallInfo = ExecutionInfoV2<Vec<u8>>;
pub type CreateInfo = ExecutionInfoV2<H160>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TransactionValidationError { GasLimitTooLow, GasLimitTooHigh, GasPriceTooLow, PriorityFeeTooHigh, BalanceTooLow, TxNonceTooLow, TxNonceTooHigh, InvalidFeeInput, InvalidChainId, InvalidSignature, UnknownError }
pub type InvalidEvmTransactionError = TransactionValidationError;
#[derive(Clone, Debug, Default)]
pub struct CheckEvmTransactionInput { pub chain_id: Option<u64>, pub to: Option<H160>, pub input: Vec<u8>, pub nonce: U256, pub gas_limit: U256, pub gas_price: Option<U256>, pub max_fee_per_gas: Option<U256>, pub max_priority_fee_per_gas: Option<U256>, pub value: U256, pub access_list: Vec<(H160, Vec<H256>)> }
pub struct CheckEvmTransaction<E> { pub transaction: CheckEvmTransactionInput, pub base_fee: U256, pub _marker: std::marker::PhantomData<E> }
impl<E> CheckEvmTransaction<E> { pub fn new(transaction: CheckEvmTransactionInput, base_fee: U256) -> Self { Self { transaction, base_fee, _marker: Default::default() } } }
pub trait HandleTxValidation<E: From<InvalidEvmTransactionError>> {
	fn with_balance_for(evm_config: &CheckEvmTransaction<E>, who: &Account) -> Result<(), E> {
		let t = &evm_config.transaction;
		let price = t.gas_price.or(t.max_fee_per_gas).unwrap_or_default();
		let total = price.checked_mul(t.gas_limit).and_then(|f| f.checked_add(t.value)).ok_or_else(|| E::from(TransactionValidationError::BalanceTooLow))?;
		if who.balance < total { return Err(TransactionValidationError::BalanceTooLow.into()) }
		Ok(())
	}
}
impl<E: From<InvalidEvmTransactionError>> HandleTxValidation<E> for () {}
/// Weight per gas of Frontier.
pub fn weight_per_gas(block_gas_limit: u64, txn_ratio: sp_arithmetic::Perbill, weight_millis_per_block: u64) -> u64 {
	let weight_per_block = 1_000_000_000u64.saturating_mul(weight_millis_per_block);
	let weight_per_gas = (txn_ratio * weight_per_block).saturating_div(block_gas_limit);
	assert!(weight_per_gas >= 1, "WeightPerGas must greater than or equal with 1");
	weight_per_gas
}
