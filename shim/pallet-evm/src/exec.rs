//! The execution part of the stand-in: Frontier's stack runner, with the EVM interpreter replaced by a small script
//! interpreter. Fees, nonces, value transfer, storage rollback and the precompile set behave as in Frontier.
use crate::*;
use frame_support::storage::with_transaction;
use sp_runtime::TransactionOutcome;
use frame_support::traits::ExistenceRequirement;
use sp_runtime::DispatchError;

/// A step of a scripted contract. The account code of a scripted contract is the SCALE encoding of `Vec<Step>`.
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub enum Step {
	/// kind: 0 call, 1 callcode, 2 delegatecall, 3 staticcall; `must` reverts the frame when the sub-call fails
	Call { kind: u8, to: H160, value: U256, input: Vec<u8>, gas: Option<u64>, must: bool },
	/// call `to` with the contract's own input
	Forward { kind: u8, to: H160, value: U256, must: bool },
	Revert,
	/// finish with this output
	Return(Vec<u8>),
	/// answer a token-receiver hook as the ERC standards ask, revert on anything else
	Receiver,
}
/// One entry per frame that reached a precompile or contract.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Frame { pub depth: usize, pub code_address: H160, pub caller: H160, pub address: H160, pub value: U256, pub input: Vec<u8>, pub is_static: bool, pub ok: bool, pub output: Vec<u8> }
thread_local! { pub static FRAMES: std::cell::RefCell<Vec<Frame>> = Default::default(); static IN_EVM: std::cell::Cell<bool> = Default::default(); static LAST_GAS: std::cell::Cell<u64> = Default::default(); }
/// gas used by the last transaction that ran
pub fn last_gas() -> u64 { LAST_GAS.with(|g| g.get()) }
pub fn take_frames() -> Vec<Frame> { FRAMES.with(|f| std::mem::take(&mut *f.borrow_mut())) }

pub fn validate<T: Config>(source: H160, target: Option<H160>, input: Vec<u8>, value: U256, gas_limit: u64, max_fee: Option<U256>, max_prio: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool) -> Result<(), RunnerError<Error<T>>> where BalanceOf<T>: TryFrom<U256> + Into<U256> {
	let (base_fee, weight) = T::FeeCalculator::min_gas_price();
	let (account, _) = Pallet::<T>::account_basic(&source);
	let e = |error| Err(RunnerError { error, weight });
	if let Some(n) = nonce { if n < account.nonce || n > account.nonce { return e(Error::<T>::InvalidNonce) } }
	if U256::from(gas_limit) > T::BlockGasLimit::get() { return e(Error::<T>::GasLimitTooHigh) }
	if gas_limit < 21_000 { return e(Error::<T>::GasLimitTooLow) }
	match (max_fee, max_prio) {
		(Some(m), p) => { if m < base_fee { return e(Error::<T>::GasPriceTooLow) } if let Some(p) = p { if p > m { return e(Error::<T>::GasPriceTooLow) } } },
		(None, None) if !is_transactional => (),
		_ => return e(Error::<T>::GasPriceTooLow),
	}
	let tx = CheckEvmTransaction::<Error<T>>::new(CheckEvmTransactionInput { chain_id: Some(T::ChainId::get()), to: target, input, nonce: nonce.unwrap_or(account.nonce), gas_limit: gas_limit.into(), gas_price: None, max_fee_per_gas: max_fee, max_priority_fee_per_gas: max_prio, value, access_list }, base_fee);
	T::HandleTxValidation::with_balance_for(&tx, &account).map_err(|error| RunnerError { error, weight })
}
pub fn execute<T: Config, R>(source: H160, _value: U256, gas_limit: u64, max_fee: Option<U256>, max_prio: Option<U256>, is_transactional: bool, f: impl FnOnce(&mut Executor<T>) -> (ExitReason, R)) -> Result<ExecutionInfoV2<R>, RunnerError<Error<T>>> where BalanceOf<T>: TryFrom<U256> + Into<U256> {
	let (base_fee, weight) = T::FeeCalculator::min_gas_price();
	let err = |error| RunnerError { error, weight };
	if IN_EVM.with(|r| r.replace(true)) { return Err(err(Error::<T>::Reentrancy)) }
	struct Unlock; impl Drop for Unlock { fn drop(&mut self) { IN_EVM.with(|r| r.set(false)) } } let _u = Unlock;
	if is_transactional && AccountCodes::<T>::get(source) != Vec::<u8>::new() { return Err(err(Error::<T>::TransactionMustComeFromEOA)) }
	let (price, prio) = match (max_fee, max_prio, is_transactional) {
		(Some(m), _, true) if m.is_zero() => (U256::zero(), U256::zero()),
		(Some(_), None, true) => (base_fee, U256::zero()),
		(Some(m), Some(p), true) => { let a = m.saturating_sub(base_fee).min(p); (base_fee.saturating_add(a), a) },
		(None, _, false) => (U256::zero(), U256::zero()),
		(Some(_), _, false) => (U256::zero(), U256::zero()),
		_ => return Err(err(Error::<T>::GasPriceTooLow)),
	};
	let _ = prio;
	let total = price.checked_mul(U256::from(gas_limit)).ok_or_else(|| err(Error::<T>::FeeOverflow))?;
	let fee = T::OnChargeTransaction::withdraw_fee(&source, total).map_err(err)?;
	let precompiles = T::PrecompilesValue::get();
	let mut ex = Executor { precompiles: &precompiles, gas: gas_limit, logs: vec![], depth: 0, origin: source };
	let (exit_reason, value) = if stack_failing() { frame_system::Pallet::<T>::inc_account_nonce(&T::AddressMapping::into_account_id(source)); let (_, v) = with_transaction(|| -> TransactionOutcome<Result<_, DispatchError>> { TransactionOutcome::Rollback(Ok(f(&mut ex))) }).expect("layer"); (ExitReason::Revert(ExitRevert::Reverted), v) } else { f(&mut ex) };
	let used = U256::from(gas_limit.saturating_sub(ex.gas)).max(U256::from(21_000u64)).min(U256::from(gas_limit));
	LAST_GAS.with(|g| g.set(used.low_u64()));
	let actual = used.saturating_mul(price);
	let tip = T::OnChargeTransaction::correct_and_deposit_fee(&source, actual, base_fee.saturating_mul(used), fee);
	T::OnChargeTransaction::pay_priority_fee(tip);
	let logs = if exit_reason.is_succeed() { ex.logs } else { vec![] };
	Ok(ExecutionInfoV2 { exit_reason, value, used_gas: UsedGas { standard: used, effective: used }, weight_info: None, logs })
}
fn stack_failing() -> bool { crate::runner::stack::FAIL.with(|f| f.get()) }
pub struct Executor<'a, T: Config> { pub precompiles: &'a T::PrecompilesType, pub gas: u64, pub logs: Vec<Log>, pub depth: usize, pub origin: H160 }
impl<'a, T: Config> Executor<'a, T> where BalanceOf<T>: TryFrom<U256> + Into<U256> {
	pub fn transact_call(&mut self, source: H160, target: H160, value: U256, input: Vec<u8>, _gas: u64) -> (ExitReason, Vec<u8>) {
		frame_system::Pallet::<T>::inc_account_nonce(&T::AddressMapping::into_account_id(source));
		if self.gas < 21_000 { self.gas = 0; return (ExitError::OutOfGas.into(), vec![]) }
		self.gas -= 21_000;
		let ctx = Context { caller: source, address: target, apparent_value: value };
		self.sub(target, Some(Transfer { source, target, value }), input, None, false, &ctx)
	}
	pub fn transact_create(&mut self, source: H160, value: U256, init: Vec<u8>, salt: H256, _gas: u64) -> (ExitReason, H160) {
		let a = T::AddressMapping::into_account_id(source);
		let n: u128 = sp_runtime::traits::UniqueSaturatedInto::unique_saturated_into(frame_system::Pallet::<T>::account_nonce(&a));
		frame_system::Pallet::<T>::inc_account_nonce(&a);
		if self.gas < 53_000 { self.gas = 0; return (ExitError::OutOfGas.into(), H160::zero()) }
		self.gas -= 53_000;
		let address = H160::from_slice(&sp_core::keccak_256(&(source, n, salt).encode())[12..]);
		let r = with_transaction(|| -> TransactionOutcome<Result<ExitReason, DispatchError>> {
			if let Err(e) = Self::transfer(&source, &address, value) { return TransactionOutcome::Rollback(Ok(e.into())) }
			// the "init code" is the script itself
			Pallet::<T>::create_account(address, init.clone()); T::OnCreate::on_create(source, address);
			TransactionOutcome::Commit(Ok(ExitSucceed::Returned.into()))
		}).unwrap_or(ExitReason::Revert(ExitRevert::Reverted));
		(r, address)
	}
	fn transfer(from: &H160, to: &H160, value: U256) -> Result<(), ExitError> {
		if value.is_zero() { return Ok(()) }
		let v: BalanceOf<T> = value.try_into().map_err(|_| ExitError::OutOfFund)?;
		T::Currency::transfer(&T::AddressMapping::into_account_id(*from), &T::AddressMapping::into_account_id(*to), v, ExistenceRequirement::AllowDeath).map_err(|_| ExitError::OutOfFund)
	}
	/// a message call: value transfer, then the precompile or the scripted contract, all or nothing
	pub fn sub(&mut self, code: H160, transfer: Option<Transfer>, input: Vec<u8>, gas: Option<u64>, is_static: bool, ctx: &Context) -> (ExitReason, Vec<u8>) {
		if self.depth > 64 { return (ExitError::CallTooDeep.into(), vec![]) }
		let limit = gas.unwrap_or(self.gas).min(self.gas);
		let keep = self.gas - limit; self.gas = limit;
		let logs = self.logs.len(); let depth = self.depth; self.depth += 1;
		let at = FRAMES.with(|f| { let mut f = f.borrow_mut(); f.push(Frame { depth, code_address: code, caller: ctx.caller, address: ctx.address, value: ctx.apparent_value, input: input.clone(), is_static, ok: false, output: vec![] }); f.len() - 1 });
		let mut res: Option<(ExitReason, Vec<u8>)> = None;
		let _ = with_transaction(|| -> TransactionOutcome<Result<(), DispatchError>> {
			let r = self.frame(code, transfer, input, is_static, ctx);
			let ok = r.0.is_succeed(); res = Some(r);
			if ok { TransactionOutcome::Commit(Ok(())) } else { TransactionOutcome::Rollback(Ok(())) }
		});
		let r = res.unwrap_or((ExitError::CallTooDeep.into(), vec![]));
		self.depth -= 1;
		if !r.0.is_succeed() { self.logs.truncate(logs); }
		if matches!(r.0, ExitReason::Error(_) | ExitReason::Fatal(_)) && !matches!(r.0, ExitReason::Error(ExitError::OutOfFund)) { self.gas = 0; }
		self.gas += keep;
		FRAMES.with(|f| if let Some(x) = f.borrow_mut().get_mut(at) { x.ok = r.0.is_succeed(); x.output = r.1.clone(); });
		r
	}
	fn frame(&mut self, code: H160, transfer: Option<Transfer>, input: Vec<u8>, is_static: bool, ctx: &Context) -> (ExitReason, Vec<u8>) {
		if let Some(t) = &transfer {
			if is_static && !t.value.is_zero() { return (ExitError::Other("static value".into()).into(), vec![]) }
			if let Err(e) = Self::transfer(&t.source, &t.target, t.value) { return (ExitReason::Error(e), vec![]) }
		}
		let precompiles = self.precompiles;
		let is_pre = match precompiles.is_precompile(code, self.gas) { IsPrecompileResult::Answer { is_precompile, extra_cost } => { if extra_cost > self.gas { return (ExitError::OutOfGas.into(), vec![]) } self.gas -= extra_cost; is_precompile }, IsPrecompileResult::OutOfGas => return (ExitError::OutOfGas.into(), vec![]) };
		if is_pre {
			let limit = self.gas;
			let mut h = Handle { ex: self, code, input, ctx: ctx.clone(), is_static, limit };
			return match precompiles.execute(&mut h) {
				Some(Ok(o)) => (ExitReason::Succeed(o.exit_status), o.output),
				Some(Err(PrecompileFailure::Error { exit_status })) => (ExitReason::Error(exit_status), vec![]),
				Some(Err(PrecompileFailure::Revert { exit_status, output })) => (ExitReason::Revert(exit_status), output),
				Some(Err(PrecompileFailure::Fatal { exit_status })) => (ExitReason::Fatal(exit_status), vec![]),
				None => (ExitReason::Succeed(ExitSucceed::Stopped), vec![]),
			}
		}
		let script = AccountCodes::<T>::get(code);
		if script.is_empty() { return (ExitSucceed::Stopped.into(), vec![]) }
		let Ok(steps) = Vec::<Step>::decode(&mut &script[..]) else { return (ExitSucceed::Stopped.into(), vec![]) };
		let mut out = vec![];
		for s in steps {
			if self.gas < 100 { return (ExitError::OutOfGas.into(), vec![]) } self.gas -= 100;
			let (kind, to, value, data, gas, must) = match s { Step::Revert => return (ExitRevert::Reverted.into(), out), Step::Return(o) => return (ExitSucceed::Returned.into(), o), Step::Receiver => { let hooks = [[0x15u8, 0x0b, 0x7a, 0x02], [0xf2, 0x3a, 0x6e, 0x61], [0xbc, 0x19, 0x7c, 0x81]]; return match hooks.iter().find(|h| input.starts_with(&h[..])) { Some(h) => { let mut o = h.to_vec(); o.resize(32, 0); (ExitSucceed::Returned.into(), o) }, None => (ExitRevert::Reverted.into(), vec![]) } }, Step::Call { kind, to, value, input, gas, must } => (kind, to, value, input, gas, must), Step::Forward { kind, to, value, must } => (kind, to, value, input.clone(), None, must) };
			let (c, t, st) = match kind {
				1 => (Context { caller: ctx.address, address: ctx.address, apparent_value: value }, Some(Transfer { source: ctx.address, target: ctx.address, value }), is_static),
				2 => (Context { caller: ctx.caller, address: ctx.address, apparent_value: ctx.apparent_value }, None, is_static),
				3 => (Context { caller: ctx.address, address: to, apparent_value: U256::zero() }, None, true),
				_ => (Context { caller: ctx.address, address: to, apparent_value: value }, Some(Transfer { source: ctx.address, target: to, value }), is_static),
			};
			let most = self.gas - self.gas / 64; let (r, o) = self.sub(to, t, data, Some(gas.unwrap_or(most).min(most)), st, &c);
			if must && !r.is_succeed() { return (ExitRevert::Reverted.into(), o) }
			out = o;
		}
		(ExitSucceed::Returned.into(), out)
	}
}
pub struct Handle<'x, 'a, T: Config> { ex: &'x mut Executor<'a, T>, code: H160, input: Vec<u8>, ctx: Context, is_static: bool, limit: u64 }
impl<'x, 'a, T: Config> PrecompileHandle for Handle<'x, 'a, T> where BalanceOf<T>: TryFrom<U256> + Into<U256> {
	fn call(&mut self, to: H160, transfer: Option<Transfer>, input: Vec<u8>, gas_limit: Option<u64>, is_static: bool, context: &Context) -> (ExitReason, Vec<u8>) { let st = self.is_static || is_static; self.ex.sub(to, transfer, input, gas_limit, st, context) }
	fn record_cost(&mut self, cost: u64) -> Result<(), ExitError> { if cost > self.ex.gas { return Err(ExitError::OutOfGas) } self.ex.gas -= cost; Ok(()) }
	fn record_external_cost(&mut self, _: Option<u64>, _: Option<u64>) -> Result<(), ExitError> { Ok(()) }
	fn refund_external_cost(&mut self, _: Option<u64>, _: Option<u64>) {}
	fn remaining_gas(&self) -> u64 { self.ex.gas }
	fn log(&mut self, address: H160, topics: Vec<H256>, data: Vec<u8>) -> Result<(), ExitError> { self.ex.logs.push(Log { address, topics, data }); Ok(()) }
	fn code_address(&self) -> H160 { self.code }
	fn input(&self) -> &[u8] { &self.input }
	fn context(&self) -> &Context { &self.ctx }
	fn is_static(&self) -> bool { self.is_static }
	fn gas_limit(&self) -> Option<u64> { Some(self.limit) }
}
