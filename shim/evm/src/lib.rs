//! Stand-in for `evm`: the gas schedule constants used by the precompile utilities.
#[derive(Clone, Debug)]
pub struct Config { pub gas_account_access_cold: u64, pub gas_storage_read_warm: u64, pub gas_call: u64, pub gas_sload_cold: u64, pub increase_state_access_gas: bool, pub empty_considered_exists: bool, pub call_l64_after_gas: bool, pub estimate: bool, pub gas_transaction_call: u64, pub gas_transaction_create: u64, pub gas_transaction_zero_data: u64, pub gas_transaction_non_zero_data: u64 }
impl Config {
	pub const fn istanbul() -> Config { Config { gas_account_access_cold: 0, gas_storage_read_warm: 0, gas_call: 700, gas_sload_cold: 0, increase_state_access_gas: false, empty_considered_exists: false, call_l64_after_gas: true, estimate: false, gas_transaction_call: 21000, gas_transaction_create: 53000, gas_transaction_zero_data: 4, gas_transaction_non_zero_data: 16 } }
	pub const fn berlin() -> Config { Config { gas_account_access_cold: 2600, gas_storage_read_warm: 100, gas_call: 0, gas_sload_cold: 2100, increase_state_access_gas: true, ..Self::istanbul() } }
	pub const fn london() -> Config { Self::berlin() }
	pub const fn shanghai() -> Config { Self::berlin() }
}
