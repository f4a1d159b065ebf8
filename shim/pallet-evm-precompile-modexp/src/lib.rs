//! Stand-in: the standard precompiles are present but do nothing.
use fp_evm::{Precompile, PrecompileHandle, PrecompileOutput, PrecompileResult, ExitSucceed};
pub struct Modexp; impl Precompile for Modexp { fn execute(_h: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: vec![] }) } }
