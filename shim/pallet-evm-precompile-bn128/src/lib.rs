//! Stand-in: the standard precompiles are present but do nothing.
use fp_evm::{Precompile, PrecompileHandle, PrecompileOutput, PrecompileResult, ExitSucceed};
pub struct Bn128Add; impl Precompile for Bn128Add { fn execute(_h: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: vec![] }) } }
pub struct Bn128Mul; impl Precompile for Bn128Mul { fn execute(_h: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: vec![] }) } }
pub struct Bn128Pairing; impl Precompile for Bn128Pairing { fn execute(_h: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: vec![] }) } }
