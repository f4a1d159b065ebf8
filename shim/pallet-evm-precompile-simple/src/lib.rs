//! Stand-in: the standard precompiles are present but do nothing.
use fp_evm::{Precompile, PrecompileHandle, PrecompileOutput, PrecompileResult, ExitSucceed};
pub struct ECRecover; impl Precompile for ECRecover { fn execute(_h: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: vec![] }) } }
pub struct ECRecoverPublicKey; impl Precompile for ECRecoverPublicKey { fn execute(_h: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: vec![] }) } }
pub struct Identity; impl Precompile for Identity { fn execute(_h: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: vec![] }) } }
pub struct Ripemd160; impl Precompile for Ripemd160 { fn execute(_h: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: vec![] }) } }
pub struct Sha256; impl Precompile for Sha256 { fn execute(_h: &mut impl PrecompileHandle) -> PrecompileResult { Ok(PrecompileOutput { exit_status: ExitSucceed::Returned, output: vec![] }) } }
