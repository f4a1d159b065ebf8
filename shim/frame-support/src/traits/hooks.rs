use super::*;
pub trait OnInitialize<B> { fn on_initialize(_n: B) -> Weight { Weight::zero() } }
pub trait OnFinalize<B> { fn on_finalize(_n: B) {} }
pub trait OnIdle<B> { fn on_idle(_n: B, _w: Weight) -> Weight { Weight::zero() } }
pub trait OnPoll<B> {}
pub trait OnGenesis { fn on_genesis() {} }
pub trait OnRuntimeUpgrade { fn on_runtime_upgrade() -> Weight { Weight::zero() } }
pub trait IntegrityTest { fn integrity_test() {} }
pub trait TryState<B> {}
pub trait BuildGenesisConfig: Default { fn build(&self); }
pub trait GenesisBuild<T, I = ()> {}
pub trait Hooks<B> {
	fn on_finalize(_n: B) {} fn on_idle(_n: B, _w: Weight) -> Weight { Weight::zero() } fn on_initialize(_n: B) -> Weight { Weight::zero() } fn on_runtime_upgrade() -> Weight { Weight::zero() }
	fn try_state(_n: B) -> Result<(), DispatchError> { Ok(()) } fn pre_upgrade() -> Result<Vec<u8>, DispatchError> { Ok(vec![]) } fn post_upgrade(_s: Vec<u8>) -> Result<(), DispatchError> { Ok(()) } fn offchain_worker(_n: B) {} fn integrity_test() {}
}
macro_rules! tup { () => { tup!(@ ); }; ($h:ident $($t:ident)*) => { tup!(@ $h $($t)*); tup!($($t)*); };
(@ $($n:ident)*) => {
	impl<BN: Clone, $($n: OnInitialize<BN>),*> OnInitialize<BN> for ($($n,)*) { #[allow(unused)] fn on_initialize(n: BN) -> Weight { let mut w = Weight::zero(); $( w = w.saturating_add($n::on_initialize(n.clone())); )* w } }
	impl<BN: Clone, $($n: OnFinalize<BN>),*> OnFinalize<BN> for ($($n,)*) { #[allow(unused)] fn on_finalize(n: BN) { $( $n::on_finalize(n.clone()); )* } }
	impl<BN: Clone, $($n: OnIdle<BN>),*> OnIdle<BN> for ($($n,)*) { #[allow(unused)] fn on_idle(n: BN, r: Weight) -> Weight { let mut w = Weight::zero(); $( w = w.saturating_add($n::on_idle(n.clone(), r.saturating_sub(w))); )* w } }
	impl<BN: Clone, $($n: OffchainWorker<BN>),*> OffchainWorker<BN> for ($($n,)*) { #[allow(unused)] fn offchain_worker(n: BN) { $( $n::offchain_worker(n.clone()); )* } }
	impl<$($n: OnRuntimeUpgrade),*> OnRuntimeUpgrade for ($($n,)*) { #[allow(unused_mut)] fn on_runtime_upgrade() -> Weight { let mut w = Weight::zero(); $( w = w.saturating_add($n::on_runtime_upgrade()); )* w } }
	impl<$($n: OnGenesis),*> OnGenesis for ($($n,)*) { fn on_genesis() { $( $n::on_genesis(); )* } }
	impl<$($n: IntegrityTest),*> IntegrityTest for ($($n,)*) { fn integrity_test() { $( $n::integrity_test(); )* } }
	impl<$($n),*> PalletsInfoAccess for ($($n,)*) {}
}; }
tup!(A1 A2 A3 A4 A5 A6 A7 A8 A9 A10 A11 A12 A13 A14 A15 A16 A17 A18 A19 A20 A21 A22 A23 A24 A25 A26 A27 A28 A29 A30 A31 A32 A33 A34 A35 A36 A37 A38 A39 A40 A41 A42 A43 A44 A45 A46 A47 A48 A49 A50 A51 A52 A53 A54 A55 A56 A57 A58 A59 A60);
