#[macro_export]
macro_rules! fail { ( $y:expr ) => {{ return Err($y.into()); }}; }
#[macro_export]
macro_rules! ensure { ( $x:expr, $y:expr $(,)? ) => {{ if !$x { $crate::fail!($y); } }}; }
#[macro_export]
macro_rules! defensive { () => { $crate::log::error!("defensive") }; ($e:expr $(,)?) => { $crate::log::error!("defensive: {:?}", $e) }; ($e:expr, $p:expr $(,)?) => { $crate::log::error!("defensive: {:?} {:?}", $e, $p) }; }
#[macro_export]
macro_rules! defensive_assert { ($c:expr $(, $m:expr)? $(,)?) => { if !$c { $crate::defensive!("assertion failed") } }; }
#[macro_export]
macro_rules! assert_ok { ( $x:expr $(,)? ) => { let is = $x; match is { Ok(_) => (), _ => assert!(false, "Expected Ok(_). Got {:#?}", is) } }; ( $x:expr, $y:expr $(,)? ) => { assert_eq!($x, Ok($y)); }; }
#[macro_export]
macro_rules! assert_err { ( $x:expr , $y:expr $(,)? ) => { assert_eq!($x, Err($y.into())); }; }
#[macro_export]
macro_rules! assert_err_ignore_postinfo { ( $x:expr , $y:expr $(,)? ) => { $crate::assert_err!($x.map(|_| ()).map_err(|e| e.error), $y); }; }
#[macro_export]
macro_rules! assert_err_with_weight { ( $call:expr, $err:expr, $weight:expr $(,)? ) => { if let Err(e) = $call { $crate::assert_err!(Err::<(), _>(e.error), $err); assert_eq!(e.post_info.actual_weight, $weight); } else { panic!("expected Err(_), got Ok(_).") } }; }
#[macro_export]
macro_rules! assert_noop { ( $x:expr, $y:expr $(,)? ) => { let h = $crate::__private::storage_root($crate::__private::StateVersion::V1); $crate::assert_err!($x, $y); assert_eq!(h, $crate::__private::storage_root($crate::__private::StateVersion::V1), "storage has been mutated"); }; }
#[macro_export]
macro_rules! assert_storage_noop { ( $x:expr ) => { let h = $crate::__private::storage_root($crate::__private::StateVersion::V1); $x; assert_eq!(h, $crate::__private::storage_root($crate::__private::StateVersion::V1)); }; }
#[macro_export]
macro_rules! assert_error_encoded_size { ($($t:tt)*) => {}; }
#[macro_export]
macro_rules! parameter_types {
	() => {};
	( $(#[$a:meta])* $vis:vis const $name:ident $(< $($tp:ident),* >)? : $t:ty = $v:expr; $($rest:tt)* ) => { $crate::parameter_types!(@const $(#[$a])* $vis $name [$($($tp)*)?] $t, $v); $crate::parameter_types!($($rest)*); };
	( $(#[$a:meta])* $vis:vis storage $name:ident : $t:ty = $v:expr; $($rest:tt)* ) => {
		$(#[$a])* $vis struct $name;
		#[allow(dead_code)]
		impl $name { pub fn key() -> [u8; 16] { $crate::__private::twox_128(concat!(":", stringify!($name), ":").as_bytes()) } pub fn set(v: &$t) { $crate::storage::unhashed::put(&Self::key(), v) } pub fn get() -> $t { $crate::storage::unhashed::get(&Self::key()).unwrap_or_else(|| $v) } }
		impl<_I: From<$t>> $crate::traits::Get<_I> for $name { fn get() -> _I { _I::from(Self::get()) } }
		impl $crate::traits::TypedGet for $name { type Type = $t; fn get() -> $t { Self::get() } }
		$crate::parameter_types!($($rest)*); };
	( $(#[$a:meta])* $vis:vis static $name:ident : $t:ty = $v:expr; $($rest:tt)* ) => {
		$(#[$a])* $vis struct $name;
		#[allow(dead_code, non_snake_case)]
		const _: () = {
			::std::thread_local! { static STATE: ::std::cell::RefCell<$t> = ::std::cell::RefCell::new($v); }
			impl $name { pub fn get() -> $t { STATE.with(|v| v.borrow().clone()) } pub fn set(t: $t) { STATE.with(|v| *v.borrow_mut() = t) } pub fn mutate<R, F: FnOnce(&mut $t) -> R>(f: F) -> R { let mut c = Self::get(); let r = f(&mut c); Self::set(c); r } pub fn take() -> $t { let c = Self::get(); Self::set($v); c } }
		};
		impl<_I: From<$t>> $crate::traits::Get<_I> for $name { fn get() -> _I { _I::from(Self::get()) } }
		impl $crate::traits::TypedGet for $name { type Type = $t; fn get() -> $t { Self::get() } }
		$crate::parameter_types!($($rest)*); };
	( $(#[$a:meta])* $vis:vis $name:ident $(< $($tp:ident),* >)? : $t:ty = $v:expr; $($rest:tt)* ) => { $crate::parameter_types!(@fn $(#[$a])* $vis $name [$($($tp)*)?] $t, $v); $crate::parameter_types!($($rest)*); };
	(@const $(#[$a:meta])* $vis:vis $name:ident [] $t:ty, $v:expr) => {
		$(#[$a])* $vis struct $name;
		#[allow(dead_code)] impl $name { pub const fn get() -> $t { $v } }
		impl<_I: From<$t>> $crate::traits::Get<_I> for $name { fn get() -> _I { _I::from(Self::get()) } }
		impl $crate::traits::TypedGet for $name { type Type = $t; fn get() -> $t { Self::get() } }
	};
	(@fn $(#[$a:meta])* $vis:vis $name:ident [] $t:ty, $v:expr) => {
		$(#[$a])* $vis struct $name;
		#[allow(dead_code)] impl $name { pub fn get() -> $t { $v } }
		impl<_I: From<$t>> $crate::traits::Get<_I> for $name { fn get() -> _I { _I::from(Self::get()) } }
		impl $crate::traits::TypedGet for $name { type Type = $t; fn get() -> $t { Self::get() } }
	};
	(@$k:ident $(#[$a:meta])* $vis:vis $name:ident [$($tp:ident)+] $t:ty, $v:expr) => {
		$(#[$a])* $vis struct $name<$($tp),+>($(::std::marker::PhantomData<$tp>),+);
		#[allow(dead_code)] impl<$($tp),+> $name<$($tp),+> { pub fn get() -> $t { $v } }
		impl<_I: From<$t>, $($tp),+> $crate::traits::Get<_I> for $name<$($tp),+> { fn get() -> _I { _I::from(Self::get()) } }
	};
}
#[doc(hidden)]
#[macro_export]
macro_rules! __impl_hook_traits { ($p:ident, $($w:tt)*) => {
	impl<T: Config> $crate::traits::OnInitialize<::frame_system::pallet_prelude::BlockNumberFor<T>> for $p<T> where $($w)* { fn on_initialize(n: ::frame_system::pallet_prelude::BlockNumberFor<T>) -> $crate::weights::Weight { <Self as $crate::traits::Hooks<_>>::on_initialize(n) } }
	impl<T: Config> $crate::traits::OnFinalize<::frame_system::pallet_prelude::BlockNumberFor<T>> for $p<T> where $($w)* { fn on_finalize(n: ::frame_system::pallet_prelude::BlockNumberFor<T>) { <Self as $crate::traits::Hooks<_>>::on_finalize(n) } }
	impl<T: Config> $crate::traits::OnIdle<::frame_system::pallet_prelude::BlockNumberFor<T>> for $p<T> where $($w)* { fn on_idle(n: ::frame_system::pallet_prelude::BlockNumberFor<T>, w: $crate::weights::Weight) -> $crate::weights::Weight { <Self as $crate::traits::Hooks<_>>::on_idle(n, w) } }
	impl<T: Config> $crate::traits::OnRuntimeUpgrade for $p<T> where $($w)* { fn on_runtime_upgrade() -> $crate::weights::Weight { <Self as $crate::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>>>::on_runtime_upgrade() } }
	impl<T: Config> $crate::traits::OffchainWorker<::frame_system::pallet_prelude::BlockNumberFor<T>> for $p<T> where $($w)* { fn offchain_worker(n: ::frame_system::pallet_prelude::BlockNumberFor<T>) { <Self as $crate::traits::Hooks<_>>::offchain_worker(n) } }
	impl<T: Config> $crate::traits::IntegrityTest for $p<T> where $($w)* { fn integrity_test() { <Self as $crate::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>>>::integrity_test() } }
	impl<T: Config> $crate::traits::TryState<::frame_system::pallet_prelude::BlockNumberFor<T>> for $p<T> where $($w)* {}
} }
