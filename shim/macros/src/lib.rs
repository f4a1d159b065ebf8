//! Procedural macros of the mini-FRAME shim.
extern crate proc_macro;
use proc_macro::TokenStream;
mod codec;
mod nobound;
mod pallet;
mod runtime;
mod misc;

#[proc_macro_derive(Encode, attributes(codec))]
pub fn derive_encode(i: TokenStream) -> TokenStream { codec::encode(i.into()).into() }
#[proc_macro_derive(Decode, attributes(codec))]
pub fn derive_decode(i: TokenStream) -> TokenStream { codec::decode(i.into()).into() }
#[proc_macro_derive(MaxEncodedLen, attributes(codec))]
pub fn derive_mel(i: TokenStream) -> TokenStream { codec::max_encoded_len(i.into()).into() }
#[proc_macro_derive(TypeInfo, attributes(scale_info, codec))]
pub fn derive_typeinfo(_i: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(RuntimeDebug)]
pub fn derive_runtime_debug(i: TokenStream) -> TokenStream { nobound::debug(i.into(), true).into() }
#[proc_macro_derive(DebugNoBound)]
pub fn derive_debug_nb(i: TokenStream) -> TokenStream { nobound::debug(i.into(), false).into() }
#[proc_macro_derive(RuntimeDebugNoBound)]
pub fn derive_rdebug_nb(i: TokenStream) -> TokenStream { nobound::debug(i.into(), false).into() }
#[proc_macro_derive(CloneNoBound)]
pub fn derive_clone_nb(i: TokenStream) -> TokenStream { nobound::clone(i.into()).into() }
#[proc_macro_derive(PartialEqNoBound)]
pub fn derive_pe_nb(i: TokenStream) -> TokenStream { nobound::partial_eq(i.into()).into() }
#[proc_macro_derive(EqNoBound)]
pub fn derive_eq_nb(i: TokenStream) -> TokenStream { nobound::eq(i.into()).into() }
#[proc_macro_derive(DefaultNoBound)]
pub fn derive_def_nb(i: TokenStream) -> TokenStream { nobound::default(i.into()).into() }
#[proc_macro_derive(PalletError, attributes(codec))]
pub fn derive_pallet_error(_i: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(TryFromPrimitive, attributes(num_enum))]
pub fn derive_tfp(i: TokenStream) -> TokenStream { misc::try_from_primitive(i.into()).into() }
#[proc_macro_derive(IntoPrimitive, attributes(num_enum))]
pub fn derive_ip(i: TokenStream) -> TokenStream { misc::into_primitive(i.into()).into() }

#[proc_macro_attribute]
pub fn pallet(_a: TokenStream, i: TokenStream) -> TokenStream { pallet::expand(i.into()).into() }
#[proc_macro]
pub fn construct_runtime(i: TokenStream) -> TokenStream { runtime::expand(i.into()).into() }
#[proc_macro_attribute]
pub fn transactional(_a: TokenStream, i: TokenStream) -> TokenStream { misc::transactional(i.into(), false).into() }
#[proc_macro_attribute]
pub fn require_transactional(_a: TokenStream, i: TokenStream) -> TokenStream { misc::transactional(i.into(), true).into() }
#[proc_macro_attribute]
pub fn storage_alias(_a: TokenStream, i: TokenStream) -> TokenStream { misc::storage_alias(i.into()).into() }
#[proc_macro_attribute]
pub fn impl_for_tuples(a: TokenStream, i: TokenStream) -> TokenStream { misc::impl_for_tuples(a.into(), i.into()).into() }
#[proc_macro]
pub fn hex(i: TokenStream) -> TokenStream { misc::hex(i.into()).into() }
#[proc_macro]
pub fn paste(i: TokenStream) -> TokenStream { misc::paste(i.into()).into() }
