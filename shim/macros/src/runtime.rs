use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::{parse::{Parse, ParseStream}, *};

struct Decl { name: Ident, path: Path, index: Option<u8>, parts: Option<Vec<(String, bool)>> }
struct Rt { name: Ident, decls: Vec<Decl> }
impl Parse for Rt {
	fn parse(i: ParseStream) -> Result<Self> {
		let _ = i.call(Attribute::parse_outer)?;
		let _: Visibility = i.parse()?;
		if i.peek(Token![enum]) { let _: Token![enum] = i.parse()?; } else { let _: Token![struct] = i.parse()?; }
		let name: Ident = i.parse()?;
		// skip `where ...` until the brace
		while !i.peek(token::Brace) { let _: proc_macro2::TokenTree = i.parse()?; }
		let c; braced!(c in i);
		let mut decls = vec![];
		while !c.is_empty() {
			let _ = c.call(Attribute::parse_outer)?;
			let n: Ident = c.parse()?;
			let _: Token![:] = c.parse()?;
			let mut path = Path { leading_colon: c.parse()?, segments: Default::default() };
			let mut parts = None;
			loop {
				if c.peek(token::Brace) { break }
				let id: Ident = c.call(ext::IdentExt::parse_any)?;
				path.segments.push(PathSegment::from(id));
				if c.peek(Token![::]) { let _: Token![::] = c.parse()?; } else { break }
			}
			if c.peek(token::Brace) {
				let b; braced!(b in c);
				let mut v = vec![];
				while !b.is_empty() {
					let id: Ident = b.parse()?;
					let mut generic = false;
					if b.peek(Token![<]) { let _: AngleBracketedGenericArguments = b.parse()?; generic = true; }
					v.push((id.to_string(), generic));
					if b.peek(Token![,]) { let _: Token![,] = b.parse()?; }
				}
				parts = Some(v);
			}
			let mut index = None;
			if c.peek(Token![=]) { let _: Token![=] = c.parse()?; let l: LitInt = c.parse()?; index = Some(l.base10_parse()?); }
			if c.peek(Token![,]) { let _: Token![,] = c.parse()?; }
			decls.push(Decl { name: n, path, index, parts });
		}
		Ok(Rt { name, decls })
	}
}
pub fn expand(i: TokenStream) -> TokenStream {
	let rt: Rt = match parse2(i) { Ok(x) => x, Err(e) => return e.to_compile_error() };
	let r = &rt.name;
	let names: Vec<&Ident> = rt.decls.iter().map(|d| &d.name).collect();
	let paths: Vec<&Path> = rt.decls.iter().map(|d| &d.path).collect();
	let mut next = 0u8;
	let idx: Vec<u8> = rt.decls.iter().map(|d| { let i = d.index.unwrap_or(next); next = i.wrapping_add(1); i }).collect();
	let idx_us: Vec<usize> = idx.iter().map(|x| *x as usize).collect();
	let strs: Vec<String> = names.iter().map(|n| n.to_string()).collect();
	let syspath = rt.decls.iter().find(|d| d.path.segments.last().unwrap().ident.to_string().contains("system") && d.name == "System").map(|d| d.path.clone()).unwrap_or(parse_quote!(frame_system));
	// custom origins
	let origins: Vec<(&Ident, &Path, u8)> = rt.decls.iter().zip(idx.iter()).filter(|(d, _)| d.name != "System" && d.parts.as_ref().map(|p| p.iter().any(|x| x.0 == "Origin")).unwrap_or(false)).map(|(d, i)| (&d.name, &d.path, *i)).collect();
	let on: Vec<&Ident> = origins.iter().map(|x| x.0).collect();
	let op: Vec<&Path> = origins.iter().map(|x| x.1).collect();
	let oi: Vec<u8> = origins.iter().map(|x| x.2).collect();
	let configs: Vec<TokenStream> = rt.decls.iter().filter_map(|d| d.parts.as_ref().and_then(|p| p.iter().find(|x| x.0 == "Config")).map(|x| { let n = format_ident!("{}Config", d.name); let p = &d.path; if x.1 { quote!(pub type #n = #p::GenesisConfig<#r>;) } else { quote!(pub type #n = #p::GenesisConfig;) } })).collect();
	quote! {
		#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct #r;
		#(pub type #names = #paths::Pallet<#r>;)*
		#(#[allow(dead_code)] #configs)*
		#[allow(dead_code)] pub type AllPalletsWithSystem = (#(#names,)*);
		#[derive(Clone, PartialEq, Eq, Debug, ::codec::Encode, ::codec::Decode)]
		#[allow(dead_code, clippy::large_enum_variant)]
		pub enum RuntimeEvent { #(#[codec(index = #idx)] #names(#paths::__FrameEvent<#r>),)* }
		#(impl ::core::convert::From<#paths::__FrameEvent<#r>> for RuntimeEvent { fn from(e: #paths::__FrameEvent<#r>) -> Self { RuntimeEvent::#names(e) } }
		  impl ::core::convert::TryInto<#paths::__FrameEvent<#r>> for RuntimeEvent { type Error = (); #[allow(unreachable_patterns)] fn try_into(self) -> ::core::result::Result<#paths::__FrameEvent<#r>, ()> { match self { RuntimeEvent::#names(e) => Ok(e), _ => Err(()) } } })*
		#[derive(Clone, PartialEq, Eq, Debug, ::codec::Encode, ::codec::Decode)]
		#[allow(dead_code, clippy::large_enum_variant)]
		pub enum RuntimeCall { #(#[codec(index = #idx)] #names(#paths::__FrameCall<#r>),)* }
		#(impl ::core::convert::From<#paths::__FrameCall<#r>> for RuntimeCall { fn from(e: #paths::__FrameCall<#r>) -> Self { RuntimeCall::#names(e) } }
		  impl ::frame_support::traits::IsSubType<#paths::__FrameCall<#r>> for RuntimeCall { #[allow(unreachable_patterns)] fn is_sub_type(&self) -> ::core::option::Option<&#paths::__FrameCall<#r>> { match self { RuntimeCall::#names(e) => Some(e), _ => None } } })*
		impl ::frame_support::dispatch::GetDispatchInfo for RuntimeCall { fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo { match self { #(RuntimeCall::#names(c) => ::frame_support::dispatch::GetDispatchInfo::get_dispatch_info(c),)* } } }
		impl ::frame_support::traits::GetCallMetadata for RuntimeCall {
			fn get_module_names() -> &'static [&'static str] { &[#(#strs),*] }
			fn get_call_names(m: &str) -> &'static [&'static str] { match m { #(#strs => <#paths::__FrameCall<#r> as ::frame_support::traits::GetCallName>::get_call_names(),)* _ => unreachable!() } }
			fn get_call_metadata(&self) -> ::frame_support::traits::CallMetadata { match self { #(RuntimeCall::#names(c) => ::frame_support::traits::CallMetadata { function_name: ::frame_support::traits::GetCallName::get_call_name(c), pallet_name: #strs },)* } }
		}
		impl ::frame_support::traits::UnfilteredDispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			fn dispatch_bypass_filter(self, o: RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo { match self { #(RuntimeCall::#names(c) => ::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(c, o),)* } }
		}
		impl ::frame_support::__private::Dispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin; type Config = RuntimeCall; type Info = ::frame_support::dispatch::DispatchInfo; type PostInfo = ::frame_support::dispatch::PostDispatchInfo;
			fn dispatch(self, origin: RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
				if !<RuntimeOrigin as ::frame_support::traits::OriginTrait>::filter_call(&origin, &self) {
					return ::core::result::Result::Err(#syspath::Error::<#r>::CallFiltered.into());
				}
				::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(self, origin)
			}
		}
		#[derive(Clone, PartialEq, Eq, Debug, ::codec::Encode, ::codec::Decode, ::codec::MaxEncodedLen)]
		#[allow(non_camel_case_types, dead_code)]
		pub enum OriginCaller { #[codec(index = 0)] system(#syspath::Origin<#r>), #(#[codec(index = #oi)] #on(#op::Origin),)* }
		impl ::core::convert::From<#syspath::Origin<#r>> for OriginCaller { fn from(o: #syspath::Origin<#r>) -> Self { OriginCaller::system(o) } }
		#(impl ::core::convert::From<#op::Origin> for OriginCaller { fn from(o: #op::Origin) -> Self { OriginCaller::#on(o) } }
		  impl ::core::convert::From<#op::Origin> for RuntimeOrigin { fn from(o: #op::Origin) -> Self { OriginCaller::#on(o).into() } }
		  impl ::core::convert::From<RuntimeOrigin> for ::core::result::Result<#op::Origin, RuntimeOrigin> { fn from(o: RuntimeOrigin) -> Self { if let OriginCaller::#on(x) = o.caller { Ok(x) } else { Err(o) } } }
		  impl ::core::convert::TryFrom<OriginCaller> for #op::Origin { type Error = OriginCaller; fn try_from(x: OriginCaller) -> ::core::result::Result<Self, OriginCaller> { if let OriginCaller::#on(l) = x { Ok(l) } else { Err(x) } } } )*
		impl ::core::convert::TryFrom<OriginCaller> for #syspath::Origin<#r> { type Error = OriginCaller; #[allow(irrefutable_let_patterns, unreachable_patterns)] fn try_from(x: OriginCaller) -> ::core::result::Result<Self, OriginCaller> { match x { OriginCaller::system(l) => Ok(l), x => Err(x) } } }
		impl ::frame_support::traits::CallerTrait<<#r as #syspath::Config>::AccountId> for OriginCaller {
			fn into_system(self) -> ::core::option::Option<#syspath::RawOrigin<<#r as #syspath::Config>::AccountId>> { #[allow(unreachable_patterns)] match self { OriginCaller::system(x) => Some(x), _ => None } }
			fn as_system_ref(&self) -> ::core::option::Option<&#syspath::RawOrigin<<#r as #syspath::Config>::AccountId>> { #[allow(unreachable_patterns)] match self { OriginCaller::system(x) => Some(x), _ => None } }
		}
		#[derive(Clone)]
		pub struct RuntimeOrigin { pub caller: OriginCaller, filter: ::std::rc::Rc<::std::boxed::Box<dyn Fn(&<#r as #syspath::Config>::RuntimeCall) -> bool>> }
		impl ::core::fmt::Debug for RuntimeOrigin { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.debug_struct("Origin").field("caller", &self.caller).finish() } }
		impl ::frame_support::traits::OriginTrait for RuntimeOrigin {
			type Call = <#r as #syspath::Config>::RuntimeCall; type PalletsOrigin = OriginCaller; type AccountId = <#r as #syspath::Config>::AccountId;
			fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static) { let f = self.filter.clone(); self.filter = ::std::rc::Rc::new(::std::boxed::Box::new(move |c| f(c) && filter(c))); }
			fn reset_filter(&mut self) { self.filter = ::std::rc::Rc::new(::std::boxed::Box::new(<<#r as #syspath::Config>::BaseCallFilter as ::frame_support::traits::Contains<<#r as #syspath::Config>::RuntimeCall>>::contains)); }
			fn set_caller_from(&mut self, o: impl Into<Self>) { self.caller = o.into().caller }
			fn set_caller(&mut self, c: OriginCaller) { self.caller = c }
			fn filter_call(&self, call: &Self::Call) -> bool { match self.caller { OriginCaller::system(#syspath::Origin::<#r>::Root) => true, _ => (self.filter)(call) } }
			fn caller(&self) -> &OriginCaller { &self.caller }
			fn into_caller(self) -> OriginCaller { self.caller }
			fn try_with_caller<R>(mut self, f: impl FnOnce(OriginCaller) -> ::core::result::Result<R, OriginCaller>) -> ::core::result::Result<R, Self> { match f(self.caller) { Ok(r) => Ok(r), Err(c) => { self.caller = c; Err(self) } } }
			fn none() -> Self { #syspath::RawOrigin::None.into() }
			fn root() -> Self { #syspath::RawOrigin::Root.into() }
			fn signed(by: Self::AccountId) -> Self { #syspath::RawOrigin::Signed(by).into() }
			fn as_signed(self) -> ::core::option::Option<Self::AccountId> { #[allow(unreachable_patterns)] match self.caller { OriginCaller::system(#syspath::RawOrigin::Signed(x)) => Some(x), _ => None } }
			fn as_system_ref(&self) -> ::core::option::Option<&#syspath::RawOrigin<Self::AccountId>> { ::frame_support::traits::CallerTrait::as_system_ref(&self.caller) }
			fn into_signer(self) -> ::core::option::Option<Self::AccountId> { ::frame_support::traits::OriginTrait::as_signed(self) }
		}
		#[allow(dead_code)]
		impl RuntimeOrigin {
			pub fn none() -> Self { <RuntimeOrigin as ::frame_support::traits::OriginTrait>::none() }
			pub fn root() -> Self { <RuntimeOrigin as ::frame_support::traits::OriginTrait>::root() }
			pub fn signed(by: <#r as #syspath::Config>::AccountId) -> Self { <RuntimeOrigin as ::frame_support::traits::OriginTrait>::signed(by) }
		}
		impl ::core::convert::From<OriginCaller> for RuntimeOrigin { fn from(x: OriginCaller) -> Self { let mut o = RuntimeOrigin { caller: x, filter: ::std::rc::Rc::new(::std::boxed::Box::new(|_| true)) };
			if !matches!(o.caller, OriginCaller::system(#syspath::Origin::<#r>::Root)) { ::frame_support::traits::OriginTrait::reset_filter(&mut o); } o } }
		impl ::core::convert::From<#syspath::Origin<#r>> for RuntimeOrigin { fn from(x: #syspath::Origin<#r>) -> Self { OriginCaller::system(x).into() } }
		impl ::core::convert::From<::core::option::Option<<#r as #syspath::Config>::AccountId>> for RuntimeOrigin { fn from(x: ::core::option::Option<<#r as #syspath::Config>::AccountId>) -> Self { <#syspath::Origin<#r>>::from(x).into() } }
		impl ::core::convert::From<RuntimeOrigin> for ::core::result::Result<#syspath::Origin<#r>, RuntimeOrigin> { #[allow(unreachable_patterns)] fn from(o: RuntimeOrigin) -> Self { match o.caller { OriginCaller::system(l) => Ok(l), _ => Err(o) } } }
		#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct PalletInfo;
		impl ::frame_support::traits::PalletInfo for PalletInfo {
			fn index<P: 'static>() -> ::core::option::Option<usize> { let t = ::core::any::TypeId::of::<P>(); #(if t == ::core::any::TypeId::of::<#names>() { return Some(#idx_us) })* None }
			fn name<P: 'static>() -> ::core::option::Option<&'static str> { let t = ::core::any::TypeId::of::<P>(); #(if t == ::core::any::TypeId::of::<#names>() { return Some(#strs) })* None }
			fn name_hash<P: 'static>() -> ::core::option::Option<[u8; 16]> { Self::name::<P>().map(|n| ::frame_support::__private::twox_128(n.as_bytes())) }
			fn module_name<P: 'static>() -> ::core::option::Option<&'static str> { Self::name::<P>() }
			fn crate_version<P: 'static>() -> ::core::option::Option<::frame_support::traits::CrateVersion> { None }
		}
		#[allow(dead_code)] #[derive(Clone, Copy, PartialEq, Eq, Debug, ::codec::Encode, ::codec::Decode, ::codec::MaxEncodedLen, PartialOrd, Ord)] pub enum RuntimeHoldReason {}
		#[allow(dead_code)] #[derive(Clone, Copy, PartialEq, Eq, Debug, ::codec::Encode, ::codec::Decode, ::codec::MaxEncodedLen, PartialOrd, Ord)] pub enum RuntimeFreezeReason {}
		impl ::frame_support::__private::ValidateUnsigned for #r {
			type Call = RuntimeCall;
			fn pre_dispatch(call: &RuntimeCall) -> ::core::result::Result<(), ::frame_support::__private::TransactionValidityError> { match call { #(RuntimeCall::#names(c) => <#names as ::frame_support::__private::MaybeValidateUnsigned<_>>::maybe_pre_dispatch(c),)* } }
			fn validate_unsigned(source: ::frame_support::__private::TransactionSource, call: &RuntimeCall) -> ::frame_support::__private::TransactionValidity { match call { #(RuntimeCall::#names(c) => <#names as ::frame_support::__private::MaybeValidateUnsigned<_>>::maybe_validate_unsigned(source, c),)* } }
		}
	}
}
