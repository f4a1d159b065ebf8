use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use syn::*;

/// Take `#[pallet::x ...]` attributes off `attrs`, returning them as (name, attribute).
fn take(attrs: &mut Vec<Attribute>) -> Vec<(String, Attribute)> {
	let mut out = vec![];
	attrs.retain(|a| {
		let p = a.path();
		if p.segments.len() == 2 && p.segments[0].ident == "pallet" { out.push((p.segments[1].ident.to_string(), a.clone())); false } else { true }
	});
	out
}
fn has<'a>(v: &'a [(String, Attribute)], n: &str) -> Option<&'a Attribute> { v.iter().find(|x| x.0 == n).map(|x| &x.1) }

struct CallFn { name: Ident, args: Vec<(Ident, Type, bool)>, index: Option<Expr>, weight: TokenStream, attrs: Vec<Attribute> }

pub fn expand(input: TokenStream) -> TokenStream {
	let mut m: ItemMod = match parse2(input) { Ok(x) => x, Err(e) => return e.to_compile_error() };
	let Some((_, items)) = m.content.take() else { return quote!(compile_error!("pallet mod needs a body");) };
	let mut out: Vec<TokenStream> = vec![];
	let (mut has_event, mut event_generic, mut has_call, mut has_hooks, mut has_validate, mut has_error) = (false, false, false, false, false, false);
	let mut has_genesis = false;
	let mut genesis_generic = false;
	let mut deposit_vis: Option<TokenStream> = None;
	let mut storage_version: Option<TokenStream> = None;
	let mut calls: Vec<CallFn> = vec![];
	let mut errors: Vec<Ident> = vec![];
	let mut cfg_where: Vec<WherePredicate> = vec![];
	let mut call_where: Vec<WherePredicate> = vec![];
	for item in items {
		match item {
			Item::Trait(mut t) => {
				let a = take(&mut t.attrs);
				if has(&a, "config").is_some() {
					if let Some(w) = t.generics.where_clause.take() {
						// `where <Self as P>::A: B` becomes the (implied) supertrait `P<A: B>`
						for p in w.predicates.iter() {
							if let WherePredicate::Type(pt) = p { if let Type::Path(tp) = &pt.bounded_ty { if let Some(q) = &tp.qself {
								let tr: Vec<_> = tp.path.segments.iter().take(q.position).collect();
								let last = tp.path.segments.last().unwrap();
								let b = &pt.bounds; let lead = &tp.path.leading_colon;
								let tb: TypeParamBound = parse_quote!(#lead #(#tr)::* < #last : #b >);
								t.supertraits.push(tb); continue;
							} } }
							let mut p = p.clone();
							struct R; impl visit_mut::VisitMut for R { fn visit_ident_mut(&mut self, i: &mut Ident) { if i == "Self" { *i = Ident::new("T", i.span()) } } }
							let pp = p.clone(); t.generics.make_where_clause().predicates.push(pp);
							visit_mut::VisitMut::visit_where_predicate_mut(&mut R, &mut p); cfg_where.push(p);
						}
					}
					for it in t.items.iter_mut() { if let TraitItem::Type(ty) = it { take(&mut ty.attrs); } if let TraitItem::Const(ty) = it { take(&mut ty.attrs); } }
				}
				out.push(t.to_token_stream());
			},
			Item::Struct(mut s) => {
				let a = take(&mut s.attrs);
				if has(&a, "pallet").is_some() {
					if let Some(sv) = has(&a, "storage_version") { let e: Expr = sv.parse_args().unwrap(); storage_version = Some(e.to_token_stream()); }
					let vis = &s.vis; let id = &s.ident; let at = &s.attrs;
					if s.generics.params.len() > 1 { out.push(quote! { #(#at)* #[derive(::frame_support::CloneNoBound, ::frame_support::EqNoBound, ::frame_support::PartialEqNoBound, ::frame_support::RuntimeDebugNoBound)] #vis struct #id<T, I = ()>(::core::marker::PhantomData<(T, I)>); }); continue }
					out.push(quote! { #(#at)* #[derive(::frame_support::CloneNoBound, ::frame_support::EqNoBound, ::frame_support::PartialEqNoBound, ::frame_support::RuntimeDebugNoBound)] #vis struct #id<T>(::core::marker::PhantomData<T>); });
				} else if has(&a, "genesis_config").is_some() {
					has_genesis = true; genesis_generic = !s.generics.params.is_empty();
					s.attrs.retain(|a| !a.path().is_ident("serde"));
					for f in s.fields.iter_mut() { f.attrs.retain(|a| !a.path().is_ident("serde")) }
					out.push(s.to_token_stream());
				} else { out.push(s.to_token_stream()) }
			},
			Item::Type(mut t) => {
				let a = take(&mut t.attrs);
				if has(&a, "storage").is_some() { out.push(storage(t, &a)); } else { out.push(t.to_token_stream()) }
			},
			Item::Fn(mut f) => {
				let a = take(&mut f.attrs);
				if has(&a, "type_value").is_some() {
					let vis = &f.vis; let id = &f.sig.ident; let g = &f.sig.generics; let (ig, tg, wc) = g.split_for_impl();
					let ret = match &f.sig.output { ReturnType::Type(_, t) => t.to_token_stream(), _ => quote!(()) };
					let body = &f.block;
					let ps: Vec<_> = g.type_params().map(|p| p.ident.clone()).collect();
					if ps.is_empty() { out.push(quote! { #vis struct #id; impl ::frame_support::traits::Get<#ret> for #id { fn get() -> #ret #body } }) }
					else { out.push(quote! { #[allow(non_camel_case_types)] #vis struct #id<#(#ps),*>(::core::marker::PhantomData<(#(#ps,)*)>); impl #ig ::frame_support::traits::Get<#ret> for #id #tg #wc { fn get() -> #ret #body } }) }
				} else { out.push(f.to_token_stream()) }
			},
			Item::Enum(mut e) => {
				let a = take(&mut e.attrs);
				if has(&a, "event").is_some() {
					has_event = true;
					event_generic = !e.generics.params.is_empty();
					if let Some(gd) = has(&a, "generate_deposit") {
						let toks: TokenStream = gd.parse_args().unwrap_or_default();
						// tokens: vis fn deposit_event
						let v: Vec<_> = toks.into_iter().collect();
						let pos = v.iter().position(|t| t.to_string() == "fn").unwrap_or(v.len());
						let vis: TokenStream = v[..pos].iter().cloned().collect();
						deposit_vis = Some(vis);
					}
					let ps: Vec<_> = e.generics.type_params().map(|p| p.ident.clone()).collect();
					if event_generic {
						let v: Variant = parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(#(#ps,)*)>, ::frame_support::Never));
						e.variants.push(v);
					}
					let (ig, tg, wc) = e.generics.split_for_impl();
					let id = &e.ident;
					let conv = quote!(impl #ig ::core::convert::From<#id #tg> for () #wc { fn from(_: #id #tg) {} });
					out.push(quote! { #[derive(::frame_support::CloneNoBound, ::frame_support::EqNoBound, ::frame_support::PartialEqNoBound, ::frame_support::RuntimeDebugNoBound, ::codec::Encode, ::codec::Decode)] #[codec(encode_bound())] #[codec(decode_bound())] #[allow(clippy::all)] #e #conv });
				} else if has(&a, "error").is_some() {
					has_error = true;
					for v in &e.variants { errors.push(v.ident.clone()) }
					let pats: Vec<TokenStream> = e.variants.iter().map(|v| { let i = &v.ident; match &v.fields { Fields::Unit => quote!(Self::#i), Fields::Named(_) => quote!(Self::#i{..}), _ => quote!(Self::#i(..)) } }).collect();
					let names: Vec<String> = e.variants.iter().map(|v| v.ident.to_string()).collect();
					let v: Variant = parse_quote!(#[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(T,)>, ::frame_support::Never));
					e.variants.push(v);
					out.push(quote! {
						#[derive(::codec::Encode, ::codec::Decode)] #[codec(encode_bound())] #[codec(decode_bound())] #e
						impl<T> Error<T> { #[doc(hidden)] pub fn as_str(&self) -> &'static str { match self { #(#pats => #names,)* Self::__Ignore(_, _) => "__Ignore" } } }
						impl<T: Config> ::core::fmt::Debug for Error<T> { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(self.as_str()) } }
						impl<T: Config> ::core::convert::From<Error<T>> for &'static str { fn from(e: Error<T>) -> &'static str { e.as_str() } }
						impl<T: Config> ::core::convert::From<Error<T>> for ::frame_support::__private::DispatchError {
							fn from(err: Error<T>) -> Self {
								let index = <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::index::<Pallet<T>>().expect("pallet has an index; qed") as u8;
								let mut enc = ::codec::Encode::encode(&err);
								enc.resize(4, 0);
								::frame_support::__private::DispatchError::Module(::frame_support::__private::ModuleError { index, error: [enc[0], enc[1], enc[2], enc[3]], message: ::core::option::Option::Some(err.as_str()) })
							}
						}
					});
				} else { out.push(e.to_token_stream()) }
			},
			Item::Impl(mut im) => {
				let a = take(&mut im.attrs);
				if has(&a, "call").is_some() {
					if let Some(w) = &im.generics.where_clause { call_where = w.predicates.iter().cloned().collect(); }
					has_call = true;
					for it in im.items.iter_mut() {
						if let ImplItem::Fn(f) = it {
							let fa = take(&mut f.attrs);
							if has(&fa, "weight").is_none() && has(&fa, "call_index").is_none() { continue }
							let index = has(&fa, "call_index").map(|a| a.parse_args::<Expr>().expect("call_index"));
							let weight = has(&fa, "weight").map(|a| a.parse_args::<TokenStream>().expect("weight")).unwrap_or(quote!(::frame_support::weights::Weight::zero()));
							let mut args = vec![];
							for (i, arg) in f.sig.inputs.iter_mut().enumerate() {
								if i == 0 { continue }
								if let FnArg::Typed(p) = arg {
									let pa = take(&mut p.attrs);
									let id = match &*p.pat { Pat::Ident(x) => { let n = x.ident.to_string(); let t = n.trim_start_matches('_'); if t.is_empty() || t == n { x.ident.clone() } else { format_ident!("{}", t) } }, _ => format_ident!("__arg{}", i) };
									args.push((id, (*p.ty).clone(), has(&pa, "compact").is_some()));
								}
							}
							let block = &f.block;
							f.block = parse_quote!({ ::frame_support::storage::with_storage_layer::<_, _, _>(|| #block) });
							calls.push(CallFn { name: f.sig.ident.clone(), args, index, weight, attrs: f.attrs.iter().filter(|a| a.path().is_ident("cfg")).cloned().collect() });
						}
					}
					out.push(quote!(#[allow(clippy::all, redundant_semicolons)] #im));
				} else {
					if has(&a, "hooks").is_some() { has_hooks = true }
					if has(&a, "validate_unsigned").is_some() { has_validate = true }
					let _ = has(&a, "genesis_build");
					out.push(im.to_token_stream());
				}
			},
			Item::Use(mut u) => { take(&mut u.attrs); out.push(u.to_token_stream()) },
			Item::Const(mut u) => { take(&mut u.attrs); out.push(u.to_token_stream()) },
			other => out.push(other.to_token_stream()),
		}
	}
	if has_genesis {
		let g = if genesis_generic { quote!(GenesisConfig<T>) } else { quote!(GenesisConfig) };
		if genesis_generic {
			out.push(quote!(impl<T: Config> ::frame_support::__private::BuildStorage for #g { fn assimilate_storage(&self, s: &mut ::frame_support::__private::Storage) -> ::core::result::Result<(), ::std::string::String> { ::frame_support::__private::build_into(s, || ::frame_support::traits::BuildGenesisConfig::build(self)) } }));
		} else {
			out.push(quote!(impl ::frame_support::__private::BuildStorage for #g { fn assimilate_storage(&self, s: &mut ::frame_support::__private::Storage) -> ::core::result::Result<(), ::std::string::String> { ::frame_support::__private::build_into(s, || ::frame_support::traits::BuildGenesisConfig::build(self)) } }));
		}
	}
	// event
	if has_event {
		let ev = if event_generic { quote!(Event<T>) } else { quote!(Event) };
		if let Some(vis) = deposit_vis {
			out.push(quote! { impl<T: Config> Pallet<T> { #vis fn deposit_event(event: #ev) {
				let event = <<T as Config>::RuntimeEvent as ::core::convert::From<#ev>>::from(event);
				let event = <<T as Config>::RuntimeEvent as ::core::convert::Into<<T as ::frame_system::Config>::RuntimeEvent>>::into(event);
				<::frame_system::Pallet<T>>::deposit_event(event)
			} } });
		}
		if event_generic { out.push(quote!(#[doc(hidden)] pub type __FrameEvent<T> = Event<T>;)); } else {
		out.push(quote!(#[doc(hidden)] pub trait __EventOf { type Out; } impl<T> __EventOf for T { type Out = #ev; } #[doc(hidden)] pub type __FrameEvent<T> = <T as __EventOf>::Out;)); }
	} else {
		out.push(quote! {
			#[doc(hidden)] #[derive(::frame_support::CloneNoBound, ::frame_support::EqNoBound, ::frame_support::PartialEqNoBound, ::frame_support::RuntimeDebugNoBound, ::codec::Encode, ::codec::Decode)] #[codec(encode_bound())] #[codec(decode_bound())] pub enum __NoEvent<T: Config> { #[codec(skip)] __Ignore(::core::marker::PhantomData<(T,)>, ::frame_support::Never) }
			#[doc(hidden)] pub type __FrameEvent<T> = __NoEvent<T>;
		});
	}
	let _ = (has_call, has_error, &errors);
	// calls
	{
		let mut variants = vec![]; let mut infos = vec![]; let mut dispatch = vec![]; let mut names = vec![]; let mut idxs = vec![]; let mut ctors = vec![];
		for (k, c) in calls.iter().enumerate() {
			let n = &c.name; let ns = n.to_string();
			let idx = match &c.index { Some(e) => e.to_token_stream(), None => { let k = k as u8; quote!(#k) } };
			let at = &c.attrs;
			let fields = c.args.iter().map(|(i, t, compact)| { let cp = if *compact { quote!(#[codec(compact)]) } else { quote!() }; quote!(#[allow(missing_docs)] #cp #i: #t) });
			variants.push(quote!(#(#at)* #[codec(index = #idx)] #n { #(#fields),* }));
			let ids: Vec<_> = c.args.iter().map(|a| a.0.clone()).collect();
			let tys: Vec<_> = c.args.iter().map(|a| a.1.clone()).collect();
			let w = &c.weight;
			infos.push(quote!(#(#at)* Self::#n { #(#ids),* } => { #(let _ = &#ids;)* let __w = #w; ::frame_support::__private::weight_spec(__w) }));
			dispatch.push(quote!(#(#at)* Self::#n { #(#ids),* } => <Pallet<T>>::#n(origin, #(#ids),*).map(::core::convert::Into::into).map_err(::core::convert::Into::into)));
			names.push(quote!(#(#at)* Self::#n { .. } => #ns));
			idxs.push(quote!(#(#at)* Self::#n { .. } => #idx));
			let ctor = format_ident!("new_call_variant_{}", n);
			ctors.push(quote!(#(#at)* #[doc(hidden)] pub fn #ctor(#(#ids: #tys),*) -> Self { Self::#n { #(#ids),* } }));
		}
		let all_names: Vec<String> = calls.iter().map(|c| c.name.to_string()).collect();
		let all_idx: Vec<TokenStream> = calls.iter().enumerate().map(|(k, c)| match &c.index { Some(e) => e.to_token_stream(), None => { let k = k as u8; quote!(#k) } }).collect();
		out.push(quote! {
			#[derive(::frame_support::CloneNoBound, ::frame_support::EqNoBound, ::frame_support::PartialEqNoBound, ::frame_support::RuntimeDebugNoBound, ::codec::Encode, ::codec::Decode)]
			#[codec(encode_bound())] #[codec(decode_bound())]
			#[allow(non_camel_case_types, clippy::all)]
			pub enum Call<T: Config> { #[doc(hidden)] #[codec(skip)] __Ignore(::core::marker::PhantomData<(T,)>, ::frame_support::Never), #(#variants),* }
			#[allow(clippy::all)]
			impl<T: Config> Call<T> { #(#ctors)* }
			#[allow(clippy::all, unused_variables, unused_braces)]
			impl<T: Config> ::frame_support::dispatch::GetDispatchInfo for Call<T> { fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo { match self { #(#infos,)* Self::__Ignore(_, _) => unreachable!() } } }
			impl<T: Config> ::frame_support::traits::GetCallName for Call<T> {
				fn get_call_name(&self) -> &'static str { match self { #(#names,)* Self::__Ignore(_, _) => unreachable!() } }
				fn get_call_names() -> &'static [&'static str] { &[#(#all_names),*] } }
			impl<T: Config> ::frame_support::traits::GetCallIndex for Call<T> {
				fn get_call_index(&self) -> u8 { match self { #(#idxs,)* Self::__Ignore(_, _) => unreachable!() } }
				fn get_call_indices() -> &'static [u8] { &[#(#all_idx),*] } }
			impl<T: Config> ::frame_support::traits::UnfilteredDispatchable for Call<T> where #(#call_where),* {
				type RuntimeOrigin = ::frame_system::pallet_prelude::OriginFor<T>;
				#[allow(unused_variables)]
				fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo { match self { #(#dispatch,)* Self::__Ignore(_, _) => unreachable!() } } }
			#[doc(hidden)] pub type __FrameCall<T> = Call<T>;
		});
	}
	if !has_hooks { out.push(quote!(impl<T: Config> ::frame_support::traits::Hooks<::frame_system::pallet_prelude::BlockNumberFor<T>> for Pallet<T> {})); }
	if has_validate {
		out.push(quote!(impl<T: Config> ::frame_support::__private::MaybeValidateUnsigned<Call<T>> for Pallet<T> {
			fn maybe_validate_unsigned(s: ::frame_support::__private::TransactionSource, c: &Call<T>) -> ::frame_support::__private::TransactionValidity { <Self as ::frame_support::__private::ValidateUnsigned>::validate_unsigned(s, c) }
			fn maybe_pre_dispatch(c: &Call<T>) -> ::core::result::Result<(), ::frame_support::__private::TransactionValidityError> { <Self as ::frame_support::__private::ValidateUnsigned>::pre_dispatch(c) } }));
	} else {
		out.push(quote!(impl<T: Config> ::frame_support::__private::MaybeValidateUnsigned<Call<T>> for Pallet<T> {}));
	}
	let sv = storage_version.map(|e| quote!(#e)).unwrap_or(quote!(::frame_support::traits::StorageVersion::default()));
	out.push(quote! {
		impl<T: Config> ::frame_support::traits::PalletInfoAccess for Pallet<T> {
			fn index() -> usize { <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::index::<Self>().expect("pallet index") }
			fn name() -> &'static str { <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::name::<Self>().expect("pallet name") }
			fn name_hash() -> [u8; 16] { ::frame_support::__private::twox_128(Self::name().as_bytes()) }
			fn module_name() -> &'static str { ::core::module_path!() }
			fn crate_version() -> ::frame_support::traits::CrateVersion { ::core::default::Default::default() }
		}
		impl<T: Config> ::frame_support::traits::GetStorageVersion for Pallet<T> {
			type CurrentStorageVersion = ::frame_support::traits::StorageVersion;
			fn current_storage_version() -> ::frame_support::traits::StorageVersion { #sv }
			fn on_chain_storage_version() -> ::frame_support::traits::StorageVersion { ::frame_support::traits::StorageVersion::get::<Self>() }
		}
		impl<T: Config> ::frame_support::traits::OnGenesis for Pallet<T> { fn on_genesis() { let v: ::frame_support::traits::StorageVersion = #sv; v.put::<Self>(); } }
		::frame_support::__impl_hook_traits!(Pallet, #(#cfg_where),*);
	});
	let (attrs, vis, id) = (&m.attrs, &m.vis, &m.ident);
	if !cfg_where.is_empty() {
		let all: TokenStream = out.iter().cloned().collect();
		match parse2::<File>(all) {
			Ok(mut f) => {
				let conf = |g: &Generics| g.type_params().any(|p| p.ident == "T" && p.bounds.iter().any(|b| if let TypeParamBound::Trait(t) = b { t.path.segments.last().map_or(false, |s| s.ident == "Config") } else { false }));
				for i in f.items.iter_mut() {
					let g = match i { Item::Impl(x) => &mut x.generics, Item::Enum(x) => &mut x.generics, Item::Struct(x) => &mut x.generics, _ => continue };
					if conf(g) { for p in &cfg_where { g.make_where_clause().predicates.push(p.clone()) } }
				}
				out = vec![f.to_token_stream()];
			},
			Err(e) => return e.to_compile_error(),
		}
	}
	quote! { #(#attrs)* #[allow(unused_imports, dead_code, unused_variables)] #vis mod #id { #(#out)* } }
}

fn storage(mut t: ItemType, a: &[(String, Attribute)]) -> TokenStream {
	let name = t.ident.clone();
	let prefix_ident = format_ident!("_GeneratedPrefixForStorage{}", name);
	let ps: Vec<Ident> = t.generics.type_params().map(|p| p.ident.clone()).collect();
	let prefix_name = match has(a, "storage_prefix") { Some(at) => match &at.meta { Meta::NameValue(nv) => match &nv.value { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(), _ => name.to_string() }, _ => name.to_string() }, None => name.to_string() };
	let mut kind = String::new();
	let mut targs: Vec<GenericArgument> = vec![];
	if let Type::Path(p) = &mut *t.ty {
		let seg = p.path.segments.last_mut().unwrap();
		kind = seg.ident.to_string();
		if let PathArguments::AngleBracketed(ab) = &mut seg.arguments {
			let named = ab.args.iter().any(|g| matches!(g, GenericArgument::AssocType(_)));
			if named {
				let get = |n: &str| ab.args.iter().find_map(|g| if let GenericArgument::AssocType(x) = g { if x.ident == n { Some(x.ty.clone()) } else { None } } else { None });
				let order: &[&str] = match kind.as_str() { "StorageValue" => &["Value", "QueryKind", "OnEmpty"], "StorageDoubleMap" => &["Hasher1", "Key1", "Hasher2", "Key2", "Value", "QueryKind", "OnEmpty", "MaxValues"], "StorageNMap" => &["Key", "Value", "QueryKind", "OnEmpty", "MaxValues"], _ => &["Hasher", "Key", "Value", "QueryKind", "OnEmpty", "MaxValues"] };
				let mut new: punctuated::Punctuated<GenericArgument, Token![,]> = Default::default();
				new.push(parse_quote!(#prefix_ident<#(#ps),*>));
				for o in order { if let Some(ty) = get(o) { new.push(GenericArgument::Type(ty)) } else { break } }
				ab.args = new;
			} else {
				let first: GenericArgument = parse_quote!(#prefix_ident<#(#ps),*>);
				ab.args[0] = first;
			}
			targs = ab.args.iter().cloned().collect();
		}
	}
	let is_counted = kind == "CountedStorageMap";
	let counter = if is_counted { let cn = format!("CounterFor{}", prefix_name); quote!(const COUNTER_PREFIX: &'static str = #cn;) } else { quote!() };
	let tyalias = &t;
	let vis = &t.vis;
	let getter = has(a, "getter").map(|g| {
		let toks: TokenStream = g.parse_args().unwrap();
		let gn = toks.into_iter().last().unwrap();
		let full = quote!(<#name<T>>);
		match kind.as_str() {
			"StorageValue" => { let v = &targs[1]; let q = targs.get(2).map(|x| x.to_token_stream()).unwrap_or(quote!(::frame_support::storage::types::OptionQuery)); let oe = targs.get(3).map(|x| x.to_token_stream()).unwrap_or(quote!(::frame_support::traits::GetDefault));
				quote!(impl<T: Config> Pallet<T> { pub fn #gn() -> <#q as ::frame_support::storage::types::QueryKindTrait<#v, #oe>>::Query { #full::get() } }) },
			"StorageMap" | "CountedStorageMap" => { let k = &targs[2]; let v = &targs[3]; let q = targs.get(4).map(|x| x.to_token_stream()).unwrap_or(quote!(::frame_support::storage::types::OptionQuery)); let oe = targs.get(5).map(|x| x.to_token_stream()).unwrap_or(quote!(::frame_support::traits::GetDefault));
				quote!(impl<T: Config> Pallet<T> { pub fn #gn<__K: ::codec::EncodeLike<#k>>(k: __K) -> <#q as ::frame_support::storage::types::QueryKindTrait<#v, #oe>>::Query { #full::get(k) } }) },
			"StorageDoubleMap" => { let k = &targs[2]; let k2 = &targs[4]; let v = &targs[5]; let q = targs.get(6).map(|x| x.to_token_stream()).unwrap_or(quote!(::frame_support::storage::types::OptionQuery)); let oe = targs.get(7).map(|x| x.to_token_stream()).unwrap_or(quote!(::frame_support::traits::GetDefault));
				quote!(impl<T: Config> Pallet<T> { pub fn #gn<__K: ::codec::EncodeLike<#k>, __K2: ::codec::EncodeLike<#k2>>(k: __K, k2: __K2) -> <#q as ::frame_support::storage::types::QueryKindTrait<#v, #oe>>::Query { #full::get(k, k2) } }) },
			_ => quote!(),
		}
	}).unwrap_or_default();
	quote! {
		#tyalias
		#[doc(hidden)] #vis struct #prefix_ident<#(#ps),*>(::core::marker::PhantomData<(#(#ps,)*)>);
		impl<T: Config> ::frame_support::traits::StorageInstance for #prefix_ident<T> {
			fn pallet_prefix() -> &'static str { <<T as ::frame_system::Config>::PalletInfo as ::frame_support::traits::PalletInfo>::name::<Pallet<T>>().expect("pallet name") }
			const STORAGE_PREFIX: &'static str = #prefix_name;
			#counter
		}
		#getter
	}
}
