use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use syn::*;

#[derive(Default, Clone)]
pub struct FieldAttrs { pub skip: bool, pub compact: bool, pub index: Option<Expr> }
pub fn attrs(a: &[Attribute]) -> FieldAttrs {
	let mut r = FieldAttrs::default();
	for at in a {
		if at.path().is_ident("codec") {
			let _ = at.parse_nested_meta(|m| {
				if m.path.is_ident("skip") { r.skip = true }
				else if m.path.is_ident("compact") { r.compact = true }
				else if m.path.is_ident("index") { r.index = Some(m.value()?.parse()?) }
				else if m.input.peek(Token![=]) { let _: Expr = m.value()?.parse()?; }
				else if m.input.peek(token::Paren) { let c; parenthesized!(c in m.input); let _: TokenStream = c.parse()?; }
				Ok(())
			});
		}
	}
	r
}
/// `#[codec(mel_bound(T: Foo))]`, `encode_bound`, `decode_bound`.
fn custom_bound(a: &[Attribute], name: &str) -> Option<TokenStream> {
	let mut r = None;
	for at in a {
		if at.path().is_ident("codec") {
			let _ = at.parse_nested_meta(|m| {
				if m.input.peek(token::Paren) { let c; parenthesized!(c in m.input); let t: TokenStream = c.parse()?; if m.path.is_ident(name) { r = Some(t) } }
				else if m.input.peek(Token![=]) { let _: Expr = m.value()?.parse()?; }
				Ok(())
			});
		}
	}
	r
}
pub fn mentions(ts: TokenStream, names: &[String]) -> bool {
	ts.into_iter().any(|t| match t {
		proc_macro2::TokenTree::Ident(i) => names.iter().any(|n| i == n.as_str()),
		proc_macro2::TokenTree::Group(g) => mentions(g.stream(), names),
		_ => false,
	})
}
fn all_fields(d: &Data) -> Vec<(Type, FieldAttrs)> {
	let mut v = vec![];
	match d {
		Data::Struct(s) => for f in s.fields.iter() { v.push((f.ty.clone(), attrs(&f.attrs))) },
		Data::Enum(e) => for va in &e.variants { if attrs(&va.attrs).skip { continue } for f in va.fields.iter() { v.push((f.ty.clone(), attrs(&f.attrs))) } },
		_ => {},
	}
	v
}
pub fn where_clause(di: &DeriveInput, tr: TokenStream, custom: &str) -> TokenStream {
	let mut preds: Vec<TokenStream> = di.generics.where_clause.as_ref().map(|w| w.predicates.iter().map(|p| p.to_token_stream()).collect()).unwrap_or_default();
	if let Some(c) = custom_bound(&di.attrs, custom) { if !c.is_empty() { preds.push(c) } }
	else {
		let names: Vec<String> = di.generics.type_params().map(|p| p.ident.to_string()).collect();
		let me = vec![di.ident.to_string()];
		let mut seen: Vec<String> = vec![];
		for (t, a) in all_fields(&di.data) {
			if a.skip { continue }
			let ts = t.to_token_stream();
			if mentions(ts.clone(), &names) && !mentions(ts.clone(), &me) && !seen.contains(&ts.to_string()) {
				seen.push(ts.to_string());
				if a.compact { preds.push(quote!(#t: ::codec::HasCompact)) } else { preds.push(quote!(#t: #tr)) }
			}
		}
	}
	if preds.is_empty() { quote!() } else { quote!(where #(#preds),*) }
}
pub fn variant_index(i: usize, v: &Variant, prev: &mut Option<u64>) -> TokenStream {
	let a = attrs(&v.attrs);
	if let Some(e) = a.index { return quote!((#e) as u8) }
	if let Some((_, e)) = &v.discriminant { return quote!((#e) as u8) }
	let _ = prev;
	let i = i as u8;
	quote!(#i)
}
fn enc_fields(fs: &Fields, access: impl Fn(usize, &Option<Ident>) -> TokenStream) -> TokenStream {
	let mut out = quote!();
	for (i, f) in fs.iter().enumerate() {
		let a = attrs(&f.attrs);
		if a.skip { continue }
		let e = access(i, &f.ident);
		if a.compact { out.extend(quote!(::codec::HasCompact::compact_encode_to(#e, __dest);)) } else { out.extend(quote!(::codec::Encode::encode_to(#e, __dest);)) }
	}
	out
}
pub fn encode(i: TokenStream) -> TokenStream {
	let di: DeriveInput = match parse2(i) { Ok(x) => x, Err(e) => return e.to_compile_error() };
	let n = &di.ident;
	let (ig, tg, _) = di.generics.split_for_impl();
	let wc = where_clause(&di, quote!(::codec::Encode), "encode_bound");
	let body = match &di.data {
		Data::Struct(s) => enc_fields(&s.fields, |i, id| match id { Some(id) => quote!(&self.#id), None => { let i = Index::from(i); quote!(&self.#i) } }),
		Data::Enum(e) => {
			let mut arms = quote!();
			let mut prev = None;
			let mut k = 0usize;
			for v in e.variants.iter() {
				let vn = &v.ident;
				if attrs(&v.attrs).skip { continue }
				let idx = variant_index(k, v, &mut prev); k += 1;
				let binds: Vec<Ident> = (0..v.fields.len()).map(|i| format_ident!("__f{}", i)).collect();
				let pat = pattern(&v.fields, &binds);
				let b = enc_fields(&v.fields, |i, _| { let x = &binds[i]; quote!(#x) });
				arms.extend(quote!(#n::#vn #pat => { ::codec::Output::push_byte(__dest, #idx); #b }));
			}
			quote!(#[allow(unreachable_patterns)] match self { #arms _ => {} })
		},
		_ => quote!(compile_error!("union")),
	};
	quote! {
		#[allow(deprecated, non_snake_case, unused_variables)]
		impl #ig ::codec::Encode for #n #tg #wc { fn encode_to<__W: ::codec::Output + ?::core::marker::Sized>(&self, __dest: &mut __W) { #body } }
		impl #ig ::codec::EncodeLike for #n #tg #wc {}
	}
}
pub fn pattern(fs: &Fields, binds: &[Ident]) -> TokenStream {
	match fs {
		Fields::Named(f) => { let ids: Vec<_> = f.named.iter().map(|x| x.ident.clone().unwrap()).collect(); quote!({ #(#ids: #binds),* }) },
		Fields::Unnamed(_) => quote!((#(#binds),*)),
		Fields::Unit => quote!(),
	}
}
fn dec_fields(fs: &Fields) -> TokenStream {
	let one = |f: &Field| { let a = attrs(&f.attrs); let t = &f.ty;
		if a.skip { quote!(::core::default::Default::default()) } else if a.compact { quote!(<#t as ::codec::HasCompact>::compact_decode(__input)?) } else { quote!(<#t as ::codec::Decode>::decode(__input)?) } };
	match fs {
		Fields::Named(f) => { let x = f.named.iter().map(|f| { let id = &f.ident; let o = one(f); quote!(#id: #o) }); quote!({ #(#x),* }) },
		Fields::Unnamed(f) => { let x = f.unnamed.iter().map(one); quote!((#(#x),*)) },
		Fields::Unit => quote!(),
	}
}
pub fn decode(i: TokenStream) -> TokenStream {
	let di: DeriveInput = match parse2(i) { Ok(x) => x, Err(e) => return e.to_compile_error() };
	let n = &di.ident;
	let (ig, tg, _) = di.generics.split_for_impl();
	let wc = where_clause(&di, quote!(::codec::Decode), "decode_bound");
	let body = match &di.data {
		Data::Struct(s) => { let b = dec_fields(&s.fields); quote!(::core::result::Result::Ok(#n #b)) },
		Data::Enum(e) => {
			let mut arms = quote!();
			let mut prev = None;
			let mut k = 0usize;
			for v in e.variants.iter() {
				if attrs(&v.attrs).skip { continue }
				let vn = &v.ident;
				let idx = variant_index(k, v, &mut prev); k += 1;
				let b = dec_fields(&v.fields);
				arms.extend(quote!(__x if __x == #idx => ::core::result::Result::Ok(#n::#vn #b),));
			}
			quote!(#[allow(unreachable_code)] match ::codec::Input::read_byte(__input)? { #arms _ => ::core::result::Result::Err("Could not decode, variant doesn't exist".into()) })
		},
		_ => quote!(compile_error!("union")),
	};
	let _ = Span::call_site();
	quote! {
		#[allow(deprecated, non_snake_case)]
		impl #ig ::codec::Decode for #n #tg #wc { fn decode<__I: ::codec::Input>(__input: &mut __I) -> ::core::result::Result<Self, ::codec::Error> { #body } }
	}
}
pub fn max_encoded_len(i: TokenStream) -> TokenStream {
	let di: DeriveInput = match parse2(i) { Ok(x) => x, Err(e) => return e.to_compile_error() };
	let n = &di.ident;
	let (ig, tg, _) = di.generics.split_for_impl();
	// FRAME's default is a bound on every type parameter; bounds on field types are equivalent here.
	let wc = where_clause_mel(&di);
	let sum = |fs: &Fields| { let x = fs.iter().filter(|f| !attrs(&f.attrs).skip).map(|f| { let t = &f.ty;
		if attrs(&f.attrs).compact { quote!(<#t as ::codec::HasCompact>::compact_max()) } else { quote!(<#t as ::codec::MaxEncodedLen>::max_encoded_len()) } }); quote!(0usize #( + #x)*) };
	let body = match &di.data {
		Data::Struct(s) => sum(&s.fields),
		Data::Enum(e) => { let xs = e.variants.iter().filter(|v| !attrs(&v.attrs).skip).map(|v| sum(&v.fields)); quote!(let mut __m = 0usize; #( __m = __m.max(#xs); )* 1 + __m) },
		_ => quote!(0),
	};
	quote! { impl #ig ::codec::MaxEncodedLen for #n #tg #wc { fn max_encoded_len() -> usize { #body } } }
}
fn where_clause_mel(di: &DeriveInput) -> TokenStream {
	let enc = where_clause(di, quote!(::codec::Encode), "encode_bound");
	let mel = where_clause(di, quote!(::codec::MaxEncodedLen), "mel_bound");
	if enc.is_empty() { return mel }
	if mel.is_empty() { return enc }
	// strip leading `where`
	let mel2: TokenStream = mel.into_iter().skip(1).collect();
	quote!(#enc, #mel2)
}
