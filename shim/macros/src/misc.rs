use proc_macro2::{Delimiter, Group, Ident, Literal, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use syn::*;

pub fn transactional(i: TokenStream, require: bool) -> TokenStream {
	let mut f: ItemFn = match parse2(i) { Ok(x) => x, Err(e) => return e.to_compile_error() };
	let block = &f.block;
	if require { return f.to_token_stream() }
	f.block = parse_quote!({ ::frame_support::storage::with_transaction_result(|| #block) });
	let (a, v, s, b) = (&f.attrs, &f.vis, &f.sig, &f.block);
	quote!(#(#a)* #[allow(clippy::all)] #v #s #b)
}
pub fn storage_alias(i: TokenStream) -> TokenStream {
	let mut t: ItemType = match parse2(i) { Ok(x) => x, Err(e) => return e.to_compile_error() };
	let name = t.ident.clone();
	let pn = name.to_string();
	let prefix = format_ident!("__StorageAliasPrefix{}", name);
	let g = t.generics.clone();
	let (ig, _, wc) = g.split_for_impl();
	let ps: Vec<Ident> = g.type_params().map(|p| p.ident.clone()).collect();
	let mut first = None;
	if let Type::Path(p) = &mut *t.ty {
		let seg = p.path.segments.last_mut().unwrap();
		if let PathArguments::AngleBracketed(ab) = &mut seg.arguments {
			first = Some(ab.args[0].clone());
			let n: GenericArgument = parse_quote!(#prefix<#(#ps),*>);
			ab.args[0] = n;
		}
		// short names resolve to frame_support's storage types
		if p.path.segments.len() == 1 { let s = p.path.segments[0].clone(); p.path = parse_quote!(::frame_support::storage::types::#s); }
	}
	for p in t.generics.type_params_mut() { p.bounds.clear(); p.colon_token = None; }
	t.generics.where_clause = None;
	let first = first.unwrap();
	let fs = first.to_token_stream().to_string();
	let pp = if fs.contains('<') { quote!(<#first as ::frame_support::traits::PalletInfoAccess>::name()) } else if ps.iter().any(|p| *p == fs) { quote!(<#first as ::frame_support::traits::Get<&'static str>>::get()) } else { quote!(#fs) };
	let vis = &t.vis;
	let ty = &t;
	quote! {
		#[allow(type_alias_bounds)] #ty
		#[doc(hidden)] #vis struct #prefix<#(#ps),*>(::core::marker::PhantomData<(#(#ps,)*)>);
		impl #ig ::frame_support::traits::StorageInstance for #prefix<#(#ps),*> #wc { fn pallet_prefix() -> &'static str { #pp } const STORAGE_PREFIX: &'static str = #pn; }
	}
}

fn subst(ts: TokenStream, n: usize) -> TokenStream {
	let mut out = TokenStream::new();
	let mut prev_dot = false;
	for t in ts {
		match t {
			TokenTree::Ident(i) if i == "Tuple" => { if prev_dot { out.extend([TokenTree::Literal(Literal::usize_unsuffixed(n))]) } else { out.extend([TokenTree::Ident(format_ident!("TupleElement{}", n))]) } prev_dot = false },
			TokenTree::Group(g) => { let mut ng = Group::new(g.delimiter(), subst(g.stream(), n)); ng.set_span(g.span()); out.extend([TokenTree::Group(ng)]); prev_dot = false },
			t => { prev_dot = matches!(&t, TokenTree::Punct(p) if p.as_char() == '.'); out.extend([t]) },
		}
	}
	out
}
/// Expand `#( body ) sep *` repetitions in a stream.
fn expand_reps(ts: TokenStream, n: usize, top: bool) -> TokenStream {
	let v: Vec<TokenTree> = ts.into_iter().collect();
	let mut out = TokenStream::new();
	let mut i = 0;
	while i < v.len() {
		if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
			if p.as_char() == '#' && g.delimiter() == Delimiter::Parenthesis {
				let mut j = i + 2; let mut sep = vec![];
				while let Some(TokenTree::Punct(q)) = v.get(j) { if q.as_char() == '*' { break } sep.push(v[j].clone()); j += 1; }
				let sep_ts: TokenStream = sep.iter().cloned().collect();
				let comma = sep_ts.to_string() == ",";
				let mut body = TokenStream::new();
				for k in 0..n { body.extend(subst(g.stream(), k)); if k + 1 < n || comma { if !sep.is_empty() { body.extend(fix_joint(sep_ts.clone())) } } }
				if comma && top { out.extend(quote!((#body))) } else { out.extend(body) }
				i = j + 1;
				continue;
			}
		}
		match &v[i] { TokenTree::Group(g) => { let ng = Group::new(g.delimiter(), expand_reps(g.stream(), n, false)); out.extend([TokenTree::Group(ng)]) }, t => out.extend([t.clone()]) }
		i += 1;
	}
	out
}
fn fix_joint(ts: TokenStream) -> TokenStream { let s: Vec<TokenTree> = ts.into_iter().collect(); let l = s.len(); s.into_iter().enumerate().map(|(i, t)| match t { TokenTree::Punct(p) if i + 1 == l => TokenTree::Punct(proc_macro2::Punct::new(p.as_char(), proc_macro2::Spacing::Alone)), t => t }).collect() }
fn walk(ts: TokenStream, n: usize) -> TokenStream {
	let v: Vec<TokenTree> = ts.into_iter().collect();
	let mut out = TokenStream::new();
	let mut i = 0;
	while i < v.len() {
		if let (TokenTree::Ident(id), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1), v.get(i + 2)) {
			if id == "for_tuples" && p.as_char() == '!' { out.extend(expand_reps(g.stream(), n, true)); i += 3; continue; }
		}
		match &v[i] { TokenTree::Group(g) => { let mut ng = Group::new(g.delimiter(), walk(g.stream(), n)); ng.set_span(g.span()); out.extend([TokenTree::Group(ng)]) }, t => out.extend([t.clone()]) }
		i += 1;
	}
	out
}
pub fn impl_for_tuples(a: TokenStream, i: TokenStream) -> TokenStream {
	let nums: Vec<usize> = a.into_iter().filter_map(|t| t.to_string().parse().ok()).collect();
	let (lo, hi) = if nums.len() == 2 { (nums[0], nums[1].min(40)) } else { (0, nums[0].min(40)) };
	if let Ok(t) = parse2::<ItemTrait>(i.clone()) {
		return quote!(#t compile_error!("impl_for_tuples on traits is not supported by the shim"););
	}
	let im: ItemImpl = match parse2(i) { Ok(x) => x, Err(e) => return e.to_compile_error() };
	let tr = &im.trait_.as_ref().unwrap().1;
	let mut out = TokenStream::new();
	for n in lo..=hi {
		let ps: Vec<Ident> = (0..n).map(|k| format_ident!("TupleElement{}", k)).collect();
		let attrs = &im.attrs;
		let gen: Vec<_> = im.generics.params.iter().collect();
		let items: TokenStream = im.items.iter().map(|x| x.to_token_stream()).collect();
		let body = walk(items, n);
		let attrs: Vec<_> = attrs.iter().filter(|a| !a.path().is_ident("tuple_types_custom_trait_bound")).collect();
		out.extend(quote!(#(#attrs)* impl<#(#gen,)* #(#ps: #tr),*> #tr for (#(#ps,)*) { #body }));
	}
	out
}
pub fn hex(i: TokenStream) -> TokenStream {
	let mut s = String::new();
	for t in i { if let TokenTree::Literal(l) = t { let x = l.to_string(); s.push_str(x.trim_matches('"')); } else if let TokenTree::Group(g) = t { for t in g.stream() { if let TokenTree::Literal(l) = t { let x = l.to_string(); s.push_str(x.trim_matches('"')); } } } }
	let s: String = s.chars().filter(|c| !c.is_whitespace() && *c != '_').collect();
	if s.len() % 2 != 0 { return quote!(compile_error!("odd hex")) }
	let b: Vec<u8> = (0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).expect("hex")).collect();
	let lits = b.iter().map(|x| Literal::u8_suffixed(*x));
	let _ = Span::call_site();
	quote!([#(#lits),*])
}
fn repr(di: &DeriveInput) -> Ident {
	let mut r = format_ident!("u8");
	for a in &di.attrs { if a.path().is_ident("repr") { if let Ok(i) = a.parse_args::<Ident>() { r = i } } }
	r
}
pub fn try_from_primitive(i: TokenStream) -> TokenStream {
	let di: DeriveInput = parse2(i).unwrap(); let n = &di.ident; let r = repr(&di); let ns = n.to_string();
	let Data::Enum(e) = &di.data else { return quote!(compile_error!("enum")) };
	let vs: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
	quote! {
		impl ::num_enum::TryFromPrimitive for #n { type Primitive = #r; const NAME: &'static str = #ns;
			fn try_from_primitive(number: #r) -> ::core::result::Result<Self, ::num_enum::TryFromPrimitiveError<Self>> { #(if number == (Self::#vs as #r) { return Ok(Self::#vs) })* Err(::num_enum::TryFromPrimitiveError { number }) } }
		impl ::core::convert::TryFrom<#r> for #n { type Error = ::num_enum::TryFromPrimitiveError<Self>; fn try_from(x: #r) -> ::core::result::Result<Self, Self::Error> { ::num_enum::TryFromPrimitive::try_from_primitive(x) } }
	}
}
pub fn into_primitive(i: TokenStream) -> TokenStream {
	let di: DeriveInput = parse2(i).unwrap(); let n = &di.ident; let r = repr(&di);
	quote!(impl ::core::convert::From<#n> for #r { fn from(x: #n) -> #r { x as #r } })
}
/// `paste!` with `[<a b:camel>]` groups.
pub fn paste(ts: TokenStream) -> TokenStream {
	let mut out = TokenStream::new();
	for t in ts {
		match t {
			TokenTree::Group(g) => {
				let v: Vec<TokenTree> = g.stream().into_iter().collect();
				let is_paste = g.delimiter() == Delimiter::Bracket && v.len() >= 2 && v[0].to_string() == "<" && v[v.len() - 1].to_string() == ">";
				if is_paste {
					let mut s = String::new(); let mut k = 1; let mut last_start = 0usize;
					while k < v.len() - 1 {
						match &v[k] {
							TokenTree::Punct(p) if p.as_char() == ':' => { let m = v[k + 1].to_string(); let part = s.split_off(last_start); s.push_str(&modify(&part, &m)); k += 2; continue },
							TokenTree::Literal(l) => { last_start = s.len(); s.push_str(l.to_string().trim_matches('"')) },
							TokenTree::Group(g) => { last_start = s.len(); s.push_str(&g.stream().to_string()) },
							t => { last_start = s.len(); s.push_str(&t.to_string().trim_start_matches("r#")) },
						}
						k += 1;
					}
					out.extend([TokenTree::Ident(Ident::new(&s, Span::call_site()))]);
				} else { let mut ng = Group::new(g.delimiter(), paste(g.stream())); ng.set_span(g.span()); out.extend([TokenTree::Group(ng)]) }
			},
			t => out.extend([t]),
		}
	}
	out
}
fn modify(s: &str, m: &str) -> String {
	match m { "lower" => s.to_lowercase(), "upper" => s.to_uppercase(),
		"camel" => { let mut r = String::new(); let mut up = true; for c in s.chars() { if c == '_' { up = true } else if up { r.extend(c.to_uppercase()); up = false } else { r.push(c) } } r },
		"snake" => { let mut r = String::new(); for (i, c) in s.chars().enumerate() { if c.is_uppercase() { if i > 0 { r.push('_') } r.extend(c.to_lowercase()) } else { r.push(c) } } r },
		_ => s.to_string() }
}
