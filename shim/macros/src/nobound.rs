use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::*;
use crate::codec::pattern;
fn parse(i: TokenStream) -> DeriveInput { parse2(i).expect("derive input") }
pub fn debug(i: TokenStream, bound: bool) -> TokenStream {
	let di = parse(i);
	let n = &di.ident;
	let ns = n.to_string();
	let mut g = di.generics.clone();
	if bound { for p in g.type_params_mut() { p.bounds.push(parse_quote!(::core::fmt::Debug)) } }
	let (ig, tg, wc) = g.split_for_impl();
	let body = match &di.data {
		Data::Struct(s) => { let b: Vec<Ident> = (0..s.fields.len()).map(|i| format_ident!("__f{}", i)).collect(); let p = pattern(&s.fields, &b); let w = write(&ns, &s.fields, &b); quote!(let #n #p = self; #w) },
		Data::Enum(e) => { let arms = e.variants.iter().map(|v| { let vn = &v.ident; let b: Vec<Ident> = (0..v.fields.len()).map(|i| format_ident!("__f{}", i)).collect(); let p = pattern(&v.fields, &b); let w = write(&format!("{}::{}", ns, vn).replace(&format!("{}::", ns), ""), &v.fields, &b); quote!(#n::#vn #p => { #w }) });
			if e.variants.is_empty() { quote!(match *self {}) } else { quote!(match self { #(#arms),* }) } },
		_ => quote!(Ok(())),
	};
	quote! { #[allow(deprecated)] impl #ig ::core::fmt::Debug for #n #tg #wc { fn fmt(&self, __fmt: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { #body } } }
}
fn write(name: &str, fs: &Fields, b: &[Ident]) -> TokenStream {
	match fs {
		Fields::Named(f) => { let ids: Vec<String> = f.named.iter().map(|x| x.ident.as_ref().unwrap().to_string()).collect(); quote!(__fmt.debug_struct(#name)#(.field(#ids, #b))*.finish()) },
		Fields::Unnamed(_) => quote!(__fmt.debug_tuple(#name)#(.field(#b))*.finish()),
		Fields::Unit => quote!(__fmt.write_str(#name)),
	}
}
pub fn clone(i: TokenStream) -> TokenStream {
	let di = parse(i);
	let n = &di.ident;
	let (ig, tg, wc) = di.generics.split_for_impl();
	let cons = |fs: &Fields, b: &[Ident]| match fs {
		Fields::Named(f) => { let ids: Vec<_> = f.named.iter().map(|x| x.ident.clone().unwrap()).collect(); quote!({ #(#ids: ::core::clone::Clone::clone(#b)),* }) },
		Fields::Unnamed(_) => quote!((#(::core::clone::Clone::clone(#b)),*)), Fields::Unit => quote!() };
	let body = match &di.data {
		Data::Struct(s) => { let b: Vec<Ident> = (0..s.fields.len()).map(|i| format_ident!("__f{}", i)).collect(); let p = pattern(&s.fields, &b); let c = cons(&s.fields, &b); quote!(let #n #p = self; #n #c) },
		Data::Enum(e) => { let arms = e.variants.iter().map(|v| { let vn = &v.ident; let b: Vec<Ident> = (0..v.fields.len()).map(|i| format_ident!("__f{}", i)).collect(); let p = pattern(&v.fields, &b); let c = cons(&v.fields, &b); quote!(#n::#vn #p => #n::#vn #c) });
			if e.variants.is_empty() { quote!(match *self {}) } else { quote!(match self { #(#arms),* }) } },
		_ => quote!(),
	};
	quote! { impl #ig ::core::clone::Clone for #n #tg #wc { fn clone(&self) -> Self { #body } } }
}
pub fn partial_eq(i: TokenStream) -> TokenStream {
	let di = parse(i);
	let n = &di.ident;
	let (ig, tg, wc) = di.generics.split_for_impl();
	let names = |p: &str, k: usize| -> Vec<Ident> { (0..k).map(|i| format_ident!("__{}{}", p, i)).collect() };
	let body = match &di.data {
		Data::Struct(s) => { let a = names("a", s.fields.len()); let b = names("b", s.fields.len()); let pa = pattern(&s.fields, &a); let pb = pattern(&s.fields, &b); quote!(let #n #pa = self; let #n #pb = other; true #(&& #a == #b)*) },
		Data::Enum(e) => { let arms = e.variants.iter().map(|v| { let vn = &v.ident; let a = names("a", v.fields.len()); let b = names("b", v.fields.len()); let pa = pattern(&v.fields, &a); let pb = pattern(&v.fields, &b); quote!((#n::#vn #pa, #n::#vn #pb) => true #(&& #a == #b)*) });
			if e.variants.is_empty() { quote!(true) } else { quote!(#[allow(unreachable_patterns)] match (self, other) { #(#arms,)* _ => false }) } },
		_ => quote!(),
	};
	quote! { impl #ig ::core::cmp::PartialEq for #n #tg #wc { fn eq(&self, other: &Self) -> bool { #body } } }
}
pub fn eq(i: TokenStream) -> TokenStream {
	let di = parse(i); let n = &di.ident; let (ig, tg, wc) = di.generics.split_for_impl();
	quote!(impl #ig ::core::cmp::Eq for #n #tg #wc {})
}
pub fn default(i: TokenStream) -> TokenStream {
	let di = parse(i); let n = &di.ident; let (ig, tg, wc) = di.generics.split_for_impl();
	let b = match &di.data {
		Data::Struct(s) => match &s.fields {
			Fields::Named(f) => { let ids = f.named.iter().map(|x| x.ident.clone().unwrap()); quote!(#n { #(#ids: ::core::default::Default::default()),* }) },
			Fields::Unnamed(f) => { let d = f.unnamed.iter().map(|_| quote!(::core::default::Default::default())); quote!(#n(#(#d),*)) },
			Fields::Unit => quote!(#n) },
		Data::Enum(e) => { let v = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))).unwrap_or(&e.variants[0]); let vn = &v.ident; quote!(#n::#vn) },
		_ => quote!(),
	};
	quote!(impl #ig ::core::default::Default for #n #tg #wc { fn default() -> Self { #b } })
}
