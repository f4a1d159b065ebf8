//! `#[rpc]` reduced to the server trait, `#[async_trait]` to nothing.
use proc_macro::TokenStream; use quote::{format_ident, quote}; use syn::{parse_macro_input, parse_quote, ItemTrait, TraitItem};
#[proc_macro_attribute] pub fn async_trait(_: TokenStream, i: TokenStream) -> TokenStream { i }
#[proc_macro_attribute]
pub fn rpc(_: TokenStream, i: TokenStream) -> TokenStream {
	let mut t = parse_macro_input!(i as ItemTrait); t.ident = format_ident!("{}Server", t.ident);
	for x in t.items.iter_mut() { if let TraitItem::Method(m) = x { if m.attrs.iter().any(|a| a.path.is_ident("subscription")) { m.sig.inputs.insert(1, parse_quote!(pending: jsonrpsee::SubscriptionSink)); m.sig.output = parse_quote!(-> Result<(), jsonrpsee::types::SubscriptionEmptyError>); } m.attrs.retain(|a| a.path.is_ident("doc")) } }
	let g: Vec<_> = t.generics.type_params().map(|p| p.ident.clone()).collect(); for (n, g) in g.iter().enumerate() { let f = format_ident!("__unused{}", n); t.items.push(parse_quote!(#[doc(hidden)] fn #f(_: Option<#g>) where Self: Sized {})); }
	quote!(#t).into()
}
