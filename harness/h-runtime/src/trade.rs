//! C37: the DEX and marketplace precompiles against the ledger, by the differential driver of `tokens.rs`.
use crate::rt::*;
use crate::tokens::{self, *};
use crate::*;
use ethabi::Token as T;
use pallet_dex::types::TradingPair;
use pallet_evm::exec::Step;
use pallet_marketplace::types::{Listing, ListingTokens, NftListing, OfferType, SftListing};

use std::rc::Rc;
const LOGS: [&str; 15] = ["Mint(address,uint256,uint256)", "Burn(address,uint256,uint256,address)", "Swap(address,uint256,uint256,uint256,uint256,address)", "MarketplaceRegister(address,uint256,address)", "FixedPriceSaleListNFT(address,uint256,uint256,uint256[],address,uint128)", "FixedPriceSaleListSFT(address,uint256,uint256,uint256[],address,uint128,uint256[])", "FixedPriceSaleUpdate(uint256,uint256,uint256,address,uint256[],uint128)", "FixedPriceSaleComplete(uint256,uint256,uint256,address,uint256[],uint128)", "AuctionOpenNFT(uint256,uint256,uint256,address,uint256[],uint128)", "AuctionOpenSFT(uint256,uint256,uint256,address,uint256[],uint128)", "Bid(address,uint256,uint256,uint128)", "FixedPriceSaleClose(uint256,uint256,address,uint256[],uint128)", "AuctionClose(uint256,uint256,address,uint256[],uint128)", "Offer(uint256,address,uint256,uint256,uint128)", "OfferCancel(uint256,address,uint256,uint256,uint128)"];
const ACCEPT: &str = "OfferAccept(uint256,uint256,address,uint256,uint256,uint128)";
struct W { users: Vec<AccountId>, hosts: Vec<AccountId>, assets: Vec<u32>, nfts: Vec<u32>, sfts: Vec<u32> }
fn dex_at() -> H160 { H160::from_low_u64_be(56797) }
fn market_at() -> H160 { H160::from_low_u64_be(1741) }
fn word<X: Into<U256>>(x: X) -> H256 { let mut b = [0u8; 32]; let x: U256 = x.into(); x.to_big_endian(&mut b); H256(b) }
fn t(s: &str) -> H256 { topic(s) }
fn list(v: &[U256]) -> T { T::Array(v.iter().map(|x| T::Uint(*x)).collect()) }
fn nums<X: Copy + Into<U256>>(v: &[X]) -> T { T::Array(v.iter().map(|x| u(*x)).collect()) }
/// an ERC20 address with the asset it stands for; sometimes an address that stands for none
fn token(rng: &mut Rng, w: &W) -> (H160, Option<u32>) { if rng.chance(4) { (e721(w.nfts[0]), None) } else if rng.chance(4) { (e20(77_777), Some(77_777)) } else { let id = *rng.pick(&w.assets); (e20(id), Some(id)) } }
fn someone(rng: &mut Rng, w: &W) -> AccountId { if rng.chance(6) { if rng.chance(40) { crate::rt::odd_address(rng).into() } else { H160::from_low_u64_be(0xD0_0D + rng.below(3)).into() } } else if rng.chance(15) { *rng.pick(&w.hosts) } else { *rng.pick(&w.users) } }
/// a deadline: the number and the block it means
fn deadline(rng: &mut Rng) -> (U256, Option<u32>) { let now = System::block_number(); let x = match rng.below(14) { 0 => U256::from(now.saturating_sub(1)), 1 => U256::from(u32::MAX), 2 => U256::one() << 32, 3 => U256::MAX, 4 => U256::from(now), _ => U256::from(now + rng.below(20) as u32) }; (x, small(x)) }
fn pool_of(x: u32, y: u32) -> H160 { h(TradingPair::new(x, y).pool_address::<AccountId>()) }
fn reserves(x: u32, y: u32) -> (Balance, Balance) { let p = TradingPair::new(x, y); let r = pallet_dex::LiquidityPool::<Runtime>::get(p); if p.0 == x { r } else { (r.1, r.0) } }
fn drops() -> Balance { (value() as u128 + 999_999_999_999) / 1_000_000_000_000 }
/// the value sent, as the ledger has to spend it: in drops, taken from the caller. (The listed finding: the number of
/// wei is spent in drops, and the value itself stays with the precompile.)
fn sent(me: AccountId) -> Option<Balance> {
	if value() == 0 { return Some(0) } ODD_USED.with(|x| x.set(true));
	if ODD.with(|x| x.get()) { dis(me, Call::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: XRP, destination: dex_at().into(), amount: drops(), keep_alive: false }))?; Some(value() as u128) } else { Some(drops()) }
}
fn last<R>(f: impl Fn(&RuntimeEvent) -> Option<R>) -> Option<R> { events().iter().rev().find_map(f) }
fn add(me: AccountId, x: u32, y: u32, n: [Balance; 4], to: AccountId, until: u32) -> Done {
	dis(me, Call::Dex(pallet_dex::Call::add_liquidity { token_a: x, token_b: y, amount_a_desired: n[0], amount_b_desired: n[1], amount_a_min: n[2], amount_b_min: n[3], to: Some(to), deadline: Some(until) }))?;
	let (p, q, l) = last(|e| if let RuntimeEvent::Dex(pallet_dex::Event::AddLiquidity(_, i, p, _, q, l, _)) = e { Some(if *i == x { (*p, *q, *l) } else { (*q, *p, *l) }) } else { None })?; vk::hit("liquidity_added");
	Some((abi(&[u(p), u(q), u(l)]), vec![(pool_of(x, y), vec![t(LOGS[0]), at(me), word(p)], abi(&[u(q)]))]))
}
fn remove(me: AccountId, x: u32, y: u32, n: [Balance; 3], to: AccountId, until: u32) -> Done {
	dis(me, Call::Dex(pallet_dex::Call::remove_liquidity { token_a: x, token_b: y, liquidity: n[0], amount_a_min: n[1], amount_b_min: n[2], to: Some(to), deadline: Some(until) }))?;
	let (p, q) = last(|e| if let RuntimeEvent::Dex(pallet_dex::Event::RemoveLiquidity(_, i, p, _, q, _, _)) = e { Some(if *i == x { (*p, *q) } else { (*q, *p) }) } else { None })?; vk::hit("liquidity_removed");
	Some((abi(&[u(p), u(q)]), vec![(pool_of(x, y), vec![t(LOGS[1]), at(me), word(p), word(q)], abi(&[a(to)]))]))
}
fn swap(me: AccountId, exact_in: bool, n: [Balance; 2], path: &[u32], to: AccountId, until: u32) -> Done {
	let before: Vec<_> = path.windows(2).map(|p| reserves(p[0], p[1])).collect();
	dis(me, Call::Dex(if exact_in { pallet_dex::Call::swap_with_exact_supply { amount_in: n[0], amount_out_min: n[1], path: path.to_vec(), to: Some(to), deadline: Some(until) } } else { pallet_dex::Call::swap_with_exact_target { amount_out: n[0], amount_in_max: n[1], path: path.to_vec(), to: Some(to), deadline: Some(until) } }))?;
	let mut amounts = vec![]; let mut logs = vec![];
	for (p, b) in path.windows(2).zip(before) { let r = reserves(p[0], p[1]); let (i, o) = (r.0 - b.0, b.1 - r.1); if amounts.is_empty() { amounts.push(i) } amounts.push(o);
		let z = u(0); let d = if p[0] < p[1] { (word(i), word(0), z, u(o)) } else { (word(0), word(i), u(o), z) }; logs.push((pool_of(p[0], p[1]), vec![t(LOGS[2]), at(me), d.0, d.1], abi(&[d.2, d.3, a(to)]))); }
	vk::hit(if path.len() > 2 { "multi_hop" } else { "swapped" }); Some((abi(&[nums(&amounts)]), logs))
}
fn route(rng: &mut Rng, w: &W, from: Option<u32>, end: Option<u32>) -> (Vec<H160>, Option<Vec<u32>>) {
	let mut ids = w.assets.clone(); for i in (1..ids.len()).rev() { ids.swap(i, rng.below(i as u64 + 1) as usize) } ids.truncate(if rng.chance(60) { 2 } else { 1 + rng.below(4) as usize });
	if rng.chance(85) { if let Some(f) = from { ids.retain(|x| *x != f); ids.insert(0, f) } if let Some(e) = end { ids.retain(|x| *x != e); ids.push(e) } } ids.truncate(4);
	let mut v: Vec<H160> = ids.iter().map(|x| e20(*x)).collect(); if rng.chance(3) { v[0] = e721(w.nfts[0]); return (v, None) } if rng.chance(3) { let k = v[0]; v.push(k); ids.push(ids[0]); if ids.len() > 2 { ids.pop(); v.pop(); } }
	(v, Some(ids))
}
fn path(v: &[H160]) -> T { T::Array(v.iter().map(|x| T::Address(*x)).collect()) }
fn dex(rng: &mut Rng, w: &W) -> Op {
	let to = dex_at(); let (xa, x) = token(rng, w); let (ya, y) = token(rng, w); let who = someone(rng, w); let (dl, until) = deadline(rng);
	let big = |rng: &mut Rng| { let n = rng.below(40_000) as u128; wide(rng, n) }; let few = |rng: &mut Rng| { let n = if rng.chance(70) { 0 } else { rng.below(3000) as u128 }; wide(rng, n) };
	match rng.below(18) {
		0 | 1 => { let n = [big(rng), big(rng), few(rng), few(rng)]; op(format!("dex addLiquidity {x:?} {y:?} {n:?} to {who:?} until {dl}"), to, call("addLiquidity(address,address,uint256,uint256,uint256,uint256,address,uint256)", &[T::Address(xa), T::Address(ya), T::Uint(n[0]), T::Uint(n[1]), T::Uint(n[2]), T::Uint(n[3]), a(who), T::Uint(dl)]), move |me| add(me, x?, y?, [bal128(n[0])?, bal128(n[1])?, bal128(n[2])?, bal128(n[3])?], who, until?)) },
		2 | 3 => { let n = [big(rng), few(rng), few(rng)]; let mut o = op(format!("dex addLiquidityETH {x:?} {n:?} to {who:?} until {dl}"), to, call("addLiquidityETH(address,uint256,uint256,uint256,address,uint256)", &[T::Address(xa), T::Uint(n[0]), T::Uint(n[1]), T::Uint(n[2]), a(who), T::Uint(dl)]), move |me| { let v = sent(me)?; add(me, x?, XRP, [bal128(n[0])?, v, bal128(n[1])?, bal128(n[2])?], who, until?) }); o.pay = true; o },
		4 | 5 => { let eth = rng.chance(40); let y = if eth { Some(XRP) } else { y }; let n = [big(rng), few(rng), few(rng)]; let mut args = vec![T::Address(xa), T::Address(ya), T::Uint(n[0]), T::Uint(n[1]), T::Uint(n[2]), a(who), T::Uint(dl)]; if eth { args.remove(1); }
			op(format!("dex removeLiquidity eth {eth} {x:?} {y:?} {n:?} to {who:?} until {dl}"), to, call(if eth { "removeLiquidityETH(address,uint256,uint256,uint256,address,uint256)" } else { "removeLiquidity(address,address,uint256,uint256,uint256,address,uint256)" }, &args), move |me| remove(me, x?, y?, [bal128(n[0])?, bal128(n[1])?, bal128(n[2])?], who, until?)) },
		6..=10 => { let (f, exact_in, from, end) = *rng.pick(&[("swapExactTokensForTokens", true, None, None), ("swapTokensForExactTokens", false, None, None), ("swapTokensForExactETH", false, None, Some(XRP)), ("swapExactTokensForETH", true, None, Some(XRP))]);
			let (v, ids) = route(rng, w, from, end); let n = { let k = rng.below(8000) as u128; let n0 = wide(rng, k); let k = if exact_in { rng.below(4000) } else { rng.below(30_000) } as u128; [n0, if exact_in && rng.chance(60) { U256::zero() } else { wide(rng, k) }] };
			op(format!("dex {f} {n:?} {ids:?} to {who:?} until {dl}"), to, call(&format!("{f}(uint256,uint256,address[],address,uint256)"), &[T::Uint(n[0]), T::Uint(n[1]), path(&v), a(who), T::Uint(dl)]), move |me| swap(me, exact_in, [bal128(n[0])?, bal128(n[1])?], ids.as_ref()?, who, until?)) },
		11 | 12 => { let exact_in = rng.chance(60); let f = if exact_in { "swapExactETHForTokens" } else { "swapETHForExactTokens" }; let (v, ids) = route(rng, w, Some(XRP), None); let n = { let k = rng.below(3000) as u128; if exact_in && rng.chance(60) { U256::zero() } else { wide(rng, k) } };
			let mut o = op(format!("dex {f} {n} {ids:?} to {who:?} until {dl}"), to, call(&format!("{f}(uint256,address[],address,uint256)"), &[T::Uint(n), path(&v), a(who), T::Uint(dl)]), move |me| { let s = sent(me)?; let n = bal128(n)?; swap(me, exact_in, if exact_in { [s, n] } else { [n, s] }, ids.as_ref()?, who, until?) }); o.pay = true; o },
		13 | 14 => { let out = rng.chance(50); let (v, ids) = route(rng, w, None, None); let n = { let k = rng.below(8000) as u128; wide(rng, k) }; let f = if out { "getAmountsOut" } else { "getAmountsIn" };
			view(format!("dex {f} {n} {ids:?}"), to, call(&format!("{f}(uint256,address[])"), &[T::Uint(n), path(&v)]), move || quotes(out, bal128(n)?, ids.as_ref()?).map(|q| { vk::hit("quoted"); abi(&[nums(&q)]) })) },
		15 => { let n = [big(rng), big(rng), big(rng)]; view(format!("dex quote {n:?}"), to, call("quote(uint256,uint256,uint256)", &[T::Uint(n[0]), T::Uint(n[1]), T::Uint(n[2])]), move || { let (r, s) = (bal128(n[1])?, bal128(n[2])?); if n[0].is_zero() || r == 0 || s == 0 { return None } Some(abi(&[T::Uint(n[0].checked_mul(U256::from(s))? / U256::from(r))])) }) },
		_ => { let out = rng.chance(50); let n = [big(rng), big(rng), big(rng)]; let f = if out { "getAmountOut" } else { "getAmountIn" }; view(format!("dex {f} {n:?}"), to, call(&format!("{f}(uint256,uint256,uint256)"), &[T::Uint(n[0]), T::Uint(n[1]), T::Uint(n[2])]), move || { let q = quote(out, bal128(n[0])?, bal128(n[1])?, bal128(n[2])?)?; Some(abi(&[u(q)])) }) },
	}
}
/// the fee-adjusted constant product curve; None when it has no answer in the ledger's numbers
fn quote(out: bool, n: Balance, rin: Balance, rout: Balance) -> Option<Balance> {
	if n == 0 || rin == 0 || rout == 0 { return None }
	let b = |x: Balance| U256::from(x);
	let q = if out { let k = b(n).checked_mul(b(997))?; k.checked_mul(b(rout))? / b(rin).checked_mul(b(1000))?.checked_add(k)? }
	else { let d = b(rout).checked_sub(b(n))?.checked_mul(b(997))?; if d.is_zero() { return None } (b(rin).checked_mul(b(n))?.checked_mul(b(1000))? / d).checked_add(U256::one())? };
	Some(sat(q))
}
fn quotes(out: bool, n: Balance, ids: &[u32]) -> Option<Vec<Balance>> {
	if ids.len() < 2 || ids.len() > 3 { return None }
	let mut v = vec![n]; let pairs: Vec<_> = ids.windows(2).collect();
	for p in if out { pairs } else { pairs.into_iter().rev().collect() } {
		if pallet_dex::TradingPairStatuses::<Runtime>::get(TradingPair::new(p[0], p[1])) != pallet_dex::TradingPairStatus::Enabled { return None }
		let (i, o) = reserves(p[0], p[1]); if out { let x = quote(true, *v.last()?, i, o)?; if x == 0 { return None } v.push(x) } else { let x = quote(false, v[0], i, o)?; v.insert(0, x) }
	}
	Some(v)
}
fn payment(rng: &mut Rng, w: &W) -> (H160, Option<u32>) { token(rng, w) }
fn mkt(rng: &mut Rng) -> U256 { let n = rng.below(pallet_marketplace::NextMarketplaceId::<Runtime>::get() as u64 + 1); if rng.chance(6) { U256::one() << 32 | U256::from(n) } else { U256::from(n) } }
fn parts(tk: &ListingTokens<Runtime>) -> (u32, Vec<u32>) { match tk { ListingTokens::Nft(n) => (n.collection_id, n.serial_numbers.to_vec()), ListingTokens::Sft(s) => (s.collection_id, s.serial_numbers.iter().map(|x| x.0).collect()) } }
fn m<R: Into<Call>>(x: R) -> Call { x.into() }
fn listing(rng: &mut Rng) -> U256 { let all: Vec<u128> = pallet_marketplace::Listings::<Runtime>::iter_keys().collect(); let n = if all.is_empty() || rng.chance(5) { rng.below(3) as u128 } else { let mut s = all.clone(); s.sort(); *rng.pick(&s) }; if rng.chance(3) { (U256::one() << 128) + U256::from(n) } else { U256::from(n) } }
fn offer(rng: &mut Rng) -> U256 { let mut all: Vec<u64> = pallet_marketplace::Offers::<Runtime>::iter_keys().collect(); all.sort(); let n = if all.is_empty() || rng.chance(5) { rng.below(3) } else { *rng.pick(&all) }; if rng.chance(3) { (U256::one() << 64) + U256::from(n) } else { U256::from(n) } }
fn small64(x: U256) -> Option<u64> { if x > U256::from(u64::MAX) { None } else { Some(x.low_u64()) } }
fn market(rng: &mut Rng, w: &W) -> Op {
	let to = market_at(); let (pa, pay) = payment(rng, w); let who = someone(rng, w); let mk = mkt(rng);
	let price = { let n = rng.below(3000) as u128; wide(rng, n) }; let dur = match rng.below(8) { 0 => U256::zero(), 1 => U256::one() << 32, 2 => U256::from(u32::MAX), 3 => U256::one(), _ => U256::from(5 + rng.below(50)) };
	let (nft, c) = (rng.chance(60), 0u32); let _ = c;
	// tokens to list: what one account owns, mostly
	let c = if nft { *rng.pick(&w.nfts) } else { *rng.pick(&w.sfts) }; let owner = *rng.pick(&w.users);
	let (mut ids, mut qs): (Vec<U256>, Vec<U256>) = (vec![], vec![]);
	if nft { let mut own: Vec<u32> = pallet_nft::CollectionInfo::<Runtime>::get(c).unwrap().owned_tokens.iter().filter(|o| o.owner == owner).flat_map(|o| o.owned_serials.iter().copied().collect::<Vec<_>>()).collect(); own.sort(); for _ in 0..1 + rng.below(3) { if own.is_empty() || rng.chance(4) { ids.push(U256::from(rng.below(12))) } else { let i = rng.below(own.len() as u64) as usize; ids.push(U256::from(if rng.chance(95) { own.remove(i) } else { own[i] })) } } }
	else { for i in 0..3u32 { if rng.chance(60) { ids.push(U256::from(i)); let k = rng.below(6) as u128; qs.push(wide(rng, k)) } } if rng.chance(5) { qs.push(U256::one()) } }
	if rng.chance(4) { if let Some(x) = ids.get_mut(0) { *x = *x + (U256::one() << 32) } } if rng.chance(2) { ids.resize(1001, U256::one()); if !nft { qs.resize(1001, U256::one()) } }
	let (ca, right) = if rng.chance(4) { (if nft { e1155(c) } else { e721(c) }, false) } else { (if nft { e721(c) } else { e1155(c) }, true) };
	let made = { let (ids, qs) = (ids.clone(), qs.clone()); move || -> Option<ListingTokens<Runtime>> { if !right { return None } let s: Option<Vec<u32>> = ids.iter().map(|x| small(*x)).collect(); let s = s?; Some(if nft { ListingTokens::Nft(NftListing { collection_id: c, serial_numbers: s.try_into().ok()? }) } else { if qs.len() != s.len() { return None } let q: Option<Vec<u128>> = qs.iter().map(|x| bal128(*x)).collect(); ListingTokens::Sft(SftListing { collection_id: c, serial_numbers: s.into_iter().zip(q?).collect::<Vec<_>>().try_into().ok()? }) }) } };
	match rng.below(20) {
		0 => { let z = H160::zero(); let acc = if rng.chance(40) { z } else { h(who) }; let e = match rng.below(6) { 0 => U256::one() << 32, 1 => U256::from(1_000_001), 2 => U256::from(1_000_000), _ => U256::from(rng.below(60_000)) };
			op(format!("market register {acc:?} {e}"), to, call("registerMarketplace(address,uint256)", &[T::Address(acc), T::Uint(e)]), move |me| { let e = small(e)?.min(1_000_000); let id = pallet_marketplace::NextMarketplaceId::<Runtime>::get(); dis(me, m(pallet_marketplace::Call::register_marketplace { marketplace_account: if acc == z { None } else { Some(acc.into()) }, entitlement: sp_runtime::Permill::from_parts(e) }))?; vk::hit("registered"); Some((abi(&[u(id)]), vec![(to, vec![t(LOGS[3]), at(me), word(id)], abi(&[T::Address(acc)]))])) }) },
		1..=5 => { let zero = H160::zero(); let buyer = if rng.chance(70) { zero } else { h(who) };
			let f = if nft { if rng.chance(20) { "sellNftWithMarketplaceId(address,uint256[],address,address,uint256,uint256,uint32)" } else { "sellNft(address,uint256[],address,address,uint256,uint256,uint32)" } } else { "sellSft(address,uint256[],uint256[],address,address,uint256,uint256,uint32)" };
			let mut args = vec![T::Address(ca), list(&ids)]; if !nft { args.push(list(&qs)) } args.extend([T::Address(buyer), T::Address(pa), T::Uint(price), T::Uint(dur), T::Uint(mk)]);
			op(format!("market {f} {c} {ids:?} {qs:?} to {buyer:?} for {pay:?} {price} {dur} at {mk}"), to, call(f, &args), move |me| {
				let id = pallet_marketplace::NextListingId::<Runtime>::get(); let k = small(mk)?; let d = small(dur)?;
				dis(me, m(pallet_marketplace::Call::sell { tokens: made()?, buyer: if buyer == zero { None } else { Some(buyer.into()) }, payment_asset: pay?, fixed_price: bal128(price)?, duration: if d == 0 { None } else { Some(d) }, marketplace_id: if k == 0 { None } else { Some(k) } }))?; vk::hit(if nft { "sale_nft" } else { "sale_sft" });
				let mut data = vec![list(&ids), T::Address(ca), u(k)]; if !nft { data.push(list(&qs)) } Some((abi(&[u(id)]), vec![(to, vec![t(LOGS[if nft { 4 } else { 5 }]), at(me), word(id), word(price)], abi(&data))])) }) },
		6 => { let l = listing(rng); op(format!("market updateFixedPrice {l} {price}"), to, call("updateFixedPrice(uint128,uint256)", &[T::Uint(l), T::Uint(price)]), move |me| { let id = bal128(l)?; let p = bal128(price)?; let Some(Listing::FixedPrice(x)) = pallet_marketplace::Listings::<Runtime>::get(id) else { return None }; dis(me, m(pallet_marketplace::Call::update_fixed_price { listing_id: id, new_price: p }))?; vk::hit("repriced"); let (c, s) = parts(&x.tokens); Some((vec![], vec![(to, vec![t(LOGS[6]), word(c), word(id), word(p)], abi(&[a(me), nums(&s), u(x.marketplace_id.unwrap_or(0))]))])) }) },
		7..=9 => { let l = listing(rng); op(format!("market buy {l}"), to, call("buy(uint128)", &[T::Uint(l)]), move |me| { let id = bal128(l)?; let Some(Listing::FixedPrice(x)) = pallet_marketplace::Listings::<Runtime>::get(id) else { return None }; dis(me, m(pallet_marketplace::Call::buy { listing_id: id }))?; vk::hit("bought"); let (c, s) = parts(&x.tokens); Some((vec![], vec![(to, vec![t(LOGS[7]), word(c), word(id), word(x.fixed_price)], abi(&[a(x.seller), nums(&s), u(x.marketplace_id.unwrap_or(0))]))])) }) },
		10 | 11 => { let f = if nft { if rng.chance(20) { "auctionNftWithMarketplaceId(address,uint256[],address,uint256,uint256,uint32)" } else { "auctionNft(address,uint256[],address,uint256,uint256,uint32)" } } else { "auctionSft(address,uint256[],uint256[],address,uint256,uint256,uint32)" };
			let mut args = vec![T::Address(ca), list(&ids)]; if !nft { args.push(list(&qs)) } args.extend([T::Address(pa), T::Uint(price), T::Uint(dur), T::Uint(mk)]);
			op(format!("market {f} {c} {ids:?} {qs:?} for {pay:?} {price} {dur} at {mk}"), to, call(f, &args), move |me| { let id = pallet_marketplace::NextListingId::<Runtime>::get(); let k = small(mk)?; let d = small(dur)?; let p = bal128(price)?;
				dis(me, m(pallet_marketplace::Call::auction { tokens: made()?, payment_asset: pay?, reserve_price: p, duration: if d == 0 { None } else { Some(d) }, marketplace_id: Some(k) }))?; vk::hit(if nft { "auction_nft" } else { "auction_sft" }); Some((vec![], vec![(to, vec![t(LOGS[if nft { 8 } else { 9 }]), word(c), word(id), word(p)], abi(&[a(me), list(&ids), u(k)]))])) }) },
		12 | 13 => { let l = listing(rng); op(format!("market bid {l} {price}"), to, call("bid(uint128,uint256)", &[T::Uint(l), T::Uint(price)]), move |me| { let id = bal128(l)?; let p = bal128(price)?; let Some(Listing::Auction(x)) = pallet_marketplace::Listings::<Runtime>::get(id) else { return None }; dis(me, m(pallet_marketplace::Call::bid { listing_id: id, amount: p }))?; vk::hit("bid"); Some((vec![], vec![(to, vec![t(LOGS[10]), at(me), word(id), word(p)], abi(&[u(x.marketplace_id.unwrap_or(0))]))])) }) },
		14 => { let l = listing(rng); op(format!("market cancelSale {l}"), to, call("cancelSale(uint128)", &[T::Uint(l)]), move |me| { let id = bal128(l)?; let x = pallet_marketplace::Listings::<Runtime>::get(id)?; let (fixed, tk, k) = match &x { Listing::FixedPrice(x) => (true, parts(&x.tokens), x.marketplace_id), Listing::Auction(x) => (false, parts(&x.tokens), x.marketplace_id) }; dis(me, m(pallet_marketplace::Call::cancel_sale { listing_id: id }))?; vk::hit("cancelled"); Some((vec![], vec![(to, vec![t(LOGS[if fixed { 11 } else { 12 }]), word(tk.0), word(id)], abi(&[a(me), nums(&tk.1), u(k.unwrap_or(0))]))])) }) },
		15 | 16 => { let c = *rng.pick(&w.nfts); let n = rng.below(10) as u32; let sn = id_of(rng, n); let (ca, ok) = if rng.chance(4) { (e1155(c), false) } else { (e721(c), true) }; let f = if rng.chance(20) { "makeSimpleOfferWithMarketplaceId" } else { "makeSimpleOffer" };
			op(format!("market {f} {c} {sn} {price} {pay:?} at {mk}"), to, call(&format!("{f}(address,uint32,uint256,address,uint32)"), &[T::Address(ca), T::Uint(sn), T::Uint(price), T::Address(pa), T::Uint(mk)]), move |me| { let id = pallet_marketplace::NextOfferId::<Runtime>::get(); let s = small(sn)?; let k = small(mk).unwrap_or(u32::MAX); if !ok { return None } dis(me, m(pallet_marketplace::Call::make_simple_offer { token_id: (c, s), amount: bal128(price)?, asset_id: pay?, marketplace_id: Some(k) }))?; vk::hit("offered"); Some((abi(&[u(id)]), vec![(to, vec![t(LOGS[13]), word(id), at(me)], abi(&[u(c), u(s), u(k)]))])) }) },
		17 => { let o = offer(rng); let accept = rng.chance(70); op(format!("market {} {o}", if accept { "acceptOffer" } else { "cancelOffer" }), to, call(if accept { "acceptOffer(uint64)" } else { "cancelOffer(uint64)" }, &[T::Uint(o)]), move |me| { let id = small64(o)?; let OfferType::Simple(x) = pallet_marketplace::Offers::<Runtime>::get(id)?; let data = abi(&[u(x.token_id.0), u(x.token_id.1), u(x.marketplace_id.unwrap_or(0))]);
			if accept { dis(me, m(pallet_marketplace::Call::accept_offer { offer_id: id }))?; vk::hit("offer_accepted"); Some((vec![], vec![(to, vec![t(ACCEPT), word(id), word(x.amount), at(me)], data)])) } else { dis(me, m(pallet_marketplace::Call::cancel_offer { offer_id: id }))?; vk::hit("offer_cancelled"); Some((vec![], vec![(to, vec![t(LOGS[14]), word(id), at(me)], data)])) } }) },
		18 => { let l = listing(rng); view(format!("market getListingFromId {l}"), to, call("getListingFromId(uint128)", &[T::Uint(l)]), move || { let (name, tk, p, asset) = match pallet_marketplace::Listings::<Runtime>::get(bal128(l)?)? { Listing::FixedPrice(x) => ("fixed_price_listing_for_nft", parts(&x.tokens), x.fixed_price, x.payment_asset), Listing::Auction(x) => ("auction_listing_for_nft", parts(&x.tokens), x.reserve_price, x.payment_asset) }; vk::hit("listing_read"); Some(abi(&[T::Bytes(name.into()), u(tk.0), nums(&tk.1), u(p), u(asset)])) }) },
		_ => if rng.chance(50) { let o = offer(rng); view(format!("market getOfferFromId {o}"), to, call("getOfferFromId(uint64)", &[T::Uint(o)]), move || { let OfferType::Simple(x) = pallet_marketplace::Offers::<Runtime>::get(small64(o)?)?; vk::hit("offer_read"); Some(abi(&[u(x.token_id.0), u(x.token_id.1), u(x.amount), a(x.buyer)])) }) }
			else { view(format!("market getMarketplaceAccount {mk}"), to, call("getMarketplaceAccount(uint32)", &[T::Uint(mk)]), move || Some(abi(&[a(pallet_marketplace::RegisteredMarketplaces::<Runtime>::get(small(mk)?)?.account)]))) },
	}
}
fn setup(rng: &mut Rng) -> W {
	let users: Vec<AccountId> = (0..4).map(acct).collect(); let mut assets = vec![XRP, ROOT];
	let hosts: Vec<AccountId> = (0..2).map(|i| H160::from_low_u64_be(0xC0DE_F0 + i).into()).collect(); for x in &hosts { pallet_evm::Pallet::<Runtime>::create_account(h(*x), Vec::<Step>::new().encode()); }
	for i in 0..2u64 { let n = AssetsExt::next_asset_uuid().unwrap(); assert_ok!(signed(acct(i), Call::AssetsExt(pallet_assets_ext::Call::create_asset { name: b"T".to_vec(), symbol: b"T".to_vec(), decimals: 6, min_balance: Some(1), owner: Some(acct(i)) }))); for x in users.iter().chain(&hosts) { if rng.chance(90) { assert_ok!(signed(acct(i), Call::Assets(pallet_assets::Call::mint { id: n.into(), beneficiary: *x, amount: 100_000 + amt(rng, 100_000) }))); } } assets.push(n); }
	for x in &hosts { for id in [XRP, ROOT] { assert_ok!(signed(acct(0), Call::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: id, destination: *x, amount: 10_000_000, keep_alive: false }))); } }
	for i in 0..4 { for j in 0..i { if rng.chance(70) { let who = acct(rng.below(4)); let _ = signed(who, Call::Dex(pallet_dex::Call::add_liquidity { token_a: assets[i], token_b: assets[j], amount_a_desired: 5_000 + amt(rng, 50_000), amount_b_desired: 5_000 + amt(rng, 50_000), amount_a_min: 0, amount_b_min: 0, to: None, deadline: None })); } } }
	let (mut nfts, mut sfts) = (vec![], vec![]); let half = || Some(seed_primitives::RoyaltiesSchedule { entitlements: vec![(acct(7), sp_runtime::Permill::from_parts(70_007))].try_into().unwrap() });
	for _ in 0..2 { let o = rng.below(4); let n = Nft::next_collection_uuid().unwrap(); assert_ok!(signed(acct(o), Call::Nft(pallet_nft::Call::create_collection { name: b"n".to_vec().try_into().unwrap(), initial_issuance: 6, max_issuance: None, token_owner: Some(*rng.pick(&users)), metadata_scheme: seed_primitives::MetadataScheme::try_from(b"https://x/".as_slice()).unwrap(), royalties_schedule: if rng.chance(50) { half() } else { None }, cross_chain_compatibility: seed_primitives::CrossChainCompatibility { xrpl: false } }))); assert_ok!(signed(acct(o), Call::Nft(pallet_nft::Call::mint { collection_id: n, quantity: 4, token_owner: Some(*rng.pick(&hosts)) }))); nfts.push(n); }
	for _ in 0..2 { let o = rng.below(4); let n = Nft::next_collection_uuid().unwrap(); assert_ok!(signed(acct(o), Call::Sft(pallet_sft::Call::create_collection { collection_name: b"s".to_vec().try_into().unwrap(), collection_owner: None, metadata_scheme: seed_primitives::MetadataScheme::try_from(b"https://y/".as_slice()).unwrap(), royalties_schedule: if rng.chance(50) { half() } else { None } }))); for _ in 0..3 { assert_ok!(signed(acct(o), Call::Sft(pallet_sft::Call::create_token { collection_id: n, token_name: b"t".to_vec().try_into().unwrap(), initial_issuance: 30, max_issuance: None, token_owner: Some(*rng.pick(&users)) }))); } assert_ok!(signed(acct(o), Call::Sft(pallet_sft::Call::mint { collection_id: n, serial_numbers: vec![(0, 9), (2, 9)].try_into().unwrap(), token_owner: Some(hosts[0]) }))); sfts.push(n); }
	if rng.chance(70) { for _ in 0..2 { assert_ok!(signed(acct(0), m(pallet_marketplace::Call::register_marketplace { marketplace_account: None, entitlement: sp_runtime::Permill::from_parts(rng.below(60_000) as u32) }))); } }
	W { users, hosts, assets, nfts, sfts }
}
fn plain(rng: &mut Rng, w: &W) {
	let who = acct(rng.below(4)); let (x, y) = (*rng.pick(&w.assets), *rng.pick(&w.assets));
	let c = match rng.below(6) {
		0 => { let r = if rng.chance(50) { root(Call::Dex(pallet_dex::Call::disable_trading_pair { token_a: x, token_b: y })) } else { root(Call::Dex(pallet_dex::Call::reenable_trading_pair { token_a: x, token_b: y })) }; vk::op(format!("pair {x} {y}: {r:?}")); return },
		1 => { let r = root(Call::Dex(pallet_dex::Call::set_fee_to { fee_to: if rng.chance(50) { Some(acct(8)) } else { None } })); vk::op(format!("fee to {r:?}")); return },
		2 => { let c = *rng.pick(&w.nfts); Call::Nft(pallet_nft::Call::transfer { collection_id: c, serial_numbers: vec![rng.below(10) as u32].try_into().unwrap(), new_owner: someone(rng, w) }) },
		3 => { let id = w.assets[2 + rng.below(2) as usize]; if rng.chance(40) { Call::Assets(pallet_assets::Call::freeze { id: id.into(), who: someone(rng, w) }) } else { Call::Assets(pallet_assets::Call::thaw { id: id.into(), who: someone(rng, w) }) } },
		4 => { let mut all: Vec<_> = pallet_marketplace::Listings::<Runtime>::iter_keys().collect(); all.sort(); if all.is_empty() { return } m(pallet_marketplace::Call::buy { listing_id: *rng.pick(&all) }) },
		_ => Call::AssetsExt(pallet_assets_ext::Call::transfer { asset_id: x, destination: someone(rng, w), amount: amt(rng, 500), keep_alive: false }),
	};
	vk::op(format!("plain {who:?}: {c:?}")); let r = signed(who, c); vk::op(format!("  -> {r:?}"));
}
pub fn run() {
	let mut logs = LOGS.to_vec(); logs.push(ACCEPT);
	vk::episodes(vk::tier(8000, 60000), |_, rng| chain(5, || {
		let w = Rc::new(setup(rng));
		for _ in 0..vk::tier(60, 120) { if rng.chance(15) { plain(rng, &w) } else { tokens::drive(rng, ["C37"], &w.hosts, &logs, &|rng| if rng.chance(50) { dex(rng, &w) } else { market(rng, &w) }) } }
	}));
}
pub const REQUIRED: &[&str] = &["read", "static_read", "write", "contract_write", "static_write_refused", "delegate_refused", "value_refused", "refused", "undone", "out_of_gas", "logs", "liquidity_added", "liquidity_removed", "swapped", "multi_hop", "quoted", "registered", "sale_nft", "sale_sft", "repriced", "bought", "auction_nft", "auction_sft", "bid", "cancelled", "offered", "offer_accepted", "offer_cancelled", "listing_read", "offer_read"];
