//! Marketplace: settlement (C12) and escrow (C13)
use super::*;
use frame_support::BoundedVec;
use pallet_marketplace::{types::{ListingTokens, NftListing, SftListing, Listing, OfferType}, Event as MEvent};
use seed_pallet_common::{Hold, NFTExt, SFTExt};
use seed_primitives::{MetadataScheme, RoyaltiesSchedule, TokenLockReason};
use sp_runtime::traits::AccountIdConversion;
use frame_support::traits::Hooks;
use std::collections::BTreeSet;
type M = pallet_marketplace::Pallet<Test>;

#[derive(Clone, PartialEq, Debug)]
pub enum Toks { Nft(u32, Vec<u32>), Sft(u32, Vec<(u32, Balance)>) }
#[derive(Clone, PartialEq, Debug)]
pub struct Lst { auction: bool, seller: AccountId, tokens: Toks, price: Balance, buyer: Option<AccountId>, asset: AssetId, close: u64, roy: Vec<(AccountId, u32)>, mkt: Option<u32> }
#[derive(Clone, PartialEq, Debug)]
pub struct Off { token: (u32, u32), asset: AssetId, amount: Balance, buyer: AccountId, mkt: Option<u32> }
#[derive(Clone, PartialEq, Debug, Default)]
pub struct MS { lst: BTreeMap<u128, Lst>, bids: BTreeMap<u128, (AccountId, Balance)>, offers: BTreeMap<u64, Off>, mkts: BTreeMap<u32, (AccountId, u32)>, fee_to: Option<AccountId>,
	own: BTreeMap<(u32, u32), AccountId>, sft: BTreeMap<(u32, u32), BTreeMap<AccountId, Balance>> /* total = free + reserved */, hold: BTreeMap<(AssetId, AccountId), Balance> }
const ESC: [&str; 1] = ["C13"];
const PAY: [&str; 2] = ["C12", "C13"];
fn roy(s: &RoyaltiesSchedule<AccountId>) -> Vec<(AccountId, u32)> { s.entitlements.iter().map(|(w, p)| (*w, p.deconstruct())).collect() }
fn pot() -> AccountId { <Test as pallet_assets_ext::Config>::PalletId::get().into_account_truncating() }
fn toks(t: &ListingTokens<Test>) -> Toks { match t { ListingTokens::Nft(n) => Toks::Nft(n.collection_id, n.serial_numbers.clone().into_inner()), ListingTokens::Sft(n) => Toks::Sft(n.collection_id, n.serial_numbers.clone().into_inner()) } }
fn real(t: &Toks) -> ListingTokens<Test> { match t { Toks::Nft(c, s) => ListingTokens::Nft(NftListing { collection_id: *c, serial_numbers: BoundedVec::truncate_from(s.clone()) }), Toks::Sft(c, s) => ListingTokens::Sft(SftListing { collection_id: *c, serial_numbers: BoundedVec::truncate_from(s.clone()) }) } }
fn free(k: &(u32, u32), w: &AccountId) -> Balance { pallet_sft::TokenInfo::<Test>::get(k).map_or(0, |t| t.owned_tokens.iter().filter(|x| x.0 == *w).map(|x| x.1.free_balance).sum()) }

/// read the whole marketplace and check what every state must satisfy
fn snap(what: &str, now: u64) -> MS {
	let mut s = MS { fee_to: pallet_marketplace::FeeTo::<Test>::get(), ..Default::default() };
	for (id, l) in pallet_marketplace::Listings::<Test>::iter() {
		s.lst.insert(id, match l {
			Listing::FixedPrice(f) => Lst { auction: false, seller: f.seller, tokens: toks(&f.tokens), price: f.fixed_price, buyer: f.buyer, asset: f.payment_asset, close: f.close, roy: roy(&f.royalties_schedule), mkt: f.marketplace_id },
			Listing::Auction(f) => Lst { auction: true, seller: f.seller, tokens: toks(&f.tokens), price: f.reserve_price, buyer: None, asset: f.payment_asset, close: f.close, roy: roy(&f.royalties_schedule), mkt: f.marketplace_id },
		});
	}
	for (id, b) in pallet_marketplace::ListingWinningBid::<Test>::iter() { s.bids.insert(id, b); }
	for (id, OfferType::Simple(o)) in pallet_marketplace::Offers::<Test>::iter() { s.offers.insert(id, Off { token: o.token_id, asset: o.asset_id, amount: o.amount, buyer: o.buyer, mkt: o.marketplace_id }); }
	for (id, m) in pallet_marketplace::RegisteredMarketplaces::<Test>::iter() { s.mkts.insert(id, (m.account, m.entitlement.deconstruct())); }
	for (id, c) in pallet_nft::CollectionInfo::<Test>::iter() { for o in c.owned_tokens.iter() { for t in o.owned_serials.iter() { s.own.insert((id, *t), o.owner); } } }
	let mut reserved: BTreeMap<((u32, u32), AccountId), Balance> = BTreeMap::new();
	for (id, t) in pallet_sft::TokenInfo::<Test>::iter() { let m = s.sft.entry(id).or_default(); for (w, b) in t.owned_tokens.iter() { let v = b.free_balance + b.reserved_balance; if v > 0 { m.insert(*w, v); } if b.reserved_balance > 0 { reserved.insert((id, *w), b.reserved_balance); } } }
	let accts: BTreeSet<AccountId> = frame_system::Account::<Test>::iter_keys().chain((1..=7).map(create_account)).collect();
	for a in all_assets() { for w in &accts { let v = pallet_assets_ext::Pallet::<Test>::hold_balance(&MarketplacePalletId::get(), w, &a); if v > 0 { s.hold.insert((a, *w), v); } } }
	// --- escrow monitors
	let mut want: BTreeMap<(AssetId, AccountId), Balance> = BTreeMap::new();
	for (id, (w, v)) in &s.bids {
		let l = s.lst.get(id);
		ensure!(ESC, l.map_or(false, |l| l.auction), "bid-without-auction", "after {what}: winning bid of {v} by {w:?} on listing {id}, which is not an open auction");
		let l = match l { Some(l) => l, None => continue };
		ensure!(PAY, *v >= l.price, "bid-below-reserve", "after {what}: winning bid {v} below the reserve {} of {id}", l.price);
		if *v > 0 { *want.entry((l.asset, *w)).or_default() += v; }
	}
	for o in s.offers.values() { *want.entry((o.asset, o.buyer)).or_default() += o.amount; }
	ensure_eq!(ESC, s.hold, want, "escrow", "after {what}: marketplace holds vs open bids and offers");
	for ((a, _), _) in &s.hold { let t: Balance = s.hold.iter().filter(|((x, _), _)| x == a).map(|x| *x.1).sum(); ensure!(ESC, balances().get(&(*a, pot())).copied().unwrap_or(0) >= t, "escrow-unfunded", "after {what}: holds of asset {a} total {t}, the holding account has less"); }
	let end: BTreeSet<(u64, u128)> = pallet_marketplace::ListingEndSchedule::<Test>::iter().map(|(b, l, _)| (b, l)).collect();
	ensure_eq!(ESC, end, s.lst.iter().map(|(i, l)| (l.close, *i)).collect::<BTreeSet<_>>(), "schedule", "after {what}: end schedule vs listings");
	let open: BTreeSet<(u32, u128)> = pallet_marketplace::OpenCollectionListings::<Test>::iter().map(|(b, l, _)| (b, l)).collect();
	ensure_eq!(ESC, open, s.lst.iter().map(|(i, l)| (match l.tokens { Toks::Nft(c, _) => c, Toks::Sft(c, _) => c }, *i)).collect::<BTreeSet<_>>(), "open-listings", "after {what}: open listings by collection vs listings");
	for (i, l) in &s.lst { ensure!(ESC, l.close > now, "listing-overdue", "after {what} in block {now}: listing {i} closes at {} but is still open", l.close); }
	let mut locks: BTreeMap<(u32, u32), u128> = BTreeMap::new(); let mut res: BTreeMap<((u32, u32), AccountId), Balance> = BTreeMap::new();
	for (i, l) in &s.lst { match &l.tokens {
		Toks::Nft(c, ts) => for t in ts { ensure!(PAY, locks.insert((*c, *t), *i).is_none(), "listed-twice", "after {what}: token ({c},{t}) is in two listings"); ensure_eq!(PAY, s.own.get(&(*c, *t)), Some(&l.seller), "listed-not-owned", "after {what}: owner of listed token ({c},{t})"); },
		Toks::Sft(c, ts) => for (t, n) in ts { *res.entry(((*c, *t), l.seller)).or_default() += n; },
	} }
	let have: BTreeMap<(u32, u32), u128> = pallet_nft::TokenLocks::<Test>::iter().map(|(k, v)| (k, match v { TokenLockReason::Listed(l) => l })).collect();
	ensure_eq!(PAY, have, locks, "locks", "after {what}: token locks vs listings");
	ensure_eq!(PAY, reserved, res, "reserved", "after {what}: reserved semi-fungible balances vs listings");
	let mut by: BTreeMap<(u32, u32), Vec<u64>> = BTreeMap::new(); for (i, o) in &s.offers { by.entry(o.token).or_default().push(*i); }
	let have: BTreeMap<(u32, u32), Vec<u64>> = pallet_marketplace::TokenOffers::<Test>::iter().map(|(k, v)| (k, v.into_inner())).collect();
	ensure_eq!(ESC, have, by, "token-offers", "after {what}: offers per token vs offers");
	for o in s.offers.values() { ensure!(ESC, o.amount > 0, "zero-offer", "after {what}: an open offer of zero"); }
	check_sums(&PAY, what);
	s
}
/// allowed change of one account's balance
#[derive(Default)] struct Delta(BTreeMap<(AssetId, AccountId), (i128, i128)>);
impl Delta {
	fn exact(&mut self, a: AssetId, w: AccountId, v: i128) { let x = self.0.entry((a, w)).or_default(); x.0 += v; x.1 += v }
	/// `price` leaves `from`, each royalty holder gets its share (rounded either way), the seller the rest
	fn sale(&mut self, a: AssetId, from: AccountId, seller: AccountId, price: Balance, roy: &[(AccountId, u32)]) {
		self.exact(a, from, -(price as i128));
		let total: u64 = roy.iter().map(|x| x.1 as u64).sum();
		let (mut flo, mut ceil) = (0i128, 0i128);
		if total <= 1_000_000 { for (w, p) in roy {
			let f = (price / 1_000_000 * *p as u128 + price % 1_000_000 * *p as u128 / 1_000_000) as i128; let c = f + (price % 1_000_000 * *p as u128 % 1_000_000 > 0) as i128;
			let x = self.0.entry((a, *w)).or_default(); x.0 += f; x.1 += c; flo += f; ceil += c; if f > 0 { vk::hit("royalty_paid") } if f != c { vk::hit("rounded_royalty") }
		} }
		let x = self.0.entry((a, seller)).or_default(); x.0 += (price as i128 - ceil).max(0); x.1 += price as i128 - flo;
	}
	fn check(&self, what: &str, b0: &Bal, b1: &Bal) {
		if !vk::any(&PAY) { return }
		for k in b0.keys().chain(b1.keys()).chain(self.0.keys()).collect::<BTreeSet<_>>() {
			let d = b1.get(k).copied().unwrap_or(0) as i128 - b0.get(k).copied().unwrap_or(0) as i128; let (lo, hi) = self.0.get(k).copied().unwrap_or((0, 0));
			ensure!(PAY, lo <= d && d <= hi, "payment", "{what}: balance of {:?} in asset {} changed by {d}, expected between {lo} and {hi}", k.1, k.0);
		}
	}
}
fn give(e: &mut MS, t: &Toks, from: AccountId, to: AccountId) {
	match t { Toks::Nft(c, ts) => for t in ts { e.own.insert((*c, *t), to); },
		Toks::Sft(c, ts) => for (t, n) in ts { let m = e.sft.entry((*c, *t)).or_default(); let x = m.entry(from).or_default(); *x = x.saturating_sub(*n); if *x == 0 { m.remove(&from); } *m.entry(to).or_default() += n; } }
}
fn coll(t: &Toks) -> u32 { match t { Toks::Nft(c, _) | Toks::Sft(c, _) => *c } }
fn transferable(t: &Toks) -> bool { match t { Toks::Nft(c, _) => pallet_nft::UtilityFlags::<Test>::get(c).transferable, Toks::Sft(c, _) => pallet_sft::UtilityFlags::<Test>::get(c).transferable } }
/// nothing stands in the way of moving the tokens of this open listing
fn movable(e: &MS, t: &Toks, from: AccountId, to: AccountId) -> bool {
	from != to && transferable(t) && match t { Toks::Nft(..) => true, Toks::Sft(c, ts) => ts.iter().all(|(t, _)| e.sft.get(&(*c, *t)).map_or(false, |m| m.contains_key(&to) || m.len() < MaxOwnersPerSftToken::get() as usize)) }
}
fn schedule(t: &Toks, mkt: Option<u32>, e: &MS) -> Option<Vec<(AccountId, u32)>> {
	let mut v = match t { Toks::Nft(c, _) => Nft::get_royalties_schedule(*c).ok()?, Toks::Sft(c, _) => Sft::get_royalties_schedule(*c).ok()? }.map(|s| roy(&s)).unwrap_or_default();
	if let Some(f) = e.fee_to { v.push((f, 5_000)) }
	if let Some(m) = mkt { v.push(*e.mkts.get(&m)?) }
	if v.iter().map(|x| x.1 as u64).sum::<u64>() > 1_000_000 { return None }
	Some(v)
}
pub fn run() { let n = vk::tier(16_000, 400_000); vk::episodes(n, |_, r| episode(r)); }

fn episode(r: &mut Rng) {
	let users: Vec<AccountId> = (1..=6).map(create_account).collect();
	let endow: Vec<(AccountId, Balance)> = users[..5].iter().map(|u| (*u, 1_000_000)).chain([(users[5], 50)]).collect();
	TestExt::<Test>::default().with_balances(&endow).with_xrp_balances(&endow).with_asset(5, "TKN", &endow).build().execute_with(|| {
		let (mut ncs, mut scs) = (vec![], vec![]);
		for i in 0..2 {
			let id = Nft::next_collection_uuid().unwrap();
			tx(|| Nft::create_collection(sg(users[i]), BoundedVec::truncate_from(b"n".to_vec()), 0, None, None, MetadataScheme::try_from(b"https://x/".as_slice()).unwrap(), nft::royalties(r, &users), Default::default())).or_else(|_| tx(|| Nft::create_collection(sg(users[i]), BoundedVec::truncate_from(b"n".to_vec()), 0, None, None, MetadataScheme::try_from(b"https://x/".as_slice()).unwrap(), None, Default::default()))).expect("setup");
			for u in &users[..4] { let _ = tx(|| Nft::mint(sg(users[i]), id, 2, Some(*u))); }
			ncs.push(id);
		}
		{ let id = Nft::next_collection_uuid().unwrap();
			let mk = |roy| tx(|| Sft::create_collection(sg(users[1]), BoundedVec::truncate_from(b"s".to_vec()), None, MetadataScheme::try_from(b"https://x/".as_slice()).unwrap(), roy)); mk(nft::royalties(r, &users)).or_else(|_| mk(None)).expect("setup");
			for i in 0..2 { let _ = tx(|| Sft::create_token(sg(users[1]), id, BoundedVec::truncate_from(b"t".to_vec()), 100, None, Some(users[i]))); let _ = tx(|| Sft::mint(sg(users[1]), id, BoundedVec::truncate_from(vec![(i as u32, 50)]), Some(users[2 + i]))); }
			scs.push(id); }
		let mut now = 1u64; System::set_block_number(now); System::reset_events();
		let mut pre = snap("setup", now);
		for _ in 0..50 + r.below(40) {
			let b0 = balances(); let mut e = pre.clone(); let mut d = Delta::default();
			let who = *r.pick(&users); let asset = *r.pick(&[1u32, 2, 2, 5]);
			let amt = |r: &mut Rng| match r.below(8) { 0 => r.below(4) as u128, 1 => 1 + r.below(20) as u128, 2 => r.amount(1_000_000), _ => 1 + r.below(2000) as u128 };
			let mkt = |r: &mut Rng| if r.chance(40) { Some(r.below(3) as u32) } else { None };
			let lids: Vec<u128> = pre.lst.keys().copied().collect();
			let lid = |r: &mut Rng, auction: bool| { let v: Vec<u128> = lids.iter().copied().filter(|i| pre.lst[i].auction == auction).collect(); if v.is_empty() || r.chance(8) { if lids.is_empty() || r.chance(30) { r.below(20) as u128 } else { *r.pick(&lids) } } else { *r.pick(&v) } };
			let oid = |r: &mut Rng| { let v: Vec<u64> = pre.offers.keys().copied().collect(); if v.is_empty() || r.chance(5) { r.below(12) } else { *r.pick(&v) } };
			let gen_toks = |r: &mut Rng, who: AccountId| -> Toks {
				if r.chance(30) { let c = scs[0]; let mut v = vec![]; for _ in 0..1 + r.below(2) { let s = r.below(2) as u32; let f = free(&(c, s), &who); v.push((s, if r.chance(6) { 0 } else { r.amount(f.max(1)).min(f + 1) })); } Toks::Sft(if r.chance(2) { ncs[0] } else { c }, v) }
				else { let c = *r.pick(&ncs); let mine: Vec<u32> = pre.own.iter().filter(|((x, _), w)| *x == c && **w == who).map(|x| x.0 .1).collect(); let any: Vec<u32> = pre.own.keys().filter(|x| x.0 == c).map(|x| x.1).collect(); let mut v = vec![]; let n = if r.chance(3) { 0 } else { 1 + r.below(3) }; for _ in 0..n { v.push(if mine.is_empty() || r.chance(4) { if any.is_empty() { 0 } else { *r.pick(&any) } } else { *r.pick(&mine) }) } if r.chance(85) { v.sort(); v.dedup() } Toks::Nft(if r.chance(2) { scs[0] } else { c }, v) }
			};
			let lockable = |t: &Toks, w: AccountId| match t {
				Toks::Nft(c, v) => !v.is_empty() && v.iter().collect::<BTreeSet<_>>().len() == v.len() && v.iter().all(|s| pre.own.get(&(*c, *s)) == Some(&w) && Nft::get_token_lock((*c, *s)).is_none()),
				Toks::Sft(c, v) => !v.is_empty() && v.iter().all(|x| x.1 > 0) && v.iter().all(|(s, _)| v.iter().filter(|x| x.0 == *s).map(|x| x.1).sum::<u128>() <= free(&(*c, *s), &w)),
			};
			let what: String; let ok: bool;
			System::reset_events();
			match r.below(34) {
				0..=7 => {
					let auction = r.chance(45); let t = gen_toks(r, who); let p = amt(r); let buyer = if r.chance(20) { Some(*r.pick(&users)) } else { None }; let dur = if r.chance(60) { Some(r.below(60)) } else { None }; let m = mkt(r); let id = pallet_marketplace::NextListingId::<Test>::get(); let lk = lockable(&t, who); let sch = schedule(&t, m, &pre);
					what = format!("{} by {who:?} of {t:?} for {p} of {asset}, buyer {buyer:?}, duration {dur:?}, marketplace {m:?}", if auction { "auction" } else { "sell" });
					let res = vk::guard(&what, || if auction { if let (Toks::Nft(c, s), true) = (&t, r.chance(30)) { tx(|| M::auction_nft(sg(who), *c, BoundedVec::truncate_from(s.clone()), asset, p, dur, m)) } else { tx(|| M::auction(sg(who), real(&t), asset, p, dur, m)) } } else if let (Toks::Nft(c, s), true) = (&t, r.chance(30)) { tx(|| M::sell_nft(sg(who), *c, BoundedVec::truncate_from(s.clone()), buyer, asset, p, dur, m)) } else { tx(|| M::sell(sg(who), real(&t), buyer, asset, p, dur, m)) });
					let may = lk && dur != Some(0) && sch.is_some();
					ok = res.is_ok();
					if ok {
						ensure!(PAY, lk, "listed-unowned", "{what}: accepted although the seller does not own those tokens unlocked");
						ensure!(PAY, sch.is_some(), "bad-royalties", "{what}: accepted although the payouts cannot be honoured");
						ensure!(ESC, !pre.lst.contains_key(&id), "listing-id-reused", "{what}: listing id {id} is in use");
						e.lst.insert(id, Lst { auction, seller: who, tokens: t, price: p, buyer: if auction { None } else { buyer }, asset, close: now + dur.unwrap_or(50), roy: sch.unwrap_or_default(), mkt: m });
						vk::hit(if auction { "auction_ok" } else { "sell_ok" });
					} else { if !may { vk::hit("sell_rejected"); } }
				},
				8 => { let id = lid(r, false); let p = amt(r); what = format!("update price of {id} to {p} by {who:?}"); let w = if r.chance(60) { pre.lst.get(&id).map_or(who, |l| l.seller) } else { who };
					let res = tx(|| M::update_fixed_price(sg(w), id, p)); ok = res.is_ok();
					if ok { let l = pre.lst.get(&id).filter(|l| !l.auction && l.seller == w); ensure!(PAY, l.is_some(), "price-by-other", "{what} (signed by {w:?}): accepted"); if let Some(l) = e.lst.get_mut(&id) { l.price = p } vk::hit("price_updated") } },
				9..=14 => {
					let n = if r.chance(25) { 1 + r.below(3) } else { 1 }; let ids: Vec<u128> = (0..n).map(|_| lid(r, false)).collect(); let w = if r.chance(40) { pre.lst.get(&ids[0]).and_then(|l| l.buyer).unwrap_or(who) } else { who };
					what = format!("buy {ids:?} by {w:?}");
					let res = vk::guard(&what, || if n == 1 && r.chance(80) { tx(|| M::buy(sg(w), ids[0])) } else { tx(|| M::buy_multi(sg(w), BoundedVec::truncate_from(ids.clone()))) }); ok = res.is_ok();
					if ok {
						let mut seen = BTreeSet::new();
						for id in &ids {
							let l = pre.lst.get(id).filter(|l| !l.auction && l.buyer.map_or(true, |b| b == w) && seen.insert(*id));
							ensure!(PAY, l.is_some(), "bought-unlisted", "{what}: accepted for listing {id} ({:?})", pre.lst.get(id));
							let l = l.unwrap().clone();
							d.sale(l.asset, w, l.seller, l.price, &l.roy); give(&mut e, &l.tokens, l.seller, w); e.lst.remove(id); vk::hit("buy_ok");
						}
					} else {
						vk::hit("buy_rejected");
						if n == 1 { if let Some(l) = pre.lst.get(&ids[0]).filter(|l| !l.auction && l.buyer.map_or(true, |b| b == w)) {
							let rich = b0.get(&(l.asset, w)).copied().unwrap_or(0) > l.price + 1;
							ensure!(PAY, !(rich && l.price > 0 && movable(&pre, &l.tokens, l.seller, w)), "sale-refused", "{what}: a funded purchase of a movable listing was refused: {res:?}, listing {l:?}");
						} }
					}
				},
				15..=19 => { let id = lid(r, true); let cur = pre.bids.get(&id).map(|b| b.1).or(pre.lst.get(&id).map(|l| l.price)).unwrap_or(5); let v = match r.below(6) { 0 => cur, 1 => cur.saturating_sub(1), 2 => amt(r), _ => cur + 1 + r.below(200) as u128 };
					what = format!("bid {v} on {id} by {who:?}"); let res = vk::guard(&what, || tx(|| M::bid(sg(who), id, v))); ok = res.is_ok();
					if ok {
						let l = pre.lst.get(&id).filter(|l| l.auction); ensure!(PAY, l.is_some(), "bid-unlisted", "{what}: accepted, but {id} is not an open auction"); let l = l.unwrap();
						ensure!(PAY, match pre.bids.get(&id) { Some(b) => v > b.1, None => v >= l.price }, "bid-too-low", "{what}: accepted over {:?}, reserve {}", pre.bids.get(&id), l.price);
						if let Some((w, x)) = pre.bids.get(&id) { d.exact(l.asset, *w, *x as i128); d.exact(l.asset, pot(), -(*x as i128)); vk::hit("outbid"); }
						d.exact(l.asset, who, -(v as i128)); d.exact(l.asset, pot(), v as i128);
						e.bids.insert(id, (who, v));
						let nc = match pallet_marketplace::Listings::<Test>::get(id) { Some(Listing::Auction(a)) => a.close, _ => 0 };
						ensure!(ESC, nc == l.close || (nc > l.close && nc <= now + 40), "bid-close", "{what}: the closing block went from {} to {nc} at block {now}", l.close);
						e.lst.get_mut(&id).unwrap().close = nc; vk::hit("bid_ok");
					} else { vk::hit("bid_rejected");
						if let Some(l) = pre.lst.get(&id).filter(|l| l.auction) {
							let enough = match pre.bids.get(&id) { Some(b) => v > b.1, None => v >= l.price };
							ensure!(ESC, !(enough && v > 0 && b0.get(&(l.asset, who)).copied().unwrap_or(0) > v + 1), "bid-refused", "{what}: a funded, higher bid was refused: {res:?}");
						} } },
				20 | 21 => { let id = if lids.is_empty() { 3 } else { *r.pick(&lids) }; let w = if r.chance(70) { pre.lst.get(&id).map_or(who, |l| l.seller) } else { who };
					what = format!("cancel sale {id} by {w:?}"); let res = vk::guard(&what, || tx(|| M::cancel_sale(sg(w), id))); ok = res.is_ok();
					let may = pre.lst.get(&id).map_or(false, |l| l.seller == w) && !pre.bids.contains_key(&id);
					ensure!(PAY, ok == may, "cancel-sale", "{what}: {res:?}, listing {:?}, bid {:?}", pre.lst.get(&id), pre.bids.get(&id));
					if ok { e.lst.remove(&id); vk::hit("sale_cancelled") } },
				22..=24 => { let t = { let v: Vec<_> = pre.own.keys().copied().collect(); if v.is_empty() || r.chance(3) { (ncs[0], 999) } else { *r.pick(&v) } }; let v = amt(r); let m = mkt(r); let id = pallet_marketplace::NextOfferId::<Test>::get();
					what = format!("offer {id} of {v} of {asset} for {t:?} by {who:?}, marketplace {m:?}"); let res = vk::guard(&what, || tx(|| M::make_simple_offer(sg(who), t, v, asset, m))); ok = res.is_ok();
					if ok {
						ensure!(PAY, v > 0 && pre.own.get(&t).map_or(false, |o| *o != who), "offer-invalid", "{what}: accepted; owner {:?}", pre.own.get(&t));
						ensure!(ESC, !pre.offers.contains_key(&id) && pre.offers.values().filter(|o| o.token == t).count() < MaxOffers::get() as usize, "offer-limit", "{what}: accepted above the limit or over an existing id");
						d.exact(asset, who, -(v as i128)); d.exact(asset, pot(), v as i128); e.offers.insert(id, Off { token: t, asset, amount: v, buyer: who, mkt: m }); vk::hit("offer_made");
					} },
				25 => { let id = oid(r); let w = if r.chance(80) { pre.offers.get(&id).map_or(who, |o| o.buyer) } else { who }; what = format!("cancel offer {id} by {w:?}"); let res = vk::guard(&what, || tx(|| M::cancel_offer(sg(w), id))); ok = res.is_ok();
					ensure!(PAY, ok == pre.offers.get(&id).map_or(false, |o| o.buyer == w), "cancel-offer", "{what}: {res:?}, offer {:?}", pre.offers.get(&id));
					if ok { let o = &pre.offers[&id]; d.exact(o.asset, w, o.amount as i128); d.exact(o.asset, pot(), -(o.amount as i128)); e.offers.remove(&id); vk::hit("offer_cancelled") } },
				26 | 27 => { let id = oid(r); let w = if r.chance(85) { pre.offers.get(&id).and_then(|o| pre.own.get(&o.token)).copied().unwrap_or(who) } else { who };
					what = format!("accept offer {id} by {w:?} ({:?})", pre.offers.get(&id)); let res = vk::guard(&what, || tx(|| M::accept_offer(sg(w), id))); ok = res.is_ok();
					let sch = pre.offers.get(&id).and_then(|o| schedule(&Toks::Nft(o.token.0, vec![o.token.1]), o.mkt, &pre));
					if ok {
						let o = pre.offers.get(&id).filter(|o| pre.own.get(&o.token) == Some(&w)); ensure!(PAY, o.is_some(), "accept-by-other", "{what}: accepted"); let o = o.unwrap();
						ensure!(PAY, sch.is_some(), "bad-royalties", "{what}: accepted although the payouts cannot be honoured");
						d.sale(o.asset, pot(), w, o.amount, &sch.unwrap_or_default()); e.own.insert(o.token, o.buyer); e.offers.remove(&id);
						let hit: Vec<u128> = pre.lst.iter().filter(|(_, l)| matches!(&l.tokens, Toks::Nft(c, ts) if *c == o.token.0 && ts.contains(&o.token.1))).map(|x| *x.0).collect();
						for h in hit { ensure!(ESC, !pre.lst[&h].auction || !pre.bids.contains_key(&h), "accept-under-auction", "{what}: accepted although the token is in an auction with a bid"); e.lst.remove(&h); vk::hit("offer_over_listing") }
						vk::hit("offer_accepted");
					} else if let Some(o) = pre.offers.get(&id).filter(|o| pre.own.get(&o.token) == Some(&w) && o.buyer != w && sch.is_some() && Nft::get_token_lock(o.token).is_none()) {
						ensure!(PAY, !transferable(&Toks::Nft(o.token.0, vec![])), "accept-refused", "{what}: an acceptable offer was refused: {res:?}");
					} },
				28 => { let p = match r.below(4) { 0 => Permill::from_percent(1), 1 => Permill::from_parts(r.below(1_000_001) as u32), 2 => Permill::from_percent(25), _ => Permill::from_parts(r.below(40_000) as u32) }; let a = if r.chance(50) { Some(*r.pick(&users)) } else { None }; let id = pallet_marketplace::NextMarketplaceId::<Test>::get();
					what = format!("register marketplace {a:?} {p:?}"); ok = tx(|| M::register_marketplace(sg(who), a, p)).is_ok(); if ok { e.mkts.insert(id, (a.unwrap_or(who), p.deconstruct())); } },
				29 => { let f = if r.chance(30) { None } else { Some(*r.pick(&users)) }; let root = r.chance(60); what = format!("set fee to {f:?} root {root}"); ok = tx(|| M::set_fee_to(if root { RawOrigin::Root.into() } else { sg(who) }, f)).is_ok(); ensure!(PAY, ok == root, "fee-to", "{what}: {ok}"); if ok { e.fee_to = f } },
				30 => { let v: Vec<_> = pre.own.iter().collect(); if v.is_empty() { continue } let ((c, t), o) = *r.pick(&v); let dst = *r.pick(&users); let burn = r.chance(25); what = format!("{} of ({c},{t}) from {o:?} to {dst:?}", if burn { "burn" } else { "transfer" });
					ok = if burn { tx(|| Nft::burn(sg(*o), (*c, *t))).is_ok() } else { tx(|| Nft::transfer(sg(*o), *c, BoundedVec::truncate_from(vec![*t]), dst)).is_ok() };
					if ok { ensure!(PAY, !pre.lst.values().any(|l| matches!(&l.tokens, Toks::Nft(a, ts) if a == c && ts.contains(t))), "listed-moved", "{what}: a listed token was moved"); if burn { e.own.remove(&(*c, *t)); } else { e.own.insert((*c, *t), dst); } } },
				31 => { let c = scs[0]; let s = r.below(2) as u32; let dst = *r.pick(&users); let f = free(&(c, s), &who); let n = r.amount(f.max(1)).min(f + 1); let burn = r.chance(20); what = format!("sft {} of {n} of ({c},{s}) from {who:?} to {dst:?}", if burn { "burn" } else { "transfer" });
					let l = BoundedVec::truncate_from(vec![(s, n)]);
					ok = if burn { tx(|| Sft::burn(sg(who), c, l)).is_ok() } else { tx(|| Sft::transfer(sg(who), c, l, dst)).is_ok() };
					if ok { ensure!(PAY, n <= f, "reserved-moved", "{what}: more than the free balance {f} was moved"); if burn { let m = e.sft.get_mut(&(c, s)).unwrap(); let x = m.get_mut(&who).unwrap(); *x -= n; if *x == 0 { m.remove(&who); } } else { give(&mut e, &Toks::Sft(c, vec![(s, n)]), who, dst) } } },
				32 => { what = match r.below(3) {
						0 => { let c = *r.pick(&ncs); let o = pallet_nft::CollectionInfo::<Test>::get(c).unwrap().owner; let f = r.chance(60); ok = tx(|| Nft::set_utility_flags(sg(o), c, seed_pallet_common::utils::CollectionUtilityFlags { transferable: f, burnable: true, mintable: true })).is_ok(); format!("nft transferable {c} {f}") },
						1 => { let o = pallet_sft::SftCollectionInfo::<Test>::get(scs[0]).unwrap().collection_owner; let f = r.chance(60); ok = tx(|| Sft::set_utility_flags(sg(o), scs[0], seed_pallet_common::utils::CollectionUtilityFlags { transferable: f, burnable: true, mintable: true })).is_ok(); format!("sft transferable {f}") },
						_ => { let c = *r.pick(&ncs); let o = pallet_nft::CollectionInfo::<Test>::get(c).unwrap().owner; let s = nft::royalties(r, &users).unwrap_or(RoyaltiesSchedule { entitlements: Default::default() }); ok = tx(|| Nft::set_royalties_schedule(sg(o), c, s)).is_ok(); format!("royalties of {c}") },
					}; },
				_ => {
					let n = if r.chance(30) { 1 + r.below(45) } else { 1 + r.below(3) };
					what = format!("{n} blocks");
					for _ in 0..n {
						now += 1; let due = e.lst.iter().any(|(_, l)| l.close == now); let (b1, p1) = (balances(), e.clone()); let mut d1 = Delta::default();
						System::set_block_number(now); System::reset_events();
						vk::guard("on_initialize", || <Marketplace as Hooks<u64>>::on_initialize(now));
						if !due { continue }
						let sold: BTreeMap<u128, AccountId> = System::events().into_iter().filter_map(|x| match x.event { RuntimeEvent::Marketplace(MEvent::AuctionSold { listing_id, winner, .. }) => Some((listing_id, winner)), _ => None }).collect();
						for (id, l) in p1.lst.iter().filter(|(_, l)| l.close == now) {
							e.lst.remove(id); vk::hit("listing_expired");
							if let Some((w, v)) = p1.bids.get(id) {
								e.bids.remove(id);
								if sold.contains_key(id) { d1.sale(l.asset, pot(), l.seller, *v, &l.roy); give(&mut e, &l.tokens, l.seller, *w); vk::hit("auction_settled"); }
								else { d1.exact(l.asset, pot(), -(*v as i128)); d1.exact(l.asset, *w, *v as i128); vk::hit("auction_failed");
									// several auctions may close in one block, so only owner limits of the state before it are known to leave room when this is the only one
									let alone = p1.lst.values().filter(|x| x.close == now).count() == 1 || matches!(l.tokens, Toks::Nft(..));
									ensure!(PAY, !(alone && movable(&p1, &l.tokens, l.seller, *w)), "auction-unsettled", "block {now}: auction {id} ({l:?}) won by {w:?} with {v} was not settled"); }
							}
						}
						ensure!(PAY, sold.keys().all(|i| p1.lst.get(i).map_or(false, |l| l.auction && l.close == now)), "sold-unexpected", "block {now}: sold {sold:?}");
						let lab = format!("block {now} closing listings"); d1.check(&lab, &b1, &balances());
						let post = snap(&lab, now); e.hold = post.hold.clone();
						vk::state(&(post.lst.len(), post.bids.len(), post.offers.len(), sold.len(), coll(&p1.lst.values().next().unwrap().tokens)));
						cmp(&lab, &e, &post);
					}
					ok = true; vk::op(&what); e.hold = snap(&what, now).hold; pre = e; continue
				},
			}
			vk::op(format!("{what} -> {ok}"));
			let b1 = balances();
			if !ok { ensure_eq!(PAY, diff(&b0, &b1), String::new(), "failed-changes", "{what} failed but changed balances"); }
			d.check(&what, &b0, &b1);
			let post = snap(&what, now); let h = post.hold.clone();
			if !ok { ensure_eq!(PAY, post, pre, "failed-changes", "{what} failed but changed state"); }
			e.hold = h; cmp(&what, &e, &post);
			vk::state(&(post.lst.len(), post.bids.len(), post.offers.values().map(|o| o.token).collect::<Vec<_>>(), what.split(' ').next().map(|x| x.to_string()), ok));
			pre = post;
		}
	});
}
fn cmp(what: &str, e: &MS, p: &MS) {
	ensure_eq!(["C12"], p.own, e.own, "tokens", "{what}: owners of NFTs vs expected");
	ensure_eq!(["C12"], p.sft, e.sft, "tokens", "{what}: semi-fungible balances vs expected");
	ensure_eq!(PAY, p.lst, e.lst, "listings", "{what}: listings vs expected");
	ensure_eq!(PAY, p.bids, e.bids, "bids", "{what}: bids vs expected");
	ensure_eq!(PAY, p.offers, e.offers, "offers", "{what}: offers vs expected");
	ensure_eq!(PAY, (&p.mkts, p.fee_to), (&e.mkts, e.fee_to), "config", "{what}: marketplaces and fee account vs expected");
}
