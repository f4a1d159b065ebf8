use super::*;
use codec::Encode;
use frame_support::BoundedVec;
use seed_pallet_common::{utils::{CollectionUtilityFlags, PublicMintInformation}, SFTExt};
use seed_primitives::MetadataScheme;

#[derive(Clone, PartialEq, Debug)]
pub struct Tok { pub iss: Balance, pub max: Option<Balance>, pub own: BTreeMap<AccountId, (Balance, Balance)>, pub name: Vec<u8> }
#[derive(Clone, PartialEq, Debug)]
pub struct SColl { pub owner: AccountId, pub next: u32, pub settings: Vec<u8>, pub flags: CollectionUtilityFlags }
#[derive(Clone, PartialEq, Debug, Default)]
pub struct SSnap { pub colls: BTreeMap<u32, SColl>, pub toks: BTreeMap<(u32, u32), Tok>, pub mint: BTreeMap<(u32, u32), PublicMintInformation> }
pub fn snap(what: &str) -> SSnap {
	let mut s = SSnap::default();
	for (id, c) in pallet_sft::SftCollectionInfo::<Test>::iter() { s.colls.insert(id, SColl { owner: c.collection_owner, next: c.next_serial_number, settings: (c.collection_name, c.metadata_scheme, c.royalties_schedule, c.origin_chain).encode(), flags: pallet_sft::UtilityFlags::<Test>::get(id) }); }
	for (id, t) in pallet_sft::TokenInfo::<Test>::iter() {
		let mut own = BTreeMap::new();
		for (w, b) in t.owned_tokens.iter() { let dup = own.insert(*w, (b.free_balance, b.reserved_balance)).is_some(); ensure!(["C10"], !dup, "owner-twice", "after {what}: {w:?} is listed twice as owner of {id:?}"); ensure_eq!(["C10"], Sft::balance_of(w, id), b.free_balance, "balance-query", "after {what}: balance of {w:?} of {id:?}"); }
		own.retain(|_, b| *b != (0, 0));
		let sum: Option<Balance> = own.values().try_fold(0u128, |s, (f, r)| s.checked_add(*f)?.checked_add(*r));
		ensure_eq!(["C10"], sum, Some(t.token_issuance), "sum-vs-issuance", "after {what}: sum of balances of {id:?} vs issuance");
		ensure_eq!(["C10"], Sft::total_supply(id), t.token_issuance, "supply-query", "after {what}: supply of {id:?}");
		if let Some(m) = t.max_issuance { ensure!(["C10", "C09"], t.token_issuance <= m, "above-max", "after {what}: issuance {} of {id:?} above {m}", t.token_issuance); }
		ensure!(["C10"], s.colls.get(&id.0).map_or(false, |c| id.1 < c.next), "serial-not-issued", "after {what}: token {id:?} at or above the next serial");
		s.toks.insert(id, Tok { iss: t.token_issuance, max: t.max_issuance, own, name: t.token_name.encode() });
	}
	for (k, m) in pallet_sft::PublicMintInfo::<Test>::iter() { s.mint.insert(k, m); }
	s
}
pub fn run() { let n = vk::tier(40_000, 800_000); vk::episodes(n, |_, r| episode(r)); }
pub fn episode(r: &mut Rng) {
	let users: Vec<AccountId> = (1..=7).map(create_account).collect();
	let endow: Vec<(AccountId, Balance)> = users[..6].iter().map(|u| (*u, 1_000_000)).collect();
	TestExt::<Test>::default().with_balances(&endow).with_xrp_balances(&endow).with_asset(5, "TKN", &endow).build().execute_with(|| {
		let mut ids = vec![];
		for i in 0..2 { let id = Nft::next_collection_uuid().unwrap(); tx(|| Sft::create_collection(sg(users[i]), BoundedVec::truncate_from(b"s".to_vec()), None, MetadataScheme::try_from(b"https://x/".as_slice()).unwrap(), None)).expect("setup"); ids.push(id);
			for _ in 0..2 + r.below(2) { let max = if r.chance(40) { Some(1 + r.amount(1000)) } else { None }; let init = r.amount(500).min(max.unwrap_or(u128::MAX)); tx(|| Sft::create_token(sg(users[i]), id, BoundedVec::truncate_from(b"t".to_vec()), init, max, None)).expect("setup token"); } }
		if vk::is("C09") { let ks: Vec<_> = pallet_sft::TokenInfo::<Test>::iter_keys().collect(); for k in ks { if r.chance(70) { let o = pallet_sft::SftCollectionInfo::<Test>::get(k.0).unwrap().collection_owner; let _ = Sft::toggle_public_mint(sg(o), k, true); let _ = Sft::set_mint_fee(sg(o), k, Some((*r.pick(&[1, 2, 5]), r.amount(10_000)))); } } }
		let mut pre = snap("setup");
		for _ in 0..40 + r.below(30) {
			let b0 = balances(); let n0 = pallet_nft::NextCollectionId::<Test>::get();
			let c = if r.chance(3) { r.below(9000) as u32 } else { *r.pick(&ids) };
			let cc = pre.colls.get(&c).cloned(); let owner = cc.as_ref().map(|x| x.owner).unwrap_or(users[0]);
			let who = if r.chance(35) { owner } else { *r.pick(&users) }; let dst = *r.pick(&users);
			let serials: Vec<u32> = pre.toks.keys().filter(|k| k.0 == c).map(|k| k.1).collect();
			let ser = |r: &mut Rng| if serials.is_empty() || r.chance(4) { r.below(6) as u32 } else { *r.pick(&serials) };
			let list = |r: &mut Rng, w: AccountId| -> Vec<(u32, Balance)> { let mut v = vec![]; for _ in 0..1 + r.below(3) { let s = ser(r); let have = pre.toks.get(&(c, s)).and_then(|t| t.own.get(&w)).map(|x| x.0).unwrap_or(0); v.push((s, r.amount(have))); } if r.chance(3) { v.clear() } v };
			let (mut e, mut eb) = (pre.clone(), b0.clone());
			let what: String; let ok: bool; let mut dn = 0;
			match r.below(20) {
				0..=3 => {
					let mut l = list(r, who); if r.chance(30) { for x in l.iter_mut() { x.1 = r.amount(1000) } } if r.chance(2) { l.push((ser(r), u128::MAX)) } let to = if r.chance(40) { Some(dst) } else { None };
					what = format!("sft.mint({c}, {l:?} -> {to:?}) by {who:?}"); vk::op(&what);
					ok = vk::guard("mint", || tx(|| Sft::mint(sg(who), c, BoundedVec::truncate_from(l.clone()), to))).is_ok();
					if ok {
						vk::hit("sft_mint_ok");
						ensure!(["C10", "C09"], cc.is_some(), "mint-nowhere", "{what}"); ensure!(["C09"], cc.as_ref().unwrap().flags.mintable, "not-mintable", "{what}: minting is disabled"); ensure!(["C09", "C10"], !l.is_empty() && l.len() <= 6, "mint-list", "{what}");
						for (s, q) in l {
							let mi = pre.mint.get(&(c, s)).copied().unwrap_or_default(); let t = e.toks.get_mut(&(c, s)); ensure!(["C10"], t.is_some() && q > 0, "mint-nothing", "{what}"); let t = t.unwrap();
							ensure!(["C09"], owner == who || mi.enabled, "public-mint-off", "{what}: public mint of {s} is off");
							let n = t.iss.checked_add(q); ensure!(["C09", "C10"], n.is_some() && t.max.map_or(true, |m| n.unwrap() <= m), "mint-above-max", "{what}: {s} has {} of {:?}", t.iss, t.max); t.iss = n.unwrap();
							t.own.entry(to.unwrap_or(who)).or_default().0 += q;
							if owner != who { if let Some((a, p)) = mi.pricing_details { if p > 0 { vk::hit("sft_public_mint_paid"); } let fee = p.saturating_mul(q); let paid = mv(&mut eb, a, who, owner, fee); ensure!(["C09"], paid, "mint-unpaid", "{what}: could not have paid {fee} of {a}"); } }
						}
					} else { vk::hit("sft_mint_rejected") }
				},
				4..=8 => {
					let l = list(r, who);
					what = format!("sft.transfer({c}, {l:?} -> {dst:?}) by {who:?}"); vk::op(&what);
					ok = vk::guard("transfer", || tx(|| if r.chance(25) { <Sft as SFTExt>::do_transfer(who, c, l.clone(), dst) } else { Sft::transfer(sg(who), c, BoundedVec::truncate_from(l.clone()), dst) })).is_ok();
					if ok {
						vk::hit("sft_transfer_ok"); ensure!(["C10"], cc.as_ref().map_or(false, |x| x.flags.transferable), "transfer-blocked", "{what}");
						for (s, q) in l { let t = e.toks.get_mut(&(c, s)).unwrap_or_else(|| vk::skip()); let f = t.own.entry(who).or_default(); ensure!(["C10"], f.0 >= q, "overspend", "{what}: {who:?} has {} free of {s}", f.0); f.0 -= q; t.own.entry(dst).or_default().0 += q; }
					} else { vk::hit("sft_transfer_rejected") }
				},
				9..=11 => {
					let l = list(r, who);
					what = format!("sft.burn({c}, {l:?}) by {who:?}"); vk::op(&what);
					ok = vk::guard("burn", || tx(|| Sft::burn(sg(who), c, BoundedVec::truncate_from(l.clone())))).is_ok();
					if ok {
						vk::hit("sft_burn_ok"); ensure!(["C10"], cc.as_ref().map_or(false, |x| x.flags.burnable), "burn-blocked", "{what}");
						for (s, q) in l { let t = e.toks.get_mut(&(c, s)).unwrap_or_else(|| vk::skip()); let f = t.own.entry(who).or_default(); ensure!(["C10"], f.0 >= q, "overspend", "{what}: {who:?} has {} free of {s}", f.0); f.0 -= q; t.iss -= q; }
					} else { vk::hit("sft_burn_rejected") }
				},
				12 | 13 => {
					let s = ser(r); let b = pre.toks.get(&(c, s)).and_then(|t| t.own.get(&who)).copied().unwrap_or_default(); let free = r.chance(45); let v = r.amount(if free { b.1 } else { b.0 });
					what = format!("sft.{}(({c}, {s}), {v}, {who:?})", if free { "free_reserved" } else { "reserve" }); vk::op(&what);
					ok = vk::guard("reserve", || tx(|| if free { <Sft as SFTExt>::free_reserved_balance((c, s), v, &who) } else { <Sft as SFTExt>::reserve_balance((c, s), v, &who) })).is_ok();
					if ok { let t = e.toks.get_mut(&(c, s)).unwrap(); let f = t.own.entry(who).or_default(); if v > 0 { vk::hit("reserve_ok"); } if free { ensure!(["C10"], f.1 >= v, "over-release", "{what}: reserved {}", f.1); f.1 -= v; f.0 += v; } else { ensure!(["C10"], f.0 >= v, "over-reserve", "{what}: free {}", f.0); f.0 -= v; f.1 += v; } }
				},
				14 => {
					let (init, max, to) = (r.amount(300), if r.chance(50) { Some(r.amount(300)) } else { None }, if r.chance(40) { Some(dst) } else { None });
					what = format!("sft.create_token({c}, {init}, max {max:?} -> {to:?}) by {who:?}"); vk::op(&what);
					ok = vk::guard("create_token", || tx(|| Sft::create_token(sg(who), c, BoundedVec::truncate_from(b"n".to_vec()), init, max, to))).is_ok();
					if ok { ensure!(["C10"], owner == who && cc.is_some(), "create-by-stranger", "{what}"); let x = e.colls.get_mut(&c).unwrap(); let s = x.next; x.next += 1; ensure!(["C10"], max.map_or(true, |m| init <= m && m > 0), "create-above-max", "{what}"); let mut own = BTreeMap::new(); if init > 0 { own.insert(to.unwrap_or(who), (init, 0)); } e.toks.insert((c, s), Tok { iss: init, max, own, name: BoundedVec::<u8, StringLimit>::truncate_from(b"n".to_vec()).encode() }); }
				},
				15 => { what = format!("sft.create_collection by {who:?} for {dst:?}"); vk::op(&what); if ids.len() > 4 { continue }
					ok = vk::guard("create_collection", || tx(|| Sft::create_collection(sg(who), BoundedVec::truncate_from(b"s2".to_vec()), Some(dst), MetadataScheme::try_from(b"https://x/".as_slice()).unwrap(), None))).is_ok();
					if ok { let id = (n0 << 10) | 100; dn = 1; ids.push(id); let x = pallet_sft::SftCollectionInfo::<Test>::get(id); ensure!(["C10"], x.is_some(), "collection-id", "{what}: not stored under {id}"); let x = x.unwrap(); e.colls.insert(id, SColl { owner: dst, next: 0, settings: (x.collection_name, x.metadata_scheme, x.royalties_schedule, x.origin_chain).encode(), flags: Default::default() }); } },
				_ => {
					let s = ser(r); let which = r.below(6); let v = r.amount(600); let fl = CollectionUtilityFlags { transferable: r.chance(80), burnable: r.chance(80), mintable: r.chance(85) }; let price = if r.chance(70) { Some((*r.pick(&[1, 2, 5]), r.amount(5000))) } else { None }; let en = r.chance(65);
					what = format!("sft.setting#{which}(({c}, {s}), v {v}, flags {fl:?}, price {price:?}, enable {en}, dst {dst:?}) by {who:?}"); vk::op(&what);
					ok = vk::guard("setting", || tx(|| match which { 0 => Sft::set_owner(sg(who), c, dst), 1 => Sft::set_max_issuance(sg(who), (c, s), v), 2 => Sft::toggle_public_mint(sg(who), (c, s), en), 3 => Sft::set_mint_fee(sg(who), (c, s), price), 4 => Sft::set_utility_flags(sg(who), c, fl), _ => Sft::set_name(sg(who), c, BoundedVec::truncate_from(b"renamed".to_vec())) })).is_ok();
					if ok { ensure!(["C10", "C09"], owner == who && cc.is_some(), "setting-by-stranger", "{what}");
						match which { 0 => e.colls.get_mut(&c).unwrap().owner = dst,
							1 => { let t = e.toks.get_mut(&(c, s)).unwrap(); ensure!(["C10"], t.max.is_none() && v >= t.iss && v > 0, "max-changed", "{what}: was {:?}, issuance {}", t.max, t.iss); t.max = Some(v) },
							2 => e.mint.entry((c, s)).or_default().enabled = en, 3 => e.mint.entry((c, s)).or_default().pricing_details = price,
							4 => e.colls.get_mut(&c).unwrap().flags = fl, _ => { let x = pallet_sft::SftCollectionInfo::<Test>::get(c).unwrap(); e.colls.get_mut(&c).unwrap().settings = (x.collection_name, x.metadata_scheme, x.royalties_schedule, x.origin_chain).encode() } } }
				},
			}
			e.mint.retain(|_, m| *m != PublicMintInformation::default());
			for t in e.toks.values_mut() { t.own.retain(|_, b| *b != (0, 0)) }
			let (e, eb) = if ok { (e, eb) } else { dn = 0; (pre.clone(), b0) };
			let post = snap(&what); let b1 = balances();
			ensure!(["C10"], post.toks == e.toks, "tokens", "after {what} (ok={ok}): tokens differ: {:?}", e.toks.iter().filter(|(k, t)| post.toks.get(k) != Some(t)).map(|(k, t)| (k, t.clone(), post.toks.get(k).cloned())).collect::<Vec<_>>());
			ensure!(["C09"], post.toks.keys().eq(e.toks.keys()) && post.toks.iter().all(|(k, t)| { let x = &e.toks[k]; (t.iss, t.max) == (x.iss, x.max) }) && post.mint == e.mint, "tokens", "after {what} (ok={ok}): supply, maximum or public mint settings differ");
			ensure!(["C10"], post.colls == e.colls, "collections", "after {what} (ok={ok}): {:?} expected {:?}", post.colls, e.colls);
			ensure_eq!(["C10"], pallet_nft::NextCollectionId::<Test>::get(), n0 + dn, "collection-counter", "after {what} (ok={ok})");
			ensure!(["C09", "C10"], eb == b1, "balances", "after {what} (ok={ok}): {}", diff(&eb, &b1));
			vk::state(&post.toks.iter().map(|(k, t)| (*k, t.iss, t.own.iter().map(|(w, b)| (w.0, *b)).collect::<Vec<_>>())).collect::<Vec<_>>());
			pre = post;
		}
	});
}
