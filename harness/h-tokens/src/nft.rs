use super::*;
use codec::{Decode, Encode};
use frame_support::BoundedVec;
use pallet_nfi::{FeeTo, MintFee, NfiData, NfiEnabled, Relayer};
use seed_pallet_common::{utils::{CollectionUtilityFlags, PublicMintInformation}, NFTExt, NFTMinter};
use seed_primitives::{CrossChainCompatibility, MetadataScheme, OriginChain, RoyaltiesSchedule, TokenLockReason};
use sp_runtime::traits::AccountIdConversion;

#[derive(Clone, PartialEq, Debug)]
pub struct Coll { pub owner: AccountId, pub settings: BTreeMap<&'static str, Vec<u8>>, pub max: Option<u32>, pub next: u32, pub issuance: u32, pub root: bool, pub xrpl: bool, pub tokens: BTreeMap<u32, AccountId>, pub flags: CollectionUtilityFlags, pub mint: PublicMintInformation }
pub type NfiKey = (Vec<u8>, Vec<u8>);
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Snap { pub next_coll: u32, pub colls: BTreeMap<u32, Coll>, pub locks: BTreeMap<(u32, u32), Vec<u8>>, pub ap: BTreeMap<(u32, u32), AccountId>, pub apall: BTreeMap<(AccountId, u32, AccountId), bool>, pub ap1155: BTreeMap<(AccountId, u32, AccountId), bool>, pub allow: BTreeMap<(AccountId, u32, AccountId), Balance>, pub nfi: BTreeMap<Vec<u8>, Vec<u8>>, pub nfi_on: BTreeMap<Vec<u8>, bool>, pub nfi_cfg: Vec<u8> }
const SUP: [&str; 1] = ["C07"];
/// read the whole NFT state, checking what every single state must satisfy
pub fn snap(what: &str) -> Snap {
	let mut s = Snap { next_coll: pallet_nft::NextCollectionId::<Test>::get(), ..Default::default() };
	for (id, c) in pallet_nft::CollectionInfo::<Test>::iter() {
		let mut tokens = BTreeMap::new(); let mut n = 0u32;
		for o in c.owned_tokens.iter() { for t in o.owned_serials.iter() { n += 1; let prev = tokens.insert(*t, o.owner); ensure!(SUP, prev.is_none(), "two-owners", "after {what}: token ({id},{t}) is listed twice, for {prev:?} and {:?}", o.owner); } }
		ensure_eq!(SUP, n, c.collection_issuance, "issuance", "after {what}: tokens owned in collection {id} vs issuance");
		for (t, w) in &tokens { ensure!(SUP, Nft::get_token_owner(&(id, *t)) == Some(*w), "owner-query", "after {what}: owner query of ({id},{t})"); }
		let owners: std::collections::BTreeSet<AccountId> = c.owned_tokens.iter().map(|o| o.owner).collect();
		for w in &owners { let have = tokens.values().filter(|x| *x == w).count() as u32;
			ensure_eq!(SUP, Nft::token_balance_of(w, id), have, "balance-query", "after {what}: balance of {w:?} in {id}");
			if vk::is("C07") { let (mut cur, mut got, mut guard) = (0u32, vec![], 0); loop { let (nx, total, l) = Nft::owned_tokens(id, w, cur, if have > 60 { 150 } else { 3 }); ensure_eq!(SUP, total, have, "owned-total", "after {what}: owned_tokens total of {w:?} in {id}"); got.extend(l); guard += 1; if nx == 0 || guard > 60 { break } cur = nx; }
				let want: Vec<u32> = tokens.iter().filter(|(_, x)| *x == w).map(|(t, _)| *t).collect(); ensure_eq!(SUP, got, want, "owned-pages", "after {what}: paged owned_tokens of {w:?} in {id}"); } }
		let root = c.origin_chain == OriginChain::Root;
		if root {
			ensure!(SUP, tokens.keys().all(|t| *t < c.next_serial_number), "serial-not-issued", "after {what}: a token of {id} at or above the next serial {}", c.next_serial_number);
			if let Some(m) = c.max_issuance { ensure!(["C07", "C09"], c.collection_issuance <= m, "above-max", "after {what}: issuance {} of {id} above its maximum {m}", c.collection_issuance); }
		}
		ensure!(["C07", "C09"], c.collection_issuance <= MaxTokensPerCollection::get(), "above-limit", "after {what}: issuance {} of {id} above the chain limit", c.collection_issuance);
		let settings = BTreeMap::from([("name", c.name.encode()), ("scheme", c.metadata_scheme.encode()), ("royalties", c.royalties_schedule.encode()), ("origin", c.origin_chain.encode())]);
		s.colls.insert(id, Coll { owner: c.owner, settings, max: c.max_issuance, next: c.next_serial_number, issuance: c.collection_issuance, root, xrpl: c.cross_chain_compatibility.xrpl, tokens, flags: pallet_nft::UtilityFlags::<Test>::get(id), mint: pallet_nft::PublicMintInfo::<Test>::get(id).unwrap_or_default() });
	}
	for (k, v) in pallet_nft::TokenLocks::<Test>::iter() { s.locks.insert(k, v.encode()); }
	for (k, v) in pallet_token_approvals::ERC721Approvals::<Test>::iter() { s.ap.insert(k, v); }
	for (o, (c, w), v) in pallet_token_approvals::ERC721ApprovalsForAll::<Test>::iter() { if v { s.apall.insert((o, c, w), v); } }
	for (o, (c, w), v) in pallet_token_approvals::ERC1155ApprovalsForAll::<Test>::iter() { if v { s.ap1155.insert((o, c, w), v); } }
	for ((o, a), w, v) in pallet_token_approvals::ERC20Approvals::<Test>::iter() { if v > 0 { s.allow.insert((o, a, w), v); } }
	for (k, t, v) in NfiData::<Test>::iter() { s.nfi.insert((k, t).encode(), v.encode()); }
	for (k, t, v) in NfiEnabled::<Test>::iter() { s.nfi_on.insert((k, t).encode(), v); }
	s.nfi_cfg = (Relayer::<Test>::get(), FeeTo::<Test>::get(), fee_cfg()).encode();
	s
}
/// the types of pallet-nfi are private to it: they are built from their SCALE encoding
fn d<T: Decode>(x: impl Encode) -> T { T::decode(&mut x.encode().as_slice()).expect("layout") }
const NFI: u8 = 0;
pub fn nkey(c: u32, t: u32) -> Vec<u8> { (7672u64, 0u8, c, 0u8, t).encode() }
fn raw<T: Decode>(x: &[u8]) -> T { T::decode(&mut &x[..]).expect("layout") }
fn on_key(c: u32) -> Vec<u8> { (7672u64, 0u8, c, NFI).encode() }
fn data_key(k: &[u8]) -> Vec<u8> { let mut k = k.to_vec(); k.push(NFI); k }
pub fn fee_cfg() -> Option<(u32, Balance, AccountId)> { MintFee::<Test>::iter().next().map(|(_, f)| (f.asset_id, f.amount, f.receiver)) }
fn nfi_enabled(s: &Snap, c: u32) -> bool { s.nfi_on.get(&on_key(c)).copied().unwrap_or(false) }
/// possible balances after `who` paid the extra-data fee for `n` tokens (network share rounded either way)
fn nfi_fee(e: &Bal, who: AccountId, n: u32) -> Vec<Bal> {
	let Some((fa, famt, frec)) = fee_cfg() else { return vec![e.clone()] };
	let total = famt.saturating_mul(n as u128);
	let mut out = vec![];
	for up in [0u128, 1] {
		let mut b = e.clone();
		let mut ok = true;
		let net = if FeeTo::<Test>::get().is_some() { (total / 1_000_000 * 5_000 + total % 1_000_000 * 5_000 / 1_000_000 + up).min(total) } else { 0 };
		if let Some(p) = FeeTo::<Test>::get() { ok &= mv(&mut b, fa, who, p, net); }
		ok &= mv(&mut b, fa, who, frec, total - net);
		if ok { out.push(b) }
	}
	out
}
pub fn name(r: &mut Rng) -> BoundedVec<u8, StringLimit> { match r.below(12) { 0 => Default::default(), 1 => BoundedVec::truncate_from(vec![0xff, 0xfe]), _ => BoundedVec::truncate_from(format!("coll{}", r.below(1000)).into_bytes()) } }
pub fn royalties(r: &mut Rng, users: &[AccountId]) -> Option<RoyaltiesSchedule<AccountId>> {
	if r.chance(40) { return None }
	let n = r.below(5); let v: Vec<(AccountId, Permill)> = (0..n).map(|_| (*r.pick(users), match r.below(5) { 0 => Permill::from_percent(30), 1 => Permill::from_parts(r.below(400_000) as u32), 2 => Permill::one(), 3 => Permill::from_perthousand(25), _ => Permill::from_percent(1) })).collect();
	Some(RoyaltiesSchedule { entitlements: BoundedVec::truncate_from(v) })
}
pub fn run() { let n = vk::tier(25_000, 500_000); vk::episodes(n, |i, r| if vk::is("C09") && i % 3 == 0 { sft::episode(r) } else { episode(r) }); }

fn episode(r: &mut Rng) {
	// now and then with limits near those of the runtime, for quantities beyond a byte
	let big = r.chance(3);
	MintLimit::set(if big { 700 } else { 12 }); MaxTokensPerCollection::set(if big { 3000 } else { 40 });
	let (ml, mt) = (MintLimit::get(), MaxTokensPerCollection::get());
	let users: Vec<AccountId> = (1..=6).map(create_account).collect();
	let endow: Vec<(AccountId, Balance)> = users[..5].iter().map(|u| (*u, 1_000_000)).collect();
	TestExt::<Test>::default().with_balances(&endow).with_xrp_balances(&endow).with_asset(5, "TKN", &endow).build().execute_with(|| {
		let pallet_acct: AccountId = NftPalletId::get().into_account_truncating();
		let relayer = users[4];
		let mut ids: Vec<u32> = vec![];
		// setup: two or three ordinary collections and a bridged one
		for i in 0..2 + r.below(2) {
			let id = Nft::next_collection_uuid().unwrap();
			let max = if r.chance(40) { Some(if big { 2900 } else { 10 + r.below(30) as u32 }) } else { None };
			tx(|| Nft::create_collection(sg(users[i as usize]), BoundedVec::truncate_from(b"c".to_vec()), r.below(9) as u32, max, None, MetadataScheme::try_from(b"https://x/".as_slice()).unwrap(), None, CrossChainCompatibility { xrpl: false })).expect("setup");
			ids.push(id);
		}
		if vk::any(&["C07", "C08"]) || r.chance(30) { ids.push(Nft::do_create_collection(if r.chance(50) { pallet_acct } else { users[0] }, BoundedVec::truncate_from(b"eth".to_vec()), 0, None, None, MetadataScheme::try_from(b"ethereum://".as_slice()).unwrap(), None, OriginChain::Ethereum, CrossChainCompatibility::default()).expect("setup bridged")); }
		if vk::is("C29") || r.chance(30) {
			Relayer::<Test>::put(relayer);
			if r.chance(80) { let _ = Nfi::set_fee_details(frame_system::RawOrigin::Root.into(), d(NFI), d((1u8, *r.pick(&[1u32, 2, 5]), [1u128, 7, 199, 200, 10_001][r.below(5) as usize], *r.pick(&users)))); }
			if r.chance(60) { let _ = Nfi::set_fee_to(frame_system::RawOrigin::Root.into(), Some(*r.pick(&users))); }
			for c in ids.clone() { if r.chance(60) { let o = pallet_nft::CollectionInfo::<Test>::get(c).unwrap().owner; let _ = Nfi::enable_nfi_for_trn_collection(sg(o), c, d(NFI)); } }
		}
		// a semi-fungible collection may carry extra data too
		let mut sft: Option<(u32, AccountId, u32)> = None;
		if vk::is("C29") && r.chance(70) {
			let o = *r.pick(&users[..5]);
			tx(|| Sft::create_collection(sg(o), BoundedVec::truncate_from(b"s".to_vec()), None, MetadataScheme::try_from(b"https://s/".as_slice()).unwrap(), None)).expect("setup sft");
			let id = pallet_sft::SftCollectionInfo::<Test>::iter_keys().next().expect("sft"); let n = r.below(3) as u32;
			for _ in 0..n { tx(|| Sft::create_token(sg(o), id, BoundedVec::truncate_from(b"n".to_vec()), r.below(9) as u128, None, None)).expect("setup sft token"); }
			if r.chance(70) { Nfi::enable_nfi_for_trn_collection(sg(o), id, d(NFI)).expect("setup sft nfi"); }
			sft = Some((id, o, n));
		}
		if vk::is("C09") { for c in ids.clone() { let o = pallet_nft::CollectionInfo::<Test>::get(c).unwrap().owner; if r.chance(70) { let _ = Nft::toggle_public_mint(sg(o), c, true); let _ = Nft::set_mint_fee(sg(o), c, Some((*r.pick(&[1, 2, 5]), r.amount(20_000)))); } } }
		let mut ever: std::collections::BTreeSet<(u32, u32)> = Default::default();
		let mut pre = snap("setup");
		for (c, x) in &pre.colls { for t in x.tokens.keys() { ever.insert((*c, *t)); } }
		let steps = if big { 12 + r.below(8) } else { 40 + r.below(30) };
		for _ in 0..steps {
			let b0 = balances();
			let _ = events();
			let c = if r.chance(4) { r.below(5000) as u32 } else { *r.pick(&ids) };
			let cc = pre.colls.get(&c).cloned();
			let owner = cc.as_ref().map(|x| x.owner).unwrap_or(users[0]);
			let who = if r.chance(25) { owner } else { *r.pick(&users) };
			let dst = *r.pick(&users);
			let toks: Vec<u32> = cc.as_ref().map(|x| x.tokens.keys().copied().collect()).unwrap_or_default();
			let tok = if toks.is_empty() || r.chance(8) { r.below(45) as u32 } else { *r.pick(&toks) };
			let tok_owner = cc.as_ref().and_then(|x| x.tokens.get(&tok).copied());
			let mut e = pre.clone(); let mut eb = vec![b0.clone()];
			let kind = weighted(r);
			let semi = sft.filter(|_| kind.starts_with("nfi_") && r.chance(35));
			let (c, owner, tok, tok_owner, exists) = match semi { Some((c, o, n)) => { let z = n as u64 + 1 + r.below(2); (c, o, r.below(z) as u32, None, true) }, None => (c, owner, tok, tok_owner, cc.is_some()) };
			let tok_exists = match semi { Some((_, _, n)) => tok < n, None => tok_owner.is_some() };
			let who = if semi.is_some() && r.chance(45) { owner } else { who };
			let can_pay = |eb: &Vec<Bal>| !eb.is_empty() && fee_cfg().map_or(true, |f| f.1 >= 200);
			let what: String; let ok: bool;
			match kind {
				"mint" => {
					let q = match r.below(6) { 0 => 0, 1 => if big { *r.pick(&[255, 256, 257, 300, 512, 600]) } else { 12 }, 2 => ml + r.below(2) as u32, 3 => if big { 260 } else { 40 }, _ => 1 + r.below(5) as u32 }; let to = if r.chance(40) { Some(dst) } else { None };
					what = format!("nft.mint({c}, {q}, to {to:?}) by {who:?}"); vk::op(&what);
					ok = vk::guard("mint", || tx(|| if r.chance(20) { <Nft as NFTExt>::do_mint(who, c, q, to) } else { Nft::mint(sg(who), c, q, to) })).is_ok();
					if ok {
						let x = e.colls.get_mut(&c); ensure!(["C07", "C09"], x.is_some(), "mint-nowhere", "{what}"); let x = x.unwrap();
						vk::hit("mint_ok");
						ensure!(["C09"], x.owner == who || x.mint.enabled, "public-mint-off", "{what} succeeded although public mint is off");
						ensure!(["C09"], x.flags.mintable, "not-mintable", "{what} succeeded although minting is disabled");
						ensure!(["C09"], q > 0 && q <= MintLimit::get(), "mint-limit", "{what} beyond the limit per call");
						ensure!(["C07", "C09"], x.root, "mint-on-bridged", "{what}: minted on a collection bridged in from Ethereum");
						if let Some(m) = x.max { ensure!(["C07", "C09"], x.next + q <= m, "mint-above-max", "{what}: serials beyond the maximum {m} (next {})", x.next); }
						for t in x.next..x.next + q { ensure!(SUP, ever.insert((c, t)), "serial-reissued", "{what}: serial {t} was issued before"); x.tokens.insert(t, to.unwrap_or(who)); }
						x.next += q; x.issuance += q;
						if x.owner != who { if let Some((a, p)) = x.mint.pricing_details { if p > 0 { vk::hit("public_mint_paid"); } let fee = p.saturating_mul(q as u128); let o = x.owner; eb.retain_mut(|b| mv(b, a, who, o, fee)); ensure!(["C09"], !eb.is_empty(), "mint-unpaid", "{what}: succeeded without the means to pay {fee} of {a}"); } }
						if nfi_enabled(&pre, c) { if fee_cfg().is_some() { vk::hit("nfi_paid"); } eb = eb.iter().flat_map(|b| nfi_fee(b, who, q)).collect(); ensure!(["C29"], !eb.is_empty(), "nfi-unpaid", "{what}: minted without paying the extra-data fee"); }
					} else { vk::hit("mint_rejected") }
				},
				"transfer" => {
					let from = if r.chance(80) { tok_owner.unwrap_or(who) } else { who };
					let mine: Vec<u32> = cc.as_ref().map(|x| x.tokens.iter().filter(|(_, w)| **w == from).map(|(t, _)| *t).collect()).unwrap_or_default();
					let mut l = vec![tok]; for _ in 0..r.below(3) { if !mine.is_empty() { l.push(*r.pick(&mine)) } } if r.chance(5) { l.clear() } if r.chance(5) { l.push(r.below(50) as u32) }
					if !r.chance(15) { let mut seen = std::collections::BTreeSet::new(); l.retain(|t| seen.insert(*t)); }
					what = format!("nft.transfer({c}, {l:?} -> {dst:?}) by {from:?}"); vk::op(&what);
					ok = vk::guard("transfer", || tx(|| if r.chance(25) { <Nft as NFTExt>::do_transfer(&from, c, l.clone(), &dst) } else { Nft::transfer(sg(from), c, BoundedVec::truncate_from(l.clone()), dst) })).is_ok();
					let set: std::collections::BTreeSet<u32> = l.iter().copied().collect();
					let locked = set.iter().any(|t| pre.locks.contains_key(&(c, *t))); let blocked = cc.as_ref().map_or(false, |x| !x.flags.transferable); let owned = cc.as_ref().map_or(false, |x| set.iter().all(|t| x.tokens.get(t) == Some(&from)));
					if ok {
						vk::hit("transfer_ok");
						ensure!(["C07", "C08"], owned, "transfer-not-owner", "{what}: succeeded for tokens the caller does not own");
						ensure!(["C08"], !locked, "transfer-locked", "{what}: moved a locked token"); ensure!(["C08"], !blocked, "transfer-blocked", "{what}: moved although transfers are disabled");
						for t in set { e.colls.get_mut(&c).unwrap().tokens.insert(t, dst); if e.ap.remove(&(c, t)).is_some() { vk::hit("approval_ended") } }
					} else { vk::hit("transfer_rejected"); if locked && owned { vk::hit("locked_rejected") } if blocked && owned && !locked { vk::hit("flag_rejected") } }
				},
				"burn" => {
					let from = if r.chance(80) { tok_owner.unwrap_or(who) } else { who };
					what = format!("nft.burn(({c}, {tok})) by {from:?}"); vk::op(&what);
					ok = vk::guard("burn", || tx(|| if r.chance(25) { <Nft as NFTExt>::do_burn(from, c, tok) } else { Nft::burn(sg(from), (c, tok)) })).is_ok();
					let locked = pre.locks.contains_key(&(c, tok)); let blocked = cc.as_ref().map_or(false, |x| !x.flags.burnable);
					if ok {
						vk::hit("burn_ok");
						ensure!(["C07", "C08"], tok_owner == Some(from), "burn-not-owner", "{what}: burned a token of {tok_owner:?}");
						ensure!(["C08"], !locked, "burn-locked", "{what}: burned a locked token"); ensure!(["C08"], !blocked, "burn-blocked", "{what}: burned although burning is disabled");
						let x = e.colls.get_mut(&c).unwrap(); x.tokens.remove(&tok); x.issuance -= 1; if e.ap.remove(&(c, tok)).is_some() { vk::hit("approval_ended") }
						if e.nfi.remove(&data_key(&nkey(c, tok))).is_some() { vk::hit("nfi_removed_by_burn") }
					} else { vk::hit("burn_rejected"); if locked { vk::hit("locked_rejected") } }
				},
				"bridged" => {
					let l: Vec<u32> = (0..r.below(6)).map(|_| if r.chance(80) { r.below(30) as u32 } else { r.u32() }).collect();
					what = format!("nft.mint_bridged({c}, {l:?} -> {dst:?})"); vk::op(&what);
					if cc.as_ref().map_or(true, |x| x.root) { continue }
					ok = vk::guard("mint_bridged", || tx(|| <Nft as NFTMinter>::mint_bridged_nft(&dst, c, l.clone()).map_err(|e| e.1))).is_ok();
					if ok { vk::hit("bridged_mint_ok"); let x = e.colls.get_mut(&c).unwrap(); for t in l { if !x.tokens.contains_key(&t) { x.tokens.insert(t, dst); x.issuance += 1; } } }
				},
				"create" => {
					let (n, m, xrpl, to, ro) = (r.below(15) as u32, match r.below(5) { 0 => Some(r.below(15) as u32), 1 => Some(mt), 2 => Some(mt + 1), _ => None }, r.chance(15), if r.chance(50) { Some(dst) } else { None }, royalties(r, &users));
					let nm = name(r);
					what = format!("nft.create_collection(initial {n}, max {m:?}, xrpl {xrpl}, to {to:?}) by {who:?}"); vk::op(&what);
					ok = ids.len() < 7 && vk::guard("create", || tx(|| Nft::create_collection(sg(who), nm.clone(), n, m, to, MetadataScheme::try_from(b"https://y/".as_slice()).unwrap(), ro.clone(), CrossChainCompatibility { xrpl }))).is_ok();
					if ok {
						let id = (pre.next_coll << 10) | 100;
						ensure!(["C07", "C09"], m.map_or(true, |m| n <= m && m <= mt), "create-above-max", "{what}"); ensure!(["C09"], n <= ml, "create-limit", "{what}");
						ensure!(["C08"], ro.as_ref().map_or(true, |x| x.validate()), "royalties-overcommitted", "{what}: accepted royalties above 100%");
						for t in 0..n { ever.insert((id, t)); }
						e.next_coll += 1; ids.push(id);
						e.colls.insert(id, Coll { owner: who, settings: BTreeMap::from([("name", nm.encode()), ("scheme", MetadataScheme::try_from(b"https://y/".as_slice()).unwrap().encode()), ("royalties", ro.encode()), ("origin", OriginChain::Root.encode())]), max: m, next: n, issuance: n, root: true, xrpl, tokens: (0..n).map(|t| (t, to.unwrap_or(who))).collect(), flags: Default::default(), mint: Default::default() });
					}
				},
				"setting" => {
					let which = r.below(8);
					let v = r.below(45) as u32; let nm = name(r); let fl = CollectionUtilityFlags { transferable: r.chance(70), burnable: r.chance(70), mintable: r.chance(80) }; let ro = royalties(r, &users).unwrap_or_default(); let price = if r.chance(70) { Some((*r.pick(&[1, 2, 5]), r.amount(50_000))) } else { None }; let en = r.chance(60);
					what = format!("nft.setting#{which}({c}, v {v}, flags {fl:?}, price {price:?}, enable {en}, dst {dst:?}) by {who:?}"); vk::op(&what);
					ok = vk::guard("setting", || tx(|| match which {
						0 => Nft::set_owner(sg(who), c, dst), 1 => Nft::set_max_issuance(sg(who), c, v), 2 => Nft::set_base_uri(sg(who), c, b"https://zz/".to_vec()), 3 => Nft::set_name(sg(who), c, nm.clone()),
						4 => Nft::set_royalties_schedule(sg(who), c, ro.clone()), 5 => Nft::toggle_public_mint(sg(who), c, en), 6 => Nft::set_mint_fee(sg(who), c, price), _ => Nft::set_utility_flags(sg(who), c, fl) })).is_ok();
					if ok {
						vk::hit("setting_ok");
						ensure!(["C08"], cc.as_ref().map_or(false, |x| x.owner == who), "setting-by-stranger", "{what}: changed by someone other than the owner {owner:?}");
						let x = e.colls.get_mut(&c).unwrap();
						match which { 0 => x.owner = dst,
							1 => { ensure!(["C08"], x.max.is_none(), "max-changed", "{what}: maximum was already {:?}", x.max); ensure!(["C07", "C08"], v >= x.issuance && v > 0, "max-below-issuance", "{what}: below the issuance {}", x.issuance); x.max = Some(v) },
							2 => { ensure!(["C08"], !x.xrpl && x.root, "metadata-frozen", "{what}: metadata of a bridged collection changed"); x.settings.insert("scheme", MetadataScheme::try_from(b"https://zz/".as_slice()).unwrap().encode()); },
							3 => { x.settings.insert("name", nm.encode()); }, 4 => { ensure!(["C08"], ro.validate(), "royalties-overcommitted", "{what}: accepted royalties above 100%"); x.settings.insert("royalties", Some(ro).encode()); },
							5 => x.mint.enabled = en, 6 => x.mint.pricing_details = price, _ => x.flags = fl }
					} else { vk::hit("setting_rejected") }
				},
				"claim" => {
					let root = r.chance(50); let o: RuntimeOrigin = if root { frame_system::RawOrigin::Root.into() } else { sg(who) };
					what = format!("nft.claim_unowned({c} -> {dst:?}) root {root}"); vk::op(&what);
					ok = vk::guard("claim", || tx(|| Nft::claim_unowned_collection(o, c, dst))).is_ok();
					if ok { ensure!(["C08"], root && owner == pallet_acct && cc.is_some(), "claimed-owned", "{what}: collection owned by {owner:?} was claimed"); e.colls.get_mut(&c).unwrap().owner = dst; }
				},
				"xls20" => {
					what = format!("nft.enable_xls20({c}) by {who:?}"); vk::op(&what);
					ok = vk::guard("enable_xls20", || tx(|| <Nft as NFTExt>::enable_xls20_compatibility(who, c))).is_ok();
					if ok { ensure!(["C08"], cc.as_ref().map_or(false, |x| x.owner == who && x.issuance == 0), "xls20-enabled", "{what}"); e.colls.get_mut(&c).unwrap().xrpl = true; }
				},
				"lock" => {
					what = format!("nft.lock(({c}, {tok}) for {who:?})"); vk::op(&what);
					ok = if r.chance(40) && !pre.locks.is_empty() { let k = *pre.locks.keys().next().unwrap(); <Nft as NFTExt>::remove_token_lock(k); e.locks.remove(&k); true }
						else { let o = tok_owner.filter(|_| r.chance(80)).unwrap_or(who); let k = vk::guard("lock", || tx(|| <Nft as NFTExt>::set_token_lock((c, tok), TokenLockReason::Listed(1), o))).is_ok(); if k { ensure!(["C08"], tok_owner == Some(o) && !pre.locks.contains_key(&(c, tok)), "lock-by-stranger", "{what}"); e.locks.insert((c, tok), TokenLockReason::Listed(1).encode()); } k };
				},
				"approve" => {
					let by = if r.chance(50) { tok_owner.unwrap_or(who) } else { who }; let none = !r.chance(6); let o: RuntimeOrigin = if none { frame_system::RawOrigin::None.into() } else { sg(by) };
					what = format!("approve(({c}, {tok}) to {dst:?}) by {by:?} none {none}"); vk::op(&what);
					ok = vk::guard("approve", || tx(|| TokenApprovals::erc721_approval(o, by, dst, (c, tok)))).is_ok();
					if ok { vk::hit("approve_ok"); ensure!(["C11"], none && tok_owner.map_or(false, |w| w == by || pre.apall.contains_key(&(w, c, by))), "approve-by-stranger", "{what}: owner is {tok_owner:?}"); e.ap.insert((c, tok), dst); } else { vk::hit("approve_rejected") }
				},
				"unapprove" => {
					let by = if r.chance(50) { tok_owner.unwrap_or(who) } else { who };
					what = format!("remove_approval(({c}, {tok})) by {by:?}"); vk::op(&what);
					ok = vk::guard("unapprove", || tx(|| TokenApprovals::erc721_remove_approval(sg(by), (c, tok)))).is_ok();
					if ok { ensure!(["C11"], tok_owner == Some(by), "unapprove-by-stranger", "{what}"); e.ap.remove(&(c, tok)); }
				},
				"forall" => {
					let on = r.chance(60); let none = !r.chance(6); let o: RuntimeOrigin = if none { frame_system::RawOrigin::None.into() } else { sg(who) }; let multi = r.chance(40);
					what = format!("approval_for_all({who:?} -> {dst:?}, {c}, {on}, 1155 {multi})"); vk::op(&what);
					ok = vk::guard("forall", || tx(|| if multi { TokenApprovals::erc1155_approval_for_all(o, who, dst, c, on) } else { TokenApprovals::erc721_approval_for_all(o, who, dst, c, on) })).is_ok();
					if ok { ensure!(["C11"], none, "approval-signed", "{what}: accepted from a signed origin"); let m = if multi { &mut e.ap1155 } else { &mut e.apall }; if on { m.insert((who, c, dst), true); } else { m.remove(&(who, c, dst)); } }
				},
				"allow" => {
					let a = *r.pick(&[1u32, 2, 5]); let v = r.amount(1000); let none = !r.chance(6); let o: RuntimeOrigin = if none { frame_system::RawOrigin::None.into() } else { sg(who) };
					what = format!("erc20_approval({who:?} -> {dst:?}, {a}, {v})"); vk::op(&what);
					ok = vk::guard("allow", || tx(|| TokenApprovals::erc20_approval(o, who, dst, a, v))).is_ok();
					if ok { ensure!(["C11"], none, "approval-signed", "{what}: accepted from a signed origin"); if v > 0 { e.allow.insert((who, a, dst), v); } else { e.allow.remove(&(who, a, dst)); } }
				},
				"spend" => {
					let (k, cur) = if pre.allow.is_empty() || r.chance(15) { ((who, 2, dst), 0) } else { let i = r.below(pre.allow.len() as u64) as usize; let (k, v) = pre.allow.iter().nth(i).unwrap(); (*k, *v) };
					let v = r.amount(cur); let none = !r.chance(6); let o: RuntimeOrigin = if none { frame_system::RawOrigin::None.into() } else { sg(k.2) };
					what = format!("erc20_update_approval({k:?}, spend {v} of {cur})"); vk::op(&what);
					ok = vk::guard("spend", || tx(|| TokenApprovals::erc20_update_approval(o, k.0, k.2, k.1, v))).is_ok();
					if ok { vk::hit("allowance_spent"); let cur = pre.allow.get(&k).copied().unwrap_or(0); ensure!(["C11"], none && v <= cur, "allowance-overspent", "{what}: allowance was {cur}"); let left = cur.saturating_sub(v); if left > 0 { e.allow.insert(k, left); } else { e.allow.remove(&k); } } else { vk::hit("allowance_rejected") }
				},
				"nfi_admin" => {
					let root = r.chance(60); let o: RuntimeOrigin = if root { frame_system::RawOrigin::Root.into() } else { sg(who) }; let k = r.below(3);
					let fee = if r.chance(70) { Some((*r.pick(&[1u32, 2, 5]), r.amount(5000), dst)) } else { None }; let ft = if r.chance(60) { Some(*r.pick(&users)) } else { None };
					what = format!("nfi.admin#{k}(fee {fee:?}, fee_to {ft:?}) root {root}"); vk::op(&what);
					ok = vk::guard("nfi_admin", || tx(|| match k { 0 => Nfi::set_fee_to(o, ft), 1 => Nfi::set_fee_details(o, d(NFI), d(fee)), _ => Nfi::set_relayer(o, dst) })).is_ok();
					if ok { ensure!(["C29"], root, "nfi-admin", "{what}: accepted from a signed account"); let cur = (Relayer::<Test>::get(), FeeTo::<Test>::get(), fee_cfg()); e.nfi_cfg = cur.encode(); match k { 0 => ensure!(["C29"], cur.1 == ft, "nfi-cfg", "{what}"), 1 => ensure!(["C29"], cur.2 == fee, "nfi-cfg", "{what}"), _ => ensure!(["C29"], cur.0 == Some(dst), "nfi-cfg", "{what}") } }
				},
				"nfi_sft_token" => {
					let Some((c, o, n)) = sft else { continue };
					let by = if r.chance(85) { o } else { who }; what = format!("sft.create_token({c}) by {by:?}"); vk::op(&what);
					let payable: Vec<Bal> = if nfi_enabled(&pre, c) { eb.iter().flat_map(|b| nfi_fee(b, by, 1)).collect() } else { eb.clone() };
					ok = vk::guard("sft create_token", || tx(|| Sft::create_token(sg(by), c, BoundedVec::truncate_from(b"n".to_vec()), 3, None, None))).is_ok();
					ensure!(["C29"], ok || !(by == o && can_pay(&payable)), "sft-token-refused", "{what}");
					let n2 = events().iter().filter(|e| matches!(e, RuntimeEvent::Nfi(pallet_nfi::Event::DataRequestNew { .. } | pallet_nfi::Event::DataRequestExisting { .. }))).count();
					ensure_eq!(["C29"], n2, (ok && nfi_enabled(&pre, c)) as usize, "nfi-request-events", "{what}: request events");
					if ok { ensure!(["C29"], by == o, "sft-token-by-stranger", "{what}"); ensure!(["C29"], !payable.is_empty(), "nfi-unpaid", "{what}: accepted without paying the fee"); sft = Some((c, o, n + 1)); if nfi_enabled(&pre, c) { vk::hit("nfi_sft_requested"); } eb = payable; }
				},
				"nfi_enable" => {
					what = format!("nfi.enable({c}) by {who:?}"); vk::op(&what);
					ok = vk::guard("nfi_enable", || tx(|| Nfi::enable_nfi_for_trn_collection(sg(who), c, d(NFI)))).is_ok();
					ensure!(["C29"], ok || !(exists && owner == who), "nfi-enable-refused", "{what}: refused to the owner of the collection");
					if ok { if semi.is_some() { vk::hit("nfi_sft"); } ensure!(["C29"], exists && owner == who, "nfi-enabled-by-stranger", "{what}"); e.nfi_on.insert(on_key(c), true); }
				},
				"nfi_request" => {
					let foreign = r.chance(20); let by = if r.chance(60) { tok_owner.unwrap_or(who) } else { who };
					let odd = !foreign && r.chance(5); let k = if foreign { (1u64, 3u8, H160::repeat_byte(9), 2u8, r.below(9) as u128).encode() } else if odd { (7672u64, 1u8, c as u64, 0u8, tok).encode() } else { nkey(c, tok) };
					what = format!("nfi.manual_request({k:?}) by {by:?}"); vk::op(&what);
					ok = vk::guard("nfi_request", || tx(|| Nfi::manual_data_request(sg(by), raw(&k), d(NFI)))).is_ok();
					if semi.is_none() || foreign || owner == by { let payable = can_pay(&eb.iter().flat_map(|b| nfi_fee(b, by, 1)).collect()); let may = foreign || (!odd && nfi_enabled(&pre, c) && if semi.is_some() { owner == by } else { tok_owner.is_some() && (tok_owner == Some(by) || owner == by) }); ensure!(["C29"], ok || !(payable && may), "nfi-request-refused", "{what}: refused although permitted"); }
					if ok { if fee_cfg().is_some() { vk::hit("nfi_paid"); } eb = eb.iter().flat_map(|b| nfi_fee(b, by, 1)).collect(); ensure!(["C29"], !eb.is_empty(), "nfi-unpaid", "{what}: accepted without paying the fee");
						if !foreign { ensure!(["C29"], nfi_enabled(&pre, c), "nfi-not-enabled", "{what}");  if semi.is_some() { vk::hit("nfi_sft") } ensure!(["C29"], if semi.is_some() { owner == by } else { tok_owner.is_some() && (tok_owner == Some(by) || owner == by) }, "nfi-request-by-stranger", "{what}: token owner {tok_owner:?}"); }
						let n = events().iter().filter(|e| matches!(e, RuntimeEvent::Nfi(pallet_nfi::Event::DataRequestNew { .. } | pallet_nfi::Event::DataRequestExisting { .. }))).count(); ensure_eq!(["C29"], n, 1, "nfi-request-events", "{what}: request events");
					} else { vk::hit("nfi_rejected") }
				},
				_ => {
					let by = if r.chance(75) { relayer } else { who };
					let foreign = r.chance(20); let k = if foreign { (1u64, 3u8, H160::repeat_byte(9), 2u8, r.below(9) as u128).encode() } else { nkey(c, tok) };
					let dat = (0u8, vec![7u8; r.below(4) as usize], H256::repeat_byte(r.below(9) as u8)).encode();
					what = format!("nfi.submit({k:?}) by {by:?}"); vk::op(&what);
					ok = vk::guard("nfi_submit", || tx(|| Nfi::submit_nfi_data(sg(by), raw(&k), raw(&dat)))).is_ok();
					ensure!(["C29"], ok || !(Relayer::<Test>::get() == Some(by) && (foreign || nfi_enabled(&pre, c) && tok_exists)), "nfi-submit-refused", "{what}: refused to the relayer");
					if ok { vk::hit("nfi_set"); ensure!(["C29"], Relayer::<Test>::get() == Some(by), "nfi-not-relayer", "{what}"); if !foreign { ensure!(["C29"], nfi_enabled(&pre, c) && tok_exists, "nfi-data-for-nothing", "{what}"); } e.nfi.insert(data_key(&k), dat); } else { vk::hit("nfi_rejected") }
				},
			}
			let post = snap(&what); let b1 = balances();
			let (e, eb) = if ok { (e, eb) } else { (pre.clone(), vec![b0.clone()]) };
			compare(&e, &post, &what, ok);
			ensure!(["C09", "C29", "C07"], eb.iter().any(|b| *b == b1), "balances", "after {what} (ok={ok}): {}", eb.first().map(|b| diff(b, &b1)).unwrap_or_default());
			if vk::is("C11") { for _ in 0..3 { let (w, o) = (*r.pick(&users), tok_owner); let exp = o == Some(w) || o.map_or(false, |o| post.apall.contains_key(&(o, c, w))) || post.ap.get(&(c, tok)) == Some(&w);
				if post.colls.get(&c).and_then(|x| x.tokens.get(&tok).copied()) == o { vk::hit("approved_query"); ensure_eq!(["C11"], TokenApprovals::is_approved_or_owner((c, tok), w), exp, "is-approved", "after {what}: is_approved_or_owner(({c},{tok}), {w:?}), owner {o:?}"); } } }
			if vk::any(&["C07", "C08"]) { vk::state(&post.colls.iter().map(|(k, x)| (*k, x.owner.0, x.next, x.max, x.tokens.iter().map(|(t, w)| (*t, w.0)).collect::<Vec<_>>())).collect::<Vec<_>>()); } else { vk::state(&format!("{:?}{:?}{:?}{:?}", post.ap, post.allow, post.nfi.len(), b1)); }
			pre = post;
		}
	});
}
fn weighted(r: &mut Rng) -> &'static str {
	let base: &[(&str, u64)] = &[("mint", 12), ("transfer", 16), ("burn", 8), ("bridged", 5), ("create", 3), ("setting", 14), ("claim", 1), ("xls20", 1), ("lock", 5), ("approve", 3), ("unapprove", 1), ("forall", 2), ("allow", 2), ("spend", 2), ("nfi_admin", 1), ("nfi_enable", 1), ("nfi_sft_token", if vk::is("C29") { 1 } else { 0 }), ("nfi_request", 1), ("nfi_submit", 1)];
	let boost = |k: &str| -> u64 { match k { "approve" | "unapprove" | "forall" | "allow" | "spend" if vk::is("C11") => 6, k if k.starts_with("nfi") && vk::is("C29") => 9, "mint" if vk::is("C09") => 4, "bridged" if vk::is("C09") => 0, _ => 1 } };
	let total: u64 = base.iter().map(|(k, w)| w * boost(k)).sum();
	let mut x = r.below(total);
	for (k, w) in base { let w = w * boost(k); if x < w { return k } x -= w }
	"mint"
}
fn compare(e: &Snap, p: &Snap, what: &str, ok: bool) {
	if e == p { vk::hit("monitor_evaluations"); return }
	ensure_eq!(["C06", "C07", "C08"], p.colls.keys().collect::<Vec<_>>(), e.colls.keys().collect::<Vec<_>>(), "collections", "after {what} (ok={ok}): set of collections (actual, expected)");
	for (c, x) in &e.colls {
		let y = &p.colls[c];
		ensure_eq!(["C07", "C08"], y.tokens, x.tokens, "tokens", "after {what} (ok={ok}): tokens of {c} (actual, expected)");
		ensure_eq!(["C07"], (y.issuance, y.next), (x.issuance, x.next), "supply", "after {what} (ok={ok}): issuance and next serial of {c} (actual, expected)");
		ensure_eq!(["C08", "C07"], (y.owner, y.max, y.root, y.xrpl), (x.owner, x.max, x.root, x.xrpl), "settings", "after {what} (ok={ok}): owner, maximum, origin of {c} (actual, expected)");
		ensure_eq!(["C08"], y.settings, x.settings, "settings", "after {what} (ok={ok}): settings of {c} (actual, expected)");
		ensure_eq!(["C08", "C09"], y.flags, x.flags, "flags", "after {what} (ok={ok}): flags of {c} (actual, expected)");
		ensure_eq!(["C08", "C09"], y.mint, x.mint, "mint-info", "after {what} (ok={ok}): public mint settings of {c} (actual, expected)");
	}
	ensure_eq!(["C08"], p.locks, e.locks, "locks", "after {what} (ok={ok}): token locks (actual, expected)");
	ensure_eq!(["C11"], p.ap, e.ap, "approvals", "after {what} (ok={ok}): token approvals (actual, expected)");
	ensure_eq!(["C11"], p.apall, e.apall, "operators", "after {what} (ok={ok}): operators (actual, expected)");
	ensure_eq!(["C11"], p.ap1155, e.ap1155, "operators", "after {what} (ok={ok}): ERC1155 operators (actual, expected)");
	ensure_eq!(["C11"], p.allow, e.allow, "allowances", "after {what} (ok={ok}): allowances (actual, expected)");
	ensure_eq!(["C29"], p.nfi, e.nfi, "nfi-data", "after {what} (ok={ok}): extra data (actual, expected)");
	ensure_eq!(["C29"], p.nfi_on, e.nfi_on, "nfi-enabled", "after {what} (ok={ok}): extra data switches (actual, expected)");
	ensure_eq!(["C29"], p.nfi_cfg, e.nfi_cfg, "nfi-config", "after {what} (ok={ok}): extra data configuration (actual, expected)");
}
