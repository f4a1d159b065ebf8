//! C06: ids of assets and collections.
//! After every operation the harness looks for asset and collection ids it has not seen; each must carry this chain's id
//! and the counter of its kind, exactly one per counter value, answer at its own EVM address and nowhere else.
use crate::env::*;
use crate::rt::*;
use crate::*;
use pallet_evm::exec::Step;
use precompile_utils::{constants::*, Address, ErcIdConversion};
use seed_pallet_common::{utils::next_asset_uuid, EthereumEventSubscriber, Xls20Ext};
use sp_io::hashing::{keccak_256, twox_128};
const P: [&str; 1] = ["C06"];
const CHAIN: u32 = 100;
const LAST: u32 = (1 << 22) - 1;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Kind { Asset, Nft, Sft }
use Kind::*;
fn prefix(k: Kind) -> &'static [u8; 4] { match k { Asset => ERC20_PRECOMPILE_ADDRESS_PREFIX, Nft => ERC721_PRECOMPILE_ADDRESS_PREFIX, Sft => ERC1155_PRECOMPILE_ADDRESS_PREFIX } }
fn addr(id: u32, p: &[u8; 4]) -> H160 { let a: Address = <Runtime as ErcIdConversion<u32>>::runtime_id_to_evm_id(id, p); a.into() }
fn back(a: H160, p: &[u8; 4]) -> Option<u32> { <Runtime as ErcIdConversion<u32>>::evm_id_to_runtime_id(a.into(), p) }
fn key(p: &str, i: &str) -> Vec<u8> { let mut k = twox_128(p.as_bytes()).to_vec(); k.extend(twox_128(i.as_bytes())); k }
fn put(p: &str, i: &str, v: u32) { sp_io::storage::set(&key(p, i), &v.encode()) }
#[derive(Default)]
struct World { ids: BTreeMap<(Kind, u32), ()>, addrs: BTreeMap<H160, (Kind, u32)>, next: [u32; 2], fresh: u64, users: u64, fp: AccountId }
fn current() -> BTreeSet<(Kind, u32)> { pallet_assets::Asset::<Runtime>::iter().map(|x| (Asset, x.0)).chain(pallet_nft::CollectionInfo::<Runtime>::iter().map(|x| (Nft, x.0))).chain(pallet_sft::SftCollectionInfo::<Runtime>::iter().map(|x| (Sft, x.0))).collect() }
/// what an account sees at `to` when it asks `q`
fn ask(to: H160, q: &[u8]) -> (bool, Vec<u8>) { let mut o = (false, vec![]); let _ = frame_support::storage::with_transaction(|| -> TransactionOutcome<Result<(), DispatchError>> { let _ = eth(acct(0), to, q.to_vec(), U256::zero(), 500_000); let f = pallet_evm::exec::take_frames(); o = f.first().map(|x| (x.ok, x.output.clone())).unwrap_or_default(); TransactionOutcome::Rollback(Ok(())) }); o }
fn sel(s: &str) -> Vec<u8> { keccak_256(s.as_bytes())[..4].to_vec() }
impl World {
	/// look for new ids; returns them
	fn scan(&mut self, ctx: &str, rng: &mut Rng) -> Vec<(Kind, u32)> {
		let now = current();
		let new: Vec<_> = now.iter().copied().filter(|k| !self.ids.contains_key(k)).collect();
		for which in 0..2 {
			let mut c: Vec<(Kind, u32)> = new.iter().copied().filter(|k| (k.0 == Asset) == (which == 0)).collect(); c.sort_by_key(|k| k.1);
			for (k, id) in c {
				ensure!(P, id & 0x3ff == CHAIN, "chain", "{ctx}: {k:?} {id} carries chain {}", id & 0x3ff);
				ensure!(P, id >> 10 == self.next[which] && self.next[which] <= LAST, "counter", "{ctx}: {k:?} {id} carries counter {}, the next was {}", id >> 10, self.next[which]);
				self.next[which] += 1;
				ensure!(P, !self.ids.keys().any(|(k2, i2)| *i2 == id && (*k2 == Asset) == (k == Asset)), "reused", "{ctx}: {k:?} {id} existed before");
				let a = addr(id, prefix(k)); self.ids.insert((k, id), ());
				ensure!(P, self.addrs.insert(a, (k, id)).is_none(), "address", "{ctx}: {k:?} {id} shares address {a:?}");
				for k2 in [Asset, Nft, Sft] { ensure!(P, back(a, prefix(k2)) == if k2 == k { Some(id) } else { None }, "address-back", "{ctx}: {a:?} of {k:?} {id} reads as {k2:?} {:?}", back(a, prefix(k2))); }
				ensure!(P, back(a, FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX).is_none(), "address-back", "{ctx}: {a:?}");
				ensure!(P, !pallet_evm::AccountCodes::<Runtime>::get(a).is_empty(), "code", "{ctx}: no code at {a:?} of {k:?} {id}");
				// served at that address, as that token
				let (ok, out) = match k { Asset => ask(a, &sel("totalSupply()")), Nft => ask(a, &sel("totalSupply()")), Sft => ask(a, &sel("owner()")) };
				let want = match k { Asset => { let mut v = vec![0; 16]; v.extend(AssetsExt::total_issuance(id).to_be_bytes()); v }, Nft => { let mut v = vec![0u8; 28]; v.extend(pallet_nft::CollectionInfo::<Runtime>::get(id).unwrap().collection_issuance.to_be_bytes()); v }, Sft => { let mut v = vec![0u8; 12]; v.extend(h(pallet_sft::SftCollectionInfo::<Runtime>::get(id).unwrap().collection_owner).as_bytes()); v } };
				ensure!(P, ok && out == want, "served", "{ctx}: {a:?} of {k:?} {id} answers {ok} {}, expected {}", hex::encode(&out), hex::encode(&want));
				vk::hit(match k { Asset => "asset", Nft => "nft", Sft => "sft" });
			}
		}
		// an id of no token is served nowhere
		if rng.chance(20) { let k = *rng.pick(&[Asset, Nft, Sft]); let id = match rng.below(3) { 0 => rng.u32(), 1 => (self.next[(k != Asset) as usize] << 10) | CHAIN, _ => self.ids.keys().nth(rng.below(self.ids.len() as u64) as usize).map_or(7, |x| x.1) };
			if !now.contains(&(k, id)) && !(k == Asset && id == ROOT) { let a = addr(id, prefix(k)); let (ok, out) = match k { Sft => ask(a, &sel("owner()")), _ => ask(a, &sel("totalSupply()")) }; ensure!(P, !ok || out.is_empty(), "phantom", "{ctx}: {a:?} answers {} for {k:?} {id} that does not exist", hex::encode(&out)); vk::hit("phantom_asked") } }
		vk::state(&(self.next, self.ids.len()));
		new
	}
}
fn scheme() -> seed_primitives::MetadataScheme { seed_primitives::MetadataScheme::try_from(b"https://x/".as_slice()).unwrap() }
fn abi_bytes(t: &[ethabi::Token]) -> Vec<u8> { ethabi::encode(t) }
fn step(rng: &mut Rng, w: &mut World) {
	use ethabi::Token as T;
	w.fresh += 1; let tag = format!("n{}", w.fresh).into_bytes(); let u = rng.below(w.users); let who = acct(u);
	let s0 = balances();
	let _ = s0;
	let before = w.next;
	let op = rng.below(13); let mut asked = 0usize; // index of the counter used: 1 asset, 2 collection
	let (text, done) = match op {
		0 | 1 => { asked = 1; let bad = rng.chance(15); let dec = if bad { 19 + rng.below(200) as u8 } else { rng.below(19) as u8 }; let o = submit(u, Call::AssetsExt(pallet_assets_ext::Call::create_asset { name: tag.clone(), symbol: b"X".to_vec(), decimals: dec, min_balance: if rng.chance(50) { None } else { Some(if rng.chance(10) { 0 } else { 1 + rng.below(5) as u128 }) }, owner: if rng.chance(50) { None } else { Some(acct(rng.below(w.users))) } })); (format!("create asset {dec} by {u}: {o:?}"), o.ok()) },
		2 => { // liquidity tokens of a new pair
			asked = 1; let a: Vec<u32> = w.ids.keys().filter(|k| k.0 == Asset).map(|k| k.1).chain([ROOT, XRP]).collect(); let (x, y) = (*rng.pick(&a), *rng.pick(&a));
			for t in [x, y] { if t > 2 { let _ = <AssetsExt as frame_support::traits::fungibles::Mutate<AccountId>>::mint_into(t, &who, 10_000_000); } }
			let o = submit(u, Call::Dex(pallet_dex::Call::add_liquidity { token_a: x, token_b: y, amount_a_desired: 5_000_000, amount_b_desired: 5_000_000, amount_a_min: 1, amount_b_min: 1, to: None, deadline: None })); (format!("liquidity {x} {y} by {u}: {o:?}"), o.ok()) },
		3 => { // vouchers of a sale
			asked = 1; let mine: Vec<u32> = pallet_nft::CollectionInfo::<Runtime>::iter().filter(|(_, c)| c.owner == who && c.max_issuance.is_some()).map(|x| x.0).collect();
			let c = if mine.is_empty() { 1 } else { *rng.pick(&mine) };
			let o = submit(u, Call::Crowdsale(pallet_crowdsale::Call::initialize { payment_asset_id: ROOT, collection_id: c, soft_cap_price: 10, sale_duration: 50, voucher_name: None, voucher_symbol: None })); (format!("sale of {c} by {u}: {o:?}"), o.ok()) },
		4 => { // first deposit of a bridged token
			asked = 1; let t = H160::from_low_u64_be(0xE20_0000 + rng.below(30)); let src = pallet_erc20_peg::ContractAddress::<Runtime>::get(); let data = abi_bytes(&[T::Address(t), T::Uint(U256::from(1 + rng.below(1000))), T::Address(h(who))]);
			let r = frame_support::storage::with_storage_layer(|| seed_runtime::Erc20Peg::on_event(&src, &data).map(|_| ()).map_err(|e| e.1)); (format!("erc20 deposit {t:?}: {r:?}"), r.is_ok()) },
		5 | 6 => { asked = 2; let bad = rng.chance(15); let name = if bad { if rng.chance(50) { vec![] } else { vec![0xff, 0xfe] } } else { tag.clone() }; let o = submit(u, Call::Nft(pallet_nft::Call::create_collection { name: name.try_into().unwrap(), initial_issuance: if rng.chance(30) { rng.below(4) as u32 } else { 0 }, max_issuance: match rng.below(5) { 0 => Some(0), 1 => None, _ => Some(10) }, token_owner: None, metadata_scheme: scheme(), royalties_schedule: None, cross_chain_compatibility: Default::default() })); (format!("nft collection by {u}: {o:?}"), o.ok()) },
		7 => { asked = 2; let name = if rng.chance(15) { vec![] } else { tag.clone() }; let o = submit(u, Call::Sft(pallet_sft::Call::create_collection { collection_name: name.try_into().unwrap(), collection_owner: None, metadata_scheme: scheme(), royalties_schedule: None })); (format!("sft collection by {u}: {o:?}"), o.ok()) },
		8 => { // bridged collections
			asked = 2; let n = rng.range(1, 3) as usize; let cs: Vec<T> = (0..n).map(|_| T::Address(H160::from_low_u64_be(0x721_0000 + rng.below(20)))).collect(); w.fresh += 1; let f = w.fresh; let ts: Vec<T> = (0..n).map(|i| T::Array(vec![T::Uint(U256::from(f * 8 + i as u64))])).collect();
			let data = abi_bytes(&[T::Uint(U256::one()), T::Array(cs.clone()), T::Array(ts), T::Address(h(who))]);
			let r = frame_support::storage::with_storage_layer(|| seed_runtime::NftPeg::on_event(&H160::zero(), &data).map(|_| ()).map_err(|e| e.1)); (format!("nft deposit {cs:?}: {r:?}"), r.is_ok()) },
		9 => { // tokens of the XRPL
			asked = 2; let mut id = [0u8; 32]; id[1] = 8; id[4..24].copy_from_slice(&[rng.below(3) as u8 + 1; 20]); id[27] = rng.below(10) as u8; id[31] = rng.below(250) as u8;
			let r = frame_support::storage::with_storage_layer(|| <seed_runtime::Xls20 as Xls20Ext>::deposit_xls20_token(&who, id).map(|_| ()).map_err(|e| e.1)); (format!("xls20 deposit {}: {r:?}", hex::encode(id)), r.is_ok()) },
		10 => { // through the creation precompiles, also from a contract and when the outer frame fails
			asked = 2; let sft = rng.chance(50); let name = if rng.chance(10) { vec![] } else { tag.clone() };
			let t = [T::Address(h(who)), T::Bytes(name)]; let rest = [T::Bytes(b"https://x/".to_vec()), T::Array(vec![]), T::Array(vec![])];
			let mut toks = t.to_vec(); if !sft { toks.push(T::Uint(U256::from(rng.below(3) * 5))) } toks.extend(rest);
			let mut data = sel(if sft { "initializeCollection(address,bytes,bytes,address[],uint32[])" } else { "initializeCollection(address,bytes,uint32,bytes,address[],uint32[])" }); data.extend(abi_bytes(&toks));
			let pre = H160::from_low_u64_be(if sft { SFT_PRECOMPILE } else { NFT_PRECOMPILE });
			let mut to = pre; let mut revert = false; if rng.chance(40) { revert = rng.chance(50); let c = H160::from_low_u64_be(0xC0DE_0000 + w.fresh); let mut s = vec![Step::Call { kind: 0, to, value: U256::zero(), input: data.clone(), gas: None, must: rng.chance(50) }]; if rng.chance(40) { s.push(s[0].clone()) } if revert { s.push(Step::Revert) } pallet_evm::AccountCodes::<Runtime>::insert(c, s.encode()); to = c; data = vec![] }
			let o = eth(who, to, data, U256::zero(), 10_000_000); let f = pallet_evm::exec::take_frames(); let ok = eth_ok() == Some(true);
			let text = format!("precompile sft {sft} contract {} revert {revert} by {u}: {o:?} {ok}", to != pre);
			let new: Vec<_> = { let now = current(); now.iter().copied().filter(|k| !w.ids.contains_key(k)).collect() };
			let said: Vec<Vec<u8>> = if ok { f.iter().filter(|x| x.code_address == pre && x.ok).map(|x| x.output.clone()).collect() } else { vec![] };
			let mut n2 = new.clone(); n2.sort_by_key(|k| k.1);
			let want: Vec<Vec<u8>> = n2.iter().map(|(k, id)| abi_bytes(&[T::Address(addr(*id, prefix(*k))), T::Uint(U256::from(*id))])).collect();
			ensure!(P, said == want, "told", "{text}: said {:?}, created {new:?}", said.iter().map(hex::encode).collect::<Vec<_>>()); vk::hit("precompile");
			(text, ok) },
		11 => { // no caller may choose an id
			let id = match rng.below(3) { 0 => rng.u32(), 1 => (w.next[0] << 10) | CHAIN, _ => 4 + rng.below(1000) as u32 };
			let c = Call::Assets(pallet_assets::Call::create { id: codec::Compact(id).0.into(), admin: who, min_balance: 1 });
			let c = match rng.below(5) { 0 => c, 1 => Call::Utility(pallet_utility::Call::batch { calls: vec![c] }), 2 => Call::Utility(pallet_utility::Call::batch_all { calls: vec![c] }), 3 => Call::Futurepass(pallet_futurepass::Call::proxy_extrinsic { futurepass: w.fp, call: Box::new(c) }), _ => Call::Proxy(pallet_proxy::Call::proxy { real: w.fp, force_proxy_type: None, call: Box::new(c) }) };
			let o = if rng.chance(20) { let k = Key::Ecdsa(u); apply(xrpl_now(k, c.clone())) } else { submit(u, c.clone()) }; let text = format!("own id {id} by {u}: {c:?}: {o:?}");
			ensure!(P, w.ids.contains_key(&(Asset, id)) || !pallet_assets::Asset::<Runtime>::contains_key(id) || id <= 3, "chosen", "{text}: the caller's id was taken"); vk::hit("own_id"); (text, false) },
		_ => { // time passes: the counters are elsewhere
			if rng.chance(25) { let which = rng.below(2) as usize; let to = match rng.below(3) { 0 => LAST - 1 - rng.below(5) as u32, 1 => w.next[which] + rng.below(1000) as u32, _ => w.next[which] + rng.below((LAST - w.next[which].min(LAST)) as u64) as u32 }; if to > w.next[which] && to <= LAST { w.next[which] = to; if which == 0 { put("AssetsExt", "NextAssetId", to) } else { put("Nft", "NextCollectionId", to) } if to > LAST - 8 { vk::hit("near_the_end") } } (format!("counter {which} at {}", w.next[which]), false) } else { (String::from("nothing"), false) } },
	};
	vk::op(text.clone());
	let new = w.scan(&text, rng);
	if asked > 0 { let at = before[asked - 1];
		if at >= LAST && !new.is_empty() { ensure!(P, at == LAST && new.len() == 1, "exhausted", "{text}: made {new:?} when the counter stood at {at}"); }
		if at >= LAST { ensure!(P, !done || new.is_empty() || at == LAST, "exhausted", "{text}"); vk::hit("exhausted") }
		if !done { ensure!(P, new.is_empty(), "failed-created", "{text}: failed, yet made {new:?}"); vk::hit("refused") } }
	ensure!(P, { let n: u32 = codec::Decode::decode(&mut &sp_io::storage::get(&key("AssetsExt", "NextAssetId")).map(|x| x.to_vec()).unwrap_or(vec![0; 4])[..]).unwrap(); n == w.next[0] }, "asset-counter", "{text}");
	ensure!(P, pallet_nft::NextCollectionId::<Runtime>::get() == w.next[1], "collection-counter", "{text}: counter {} expected {}", pallet_nft::NextCollectionId::<Runtime>::get(), w.next[1]);
}
/// the packing itself, over all chains and all ends of the counter
fn packing(rng: &mut Rng) {
	for _ in 0..400 {
		let c = match rng.below(6) { 0 => rng.below(4) as u32, 1 => LAST - rng.below(4) as u32, 2 => LAST + rng.below(4) as u32, 3 => (u32::MAX - 1) - rng.below(4) as u32, 4 => (rng.u32() >> rng.below(32)).min(u32::MAX - 1), _ => rng.below(LAST as u64) as u32 };
		let p = match rng.below(4) { 0 => rng.below(1024) as u32, 1 => 1020 + rng.below(8) as u32, 2 => rng.u32(), _ => CHAIN };
		let r = vk::guard("next_asset_uuid", || next_asset_uuid(c, p));
		match r { Some(id) => { ensure!(P, c <= LAST && p < 1024 && id >> 10 == c && id & 0x3ff == p, "packing", "counter {c} chain {p} packs as {id}"); vk::hit("packed") }, None => { ensure!(P, c >= LAST || p >= 1024, "packing-refused", "counter {c} chain {p} refused"); vk::hit("unpackable") } }
		// any id there and back, and no other prefix
		let id = if rng.chance(50) { rng.u32() } else { c }; let pre = *rng.pick(&[ERC20_PRECOMPILE_ADDRESS_PREFIX, ERC721_PRECOMPILE_ADDRESS_PREFIX, ERC1155_PRECOMPILE_ADDRESS_PREFIX]);
		let a = addr(id, pre); ensure!(P, back(a, pre) == Some(id), "there-and-back", "{id} under {pre:?} is {a:?} is {:?}", back(a, pre));
		let id2 = id ^ (1 << rng.below(32)); ensure!(P, addr(id2, pre) != a, "distinct", "{id} and {id2} share {a:?}");
		for q in [ERC20_PRECOMPILE_ADDRESS_PREFIX, ERC721_PRECOMPILE_ADDRESS_PREFIX, ERC1155_PRECOMPILE_ADDRESS_PREFIX, FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX] { if q != pre { ensure!(P, back(a, q).is_none() && addr(id, q) != a, "other-prefix", "{a:?} read under {q:?}"); } }
		vk::hit("mapped");
	}
}
pub fn run() {
	vk::episodes(vk::tier(500, 4000), |_, rng| {
		packing(rng);
		chain(5, || {
			let mut w = World { users: 5, next: [1, 1], ..Default::default() };
			put("AssetsExt", "NextAssetId", 1); put("Nft", "NextCollectionId", 1);
			assert_ok!(root(Call::Erc20Peg(pallet_erc20_peg::Call::activate_deposits { activate: true }))); 
			assert_ok!(signed(acct(0), Call::Futurepass(pallet_futurepass::Call::create { account: acct(0) }))); w.fp = pallet_futurepass::Holders::<Runtime>::get(acct(0)).unwrap();
			for k in current() { w.ids.insert(k, ()); }
			if rng.chance(40) { for i in 0..2 { let to = LAST - rng.below(6) as u32; w.next[i] = to; } put("AssetsExt", "NextAssetId", w.next[0]); put("Nft", "NextCollectionId", w.next[1]); vk::hit("near_the_end") }
			for _ in 0..vk::tier(60, 120) { step(rng, &mut w) }
		})
	});
}
pub const REQUIRED: &[&str] = &["asset", "nft", "sft", "precompile", "own_id", "exhausted", "near_the_end", "refused", "phantom_asked", "packed", "unpackable", "mapped"];
