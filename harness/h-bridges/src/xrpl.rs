//! C15 XRPL deposits, C16 XRPL withdrawals and door tickets, C35 XLS-20: a model of what the XRPL side and the relayers did, and a reader of the XRPL transactions handed out for signing
use super::*;
use pallet_xrpl_bridge::types::{XRPLCurrency, XRPLCurrencyType, XRPLDoorAccount as Door, XrplTxData};
use pallet_xrpl_bridge::Event as Xe;
use seed_primitives::xrpl::XrplAccountId;
use sp_core::H512;
use sp_runtime::SaturatedConversion;
use std::collections::BTreeSet;
const P15: [&str; 1] = ["C15"];
const P16: [&str; 1] = ["C16"];
const P35: [&str; 1] = ["C35"];
const PERIOD: u32 = 15;
const DELAYS_PER_BLOCK: usize = 4;
const PER_LEDGER: usize = 10;
const PER_BLOCK: usize = 10;
type H = [u8; 64];
type Owned = BTreeMap<(u32, u32), AccountId>;
// ------------------------------------------------------------------ reader of the XRPL binary format
#[derive(Clone, Debug, PartialEq)] enum Amt { Drops(u64), Issued { mantissa: u128, exp: i32, currency: [u8; 20], issuer: [u8; 20] } }
#[derive(Clone, Debug, Default)] struct Blob { ints: BTreeMap<(u8, u8), u64>, hashes: BTreeMap<u8, [u8; 32]>, amounts: BTreeMap<u8, Amt>, accounts: BTreeMap<u8, Vec<u8>>, blobs: BTreeMap<u8, Vec<u8>>, signers: Vec<([u8; 20], u64)>, order: Vec<(u8, u8)> }
fn take<'a>(b: &mut &'a [u8], n: usize) -> Option<&'a [u8]> { if b.len() < n { return None } let (x, y) = b.split_at(n); *b = y; Some(x) }
fn be(x: &[u8]) -> u64 { x.iter().fold(0, |a, b| (a << 8) | *b as u64) }
fn field(b: &mut &[u8]) -> Option<(u8, u8)> {
	let h = take(b, 1)?[0]; let (mut t, mut f) = (h >> 4, h & 15);
	if t == 0 && f == 0 { t = take(b, 1)?[0]; f = take(b, 1)?[0]; } else if t == 0 { t = take(b, 1)?[0]; } else if f == 0 { f = take(b, 1)?[0]; }
	Some((t, f))
}
fn amount(b: &mut &[u8]) -> Option<Amt> {
	let v = be(take(b, 8)?);
	if v >> 63 == 0 { return if v >> 62 == 1 { Some(Amt::Drops(v & 0x3fff_ffff_ffff_ffff)) } else { None } }
	let c: [u8; 20] = take(b, 20)?.try_into().ok()?; let i: [u8; 20] = take(b, 20)?.try_into().ok()?;
	if v == 1 << 63 { return Some(Amt::Issued { mantissa: 0, exp: 0, currency: c, issuer: i }) }
	if (v >> 62) & 1 == 0 { return None } // negative
	let mantissa = (v & ((1 << 54) - 1)) as u128;
	if !(1_000_000_000_000_000..10_000_000_000_000_000).contains(&mantissa) { return None }
	Some(Amt::Issued { mantissa, exp: ((v >> 54) & 0xff) as i32 - 97, currency: c, issuer: i })
}
fn parse(mut b: &[u8]) -> Option<Blob> {
	let mut o = Blob::default();
	if take(&mut b, 4)? != b"SMT\0" { return None }
	while !b.is_empty() {
		let (t, f) = field(&mut b)?;
		if let Some(l) = o.order.last() { if *l >= (t, f) { return None } } // canonical order, no field twice
		o.order.push((t, f));
		match t {
			1 => { o.ints.insert((t, f), be(take(&mut b, 2)?)); }, 2 => { o.ints.insert((t, f), be(take(&mut b, 4)?)); },
			5 => { o.hashes.insert(f, take(&mut b, 32)?.try_into().ok()?); },
			6 => { let a = amount(&mut b)?; o.amounts.insert(f, a); },
			7 | 8 => { let l = take(&mut b, 1)?[0] as usize; let v = take(&mut b, l)?.to_vec(); if t == 7 { o.blobs.insert(f, v); } else { o.accounts.insert(f, v); } },
			15 => loop {
				let (t, f) = field(&mut b)?; if (t, f) == (15, 1) { break } if (t, f) != (14, 11) { return None }
				let (mut w, mut a) = (None, None);
				loop { let x = field(&mut b)?; match x { (14, 1) => break, (1, 3) => w = Some(be(take(&mut b, 2)?)), (8, 1) => { if take(&mut b, 1)?[0] != 20 { return None } a = Some(take(&mut b, 20)?.try_into().ok()?) }, _ => return None } }
				o.signers.push((a?, w?));
			},
			_ => return None,
		}
	}
	Some(o)
}
// ------------------------------------------------------------------ model
#[derive(Clone, Debug)] struct Dep { ledger: u32, data: XrplTxData, seen: bool, due: u32, done: bool }
#[derive(Clone, Debug)] struct Wd { asset: AssetId, amount: u128, fee: u64, dest: [u8; 20], tag: Option<u32>, due: u32 }
#[derive(Default)] struct X {
	big: bool, locked: BTreeSet<(u32, u32)>, n: u32, relayers: BTreeSet<u64>, deps: BTreeMap<H, Dep>, queue: BTreeMap<u32, Vec<H>>, challenged: BTreeSet<H>, next_hash: u64, busy: bool, burst: bool,
	highest: u32, window: u32, base: u32, tip: u32,
	maps: BTreeMap<AssetId, XRPLCurrency>, dec: BTreeMap<AssetId, u8>,
	door: [Option<[u8; 20]>; 2], fee: [u64; 2], tag: u32, used: [BTreeSet<u32>; 2], alloc: [Vec<(u64, u64)>; 2], pd: BTreeMap<AssetId, (u128, u32)>, delayed: Vec<Wd>,
	xrel: Option<AccountId>, xfee: u128, own: Owned, xid: BTreeMap<(u32, u32), [u8; 32]>, cols: BTreeMap<([u8; 20], u32), u32>, native: BTreeMap<u32, (AccountId, bool)>,
}
const DOORS: [Door; 2] = [Door::Main, Door::NFT];
fn hx(h: &H) -> String { format!("{:02x}{:02x}..{}", h[0], h[1], u64::from_be_bytes(h[56..].try_into().unwrap())) }
fn xa(b: [u8; 20]) -> XrplAccountId { XrplAccountId::from(b) }
fn h20(i: u64) -> [u8; 20] { let mut o = [0x44; 20]; o[12..].copy_from_slice(&i.to_be_bytes()); o }
fn code(c: &XRPLCurrency) -> [u8; 20] { match c.symbol { XRPLCurrencyType::Standard(s) => { let mut o = [0u8; 20]; o[12..15].copy_from_slice(&s); o }, XRPLCurrencyType::NonStandard(s) => s } }
fn peg() -> AccountId { acct(XrplPalletId::get()) }
fn out() -> Vec<Vec<u8>> { w(|x| std::mem::take(&mut x.sent)).into_iter().filter_map(|s| match s.out { Out::Xrpl(b) => Some(b), _ => None }).collect() }
fn owned() -> Owned {
	let mut o = Owned::new();
	for (c, i) in pallet_nft::CollectionInfo::<Test>::iter() { let mut k = 0; for t in i.owned_tokens.iter() { for s in t.owned_serials.iter() { k += 1; let d = o.insert((c, *s), t.owner); ensure!(P35, d.is_none(), "two-owners", "collection {c} serial {s}"); } } ensure_eq!(P35, i.collection_issuance, k, "issuance", "collection {c}"); }
	o
}
fn who_of(rng: &mut Rng) -> AccountId { create_account(rng.range(1, 6)) }
/// the ticket of a message: only this transaction carries it, and it was set aside for this door
fn ticket(pids: &[&'static str], m: &mut X, d: usize, b: &Blob, what: &str) {
	let t = b.ints.get(&(2, 41)).copied().unwrap_or(u64::MAX);
	ensure!(pids, m.used[d].insert(t as u32), "ticket-twice", "{what}: ticket {t} of door {d} was already used: {b:?}");
	ensure!(pids, m.alloc[d].iter().any(|(s, e)| (*s..*e).contains(&t)), "ticket-not-allocated", "{what}: ticket {t} of door {d}, allocated {:?}", m.alloc[d]);
	vk::hit("tickets_used");
}
fn common(pids: &[&'static str], m: &mut X, d: usize, kind: u64, fee: u64, b: &Blob, what: &str) {
	ensure_eq!(pids, b.ints.get(&(1, 2)).copied(), Some(kind), "message-kind", "{what}");
	ensure_eq!(pids, b.accounts.get(&1).cloned(), m.door[d].map(|x| x.to_vec()), "message-account", "{what}: door account");
	ensure_eq!(pids, b.amounts.get(&8).cloned(), Some(Amt::Drops(fee)), "message-fee", "{what}");
	ensure_eq!(pids, b.ints.get(&(2, 4)).copied(), Some(0), "message-sequence", "{what}: must be zero with a ticket");
	ensure_eq!(pids, b.ints.get(&(2, 3)).copied(), Some(m.tag as u64), "message-source-tag", "{what}");
	ensure!(pids, b.blobs.get(&3).map_or(true, |k| k.is_empty()), "message-key", "{what}: a multi-signed transaction names a single signer");
	ticket(pids, m, d, b, what);
}
fn payment_matches(m: &X, b: &Blob, x: &Wd) -> bool {
	let amt = match b.amounts.get(&1) {
		Some(Amt::Drops(v)) => x.asset == 2 && *v as u128 == x.amount,
		Some(Amt::Issued { mantissa, exp, currency, issuer }) => x.asset != 2 && m.maps.get(&x.asset).map_or(false, |c| code(c) == *currency && c.issuer.0 == *issuer) && {
			let k = exp + m.dec[&x.asset] as i32;
			if x.amount == 0 { *mantissa == 0 } else if k >= 0 { 10u128.checked_pow(k as u32).and_then(|p| p.checked_mul(*mantissa)) == Some(x.amount) } else { 10u128.checked_pow(-k as u32).and_then(|p| p.checked_mul(x.amount)) == Some(*mantissa) }
		},
		None => false,
	};
	amt && b.accounts.get(&3).map_or(false, |d| d[..] == x.dest[..]) && b.ints.get(&(2, 14)).copied() == x.tag.map(|t| t as u64) && b.amounts.get(&8) == Some(&Amt::Drops(x.fee))
}
fn ticket_available(d: usize) -> bool {
	use pallet_xrpl_bridge::*;
	let c = DoorTicketSequence::<Test>::get(DOORS[d]) as u64; let p = DoorTicketSequenceParams::<Test>::get(DOORS[d]); let q = DoorTicketSequenceParamsNext::<Test>::get(DOORS[d]);
	c < p.start_sequence as u64 + p.bucket_size as u64 || (q.bucket_size > 0 && q.start_sequence != p.start_sequence && c < q.start_sequence as u64 + q.bucket_size as u64)
}
fn token_id(flags: u16, fee: u16, issuer: [u8; 20], taxon: u32, seq: u32) -> [u8; 32] {
	let mut o = [0u8; 32]; o[0..2].copy_from_slice(&flags.to_be_bytes()); o[2..4].copy_from_slice(&fee.to_be_bytes()); o[4..24].copy_from_slice(&issuer);
	let mask = 384160001u32.wrapping_mul(seq).wrapping_add(2459); // XLS-20: cipheredTaxon
	o[24..28].copy_from_slice(&(taxon ^ mask).to_be_bytes()); o[28..].copy_from_slice(&seq.to_be_bytes()); o
}
fn same(pids: &[&'static str], key: &str, e: &Bal, what: &str) { if vk::any(pids) { let b = balances(); vk::hit("monitor_evaluations"); if b != *e { vk::fail(key, format!("{what}: balances (expected vs chain) {}", diff(e, &b))); } } }
fn nothing_sent(pids: &[&'static str], what: &str) { let o = out(); ensure!(pids, o.is_empty(), "sent-unasked", "{what}: {} transactions handed to the signers", o.len()) }

pub fn run() { vk::episodes(vk::tier(14000, 300000), episode) }
fn episode(_ep: u64, rng: &mut Rng) {
	reset_world();
	let endow: Vec<(AccountId, Balance)> = (1..=6).map(|i| (create_account(i), rng.range(1_000_000, 900_000_000) as Balance)).collect();
	let mut e0 = endow.clone(); if rng.chance(60) { e0.push((peg(), rng.range(1, 300_000_000) as Balance)); }
	TestExt::<Test>::default().with_balances(&e0).with_xrp_balances(&endow).build().execute_with(|| {
		let big = vk::is("C35") && rng.chance(3); MaxTokensPerCollection::set(if big { 1200 } else { 25 }); MintLimit::set(if big { 400 } else { 12 }); MaxTokensPerXls20Mint::set(if big { 350 } else { 24 });
		let mut m = X { n: 1, big, busy: !big && rng.chance(20), burst: rng.chance(30), ..Default::default() };
		System::initialize(&1u64.saturated_into(), &Default::default(), &Default::default());
		let rich = 10u128.pow(24);
		for (k, d) in [0u8, 6, 12, 18].into_iter().enumerate() {
			let id = AssetsExt::next_asset_uuid().unwrap();
			AssetsExt::create_asset(sg(create_account(1)), format!("t{k}").into_bytes(), format!("T{k}").into_bytes(), d, Some(1), None).unwrap();
			for i in 1..=5 { AssetsExt::mint(sg(create_account(1)), id, create_account(i), rng.amount(rich).clamp(1, rich * 50)).unwrap(); }
			m.dec.insert(id, d);
		}
		{ use frame_support::traits::fungibles::metadata::Inspect as _; for a in [1, 2] { m.dec.insert(a, <AssetsExt as frame_support::traits::fungibles::metadata::Inspect<AccountId>>::decimals(a)); } }
		for (a, _) in m.dec.clone() { if a != 2 && (a == 1 || rng.chance(80)) { remap(&mut m, rng, a); } }
		for i in 7..9 { XRPLBridge::add_relayer(root(), create_account(i)).unwrap(); m.relayers.insert(i); }
		m.window = rng.range(2, 12) as u32; m.highest = 1000; m.base = 1000 - m.window; m.tip = 1001;
		XRPLBridge::reset_settled_xrpl_tx_data(root(), m.highest, m.window, Some(m.base - 1), None).unwrap();
		for d in 0..2 {
			m.fee[d] = 1_000_000; if rng.chance(50) { m.fee[d] = rng.below(2_000_000); XRPLBridge::set_door_tx_fee(root(), DOORS[d], m.fee[d]).unwrap(); }
			if rng.chance(92) { m.door[d] = Some(h20(900 + d as u64)); XRPLBridge::set_door_address(root(), DOORS[d], m.door[d].map(xa)).unwrap(); }
			let s = rng.range(0, 50) as u32; let size = rng.range(1, 40) as u32;
			XRPLBridge::set_ticket_sequence_current_allocation(root(), DOORS[d], s, s, size).unwrap(); m.alloc[d].push((s as u64, s as u64 + size as u64));
		}
		if m.burst { let k = rng.range(1, 5) as u32; for a in m.dec.keys().copied().collect::<Vec<_>>() { let p = (rng.amount(1000), k); m.pd.insert(a, p); XRPLBridge::set_payment_delay(root(), a, Some((p.0, p.1.saturated_into()))).unwrap(); } }
		m.tag = rng.u32(); XRPLBridge::set_xrp_source_tag(root(), m.tag).unwrap();
		if rng.chance(85) { m.xrel = Some(create_account(9)); Xls20::set_relayer(root(), create_account(9)).unwrap(); }
		m.xfee = *rng.pick(&[0u128, 1, 1500, 100_000, u32::MAX as u128 + 7]); Xls20::set_xls20_fee(root(), m.xfee).unwrap();
		events(); w(|x| x.sent.clear());
		for _ in 0..vk::tier(60, 100) * if m.busy { 2 } else { 1 } {
			match if m.busy && rng.chance(60) { 3 } else if m.big && rng.chance(60) { 11 } else { rng.below(12) } { 0..=2 => block(&mut m, rng), 3..=5 => deposit_op(&mut m, rng), 6..=8 => { withdraw_op(&mut m, rng); if m.burst { for _ in 0..rng.below(4) { withdraw_op(&mut m, rng) } } }, 9 => door_op(&mut m, rng), _ => nft_op(&mut m, rng) }
			let o = owned(); ensure_eq!(P35, m.own, o, "ownership", "owners of all NFTs");
			let ids: BTreeMap<(u32, u32), [u8; 32]> = pallet_xls20::Xls20TokenMap::<Test>::iter().map(|(c, s, i)| ((c, s), i)).collect();
			ensure_eq!(P35, m.xid, ids, "token-map", "XRPL token ids");
			check_sums(&["C15", "C16", "C35"], "step");
			vk::state(&(m.queue.values().map(|q| q.len()).sum::<usize>().min(20), m.challenged.len().min(8), m.delayed.len(), m.door, m.maps.len(), m.cols.len(), m.own.len().min(30), m.tip - m.highest.min(m.tip), m.deps.values().filter(|d| d.done).count().min(20)));
		}
	});
}
fn remap(m: &mut X, rng: &mut Rng, a: AssetId) {
	// one currency per asset, never shared (remapping in place is a governance matter)
	let c = XRPLCurrency { symbol: if rng.chance(50) { XRPLCurrencyType::Standard([b'A' + (a % 20) as u8, b'0' + (m.next_hash % 10) as u8, b'a' + rng.below(20) as u8]) } else { let mut x = [0u8; 20]; x[0] = 2; x[1] = a as u8; x[2] = (a >> 8) as u8; x[10] = rng.below(200) as u8; XRPLCurrencyType::NonStandard(x) }, issuer: xa(h20(3000 + a as u64)) };
	if m.maps.values().any(|x| *x == c) { return }
	XRPLBridge::set_xrpl_asset_map(root(), a, Some(c)).unwrap(); m.maps.insert(a, c);
}
// ------------------------------------------------------------------ deposits
fn deposit_op(m: &mut X, rng: &mut Rng) {
	let e = balances();
	match rng.below(10) {
		0..=6 => {
			let again = rng.chance(25) && !m.deps.is_empty();
			let h = if again { *rng.pick(&m.deps.keys().copied().collect::<Vec<_>>()) } else { m.next_hash += 1; let mut h = [0u8; 64]; h[..8].copy_from_slice(&rng.u64().to_le_bytes()); h[56..].copy_from_slice(&m.next_hash.to_be_bytes()); h };
			if !again {
				if rng.chance(if m.busy { 4 } else { 45 }) { m.tip += rng.below(4) as u32; }
				let ledger = match if m.busy { 9 } else { rng.below(10) } { 0 => m.base.saturating_sub(rng.below(5) as u32), 1..=3 => m.highest.saturating_sub(rng.below(m.window as u64 + 4) as u32), _ => m.tip };
				let amt = match rng.below(15) { 0 => u128::MAX, 1 => 1, 2 => rng.amount(1 << 100).max(1), _ => rng.below(5_000_000) as u128 + 1 };
				let to: H160 = create_account(rng.range(1, 9)).into();
				let data = match rng.below(10) {
					0..=3 => XrplTxData::Payment { amount: if amt == u128::MAX { amt } else { amt.min(1 << 43) }, address: to },
					4..=6 => { let a = *rng.pick(&m.dec.keys().copied().filter(|a| *a != 2).collect::<Vec<_>>()); let currency = m.maps.get(&a).copied().filter(|_| rng.chance(92)).unwrap_or(XRPLCurrency { symbol: XRPLCurrencyType::Standard(*b"NON"), issuer: xa(h20(1)) }); XrplTxData::CurrencyPayment { amount: if a == 1 { amt.min(400_000_000) } else { amt }, address: to, currency } },
					_ => { let old: Vec<[u8; 32]> = m.deps.values().filter_map(|d| match d.data { XrplTxData::Xls20 { token_id, .. } => Some(token_id), _ => None }).collect();
						let id = if rng.chance(20) && !old.is_empty() { *rng.pick(&old) } else { token_id(if rng.chance(88) { 8 } else { *rng.pick(&[1u16, 9, 0xb]) }, rng.below(50001) as u16, h20(500 + rng.below(2)), rng.below(2) as u32 * 77, if rng.chance(15) { u32::MAX - rng.below(2) as u32 } else { rng.below(40) as u32 }) };
						XrplTxData::Xls20 { token_id: id, address: to } },
				};
				m.deps.insert(h, Dep { ledger, data, seen: false, due: 0, done: false });
			}
			let mut d = m.deps[&h].clone(); // the same transaction told with another ledger: refused at least as long as the first report is inside the window
			if again && rng.chance(50) && (!d.seen || d.ledger >= m.highest.saturating_sub(m.window)) { d.ledger = m.tip + rng.below(3) as u32; if rng.chance(30) { d.ledger = m.highest.saturating_sub(rng.below(m.window as u64 + 2) as u32) } }
			let who = if rng.chance(88) { rng.range(7, 9) } else { rng.range(1, 10) };
			let mapped = match &d.data { XrplTxData::CurrencyPayment { currency, .. } => m.maps.values().any(|c| c == currency), _ => true };
			let due = m.n + PERIOD; let ok = m.relayers.contains(&who) && mapped && d.ledger >= m.highest.saturating_sub(m.window) && !d.seen && m.queue.get(&due).map_or(0, |q| q.len()) < PER_BLOCK;
			let what = format!("relay {} by account {who}: ledger {} {:?} (settled {} window {})", hx(&h), d.ledger, d.data, m.highest, m.window); vk::op(&what);
			let r = txs(|| XRPLBridge::submit_transaction(sg(create_account(who)), d.ledger as u64, H512(h), d.data.clone(), rng.u64()));
			ensure_eq!(P15, r.is_ok(), ok, "submission", "{what}: {r:?}, seen {} mapped {mapped}", d.seen);
			if r.is_ok() { vk::hit("relayed"); let x = m.deps.get_mut(&h).unwrap(); x.seen = true; x.due = due; x.ledger = d.ledger; m.tip = m.tip.max(d.ledger); m.queue.entry(due).or_default().push(h); } else { vk::hit("relay_rejected"); if d.seen { vk::hit("replay_rejected") } if d.ledger < m.highest.saturating_sub(m.window) { vk::hit("outside_window_rejected") } }
		},
		7..=8 => {
			let h = if rng.chance(92) && !m.deps.is_empty() { let pend: Vec<_> = m.queue.values().flatten().copied().collect(); if pend.is_empty() || rng.chance(20) { *rng.pick(&m.deps.keys().copied().collect::<Vec<_>>()) } else { *rng.pick(&pend) } } else { let mut h = [7u8; 64]; h[..8].copy_from_slice(&rng.u64().to_le_bytes()); h };
			vk::op(&format!("challenge {}", hx(&h)));
			XRPLBridge::submit_challenge(sg(who_of(rng)), H512(h)).unwrap(); m.challenged.insert(h);
		},
		_ => {
			if rng.chance(50) { let i = rng.range(7, 10); if m.relayers.remove(&i) { XRPLBridge::remove_relayer(root(), create_account(i)).unwrap(); } else { XRPLBridge::add_relayer(root(), create_account(i)).unwrap(); m.relayers.insert(i); } vk::op(&format!("relayers {:?}", m.relayers)); }
			else { let free = m.dec.keys().copied().filter(|a| *a != 2 && !m.delayed.iter().any(|d| d.asset == *a)).collect::<Vec<_>>(); if free.is_empty() { return } let a = *rng.pick(&free); if a == 1 && rng.chance(70) { return }
				if m.maps.remove(&a).is_some() { XRPLBridge::set_xrpl_asset_map(root(), a, None).unwrap(); } else { m.next_hash += 1; remap(m, rng, a); } vk::op(&format!("map of asset {a}: {:?}", m.maps.get(&a)));
				ensure!(P15, XRPLBridge::set_xrpl_asset_map(sg(who_of(rng)), a, None).is_err(), "map-by-user", "asset {a}"); }
			ensure!(P15, XRPLBridge::add_relayer(sg(who_of(rng)), create_account(3)).is_err(), "relayer-by-user", "");
		},
	}
	events(); same(&P15, "balances", &e, "relaying and challenging move nothing"); nothing_sent(&P16, "deposit handling");
}
fn block(m: &mut X, rng: &mut Rng) {
	// end of the current block: delayed payments and pruning in the idle time
	if rng.chance(85) {
		let ample = rng.chance(if m.burst { 35 } else { 75 }); let weight = if ample { Weight::from_parts(1 << 50, 1 << 50) } else { Weight::from_parts(rng.below(if m.burst { 1_900_000_000 } else { 4_000_000_000 }), 1 << 50) };
		let e = balances(); let due: Vec<usize> = m.delayed.iter().enumerate().filter(|x| x.1.due <= m.n).map(|x| x.0).collect(); let canq = m.door[0].is_some();
		vk::op(&format!("idle of block {} with {weight:?}", m.n));
		vk::guard("on_idle", || XRPLBridge::on_idle(m.n.saturated_into(), weight));
		let mut sent = 0;
		for b in out() {
			let Some(b) = parse(&b) else { ensure!(P16, false, "unreadable-transaction", "idle block {}: {b:02x?}", m.n); continue };
			let k = m.delayed.iter().position(|x| x.due <= m.n && payment_matches(m, &b, x)); sent += 1;
			ensure!(P16, k.is_some(), "delayed-not-due", "block {}: a transaction that no due withdrawal asked for {b:?}; waiting {:?}", m.n, m.delayed);
			if let Some(k) = k { let x = m.delayed.remove(k); common(&P16, m, 0, 0, x.fee, &b, &format!("delayed withdrawal {x:?} sent in block {}", m.n)); vk::hit("delayed_sent"); if x.due < m.n { vk::hit("delayed_sent_late") } }
		}
		if ample && canq { ensure_eq!(P16, sent, due.len(), "delayed-not-sent", "block {}: waiting {:?}", m.n, m.delayed) } else if !due.is_empty() && sent < due.len() { vk::hit("delayed_waits") }
		same(&P16, "idle-balances", &e, "idle");
		let hp = pallet_xrpl_bridge::HighestPrunedLedgerIndex::<Test>::get(); ensure!(P15, hp <= m.highest.saturating_sub(m.window).max(m.base), "pruned-open-ledger", "pruned up to {hp}, settled {} window {}", m.highest, m.window); if hp >= m.base { vk::hit("pruned") }
	}
	let step = if rng.chance(30) { rng.range(2, 9) as u32 } else { 1 };
	for _ in 0..step {
		m.n += 1; System::set_block_number(m.n.saturated_into()); System::reset_events();
		let mut e = balances(); vk::op(&format!("block {}", m.n));
		vk::guard("on_initialize", || XRPLBridge::on_initialize(m.n.saturated_into()));
		let evs = events(); let mut res: Vec<(H, u64, bool)> = vec![];
		for ev in &evs { match ev { RuntimeEvent::XRPLBridge(Xe::ProcessingOk(l, h)) => res.push((h.0, *l, true)), RuntimeEvent::XRPLBridge(Xe::ProcessingFailed(l, h, _)) => res.push((h.0, *l, false)), _ => {} } }
		let all = m.queue.remove(&m.n).unwrap_or_default(); let exp: Vec<_> = all.iter().filter(|h| !m.challenged.contains(*h)).copied().collect();
		if exp.len() < all.len() { vk::hit("challenged_not_credited") }
		ensure_eq!(P15, exp.iter().map(hx).collect::<BTreeSet<_>>(), res.iter().map(|r| hx(&r.0)).collect::<BTreeSet<_>>(), "processed-set", "block {}: {:?} in {:?}", m.n, all.iter().map(hx).collect::<Vec<_>>(), res.iter().map(|r| hx(&r.0)).collect::<Vec<_>>());
		ensure_eq!(P15, exp.len(), res.len(), "processed-twice", "block {}", m.n);
		let chain_own = owned(); let mut iss: BTreeMap<AssetId, u128> = sums(&e);
		for (h, l, ok) in res {
			let Some(d) = m.deps.get(&h).cloned() else { continue };
			ensure_eq!(P15, l, d.ledger as u64, "ledger", "{}", hx(&h)); ensure!(P15, !d.done, "credited-twice", "{} {d:?}", hx(&h));
			let what = format!("processing {} {:?} in block {}: ok {ok}", hx(&h), d.data, m.n);
			match &d.data {
				XrplTxData::Payment { .. } | XrplTxData::CurrencyPayment { .. } => {
					let (a, amount, to) = match &d.data { XrplTxData::Payment { amount, address } => (Some(2), *amount, *address), XrplTxData::CurrencyPayment { amount, address, currency } => (m.maps.iter().find(|x| x.1 == currency).map(|x| *x.0), *amount, *address), _ => unreachable!() };
					let to = AccountId::from(to);
					let can = match a { None => false, Some(1) => e.get(&(1, peg())).map_or(false, |b| *b >= amount), Some(a) => iss.get(&a).copied().unwrap_or(0).checked_add(amount).is_some() };
					ensure_eq!(P15, ok, can, "deposit-result", "{what}: asset {a:?} ledger before {:?}", a.and_then(|a| e.get(&(a, peg()))));
					if ok { if let Some(a) = a { if a == 1 { mv(&mut e, 1, peg(), to, amount); vk::hit("root_deposit") } else { add(&mut e, (a, to), amount); *iss.entry(a).or_insert(0) += amount; vk::hit(if a == 2 { "xrp_deposit" } else { "asset_deposit" }) } } } else { vk::hit("deposit_failed") }
				},
				XrplTxData::Xls20 { token_id: id, address } => xls20_deposit(m, *id, AccountId::from(*address), ok, &chain_own, &what),
			}
			if ok { m.deps.get_mut(&h).unwrap().done = true; m.highest = m.highest.max(d.ledger); m.tip = m.tip.max(m.highest); vk::hit("credited"); let same = m.deps.values().filter(|x| x.done && x.ledger == d.ledger).count(); if same > PER_LEDGER { vk::hit("ledger_over_limit") } }
		}
		same(&P15, "credit", &e, &format!("credits of block {}", m.n));
		ensure_eq!(P15, pallet_xrpl_bridge::HighestSettledLedgerIndex::<Test>::get(), m.highest, "highest-settled", "block {}", m.n);
		nothing_sent(&P16, "on_initialize");
	}
	if rng.chance(10) { let l = m.base + rng.below((m.tip - m.base) as u64 + 2) as u32; vk::op(&format!("root prunes ledger {l}")); let r = XRPLBridge::prune_settled_ledger_index(root(), l); ensure!(P15, r.is_err() || l < m.highest.saturating_sub(m.window), "pruned-open-ledger", "ledger {l}, settled {} window {}", m.highest, m.window); events(); }
}
/// the chain's collection of an XRPL issuer and taxon
fn mapped_collection(issuer: [u8; 20], taxon: u32) -> Option<u32> {
	let mut k = issuer.to_vec(); k.extend(taxon.to_le_bytes());
	let v: Vec<u32> = pallet_xls20::CollectionMapping::<Test>::iter().filter(|x| x.0.encode() == k).map(|x| x.1).collect();
	if v.len() == 1 { Some(v[0]) } else { None }
}
fn xls20_deposit(m: &mut X, id: [u8; 32], to: AccountId, ok: bool, chain: &Owned, what: &str) {
	let flags = u16::from_be_bytes([id[0], id[1]]); let issuer: [u8; 20] = id[4..24].try_into().unwrap(); let seq = u32::from_be_bytes(id[28..].try_into().unwrap());
	let taxon = u32::from_be_bytes(id[24..28].try_into().unwrap()) ^ 384160001u32.wrapping_mul(seq).wrapping_add(2459);
	if flags & 1 == 1 { vk::hit("burnable_refused"); ensure!(P35, !ok, "burnable-bridged", "{what}"); return }
	let col = m.cols.get(&(issuer, taxon)).copied();
	let full = col.map_or(false, |c| m.own.keys().filter(|k| k.0 == c).count() + 1 > MaxTokensPerCollection::get() as usize - 1);
	if !ok { ensure!(P35, full, "xls20-deposit-failed", "{what}"); vk::hit("xls20_full"); return }
	let c = match col { Some(c) => c, None => {
		let c = mapped_collection(issuer, taxon);
		ensure!(P35, c.map_or(false, |c| !m.cols.values().any(|x| *x == c) && !m.native.contains_key(&c) && pallet_nft::CollectionInfo::<Test>::get(c).map_or(false, |i| i.origin_chain == seed_primitives::OriginChain::XRPL && i.owner == acct(Xls20PalletId::get()) && i.cross_chain_compatibility.xrpl)), "xls20-collection", "{what}: issuer {issuer:02x?} taxon {taxon} -> {c:?}");
		let Some(c) = c else { return }; m.cols.insert((issuer, taxon), c); vk::hit("xls20_collection"); c
	} };
	if m.own.contains_key(&(c, seq)) { vk::hit("xls20_already_here") } else { ensure!(P35, chain.contains_key(&(c, seq)), "xls20-not-minted", "{what}: collection {c}"); m.own.insert((c, seq), to); vk::hit("xls20_deposit") }
	m.xid.insert((c, seq), id);
}
// ------------------------------------------------------------------ withdrawals
fn withdraw_op(m: &mut X, rng: &mut Rng) {
	let mut e = balances(); let who = who_of(rng);
	let a = match rng.below(10) { 0..=3 => 2, 4..=5 => 1, _ => *rng.pick(&m.dec.keys().copied().collect::<Vec<_>>()) };
	let have = e.get(&(a, who)).copied().unwrap_or(0); let fee = m.fee[0];
	let amount = match rng.below(14) { 0 => 0, 1 => have, 2 => have.saturating_sub(fee as u128), 3 => have.saturating_sub(fee as u128) + 1, 4 => 1, 5 if a != 2 => rng.amount(10u128.pow(22)), 6 if a != 2 => 10u128.pow(rng.range(15, 26) as u32) - rng.below(3) as u128, _ => rng.amount(have / 8 + 1) };
	let dest = h20(rng.below(5)); let tag = if rng.chance(50) { Some(if rng.chance(20) { 0 } else { rng.u32() }) } else { None };
	// an issued amount carries 16 significant digits: the rest stays with the user, and must be below one whole token
	let mut net = amount; if a != 2 { let mut p = 1u128; while net / p > 9_999_999_999_999_999 { p *= 10 } net = net / p * p; }
	let dec = m.dec[&a] as u32; let rounding_ok = a == 2 || amount - net < 10u128.pow(dec); if net != amount { vk::hit(if rounding_ok { "rounded" } else { "rounding_refused" }) }
	let funds = match a { 2 => sub(&mut e, (2, who), net.saturating_add(fee as u128)), 1 => sub(&mut e, (2, who), fee as u128) && mv(&mut e, 1, who, peg(), net), _ => sub(&mut e, (2, who), fee as u128) && sub(&mut e, (a, who), net) };
	let delay = m.pd.get(&a).filter(|p| net >= p.0).map(|p| p.1); let at = m.n + delay.unwrap_or(0); let room = delay.is_none() || m.delayed.iter().filter(|d| d.due == at).count() < DELAYS_PER_BLOCK;
	let must = amount > 0 && rounding_ok && m.door[0].is_some() && (a == 2 || m.maps.contains_key(&a)) && funds && ticket_available(0) && room;
	let what = format!("withdraw {amount} (sent {net}) of asset {a} by {who:?} to {dest:02x?} tag {tag:?} fee {fee} delay {delay:?}: door {:?} funds {funds}", m.door[0].is_some()); vk::op(&what);
	let pre = balances();
	let r = match (a, tag, rng.below(2)) { (2, None, 0) => txs(|| XRPLBridge::withdraw_xrp(sg(who), amount, xa(dest))), (2, Some(t), 0) => txs(|| XRPLBridge::withdraw_xrp_with_destination_tag(sg(who), amount, xa(dest), t)), _ => txs(|| XRPLBridge::withdraw(sg(who), a, amount, xa(dest), tag)) };
	ensure_eq!(P16, r.is_ok(), must, "withdraw-result", "{what}: {r:?}"); events();
	let msgs = out();
	if r.is_err() { vk::hit("withdraw_rejected"); same(&P16, "failed-withdrawal", &pre, &what); ensure!(P16, msgs.is_empty(), "sent-by-failed", "{what}"); return }
	same(&P16, "debit", &e, &what);
	let x = Wd { asset: a, amount: net, fee, dest, tag, due: at };
	if let Some(_) = delay { vk::hit("delayed"); ensure!(P16, msgs.is_empty(), "delayed-sent-early", "{what}"); m.delayed.push(x); return }
	ensure_eq!(P16, msgs.len(), 1, "messages", "{what}");
	for b in msgs { let Some(b) = parse(&b) else { ensure!(P16, false, "unreadable-transaction", "{what}: {b:02x?}"); continue };
		ensure!(P16, payment_matches(m, &b, &x), "message-content", "{what}: {b:?} mapped {:?}", m.maps.get(&a)); common(&P16, m, 0, 0, fee, &b, &what); }
	vk::hit(match a { 2 => "withdraw_xrp", 1 => "withdraw_root", _ => "withdraw_asset" });
}
fn door_op(m: &mut X, rng: &mut Rng) {
	let e = balances(); let d = rng.below(2) as usize; use pallet_xrpl_bridge::*;
	match rng.below(10) {
		0..=3 => { // a relayer declares the next tickets
			let p = DoorTicketSequenceParams::<Test>::get(DOORS[d]); let c = DoorTicketSequence::<Test>::get(DOORS[d]); let edge = p.start_sequence.max(c);
			let s = match rng.below(6) { 0 => edge.saturating_sub(rng.below(6) as u32), 1 => edge + rng.below(4) as u32, 2 => edge, _ => p.start_sequence + p.bucket_size + rng.below(4) as u32 }; let size = if rng.chance(8) { 0 } else { rng.range(1, 14) as u32 };
			let by = if rng.chance(90) { rng.range(7, 9) } else { 3 }; let what = format!("next tickets of door {d}: {s}+{size} by {by} (current {c} of {p:?})"); vk::op(&what);
			let r = txs(|| XRPLBridge::set_ticket_sequence_next_allocation(sg(create_account(by)), DOORS[d], s, size));
			let ok = m.relayers.contains(&by) && s >= c && s >= p.start_sequence && size > 0; ensure_eq!(P16, r.is_ok(), ok, "next-tickets", "{what}: {r:?}");
			if r.is_ok() { m.alloc[d].push((s as u64, s as u64 + size as u64)); vk::hit("next_tickets") } else { vk::hit("next_tickets_rejected") }
		},
		4 => { let p = DoorTicketSequenceParams::<Test>::get(DOORS[d]); let c = DoorTicketSequence::<Test>::get(DOORS[d]);
			let s = (p.start_sequence.max(c) + rng.below(4) as u32).saturating_sub(rng.below(3) as u32); let t = s + rng.below(2) as u32; let size = rng.range(1, 20) as u32; let by_root = rng.chance(90); vk::op(&format!("root sets tickets of door {d}: {t} in {s}+{size}"));
			let r = txs(|| XRPLBridge::set_ticket_sequence_current_allocation(if by_root { root() } else { sg(create_account(7)) }, DOORS[d], t, s, size));
			ensure_eq!(P16, r.is_ok(), by_root && t >= c && s >= p.start_sequence, "current-tickets", "{t} {s} {size}: {r:?}"); if r.is_ok() { m.alloc[d].push((t as u64, s as u64 + size as u64)) } },
		5 => { m.door[d] = match rng.below(3) { 0 => None, x => Some(h20(900 + d as u64 + 10 * x)) }; vk::op(&format!("door {d} {:02x?}", m.door[d])); XRPLBridge::set_door_address(root(), DOORS[d], m.door[d].map(xa)).unwrap(); },
		6 => { m.fee[d] = rng.below(3_000_000); vk::op(&format!("door {d} fee {}", m.fee[d])); XRPLBridge::set_door_tx_fee(root(), DOORS[d], m.fee[d]).unwrap(); ensure!(P16, XRPLBridge::set_door_tx_fee(sg(who_of(rng)), DOORS[d], 0).is_err() && XRPLBridge::set_door_address(sg(who_of(rng)), DOORS[d], None).is_err(), "door-by-user", ""); if rng.chance(30) { m.tag = rng.u32(); XRPLBridge::set_xrp_source_tag(root(), m.tag).unwrap(); } },
		7 => { let a = *rng.pick(&m.dec.keys().copied().collect::<Vec<_>>()); if rng.chance(75) { let p = (rng.amount(1_000_000), rng.below(9) as u32); m.pd.insert(a, p); vk::op(&format!("payment delay of asset {a}: {p:?}")); XRPLBridge::set_payment_delay(root(), a, Some((p.0, p.1.saturated_into()))).unwrap(); } else { m.pd.remove(&a); XRPLBridge::set_payment_delay(root(), a, None).unwrap(); } ensure!(P16, XRPLBridge::set_payment_delay(sg(who_of(rng)), a, None).is_err(), "delay-by-user", ""); },
		8 => { // a new list of signers for both doors
			let list: Vec<(XrplAccountId, u16)> = (0..rng.range(1, 8)).map(|i| (xa(h20(70 + i)), rng.range(1, 3) as u16)).collect(); let av = ticket_available(0) && ticket_available(1) && m.door.iter().all(|d| d.is_some());
			let what = format!("signer list {list:?}"); vk::op(&what);
			let r = txs(|| <XRPLBridge as seed_pallet_common::EthyToXrplBridgeAdapter<XrplAccountId>>::submit_signer_list_set_request(list.clone())); ensure_eq!(P16, r.is_ok(), av, "signer-list", "{what}: {r:?}");
			let msgs = out(); ensure_eq!(P16, msgs.len(), if r.is_ok() { 2 } else { 0 }, "signer-list-messages", "{what}");
			for (d, b) in msgs.iter().enumerate() { let Some(b) = parse(b) else { ensure!(P16, false, "unreadable-transaction", "{what}: {b:02x?}"); continue }; let fee = m.fee[d]; common(&P16, m, d, 12, fee, &b, &what);
				ensure_eq!(P16, b.signers, list.iter().map(|x| (x.0 .0, x.1 as u64)).collect::<Vec<_>>(), "signers", "{what}"); ensure_eq!(P16, b.ints.get(&(2, 35)).copied(), Some(list.len() as u64 - 1), "quorum", "{what}"); vk::hit("signer_list") }
		},
		_ => { // accept an NFT sell offer on the XRPL
			let by = if rng.chance(85) { rng.range(7, 9) } else { 2 }; let mut o = [0u8; 32]; o[..8].copy_from_slice(&rng.u64().to_le_bytes()); let ok = m.relayers.contains(&by) && m.door[1].is_some() && ticket_available(1);
			let what = format!("accept offer {o:02x?} by {by}"); vk::op(&what);
			let r = txs(|| XRPLBridge::generate_nft_accept_offer(sg(create_account(by)), o)); ensure_eq!(P16, r.is_ok(), ok, "accept-offer", "{what}: {r:?}");
			let msgs = out(); ensure_eq!(P16, msgs.len(), r.is_ok() as usize, "accept-offer-messages", "{what}");
			for b in msgs { let Some(b) = parse(&b) else { ensure!(P16, false, "unreadable-transaction", "{what}: {b:02x?}"); continue }; let fee = m.fee[1]; common(&P16, m, 1, 29, fee, &b, &what); ensure_eq!(P16, b.hashes.get(&29).copied(), Some(o), "offer-id", "{what}"); vk::hit("accept_offer") }
		},
	}
	events(); same(&P16, "administration", &e, "administration moves nothing"); nothing_sent(&P16, "administration");
}
// ------------------------------------------------------------------ XLS-20
fn fee_paid(m: &X, e: &mut Bal, who: AccountId, count: u128) -> bool { match m.xrel { Some(r) if m.xfee > 0 => mv(e, 2, who, r, m.xfee.saturating_mul(count)), _ => true } }
fn requests(evs: &[RuntimeEvent]) -> Vec<(u32, Vec<u32>)> { evs.iter().filter_map(|e| match e { RuntimeEvent::Xls20(pallet_xls20::Event::Xls20MintRequest { collection_id, serial_numbers, .. }) => Some((*collection_id, serial_numbers.clone())), _ => None }).collect() }
fn nft_op(m: &mut X, rng: &mut Rng) {
	let pre = balances(); let mut e = pre.clone(); let who = who_of(rng); let own0 = m.own.clone();
	let col = m.native.keys().copied().collect::<Vec<_>>(); let c = if col.is_empty() { 999 } else { *rng.pick(&col) };
	let info = m.native.get(&c).cloned();
	let act = if rng.chance(12) { 18 } else { rng.below(20) }; let owner = info.as_ref().map_or(who, |i| i.0); let by = if rng.chance(80) { owner } else { who };
	match act {
		0..=2 => { if m.native.len() >= 4 { return } let x = rng.chance(55); let init = if rng.chance(25) { rng.range(1, 4) as u32 } else { 0 }; let id = Nft::next_collection_uuid().unwrap(); vk::op(&format!("create collection {id} by {who:?} xrpl {x} initial {init}"));
			let r = txs(|| Nft::create_collection(sg(who), b"c".to_vec().try_into().unwrap(), init, None, None, seed_primitives::MetadataScheme::try_from(b"https://a/".as_slice()).unwrap(), None, seed_primitives::CrossChainCompatibility { xrpl: x }));
			ensure!(P35, !(r.is_ok() && x && init > 0), "free-initial-mint", "collection {id} created XLS-20 compatible with {init} tokens that paid no fee");
			if r.is_ok() { m.native.insert(id, (who, x)); for s in 0..init { m.own.insert((id, s), who); } } },
		3 => { let empty = !m.own.keys().any(|k| k.0 == c); vk::op(&format!("enable xls20 of {c} by {by:?}")); let r = txs(|| Xls20::enable_xls20_compatibility(sg(by), c)); let ok = info.is_some() && by == owner && empty;
			ensure_eq!(P35, r.is_ok(), ok, "enable", "collection {c} by {by:?}, empty {empty}: {r:?}"); if r.is_ok() { vk::hit("xls20_enabled"); m.native.get_mut(&c).unwrap().1 = true } else { vk::hit("xls20_enable_rejected") } },
		4..=7 => { // a mint in a compatible collection asks for, and pays for, the XRPL side
			if rng.chance(15) && info.is_some() { let _ = Nft::toggle_public_mint(sg(owner), c, rng.chance(60)); events(); }
			let q = if m.big && rng.chance(50) { rng.range(250, 300) as u32 } else { rng.range(1, 6) as u32 }; let to = who_of(rng); let x = info.as_ref().map_or(false, |i| i.1); let next = pallet_nft::CollectionInfo::<Test>::get(c).map_or(0, |i| i.next_serial_number);
			let what = format!("mint {q} in {c} (xrpl {x}) by {by:?} to {to:?} fee {} relayer {:?}", m.xfee, m.xrel); vk::op(&what);
			let r = txs(|| Nft::mint(sg(by), c, q, Some(to))); let evs = events();
			let paid = !x || fee_paid(m, &mut e, by, q as u128); let fits = m.own.keys().filter(|k| k.0 == c).count() as u32 + q < MaxTokensPerCollection::get() && next + q <= MaxTokensPerCollection::get();
			if r.is_ok() { ensure!(P35, paid, "mint-unpaid", "{what}"); let s: Vec<u32> = (next..next + q).collect(); ensure_eq!(P35, requests(&evs), if x { vec![(c, s.clone())] } else { vec![] }, "mint-request", "{what}"); for s in s { m.own.insert((c, s), to); } if x { vk::hit("xls20_mint"); if m.xfee > 0 && m.xrel.is_some() { vk::hit("xls20_fee_paid") } } }
			else { e = pre.clone(); ensure!(P35, !(info.is_some() && by == owner && paid && fits), "mint-failed", "{what}: {r:?}"); if !paid { vk::hit("xls20_unpaid_refused") } } },
		8..=10 => { let x = info.as_ref().map_or(false, |i| i.1); let mine: Vec<u32> = m.own.keys().filter(|k| k.0 == c).map(|k| k.1).collect();
			let mut s: Vec<u32> = vec![]; let all = m.big && rng.chance(60); if all { s = mine.iter().copied().filter(|t| !m.xid.contains_key(&(c, *t))).take(350).collect(); } for _ in 0..rng.below(if all { 2 } else { 5 }) { if s.len() < 350 && !mine.is_empty() && rng.chance(90) { let t = *rng.pick(&mine); if rng.chance(80) && m.xid.contains_key(&(c, t)) { continue } if !s.contains(&t) { s.push(t) } } else if s.len() < 350 && rng.chance(30) { s.push(rng.below(30) as u32) } }
			// long lists with one bad entry anywhere
			if !all && rng.chance(30) { s = mine.iter().copied().filter(|t| !m.xid.contains_key(&(c, *t))).take(rng.range(4, 23) as usize).collect(); if rng.chance(60) { let mapped: Vec<u32> = mine.iter().copied().filter(|t| m.xid.contains_key(&(c, *t))).collect(); let bad = if mapped.is_empty() || rng.chance(30) { 5000 + rng.below(9) as u32 } else { *rng.pick(&mapped) }; let at = rng.below(s.len() as u64 + 1) as usize; s.insert(at, bad); if s.len() > 9 { vk::hit("re_request_long_bad") } } }
			let ok0 = info.is_some() && x && by == owner && !s.is_empty() && s.iter().all(|t| m.own.contains_key(&(c, *t)) && !m.xid.contains_key(&(c, *t))); let paid = fee_paid(m, &mut e, by, s.len() as u128);
			let what = format!("re-request {s:?} of {c} (xrpl {x}) by {by:?} fee {}", m.xfee); vk::op(&what);
			let r = txs(|| Xls20::re_request_xls20_mint(sg(by), c, s.clone().try_into().unwrap())); let evs = events();
			ensure_eq!(P35, r.is_ok(), ok0 && paid, "re-request", "{what}: {r:?}"); if r.is_ok() { vk::hit("re_requested"); ensure_eq!(P35, requests(&evs), vec![(c, s)], "re-request-event", "{what}") } else { e = pre.clone(); vk::hit("re_request_rejected") } },
		11..=14 => { let mine: Vec<(u32, u32)> = m.own.keys().copied().collect(); let c = if rng.chance(75) || mine.is_empty() { c } else { rng.pick(&mine).0 }; let mine: Vec<u32> = mine.iter().filter(|k| k.0 == c).map(|k| k.1).collect();
			let mut maps: Vec<(u32, [u8; 32])> = vec![]; for _ in 0..if rng.chance(25) { rng.below(25) } else { rng.below(5) } { let t = if !mine.is_empty() && rng.chance(92) { *rng.pick(&mine) } else { rng.below(30) as u32 }; if rng.chance(75) && (m.xid.contains_key(&(c, t)) || maps.iter().any(|x| x.0 == t)) { continue } maps.push((t, token_id(8, 0, h20(901), 5, rng.u32()))) }
			let by = if rng.chance(85) { create_account(9) } else { by }; let mut seen = BTreeSet::new();
			let exists = pallet_nft::CollectionInfo::<Test>::contains_key(c); let ok = Some(by) == m.xrel && exists && !maps.is_empty() && maps.iter().all(|x| m.own.contains_key(&(c, x.0)) && !m.xid.contains_key(&(c, x.0)) && seen.insert(x.0));
			let what = format!("fulfil {:?} of {c} by {by:?} (relayer {:?})", maps.iter().map(|x| x.0).collect::<Vec<_>>(), m.xrel); vk::op(&what);
			let r = txs(|| Xls20::fulfill_xls20_mint(sg(by), c, maps.clone().try_into().unwrap())); ensure_eq!(P35, r.is_ok(), ok, "fulfil", "{what}: {r:?}");
			if r.is_ok() { vk::hit("fulfilled"); for (s, i) in maps { m.xid.insert((c, s), i); } } else { vk::hit("fulfil_rejected"); if Some(by) != m.xrel { vk::hit("fulfil_by_stranger") } } },
		15..=17 => { // back to the XRPL
			let mine: Vec<(u32, u32)> = m.own.iter().filter(|x| x.1 == &who || rng.chance(10)).map(|x| *x.0).collect(); let pref: Vec<_> = mine.iter().copied().filter(|k| m.xid.contains_key(k)).collect(); let t = if !pref.is_empty() && rng.chance(85) { *rng.pick(&pref) } else if !mine.is_empty() { *rng.pick(&mine) } else { (c, 0) };
			let compat = m.native.get(&t.0).map_or(m.cols.values().any(|x| *x == t.0), |i| i.1); let dest = h20(40 + rng.below(3));
			let ok = compat && m.own.get(&t) == Some(&who) && !m.locked.contains(&t) && m.xid.contains_key(&t) && m.door[1].is_some() && ticket_available(1); let what = format!("withdraw NFT {t:?} by {who:?} to {dest:02x?} (id {:02x?}, door {})", m.xid.get(&t), m.door[1].is_some()); vk::op(&what);
			let r = txs(|| XRPLBridge::withdraw_nft(sg(who), t, xa(dest))); ensure_eq!(P35, r.is_ok(), ok, "withdraw-nft", "{what}: {r:?}"); let msgs = out(); ensure_eq!(P35, msgs.len(), r.is_ok() as usize, "withdraw-nft-messages", "{what}");
			if r.is_ok() { vk::hit("withdraw_nft"); m.own.remove(&t); for b in msgs { let Some(b) = parse(&b) else { ensure!(P35, false, "unreadable-transaction", "{what}: {b:02x?}"); continue }; let fee = m.fee[1]; common(&["C16", "C35"], m, 1, 27, fee, &b, &what);
				ensure_eq!(P35, b.hashes.get(&10), m.xid.get(&t), "offered-token", "{what}"); ensure_eq!(P35, b.accounts.get(&3).cloned(), Some(dest.to_vec()), "offer-destination", "{what}"); ensure_eq!(P35, b.amounts.get(&1).cloned(), Some(Amt::Drops(0)), "offer-price", "{what}"); ensure_eq!(P35, b.ints.get(&(2, 2)).map(|f| f & 1), Some(1), "offer-is-sell", "{what}"); } } else { vk::hit("withdraw_nft_rejected") } },
		18 => { let mine: Vec<_> = m.own.iter().map(|x| (*x.0, *x.1)).collect(); if mine.is_empty() { return } let (t, o) = *rng.pick(&mine); if m.locked.remove(&t) || rng.chance(25) { let on = !pallet_nft::TokenLocks::<Test>::contains_key(t); vk::op(&format!("token {t:?} listed for sale: {on}")); if on { pallet_nft::TokenLocks::<Test>::insert(t, seed_primitives::TokenLockReason::Listed(1)); m.locked.insert(t); vk::hit("listed_token") } else { pallet_nft::TokenLocks::<Test>::remove(t) } return } vk::op(&format!("burn {t:?} by {o:?}")); if rng.chance(60) { if txs(|| Nft::burn(sg(o), t)).is_ok() { m.own.remove(&t); } } else if txs(|| Nft::transfer(sg(o), t.0, vec![t.1].try_into().unwrap(), who)).is_ok() { m.own.insert(t, who); } },
		_ => { vk::op("xls20 administration"); if rng.chance(60) { m.xfee = match rng.below(6) { 0 => 0, 1 => u32::MAX as u128 + rng.below(9) as u128, 2 => u128::MAX, _ => rng.below(200_000) as u128 }; Xls20::set_xls20_fee(root(), m.xfee).unwrap(); } else { let r = create_account(rng.range(9, 11)); m.xrel = Some(r); Xls20::set_relayer(root(), r).unwrap(); }
			ensure!(P35, Xls20::set_xls20_fee(sg(who), 0).is_err() && Xls20::set_relayer(sg(who), who).is_err() && txs(|| Xls20::set_collection_mappings(sg(who), vec![])).is_err(), "admin-by-user", "{who:?}"); },
	}
	if m.own != own0 { vk::hit("nft_changes") }
	events(); same(&P35, "fees", &e, &format!("NFT operation {act} in block {}", m.n)); nothing_sent(&P35, "NFT operation");
}
