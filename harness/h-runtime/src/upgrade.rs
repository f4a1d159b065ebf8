//! C39: the storage upgrade of NFI, run by the runtime's own list of migrations on chains with records of the old layout
use crate::rt::*;
use crate::*;
use codec::Encode;
use frame_support::{storage::storage_prefix, traits::{GetStorageVersion, StorageVersion}, StorageHasher, Twox64Concat};
use pallet_nfi::types::*;
use seed_runtime::{Nfi, Runtime};
use std::collections::BTreeMap;
type Data = NFIDataType<<Runtime as pallet_nfi::Config>::MaxDataLength>;
type Len = <Runtime as pallet_nfi::Config>::MaxByteLength;
type Raw = BTreeMap<Vec<u8>, Vec<u8>>;
fn key(item: &str, k1: Vec<u8>) -> Vec<u8> { let mut k = storage_prefix(b"Nfi", item.as_bytes()).to_vec(); k.extend(Twox64Concat::hash(&k1)); k.extend(Twox64Concat::hash(&NFISubType::NFI.encode())); k }
/// a switch that is off may be a record or none
fn seen() -> Raw { let p = storage_prefix(b"Nfi", b"NfiEnabled"); state().into_iter().filter(|(k, v)| !(k.starts_with(&p) && v == &vec![0])).collect() }
fn number(rng: &mut Rng) -> u32 { match rng.below(9) { 0 => 0, 1 => u32::MAX, 2 => rng.u64() as u32, 3 => (1 << 16) + rng.below(3) as u32, 4 => (1 << 24) + rng.below(3) as u32, 5 => (1 + rng.below(40) as u32) << 10 | 100, _ => rng.below(70_000) as u32 } }
fn value(rng: &mut Rng) -> Data { let n = match rng.below(6) { 0 => 0, 1 => 100, _ => rng.below(60) } as usize; NFIDataType::NFI(NFIMatrix { metadata_link: (0..n).map(|_| rng.u64() as u8).collect::<Vec<_>>().try_into().unwrap(), verification_hash: sp_core::H256::random_like(rng) }) }
trait RandomLike { fn random_like(rng: &mut Rng) -> Self; }
impl RandomLike for sp_core::H256 { fn random_like(rng: &mut Rng) -> Self { let mut b = [0u8; 32]; for x in &mut b { *x = rng.u64() as u8 } sp_core::H256(b) } }
fn token(chain_id: u64, c: u32, s: u32) -> MultiChainTokenId<Len> { MultiChainTokenId { chain_id, collection_id: GenericCollectionId::U32(c), serial_number: GenericSerialNumber::U32(s) } }
fn diff(a: &Raw, b: &Raw) -> Vec<String> {
	let hex = |k: &[u8]| k.iter().map(|x| format!("{x:02x}")).collect::<String>();
	a.keys().chain(b.keys()).collect::<std::collections::BTreeSet<_>>().into_iter().filter(|k| a.get(*k) != b.get(*k)).map(|k| format!("{}: {:?} expected {:?}", hex(k), a.get(k).map(|x| hex(x)), b.get(k).map(|x| hex(x)))).collect()
}
fn one(rng: &mut Rng) {
	let chain_id: u64 = match rng.below(6) { 0 => 7668, 1 => 0, 2 => rng.u64(), 3 => u64::MAX, _ => 7672 };
	if chain_id != 7672 || rng.chance(30) { pallet_evm_chain_id::ChainId::<Runtime>::put(chain_id); }
	let done = rng.chance(12); // a chain already upgraded
	let n = match rng.below(8) { 0 => 0, 1 => 1, 2 => 150 + rng.below(150), _ => 2 + rng.below(30) };
	let m = match rng.below(6) { 0 => 0, 1 => 40 + rng.below(60), _ => 1 + rng.below(12) };
	let mut data: BTreeMap<(u32, u32), Data> = BTreeMap::new(); let mut on: BTreeMap<u32, bool> = BTreeMap::new();
	let base = number(rng);
	for _ in 0..n { let c = if rng.chance(60) { base } else { number(rng) }; data.insert((c, number(rng)), value(rng)); }
	for _ in 0..m { on.insert(number(rng), rng.chance(80)); }
	// what the upgrade has no business with
	pallet_nfi::MintFee::<Runtime>::insert(NFISubType::NFI, FeeDetails { asset_id: XRP, amount: amt(rng, 1000), receiver: acct(1) }); pallet_nfi::Relayer::<Runtime>::put(acct(2));
	StorageVersion::new(if done { 1 } else { 0 }).put::<Nfi>();
	let rest = seen();
	let put = |k: Vec<u8>, v: Vec<u8>| sp_io::storage::set(&k, &v);
	for (t, v) in &data { put(key("NfiData", if done { token(chain_id, t.0, t.1).encode() } else { t.encode() }), v.encode()) }
	for (c, v) in &on { put(key("NfiEnabled", if done { (chain_id, GenericCollectionId::<Len>::U32(*c)).encode() } else { c.encode() }), v.encode()) }
	let mut want = rest.clone(); StorageVersion::new(1).put::<Nfi>(); let vk_ = StorageVersion::storage_key::<Nfi>().to_vec(); want.insert(vk_.clone(), sp_io::storage::get(&vk_).unwrap().to_vec()); StorageVersion::new(if done { 1 } else { 0 }).put::<Nfi>();
	for (t, v) in &data { want.insert(key("NfiData", token(chain_id, t.0, t.1).encode()), v.encode()); }
	for (c, v) in &on { if *v { want.insert(key("NfiEnabled", (chain_id, GenericCollectionId::<Len>::U32(*c)).encode()), v.encode()); } }
	vk::op(format!("chain {chain_id} already {done}: tokens {:?} switches {on:?}", data.keys().collect::<Vec<_>>()));
	for round in 0..2 {
		let w = seed_runtime::upgrade(); vk::op(format!("upgrade -> {w:?}"));
		let got = seen(); let d = diff(&got, &want);
		ensure!(["C39"], d.is_empty(), if round == 0 { "moved" } else { "again" }, "after upgrade {}: {} records differ: {:?}", round + 1, d.len(), d.iter().take(4).collect::<Vec<_>>());
		ensure!(["C39"], Nfi::on_chain_storage_version() == 1, "version", "the chain's NFI storage version is {:?}", Nfi::on_chain_storage_version());
		for (t, v) in &data { let got = pallet_nfi::NfiData::<Runtime>::get(token(chain_id, t.0, t.1), NFISubType::NFI); ensure!(["C39"], got.as_ref() == Some(v), "read", "the data of token {t:?} reads {got:?}, was {v:?}"); }
		for (c, v) in &on { let got = pallet_nfi::NfiEnabled::<Runtime>::get((chain_id, GenericCollectionId::U32(*c)), NFISubType::NFI); ensure!(["C39"], got == *v, "switch", "collection {c} reads {got}, was {v}"); }
		let n = pallet_nfi::NfiData::<Runtime>::iter().count(); ensure!(["C39"], n == data.len(), "count", "{n} tokens have data, {} had", data.len());
	}
	if done { vk::hit("already_done") } else { vk::hit("upgraded"); if data.is_empty() && on.is_empty() { vk::hit("nothing_stored") } if data.len() > 100 { vk::hit("many") } if data.len() > 1 { vk::hit("several") } if on.values().any(|v| !v) { vk::hit("switched_off") } if chain_id != 7672 { vk::hit("other_chain") } }
	// the chain goes on: data of moved tokens is replaced, not doubled
	if let Some((t, _)) = data.iter().next() {
		let v = value(rng); let NFIDataType::NFI(_) = v.clone(); let who = acct(2); let n = pallet_nfi::NfiData::<Runtime>::iter().count();
		let r = signed(who, seed_runtime::RuntimeCall::Nfi(pallet_nfi::Call::submit_nfi_data { token_id: token(chain_id, t.0, t.1), data_item: v.clone() }));
		vk::op(format!("submit for {t:?}: {r:?}"));
		if r.is_ok() { vk::hit("replaced"); let m = pallet_nfi::NfiData::<Runtime>::iter().count(); ensure!(["C39"], n == m && pallet_nfi::NfiData::<Runtime>::get(token(chain_id, t.0, t.1), NFISubType::NFI) == Some(v), "replaced", "replacing the data of {t:?} left {m} records of {n}") }
	}
}
pub fn run() { vk::episodes(vk::tier(6000, 60000), |_, rng| chain(3, || for _ in 0..1 { one(rng) })) }
pub const REQUIRED: &[&str] = &["upgraded", "already_done", "nothing_stored", "many", "several", "switched_off", "other_chain"];
