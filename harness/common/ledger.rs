// helpers shared by harness crates (pulled in with include!): they read the complete fungible state of the runtime under test
#[allow(dead_code)] pub type Bal = BTreeMap<(AssetId, AccountId), Balance>;
/// every spendable or reserved balance on the chain
#[allow(dead_code)] pub fn balances() -> Bal {
	let mut m = Bal::new();
	for (who, a) in frame_system::Account::<Test>::iter() { let t = a.data.free + a.data.reserved; if t > 0 { m.insert((1, who), t); } }
	for (id, who, a) in pallet_assets::Account::<Test>::iter() { if a.balance > 0 { m.insert((id, who), a.balance); } }
	m
}
#[allow(dead_code)] pub fn issuance(asset: AssetId) -> Balance { use frame_support::traits::tokens::fungibles::Inspect; <AssetsExt as Inspect<AccountId>>::total_issuance(asset) }
#[allow(dead_code)] pub fn all_assets() -> Vec<AssetId> { let mut v: Vec<AssetId> = pallet_assets::Asset::<Test>::iter_keys().collect(); v.push(1); v.sort(); v }
#[allow(dead_code)] pub fn sums(b: &Bal) -> BTreeMap<AssetId, Balance> { let mut m = BTreeMap::new(); for ((a, _), v) in b { *m.entry(*a).or_insert(0) += v; } m }
#[allow(dead_code)] pub fn add(m: &mut Bal, k: (AssetId, AccountId), v: Balance) { if v > 0 { *m.entry(k).or_insert(0) += v } }
/// false when the balance is too small
#[allow(dead_code)] pub fn sub(m: &mut Bal, k: (AssetId, AccountId), v: Balance) -> bool { if v == 0 { return true } match m.get_mut(&k) { Some(x) if *x >= v => { *x -= v; if *x == 0 { m.remove(&k); } true }, _ => false } }
#[allow(dead_code)] pub fn diff(a: &Bal, b: &Bal) -> String { let mut o = String::new(); for k in a.keys().chain(b.keys()).collect::<std::collections::BTreeSet<_>>() { let (x, y) = (a.get(k).copied().unwrap_or(0), b.get(k).copied().unwrap_or(0)); if x != y { o += &format!("[asset {} acct {:?}: expected {x} got {y}] ", k.0, k.1) } } o }
#[allow(dead_code)] pub fn events() -> Vec<RuntimeEvent> { let e = System::events().into_iter().map(|r| r.event).collect(); System::reset_events(); e }
/// run `f` as a dispatchable would be: all changes are dropped when it fails
#[allow(dead_code)] pub fn tx<R>(f: impl FnOnce() -> Result<R, DispatchError>) -> Result<R, DispatchError> { frame_support::storage::with_storage_layer(f) }

/// sum of balances vs issuance for every asset (assets with a minimum above 1 may lose dust: pallet-assets' own behaviour)
#[allow(dead_code)]
#[allow(dead_code)] pub fn check_sums(pids: &[&str], what: &str) {
	let b = balances(); let s = sums(&b);
	for a in all_assets() {
		if pallet_assets::Asset::<Test>::get(a).map_or(false, |d| d.min_balance > 1) { continue }
		if vk::any(pids) { let (x, y) = (s.get(&a).copied().unwrap_or(0), issuance(a)); vk::hit("monitor_evaluations"); if x != y { vk::fail("sum-vs-issuance", format!("after {what}: balances of asset {a} sum to {x}, issuance {y}")) } }
	}
}
/// move within an expected balance map; false when the payer has too little
#[allow(dead_code)]
#[allow(dead_code)] pub fn mv(m: &mut Bal, asset: AssetId, from: AccountId, to: AccountId, v: Balance) -> bool { if sub(m, (asset, from), v) { add(m, (asset, to), v); true } else { false } }
