//! Workload driver and monitor kit shared by every harness.
//!
//! A harness binary registers one workload per property. A run executes many seeded episodes (each on a fresh
//! in-memory chain state) spread over threads; monitors observe every step and report through `ensure!`.
use std::{any::Any, cell::RefCell, collections::{BTreeMap, HashSet, hash_map::DefaultHasher}, hash::{Hash, Hasher}, panic, sync::{Arc, Mutex, atomic::{AtomicU64, AtomicBool, Ordering}}, time::Instant};

#[derive(Clone, Debug)]
pub struct Rng(u64);
impl Rng {
	pub fn new(seed: u64) -> Self { let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15); for _ in 0..4 { r.u64(); } r }
	pub fn u64(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB); z ^ (z >> 31) }
	pub fn u32(&mut self) -> u32 { self.u64() as u32 }
	pub fn u128(&mut self) -> u128 { (self.u64() as u128) << 64 | self.u64() as u128 }
	/// uniform in 0..n (n > 0)
	pub fn below(&mut self, n: u64) -> u64 { self.u64() % n.max(1) }
	pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 { lo + self.below(hi_incl - lo + 1) }
	pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len() as u64) as usize] }
	pub fn chance(&mut self, pct: u64) -> bool { self.below(100) < pct }
	pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u64() as u8).collect() }
	/// amounts of very different magnitude: tiny, round, near a given pivot, huge
	pub fn amount(&mut self, pivot: u128) -> u128 {
		match self.below(10) {
			0 => self.below(4) as u128,
			1 => pivot,
			2 => pivot.saturating_add(self.below(3) as u128),
			3 => pivot.saturating_sub(self.below(3) as u128),
			4 => 10u128.pow(self.below(19) as u32),
			5 if pivot > 0 => pivot / (1 + self.below(9) as u128),
			6 => 1u128 << self.below(70),
			_ if pivot > 0 => self.u128() % pivot,
			_ => self.below(1000) as u128,
		}
	}
	pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i as u64 + 1) as usize; v.swap(i, j) } }
}

pub struct Known { pub property: String, pub key: String, pub what: String }
struct Shared {
	pid: String, tier: String, seed: u64,
	known: Vec<Known>,
	counters: Mutex<BTreeMap<String, u64>>, states: Mutex<HashSet<u64>>, known_hits: Mutex<BTreeMap<String, (String, u64)>>, samples: Mutex<Vec<Vec<String>>>,
	violation: Mutex<Option<Violation>>, stop: AtomicBool, notes: Mutex<Vec<String>>, episodes: AtomicU64,
	only: Option<u64>, started: Instant, budget_ms: u64,
}
#[derive(Clone)] pub struct Violation { pub key: String, pub msg: String, pub episode: u64, pub trace: Vec<String> }
#[derive(Default)] struct Local { counters: BTreeMap<&'static str, u64>, dyn_counters: BTreeMap<String, u64>, states: HashSet<u64>, trace: Vec<String>, last_panic: Option<(String, String)>, muted: bool }
thread_local! { static L: RefCell<Local> = RefCell::new(Local::default()); static SH: RefCell<Option<Arc<Shared>>> = const { RefCell::new(None) }; }
struct Stop;
struct Skip;

fn shared() -> Arc<Shared> { SH.with(|s| s.borrow().clone().expect("vkit context")) }
/// count an observed event
pub fn hit(k: &'static str) { hit_n(k, 1) }
/// run without counting
pub fn quiet<R>(f: impl FnOnce() -> R) -> R { L.with(|l| l.borrow_mut().muted = true); let r = f(); L.with(|l| l.borrow_mut().muted = false); r }
pub fn hit_n(k: &'static str, n: u64) { L.with(|l| { let mut l = l.borrow_mut(); if !l.muted { *l.counters.entry(k).or_default() += n } }) }
pub fn hit_s(k: String) { L.with(|l| { let mut l = l.borrow_mut(); if !l.muted { *l.dyn_counters.entry(k).or_default() += 1 } }) }
/// record a distinct observed state
pub fn state<T: Hash>(t: &T) { let mut h = DefaultHasher::new(); t.hash(&mut h); let v = h.finish(); L.with(|l| { let s = &mut l.borrow_mut().states; if s.len() < 2_000_000 { s.insert(v); } }) }
/// append to the operation trace of the current episode
pub fn op(s: impl Into<String>) { hit("ops"); L.with(|l| { let t = &mut l.borrow_mut().trace; t.push(s.into()); if t.len() > 400 { t.remove(0); } }) }
pub fn pid() -> String { shared().pid.clone() }
pub fn is(p: &str) -> bool { SH.with(|s| s.borrow().as_ref().map_or(false, |s| s.pid == p)) }
pub fn any(p: &[&str]) -> bool { p.iter().any(|x| is(x)) }
pub fn thorough() -> bool { shared().tier == "thorough" }
/// choose a size by tier
pub fn tier(quick: u64, thorough_: u64) -> u64 { if thorough() { thorough_ } else { quick } }
pub fn note(s: impl Into<String>) { shared().notes.lock().unwrap().push(s.into()) }
/// report a violated monitor; ends the episode
pub fn fail(key: &str, msg: String) -> ! {
	let sh = shared();
	if let Some(k) = sh.known.iter().find(|k| k.property == sh.pid && k.key == key) {
		sh.known_hits.lock().unwrap().entry(key.into()).or_insert((k.what.clone(), 0)).1 += 1;
		panic::resume_unwind(Box::new(Skip));
	}
	L.with(|l| l.borrow_mut().last_panic = Some((key.to_string(), msg)));
	panic::resume_unwind(Box::new(Stop))
}
/// end the episode without a verdict
pub fn skip() -> ! { panic::resume_unwind(Box::new(Skip)) }
pub fn fail_known(key: &str) -> bool { let sh = shared(); if let Some(k) = sh.known.iter().find(|k| k.property == sh.pid && k.key == key) { sh.known_hits.lock().unwrap().entry(key.into()).or_insert((k.what.clone(), 0)).1 += 1; true } else { false } }
/// `ensure!(pids, cond, key, fmt...)`: a monitor owned by the listed properties
#[macro_export] macro_rules! ensure {
	($pids:expr, $cond:expr, $key:expr, $($f:tt)+) => {{ let __ok: bool = $cond; if $crate::any(&$pids) { $crate::hit("monitor_evaluations"); if !__ok { $crate::fail($key, format!($($f)+)) } } }};
}
#[macro_export] macro_rules! ensure_eq {
	($pids:expr, $a:expr, $b:expr, $key:expr, $($f:tt)+) => { if $crate::any(&$pids) { $crate::hit("monitor_evaluations"); let (a, b) = (&$a, &$b); if *a != *b { $crate::fail($key, format!("{}: left {:?} right {:?}", format!($($f)+), a, b)) } } };
}
/// run one fallible step, turning a panic in the code under test into a violation of the running property
pub fn guard<R>(what: &str, f: impl FnOnce() -> R) -> R {
	match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
		Ok(r) => r,
		Err(e) => { if e.is::<Stop>() || e.is::<Skip>() { panic::resume_unwind(e) } let (loc, m) = take_panic(&e); fail(&format!("panic:{what}"), format!("panicked during {what} at {loc}: {m}")) }
	}
}
fn take_panic(e: &Box<dyn Any + Send>) -> (String, String) {
	let lp = L.with(|l| l.borrow_mut().last_panic.take());
	let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
	lp.unwrap_or(("?".into(), m))
}
/// run `n` seeded episodes over all cores. Every episode gets its own generator.
pub fn episodes(n: u64, f: impl Fn(u64, &mut Rng) + Sync) {
	let sh = shared();
	let base = sh.episodes.load(Ordering::SeqCst);
	let next = AtomicU64::new(0);
	let threads = std::env::var("VERIF_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize);
	let (f, next, shr) = (&f, &next, &sh);
	std::thread::scope(|s| {
		for _ in 0..threads {
			std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
				SH.with(|x| *x.borrow_mut() = Some(shr.clone()));
				loop {
					let i = next.fetch_add(1, Ordering::SeqCst);
					if i >= n || shr.stop.load(Ordering::SeqCst) { break }
					if shr.started.elapsed().as_millis() as u64 > shr.budget_ms && i > 0 { hit("episodes_cut_by_time_budget"); break }
					let ep = base + i;
					if let Some(o) = shr.only { if o != ep { continue } }
					L.with(|l| { let mut l = l.borrow_mut(); l.trace.clear(); l.muted = false });
					let mut rng = Rng::new(shr.seed.wrapping_mul(0x1000_0001_B3).wrapping_add(ep).wrapping_add(hash_str(&shr.pid)));
					let r = panic::catch_unwind(panic::AssertUnwindSafe(|| f(ep, &mut rng)));
					hit("episodes");
					if i < 4 { let t = L.with(|l| l.borrow().trace.iter().rev().take(14).rev().map(|x| x.chars().take(240).collect::<String>()).collect::<Vec<_>>()); let mut sm = shr.samples.lock().unwrap(); if sm.len() < 4 && !t.is_empty() { sm.push(t) } }
					if let Err(e) = r {
						if e.is::<Skip>() { continue }
						let stop = e.is::<Stop>();
						let (loc, m) = take_panic(&e);
						let key = if stop { loc.clone() } else { format!("panic:{loc}") };
						if let Some(k) = shr.known.iter().find(|k| k.property == shr.pid && k.key == key) { shr.known_hits.lock().unwrap().entry(key).or_insert((k.what.clone(), 0)).1 += 1; continue }
						let msg = if stop { m } else { format!("panic at {loc}: {m}") };
						let tr = L.with(|l| l.borrow().trace.clone());
						let mut v = shr.violation.lock().unwrap();
						if v.as_ref().map_or(true, |x| ep < x.episode) { *v = Some(Violation { key, msg, episode: ep, trace: tr }) }
						shr.stop.store(true, Ordering::SeqCst);
					}
				}
				flush(shr);
			}).unwrap();
		}
	});
	sh.episodes.fetch_add(n, Ordering::SeqCst);
}
fn flush(sh: &Shared) {
	L.with(|l| { let mut l = l.borrow_mut();
		let mut c = sh.counters.lock().unwrap();
		for (k, v) in std::mem::take(&mut l.counters) { *c.entry(k.into()).or_default() += v }
		for (k, v) in std::mem::take(&mut l.dyn_counters) { *c.entry(k).or_default() += v }
		sh.states.lock().unwrap().extend(std::mem::take(&mut l.states)); })
}
fn hash_str(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }
pub type Workload = fn();
/// `required`: counters that must be non-zero at the end, otherwise the run observed too little to decide anything
pub struct Spec { pub pid: &'static str, pub run: Workload, pub required: &'static [&'static str] }
pub fn main(specs: &[Spec]) {
	let a: Vec<String> = std::env::args().collect();
	let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
	let pid = get("--property").expect("--property");
	let tier = get("--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
	let seed: u64 = get("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|x| x.parse().ok()).unwrap_or(1);
	let out = get("--out").unwrap_or(".".into());
	let only = get("--episode").and_then(|x| x.parse().ok());
	let known: Vec<Known> = get("--known").and_then(|p| std::fs::read_to_string(p).ok()).and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok()).map(|v| v["known"].as_array().cloned().unwrap_or_default().iter().map(|x| Known { property: x["property"].as_str().unwrap_or("").into(), key: x["key"].as_str().unwrap_or("").into(), what: x["what"].as_str().unwrap_or("").into() }).collect()).unwrap_or_default();
	let spec = specs.iter().find(|s| s.pid == pid).unwrap_or_else(|| { eprintln!("unknown property {pid}"); std::process::exit(2) });
	let budget_ms = get("--budget").and_then(|x| x.parse::<u64>().ok()).unwrap_or(if tier == "thorough" { 600_000 } else { 240_000 });
	let sh = Arc::new(Shared { pid: pid.clone(), tier: tier.clone(), seed, known, counters: Default::default(), states: Default::default(), known_hits: Default::default(), samples: Default::default(), violation: Default::default(), stop: AtomicBool::new(false), notes: Default::default(), episodes: AtomicU64::new(0), only, started: Instant::now(), budget_ms });
	SH.with(|x| *x.borrow_mut() = Some(sh.clone()));
	let verbose = a.iter().any(|x| x == "-v");
	panic::set_hook(Box::new(move |i| {
		let loc = i.location().map(|l| { let f = l.file(); let f = f.rsplit("/src/repo/").next().unwrap_or(f); format!("{}:{}", f, l.line()) }).unwrap_or_default();
		let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
		if verbose { eprintln!("panic {loc}: {m}") }
		let _ = L.try_with(|l| if let Ok(mut l) = l.try_borrow_mut() { l.last_panic = Some((loc, m)) });
	}));
	if let Err(e) = panic::catch_unwind(panic::AssertUnwindSafe(spec.run)) {
		let (k, m) = take_panic(&e);
		if !e.is::<Skip>() { let tr = L.with(|l| l.borrow().trace.clone()); let mut v = sh.violation.lock().unwrap(); if v.is_none() { *v = Some(Violation { key: if e.is::<Stop>() { k } else { format!("panic:{k}") }, msg: m, episode: u64::MAX, trace: tr }) } }
	}
	flush(&sh);
	let counters = sh.counters.lock().unwrap().clone();
	let nstates = sh.states.lock().unwrap().len();
	let viol = sh.violation.lock().unwrap().clone();
	let missing: Vec<&str> = if only.is_some() { vec![] } else { spec.required.iter().filter(|k| counters.get(**k).copied().unwrap_or(0) == 0).copied().collect() };
	let wall = sh.started.elapsed().as_secs_f64();
	let kh = sh.known_hits.lock().unwrap().clone();
	let res = serde_json::json!({ "property": pid, "tier": tier, "seed": seed, "wall_s": wall, "counters": counters, "distinct_states": nstates, "episodes": counters.get("episodes").copied().unwrap_or(0), "notes": *sh.notes.lock().unwrap(), "missing": missing, "samples": *sh.samples.lock().unwrap(),
		"known": kh.iter().map(|(k, v)| serde_json::json!({"key": k, "what": v.0, "hits": v.1})).collect::<Vec<_>>(),
		"violation": viol.as_ref().map(|v| serde_json::json!({"key": v.key, "msg": v.msg, "episode": v.episode, "trace": v.trace, "seed": seed})) });
	std::fs::write(format!("{out}/{pid}.result.json"), serde_json::to_string_pretty(&res).unwrap()).expect("write result");
	for (_, v) in kh.iter() { println!("KNOWN-FINDING: property={pid} {}", v.0) }
	match viol {
		Some(v) => { println!("violated [{}] episode {}: {}", v.key, v.episode, v.msg); for t in v.trace.iter().rev().take(12).rev() { println!("   {}", t.chars().take(300).collect::<String>()) } std::process::exit(1) },
		None if !missing.is_empty() => { println!("violated [nothing-succeeds]: the workload's valid operations never led to {missing:?}"); std::process::exit(1) },
		None => { println!("{pid} held: {} episodes, {} monitor evaluations, {} distinct states, {:.1}s", res["episodes"], counters.get("monitor_evaluations").copied().unwrap_or(0), nstates, wall); std::process::exit(0) },
	}
}
