//! Several real ethy gadgets (worker, gossip validator, RPC) on one finalised chain and a network this harness owns (C32).
//! The monitor hears what every node accepted, sent, stored and announced, and judges each against the chain alone.
#![allow(clippy::all)]
use codec::{Decode, Encode};
use ethy_gadget_rpc::{EthyApiServer, EthyRpcHandler};
use futures::{channel::mpsc::{unbounded, UnboundedReceiver, UnboundedSender}, StreamExt};
use sc_client_api::{AuxStore, Backend, BlockchainEvents, FinalityNotification, Finalizer};
use sc_network::PeerId;
use sc_network_gossip::{NetEvent, Network, Syncing};
use seed_primitives::ethy::{crypto::{AuthorityId, AuthoritySignature}, ConsensusLog, EthyChainId, EthyEcdsaToEthereum, EventProof, ValidatorSet, VersionedEventProof, Witness, ETHY_ENGINE_ID, ETHY_KEY_TYPE};
use sp_core::{crypto::ByteArray, ecdsa, Pair as _, H256};
use sp_keystore::Keystore;
use sp_runtime::{generic, traits::{BlakeTwo256, Convert, Header as _}, Digest, DigestItem, OpaqueExtrinsic};
use std::{cell::RefCell, collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque}, future::Future, pin::Pin, sync::{Arc, Mutex}, task::{Context, Poll}};
use vkit::{ensure, ensure_eq, hit, Rng};

type Header = generic::Header<u32, BlakeTwo256>;
type Block = generic::Block<Header, OpaqueExtrinsic>;
type Set = ValidatorSet<AuthorityId>;
const WINDOW: u64 = 90;

// ---------- the chain ----------
#[derive(Clone)] struct Req { id: u64, chain: EthyChainId, data: Vec<u8> }
struct Blk { header: Header, hash: H256, set: Arc<Set>, xrpl: Arc<Set>, change: bool, reqs: Vec<Req> }
#[derive(Default)] struct Chain { blocks: Vec<Blk>, by_hash: HashMap<H256, usize> }
type Shared = Arc<Mutex<Chain>>;
impl Chain {
	fn push(&mut self, set: Arc<Set>, xrpl: Arc<Set>, change: bool, reqs: Vec<Req>, order: bool) {
		let n = self.blocks.len() as u32;
		let mut logs: Vec<ConsensusLog<AuthorityId>> = reqs.iter().map(|r| ConsensusLog::OpaqueSigningRequest { chain_id: r.chain, event_proof_id: r.id, data: r.data.clone() }).collect();
		if change { let l = ConsensusLog::AuthoritiesChange((*set).clone()); if order { logs.insert(0, l) } else { logs.push(l) } }
		let mut d: Vec<DigestItem> = vec![DigestItem::PreRuntime(*b"BABE", vec![1, 2, 3])];
		d.extend(logs.into_iter().map(|l| DigestItem::Consensus(ETHY_ENGINE_ID, l.encode())));
		d.push(DigestItem::Seal(*b"BABE", vec![9]));
		let header = Header::new(n, Default::default(), H256::from_low_u64_be(n as u64), self.blocks.last().map(|b| b.hash).unwrap_or_default(), Digest { logs: d });
		let hash = header.hash();
		self.by_hash.insert(hash, n as usize);
		self.blocks.push(Blk { header, hash, set, xrpl, change, reqs });
	}
}
// ---------- what a node is given ----------
struct Client { chain: Shared, finalized: Mutex<u32>, aux: Mutex<BTreeMap<Vec<u8>, Vec<u8>>>, subs: Mutex<Vec<UnboundedSender<FinalityNotification<Block>>>> }
struct Api(Shared);
impl seed_primitives::ethy::EthyApi<Block> for Api {
	fn validator_set(&self, at: H256) -> Result<Set, sp_api::ApiError> { let c = self.0.lock().unwrap(); c.by_hash.get(&at).map(|i| (*c.blocks[*i].set).clone()).ok_or(sp_api::ApiError("unknown block".into())) }
	fn xrpl_signers(&self, at: H256) -> Result<Set, sp_api::ApiError> { let c = self.0.lock().unwrap(); c.by_hash.get(&at).map(|i| (*c.blocks[*i].xrpl).clone()).ok_or(sp_api::ApiError("unknown block".into())) }
}
impl sp_api::ProvideRuntimeApi<Block> for Client { type Api = Api; fn runtime_api(&self) -> sp_api::ApiRef<'_, Api> { Api(self.chain.clone()).into() } }
impl sp_blockchain::HeaderBackend<Block> for Client {
	fn header(&self, h: H256) -> sp_blockchain::Result<Option<Header>> { let c = self.chain.lock().unwrap(); Ok(c.by_hash.get(&h).map(|i| c.blocks[*i].header.clone())) }
	fn info(&self) -> sp_blockchain::Info<Block> { let c = self.chain.lock().unwrap(); let f = *self.finalized.lock().unwrap(); let best = c.blocks.len() - 1; sp_blockchain::Info { best_hash: c.blocks[best].hash, best_number: best as u32, genesis_hash: c.blocks[0].hash, finalized_hash: c.blocks[f as usize].hash, finalized_number: f } }
	fn number(&self, h: H256) -> sp_blockchain::Result<Option<u32>> { Ok(self.chain.lock().unwrap().by_hash.get(&h).map(|i| *i as u32)) }
	fn hash(&self, n: u32) -> sp_blockchain::Result<Option<H256>> { Ok(self.chain.lock().unwrap().blocks.get(n as usize).map(|b| b.hash)) }
}
impl BlockchainEvents<Block> for Client { fn finality_notification_stream(&self) -> UnboundedReceiver<FinalityNotification<Block>> { let (a, b) = unbounded(); self.subs.lock().unwrap().push(a); b } }
impl Finalizer<Block, Client> for Client {}
impl AuxStore for Client {
	fn insert_aux<'a, 'b: 'a, 'c: 'a, I: IntoIterator<Item = &'a (&'c [u8], &'c [u8])>, D: IntoIterator<Item = &'a &'b [u8]>>(&self, insert: I, delete: D) -> sp_blockchain::Result<()> { let mut a = self.aux.lock().unwrap(); for (k, v) in insert { a.insert(k.to_vec(), v.to_vec()); } for k in delete { a.remove(*k); } Ok(()) }
	fn get_aux(&self, key: &[u8]) -> sp_blockchain::Result<Option<Vec<u8>>> { Ok(self.aux.lock().unwrap().get(key).cloned()) }
}
impl Backend<Block> for Client { type Blockchain = Self; fn blockchain(&self) -> &Self { self } }
#[derive(Default)] struct NetState { inbox: VecDeque<NetEvent>, out: Vec<(PeerId, Vec<u8>)>, validated: Vec<(Vec<u8>, bool)>, peers: Vec<PeerId> }
#[derive(Clone, Default)] struct Net(Arc<Mutex<NetState>>);
impl Network<Block> for Net {
	fn peers(&self) -> Vec<PeerId> { self.0.lock().unwrap().peers.clone() }
	fn send(&self, to: PeerId, m: Vec<u8>) { self.0.lock().unwrap().out.push((to, m)) }
	fn next(&self, _: &mut Context<'_>) -> Poll<Option<NetEvent>> { match self.0.lock().unwrap().inbox.pop_front() { Some(e) => Poll::Ready(Some(e)), None => Poll::Pending } }
	fn validated(&self, _: PeerId, m: &[u8], kept: bool) { self.0.lock().unwrap().validated.push((m.to_vec(), kept)) }
}
#[derive(Clone, Default)] struct Sync_(Arc<Mutex<bool>>);
impl Syncing<Block> for Sync_ {}
impl sp_consensus::SyncOracle for Sync_ { fn is_major_syncing(&self) -> bool { *self.0.lock().unwrap() } fn is_offline(&self) -> bool { false } }
#[derive(Default)] struct Tasks(Mutex<Vec<futures::future::BoxFuture<'static, ()>>>);
impl sc_rpc::SpawnNamed for Tasks { fn spawn(&self, _: &'static str, _: Option<&'static str>, f: futures::future::BoxFuture<'static, ()>) { self.0.lock().unwrap().push(f) } }

// ---------- keys ----------
fn key(i: usize) -> ecdsa::Pair { ecdsa::Pair::from_string(&format!("//ethy{i}"), None).unwrap() }
fn auth(p: &ecdsa::Pair) -> AuthorityId { AuthorityId::from(p.public()) }
thread_local! { static KEYS: Vec<ecdsa::Pair> = (0..20).map(key).collect(); static SEEN: RefCell<HashMap<Vec<u8>, bool>> = Default::default(); }
fn pair(i: usize) -> ecdsa::Pair { KEYS.with(|k| k[i].clone()) }
fn aid(i: usize) -> AuthorityId { KEYS.with(|k| auth(&k[i])) }
/// is `s` a signature of `a` over `d`
fn signed(a: &AuthorityId, s: &AuthoritySignature, d: &[u8; 32]) -> bool {
	let k = (a, s, d).encode();
	if let Some(b) = SEEN.with(|m| m.borrow().get(&k).copied()) { return b }
	let s: &ecdsa::Signature = s.as_ref(); let a: &ecdsa::Public = a.as_ref();
	let b = s.recover_prehashed(d).map_or(false, |p| p == *a);
	SEEN.with(|m| { let mut m = m.borrow_mut(); if m.len() > 20_000 { m.clear() } m.insert(k, b); });
	b
}
/// what validator `a` has to sign for a request
fn digest(chain: EthyChainId, data: &[u8], a: &AuthorityId) -> Option<[u8; 32]> {
	match chain { EthyChainId::Ethereum => data.to_vec().try_into().ok(), EthyChainId::Xrpl => Some(xrpl_codec::utils::digest_for_multi_signing_pre(data, a.as_slice().try_into().unwrap())) }
}
fn proof_key(c: EthyChainId, id: u64) -> Vec<u8> { let mut v = b"ETHY".to_vec(); v.push(match c { EthyChainId::Ethereum => 1, EthyChainId::Xrpl => 2 }); v.extend(id.to_be_bytes()); v }

// ---------- a node and what the monitor knows about it ----------
struct Known { req: Req, hash: H256, set: Arc<Set>, xrpl: Arc<Set> }
impl Known { fn valid(&self, w: &Witness) -> bool { self.set.validators.contains(&w.authority_id) && digest(self.req.chain, &self.req.data, &w.authority_id) == Some(w.digest) && signed(&w.authority_id, &w.signature, &w.digest) }
	fn counts(&self, a: &AuthorityId) -> bool { self.req.chain == EthyChainId::Ethereum || self.xrpl.validators.contains(a) }
	fn threshold(&self) -> usize { match self.req.chain { EthyChainId::Ethereum => self.set.proof_threshold as usize, EthyChainId::Xrpl => self.xrpl.proof_threshold as usize } } }
#[derive(Default)] struct Model { best: u32, active: Option<Arc<Set>>, known: BTreeMap<u64, Known>, heard: BTreeMap<u64, Vec<(Witness, bool)>>, sighted: HashMap<u64, HashSet<AuthorityId>>, done: BTreeSet<u64>, told: HashMap<(u64, AuthorityId), HashSet<u64>>, bytes: HashSet<Vec<u8>> }
struct Node { id: u64, fut: Pin<Box<dyn Future<Output = ()>>>, net: Net, sync: Sync_, client: Arc<Client>, proofs: UnboundedReceiver<VersionedEventProof>, rpc: EthyRpcHandler<Client, Client, Block>, tasks: Arc<Tasks>, pushed: Arc<Mutex<Vec<serde_json::Value>>>, m: Model, keys: Vec<usize>, ever: BTreeMap<Vec<u8>, Vec<u8>>, nokeystore: bool }
fn boot(id: u64, client: Arc<Client>, keys: &[usize], nokeystore: bool, peers: Vec<PeerId>, syncing: bool) -> Node {
	let net = Net::default(); net.0.lock().unwrap().peers = peers;
	let sync = Sync_::default(); *sync.0.lock().unwrap() = syncing;
	let ks = sp_keystore::testing::MemoryKeystore::new();
	for k in keys { ks.ecdsa_generate_new(ETHY_KEY_TYPE, Some(&format!("//ethy{k}"))).unwrap(); }
	let (tx, stream) = ethy_gadget::notification::EthyEventProofStream::channel();
	let proofs = stream.subscribe(1000);
	client.subs.lock().unwrap().clear();
	let fut = ethy_gadget::start_ethy_gadget::<Block, Client, Client, Client, Net, Sync_>(ethy_gadget::EthyParams { client: client.clone(), backend: client.clone(), runtime: client.clone(), key_store: if nokeystore { None } else { Some(Arc::new(ks)) }, network: net.clone(), sync_service: sync.clone(), event_proof_sender: tx, prometheus_registry: None, protocol_name: "/ethy/1".into(), _phantom: Default::default() });
	let tasks = Arc::new(Tasks::default());
	let rpc = EthyRpcHandler::new(stream, tasks.clone(), client.clone(), client.clone());
	let pushed: Arc<Mutex<Vec<serde_json::Value>>> = Default::default(); let p2 = pushed.clone();
	let _ = rpc.subscribe_event_proofs(jsonrpsee::SubscriptionSink(Box::new(move |x| { p2.lock().unwrap().push(json(ethy_gadget_rpc::build_event_proof_response::<Client, Block>, x)) })));
	let best = *client.finalized.lock().unwrap();
	Node { id, fut: Box::pin(fut), net, sync, client, proofs, rpc, tasks, pushed, m: Model { best, ..Default::default() }, keys: keys.to_vec(), ever: Default::default(), nokeystore }
}
/// an item of the RPC's subscription (its type has no public name)
fn json<T: serde::Serialize + 'static>(_: fn(&Client, VersionedEventProof) -> Option<T>, x: Box<dyn std::any::Any + Send>) -> serde_json::Value { serde_json::to_value(&*x.downcast::<Option<T>>().expect("an item")).unwrap() }
/// the other `s` of an ECDSA signature
fn negate(s: &mut [u8]) {
	let n: [u8; 32] = [0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFE, 0xBA, 0xAE, 0xDC, 0xE6, 0xAF, 0x48, 0xA0, 0x3B, 0xBF, 0xD2, 0x5E, 0x8C, 0xD0, 0x36, 0x41, 0x41];
	let mut b = 0i16; for i in (0..32).rev() { let d = n[i] as i16 - s[i] as i16 - b; b = (d < 0) as i16; s[i] = (d & 0xFF) as u8 }
}
impl Node {
	fn poll(&mut self) {
		let w = futures::task::noop_waker(); let mut cx = Context::from_waker(&w);
		for _ in 0..4 { ensure!(["C32"], self.fut.as_mut().poll(&mut cx).is_pending(), "stopped", "the gadget of node {} ended", self.id); }
		for t in self.tasks.0.lock().unwrap().iter_mut() { let _ = t.as_mut().poll(&mut cx); }
	}
	fn own(&self, set: &Set) -> Option<AuthorityId> { if self.nokeystore { return None } let mine: Vec<AuthorityId> = self.keys.iter().map(|k| aid(*k)).collect(); set.validators.iter().find(|v| mine.contains(v)).cloned() }
	/// a message arrives
	fn message(&mut self, bytes: Vec<u8>) {
		// a node that still syncs hears nothing
		if *self.sync.0.lock().unwrap() { hit("deaf"); return }
		self.net.0.lock().unwrap().inbox.push_back(NetEvent::Message(PeerId(99), bytes.clone()));
		self.poll();
		let v: Vec<_> = self.net.0.lock().unwrap().validated.drain(..).collect();
		ensure_eq!(["C32"], v.len(), 1, "gossip_answer", "one message, one verdict");
		let kept = v[0].1;
		let fin = *self.client.finalized.lock().unwrap() as u64;
		let first = !self.m.bytes.contains(&bytes);
		match Witness::decode(&mut &bytes[..]) {
			Err(_) => { hit("undecodable"); ensure!(["C32"], !kept, "garbage_accepted", "node {} accepted {:02x?}", self.id, bytes); },
			Ok(w) => {
				let active = self.m.active.as_ref().map_or(false, |s| s.validators.contains(&w.authority_id));
				let sig = signed(&w.authority_id, &w.signature, &w.digest);
				let seen = self.m.sighted.get(&w.event_id).map_or(false, |s| s.contains(&w.authority_id));
				let live = w.block_number >= fin.saturating_sub(WINDOW);
				let done = self.m.done.contains(&w.event_id);
				if !active { hit("refused_authority"); ensure!(["C32"], !kept, "unknown_authority", "node {} accepted a witness of {:?}, who is no active validator", self.id, w); }
				else if !sig { hit("refused_signature"); ensure!(["C32"], !kept, "bad_signature", "node {} accepted {:?}", self.id, w); }
				else if !live { hit("refused_window"); ensure!(["C32"], !kept, "out_of_window", "node {} (finalised {fin}) accepted {:?}", self.id, w); }
				else if seen && !done { hit("refused_seen"); ensure!(["C32"], !kept, "second_witness", "node {} accepted a second witness of the same validator: {:?}", self.id, w); }
				else if !done && first { hit("accepted"); ensure!(["C32"], kept, "witness_refused", "node {} (finalised {fin}) refused {:?}", self.id, w); }
				if active && sig { self.m.sighted.entry(w.event_id).or_default().insert(w.authority_id.clone()); }
				if kept {
					self.m.bytes.insert(bytes);
					let early = !self.m.known.contains_key(&w.event_id);
					// a witness that comes before its request, for an event below one already proven, may be taken for a leftover
					let spared = early && self.m.done.range(w.event_id..).next().is_some();
					if early && !done { hit("early_witness") }
					self.m.heard.entry(w.event_id).or_default().push((w, !spared));
				}
			},
		}
		self.judge(vec![]);
	}
	/// block `to` is announced as finalised
	fn finalise(&mut self, to: u32) {
		let (mut mine, mut note) = (vec![], None);
		{
			let c = self.client.chain.lock().unwrap();
			let b = &c.blocks[to as usize];
			{ let mut f = self.client.finalized.lock().unwrap(); *f = (*f).max(to); }
			note = Some(FinalityNotification::<Block> { hash: b.hash, header: b.header.clone(), tree_route: Arc::new([]), stale_heads: Arc::new([]) }).or(note);
		}
		for s in self.client.subs.lock().unwrap().iter() { let _ = s.unbounded_send(note.clone().unwrap()); }
		let listening = !self.client.subs.lock().unwrap().is_empty();
		self.poll();
		if listening && to > self.m.best {
			let c = self.client.chain.lock().unwrap();
			if to > self.m.best + 1 { hit("backfilled") }
			for n in self.m.best + 1..=to {
				let b = &c.blocks[n as usize];
				if self.m.active.is_none() || b.change { if self.m.active.as_ref().map_or(false, |a| a.id != b.set.id) { hit("set_change"); if !self.m.known.keys().all(|k| self.m.done.contains(k)) { hit("set_change_in_flight") } } self.m.active = Some(b.set.clone()) }
				for r in &b.reqs {
					if digest(r.chain, &r.data, &b.set.validators[0]).is_none() { hit("malformed_request"); continue }
					if self.m.heard.get(&r.id).map_or(false, |h| !h.is_empty()) { hit("request_after_witness") }
					if self.m.known.insert(r.id, Known { req: r.clone(), hash: b.hash, set: b.set.clone(), xrpl: b.xrpl.clone() }).is_some() { continue }
					if let Some(a) = self.own(&b.set) {
						let d = digest(r.chain, &r.data, &a).unwrap();
						let k = self.keys.iter().copied().find(|k| aid(*k) == a).unwrap();
						let w = Witness { digest: d, chain_id: r.chain, event_id: r.id, validator_set_id: b.set.id, authority_id: a, signature: pair(k).sign_prehashed(&d).into(), block_number: n as u64 };
						mine.push((w, to as u64));
					}
				}
			}
			self.m.best = to;
		} else if listening { hit("stale_notification") } else { hit("missed_notification") }
		self.judge(mine);
	}
	/// what came out of the node, against what is known of it
	fn judge(&mut self, mine: Vec<(Witness, u64)>) {
		let out: Vec<_> = self.net.0.lock().unwrap().out.drain(..).collect();
		let me = self.id;
		for (w, _) in &mine { self.m.heard.entry(w.event_id).or_default().push((w.clone(), true)); self.m.bytes.insert(w.encode()); hit("own_witness") }
		let peers = self.net.0.lock().unwrap().peers.clone();
		for (to, b) in &out {
			hit("sent"); SENT.with(|s| s.borrow_mut().entry(me).or_default().push((to.0, b.clone())));
			let w = match Witness::decode(&mut &b[..]) { Ok(w) => w, Err(_) => vkit::fail("garbage_sent", format!("node {me} sent {b:02x?}")) };
			ensure!(["C32"], self.m.heard.get(&w.event_id).map_or(false, |h| h.iter().any(|(x, _)| *x == w)), "unheard_sent", "node {me} sent {w:?}, which it neither signed for a finalised request nor accepted");
			if let Some(k) = self.m.known.get(&w.event_id) { ensure!(["C32"], k.valid(&w) || self.m.done.contains(&w.event_id), "invalid_relayed", "node {me} relayed {w:?}, which signs no request"); }
			ensure!(["C32"], self.m.told.entry((w.event_id, w.authority_id.clone())).or_default().insert(to.0), "sent_twice", "node {me} sent {w:?} to {to:?} again");
		}
		for (w, fin) in &mine {
			if w.block_number < fin.saturating_sub(WINDOW) { hit("own_out_of_window"); continue }
			let told: BTreeSet<u64> = out.iter().filter(|(_, b)| Witness::decode(&mut &b[..]).map_or(false, |x| x == *w)).map(|(p, _)| p.0).collect();
			ensure_eq!(["C32"], told, peers.iter().map(|p| p.0).collect(), "witness_not_sent", "node {} owed its peers {:?}", me, w);
		}
		// announced and stored proofs
		let mut announced = vec![];
		while let Ok(p) = self.proofs.try_recv() { announced.push(p) }
		let aux = self.client.aux.lock().unwrap().clone();
		for VersionedEventProof::V1(p) in &announced {
			hit("proof");
			let Some(k) = self.m.known.get(&p.event_id) else { vkit::fail("proof_without_request", format!("node {me} announced {p:?}")) };
			match k.req.chain { EthyChainId::Ethereum => hit("proof_ethereum"), EthyChainId::Xrpl => hit("proof_xrpl") }
			ensure!(["C32"], self.m.done.insert(p.event_id), "proof_twice", "node {me} announced event {} again", p.event_id);
			ensure_eq!(["C32"], p.block, k.hash.0, "proof_block", "node {} event {}", me, p.event_id);
			ensure_eq!(["C32"], p.validator_set_id, k.set.id, "proof_set", "node {} event {}: the set its signatures are numbered by", me, p.event_id);
			ensure_eq!(["C32"], Some(p.digest), match k.req.chain { EthyChainId::Ethereum => k.req.data.clone().try_into().ok(), _ => Some(xrpl_codec::utils::digest_for_multi_signing_pre(&k.req.data, [0; 33])) }, "proof_digest", "node {} event {}", me, p.event_id);
			ensure!(["C32"], p.signatures.windows(2).all(|x| x[0].0 < x[1].0), "signature_order", "node {me} event {}: indices {:?}", p.event_id, p.signatures.iter().map(|s| s.0).collect::<Vec<_>>());
			let mut n = 0;
			for (i, s) in &p.signatures {
				let Some(a) = k.set.validators.get(*i as usize) else { vkit::fail("signature_index", format!("node {me} event {}: index {i} of {}", p.event_id, k.set.validators.len())) };
				ensure!(["C32"], signed(a, s, &digest(k.req.chain, &k.req.data, a).unwrap()), "signature_misplaced", "node {me} event {} ({:?}): the signature at {i} is not validator {i}'s", p.event_id, k.req.chain);
				ensure!(["C32"], self.m.heard.get(&p.event_id).map_or(false, |h| h.iter().any(|(w, _)| w.authority_id == *a && w.signature == *s)), "signature_unheard", "node {me} event {}", p.event_id);
				if k.counts(a) { n += 1 }
			}
			ensure!(["C32"], n >= k.threshold(), "proof_too_early", "node {me} event {} ({:?}): {n} signatures that count, threshold {}", p.event_id, k.req.chain, k.threshold());
			if p.signatures.len() < k.set.validators.len() { hit("partial_proof") }
			let key = proof_key(k.req.chain, p.event_id);
			ensure_eq!(["C32"], aux.get(&key).cloned(), Some(VersionedEventProof::V1(p.clone()).encode()), "proof_stored", "node {} event {}", me, p.event_id);
			self.ever.insert(key, aux[&proof_key(k.req.chain, p.event_id)].clone());
			self.rpc(p, k);
			self.m.sighted.remove(&p.event_id);
			if self.m.known.range(..p.event_id).any(|(e, _)| !self.m.done.contains(e)) { hit("proven_out_of_order") }
		}
		ensure_eq!(["C32"], &aux, &self.ever, "stored_proofs", "node {}: what is stored is what was announced", me);
		let pushed: Vec<_> = self.pushed.lock().unwrap().drain(..).collect();
		ensure_eq!(["C32"], pushed.len(), announced.len(), "subscription", "node {}", me);
		for (v, VersionedEventProof::V1(p)) in pushed.iter().zip(&announced) { ensure_eq!(["C32"], v.get("event_id").and_then(|x| x.as_u64()), Some(p.event_id), "subscription", "node {}", me); }
		// nothing is owed
		for (e, k) in &self.m.known {
			if self.m.done.contains(e) { continue }
			let voters: BTreeSet<Vec<u8>> = self.m.heard.get(e).into_iter().flatten().filter(|(w, sure)| *sure && k.valid(w) && k.counts(&w.authority_id)).map(|(w, _)| w.authority_id.to_raw_vec()).collect();
			ensure!(["C32"], voters.len() < k.threshold(), "proof_missing", "node {me} event {e} ({:?}, set {}, active {:?}): {} valid witnesses, threshold {}, no proof", k.req.chain, k.set.id, self.m.active.as_ref().map(|s| s.id), voters.len(), k.threshold());
		}
		vkit::state(&(self.m.done.len(), self.m.known.len(), self.m.heard.values().map(|v| v.len()).sum::<usize>()));
	}
	fn rpc(&self, p: &EventProof, k: &Known) {
		match k.req.chain {
			EthyChainId::Ethereum => {
				let Ok(Some(r)) = self.rpc.get_event_proof(p.event_id) else { vkit::fail("rpc_missing", format!("event {}", p.event_id)) };
				ensure_eq!(["C32"], (r.event_id, r.block, r.validator_set_id), (p.event_id, k.hash, k.set.id), "rpc_fields", "event {}", p.event_id);
				ensure_eq!(["C32"], r.validators.clone(), k.set.validators.iter().map(|v| EthyEcdsaToEthereum::convert(v.as_ref()).into()).collect::<Vec<seed_primitives::AccountId20>>(), "rpc_validators", "event {}", p.event_id);
				ensure_eq!(["C32"], r.signatures.len(), k.set.validators.len(), "rpc_signatures", "event {}", p.event_id);
				for (i, s) in r.signatures.iter().enumerate() { let want = p.signatures.iter().find(|x| x.0 as usize == i).map(|x| { let s: &ecdsa::Signature = x.1.as_ref(); s.0.to_vec() }).unwrap_or(vec![0; 65]); ensure_eq!(["C32"], s.0.clone(), want, "rpc_signature_place", "event {} place {}", p.event_id, i); }
				ensure!(["C32"], matches!(self.rpc.get_xrpl_tx_proof(p.event_id), Ok(None)), "rpc_chain", "an Ethereum proof was given as an XRPL one");
			},
			EthyChainId::Xrpl => {
				let Ok(Some(r)) = self.rpc.get_xrpl_tx_proof(p.event_id) else { vkit::fail("rpc_missing", format!("event {}", p.event_id)) };
				ensure_eq!(["C32"], (r.event_id, r.block, r.validator_set_id), (p.event_id, k.hash, k.xrpl.id), "rpc_fields", "event {}", p.event_id);
				let want: Vec<AuthorityId> = p.signatures.iter().map(|(i, _)| k.set.validators[*i as usize].clone()).filter(|a| k.xrpl.validators.contains(a)).collect();
				ensure_eq!(["C32"], r.validators.iter().map(|b| b.0.clone()).collect::<Vec<_>>(), want.iter().map(|a| a.to_raw_vec()).collect::<Vec<_>>(), "rpc_signers", "event {}", p.event_id);
				ensure_eq!(["C32"], r.signatures.len(), want.len(), "rpc_signatures", "event {}", p.event_id);
				ensure!(["C32"], r.signatures.len() >= k.threshold(), "rpc_too_few", "event {}: {} signatures for a threshold of {}", p.event_id, r.signatures.len(), k.threshold());
				for (a, s) in want.iter().zip(&r.signatures) {
					let d = digest(k.req.chain, &k.req.data, a).unwrap();
					let ok = libsecp256k1::Signature::parse_der(&s.0).ok().map_or(false, |sig| { let mut low = sig; low.normalize_s(); low == sig && libsecp256k1::verify(&libsecp256k1::Message::parse(&d), &sig, &libsecp256k1::PublicKey::parse_compressed(a.as_slice().try_into().unwrap()).unwrap()) });
					ensure!(["C32"], ok, "rpc_der", "event {}: {:02x?} is no low-S DER signature of {a:?}", p.event_id, s.0);
				}
				ensure!(["C32"], matches!(self.rpc.get_event_proof(p.event_id), Ok(None)), "rpc_chain", "an XRPL proof was given as an Ethereum one");
			},
		}
	}
}

// ---------- the world ----------
struct World { chain: Shared, nodes: Vec<Node>, air: Vec<(u64, Vec<u8>)>, next_event: u64, held_back: Vec<u64>, set: Arc<Set>, xrpl: Arc<Set>, nkeys: usize, reqs: Vec<(Req, u32, Arc<Set>)> }
const STRANGERS: std::ops::Range<usize> = 17..20;
impl World {
	fn new_set(&self, rng: &mut Rng, id: u64) -> (Arc<Set>, Arc<Set>) {
		let mut v: Vec<usize> = vec![];
		for n in &self.nodes { if !n.keys.is_empty() && rng.chance(90) { v.push(*rng.pick(&n.keys)) } }
		for byz in 12..16 { if rng.chance(35) { v.push(byz) } }
		for k in 12..16 { if v.len() < 2 && !v.contains(&k) { v.push(k) } }
		rng.shuffle(&mut v);
		let n = v.len() as u64;
		let thr = match rng.below(4) { 0 => n, 1 => 1 + rng.below(n), _ => (n * 60 + 99) / 100 };
		let mut x = v.clone(); rng.shuffle(&mut x); x.truncate((2 + rng.below(n - 1)) as usize);
		let xt = if rng.chance(70) { x.len() as u64 - 1 } else { 1 + rng.below(x.len() as u64) };
		(Arc::new(Set::new(v.into_iter().map(aid), id, thr as u32)), Arc::new(Set::new(x.into_iter().map(aid), id, xt as u32)))
	}
	fn new_xrpl(&self, rng: &mut Rng) -> Arc<Set> { let mut x: Vec<AuthorityId> = self.set.validators.clone(); rng.shuffle(&mut x); x.truncate((2 + rng.below(x.len() as u64 - 1)) as usize); let t = x.len() as u32 - 1; Arc::new(Set::new(x, self.set.id, t)) }
	fn block(&mut self, rng: &mut Rng) {
		let change = rng.chance(12);
		if change { let (s, x) = self.new_set(rng, self.set.id + 1); self.set = s; self.xrpl = x }
		else if rng.chance(8) { self.xrpl = self.new_xrpl(rng); hit("xrpl_signers_changed") }
		let mut ids = vec![];
		for _ in 0..[0, 0, 1, 1, 2, 3][rng.below(6) as usize] { if rng.chance(12) { self.held_back.push(self.next_event) } else { ids.push(self.next_event) } self.next_event += if rng.chance(5) { 2 } else { 1 }; }
		if rng.chance(15) { ids.append(&mut self.held_back) }
		let reqs: Vec<Req> = ids.into_iter().map(|id| { let chain = if rng.chance(55) { EthyChainId::Ethereum } else { EthyChainId::Xrpl }; let n = match chain { EthyChainId::Ethereum => if rng.chance(4) { 31 } else { 32 }, _ => 1 + rng.below(150) as usize }; Req { id, chain, data: rng.bytes(n) } }).collect();
		let n = self.chain.lock().unwrap().blocks.len() as u32;
		for r in &reqs { self.reqs.push((r.clone(), n, self.set.clone())) }
		let order = rng.chance(50);
		self.chain.lock().unwrap().push(self.set.clone(), self.xrpl.clone(), change, reqs, order);
	}
	/// something a peer might send: honest byzantine votes, early ones, forged ones, garbage
	fn hostile(&mut self, rng: &mut Rng) -> Option<Vec<u8>> {
		if rng.chance(8) { let n = rng.below(160) as usize; return Some(rng.bytes(n)) }
		let (r, n, set) = if self.reqs.is_empty() { return None } else { let i = if rng.chance(75) { self.reqs.len() - 1 - rng.below(self.reqs.len().min(6) as u64) as usize } else { rng.below(self.reqs.len() as u64) as usize }; self.reqs[i].clone() };
		let k = match rng.below(10) { 0 => rng.range(STRANGERS.start as u64, STRANGERS.end as u64 - 1) as usize, 1..=2 => rng.below(self.nkeys as u64) as usize, _ => 12 + rng.below(4) as usize };
		let mut data = r.data.clone(); let mut chain = r.chain; let mut set_id = set.id; let mut at = n as u64; let mut id = r.id;
		let honest = k >= 12;
		match rng.below(12) { 0 => if let Some(b) = data.first_mut() { *b ^= 1 }, 1 => set_id = rng.below(9), 2 => chain = if chain == EthyChainId::Ethereum { EthyChainId::Xrpl } else { EthyChainId::Ethereum }, 3 => at = rng.below(n as u64 + 200), 4 => id = rng.below(self.next_event + 5), _ => {} }
		let d = digest(r.chain, &data, &aid(k)).unwrap_or([7; 32]);
		// keys of honest nodes cannot be used: what claims to be theirs carries a wrong signature
		let mut sig = pair(if honest { k } else { 16 }).sign_prehashed(&d);
		match rng.below(10) { 0 => { let i = rng.below(65) as usize; sig.0[i] ^= 1 << rng.below(8); hit("bitflip") }, 1 => if honest { negate(&mut sig.0[32..64]); sig.0[64] ^= 1; hit("malleated") }, 2 if honest => { let o = *rng.pick(&[12usize, 13, 14, 15]); sig = pair(o).sign_prehashed(&d) }, _ => {} }
		let mut b = Witness { digest: d, chain_id: chain, event_id: id, validator_set_id: set_id, authority_id: aid(k), signature: sig.into(), block_number: at }.encode();
		match rng.below(20) { 0 => { b.truncate(rng.below(b.len() as u64) as usize) }, 1 => { b.extend(rng.bytes(3)) }, _ => {} }
		Some(b)
	}
}
fn episode(rng: &mut Rng) {
	let chain: Shared = Default::default();
	let nn = rng.range(2, 4) as usize;
	let mut w = World { chain: chain.clone(), nodes: vec![], air: vec![], next_event: rng.below(3), held_back: vec![], set: Arc::new(Set::empty()), xrpl: Arc::new(Set::empty()), nkeys: nn * 2, reqs: vec![] };
	// node nn holds no key (or no keystore at all)
	let all: Vec<PeerId> = (0..=nn as u64).map(PeerId).collect();
	let client = |c: &Shared| Arc::new(Client { chain: c.clone(), finalized: Mutex::new(0), aux: Default::default(), subs: Default::default() });
	let nokeystore = rng.chance(50);
	let key_of = |i: usize| if i < nn { vec![2 * i, 2 * i + 1] } else { vec![] };
	// a set needs the nodes' keys, a node needs the genesis block
	chain.lock().unwrap().push(Arc::new(Set::empty()), Arc::new(Set::empty()), false, vec![], true);
	for i in 0..=nn { let peers = all.iter().copied().filter(|p| p.0 != i as u64).collect(); w.nodes.push(boot(i as u64, client(&chain), &key_of(i), i == nn && nokeystore, peers, rng.chance(15))) }
	let first = if rng.chance(50) { 0 } else { rng.below(5) };
	let (s, x) = w.new_set(rng, first); w.set = s; w.xrpl = x;
	{ let mut c = chain.lock().unwrap(); c.blocks.clear(); c.by_hash.clear(); c.push(w.set.clone(), w.xrpl.clone(), true, vec![], true); }
	for i in 0..=nn { let c = w.nodes[i].client.clone(); *c.finalized.lock().unwrap() = 0; let s = *w.nodes[i].sync.0.lock().unwrap(); let peers = all.iter().copied().filter(|p| p.0 != i as u64).collect(); w.nodes[i] = boot(i as u64, c, &key_of(i), i == nn && nokeystore, peers, s); w.nodes[i].poll(); }
	let lossy = rng.below(4) * 6;
	let calm = rng.chance(50);
	for _ in 0..vkit::tier(260, 400) {
		let head = chain.lock().unwrap().blocks.len() as u32 - 1;
		let i = rng.below(w.nodes.len() as u64) as usize;
		match rng.below(100) {
			0..=11 => { w.block(rng); vkit::op("block"); },
			12..=29 => { let f = *w.nodes[i].client.finalized.lock().unwrap(); if f < head { let to = if rng.chance(75) { f + 1 } else { f + 1 + rng.below((head - f) as u64) as u32 }; vkit::op(format!("node {i} finalises {to}")); w.nodes[i].finalise(to); } },
			30..=79 => { if !w.air.is_empty() { let j = if rng.chance(50) { 0 } else { rng.below(w.air.len() as u64) as usize }; let (to, b) = w.air.remove(j); if rng.below(100) < lossy { vkit::op("lost"); hit("lost"); continue } if rng.chance(6) { w.air.push((to, b.clone())); hit("duplicated") } vkit::op(format!("deliver to {to}: {}", Witness::decode(&mut &b[..]).map_or("?".into(), |x| format!("event {} at {}", x.event_id, x.block_number)))); w.nodes[to as usize].message(b); } },
			80..=91 => { if let Some(b) = w.hostile(rng) { vkit::op(format!("hostile to {i}: {:?}", Witness::decode(&mut &b[..]).map(|x| (x.event_id, x.block_number)))); w.nodes[i].message(b.clone()); if rng.chance(60) { for j in 0..=nn { if rng.chance(70) { w.air.push((j as u64, b.clone())) } } } } },
			92 => { w.nodes[i].net.0.lock().unwrap().inbox.push_back(NetEvent::Tick); vkit::op(format!("tick {i}")); hit("tick"); w.nodes[i].poll(); w.nodes[i].judge(vec![]); },
			93 => { let f = *w.nodes[i].client.finalized.lock().unwrap(); if f > 0 { let to = rng.below(f as u64) as u32; vkit::op(format!("node {i} hears of {to} again")); let c = w.nodes[i].client.clone(); w.nodes[i].finalise(to); *c.finalized.lock().unwrap() = f; } },
			94 => { if !calm && rng.chance(25) { vkit::op(format!("restart {i}")); hit("restart"); let n = &w.nodes[i]; let (c, ever, peers) = (n.client.clone(), n.ever.clone(), n.net.0.lock().unwrap().peers.clone()); w.nodes[i] = boot(i as u64, c, &key_of(i), i == nn && nokeystore, peers, rng.chance(20)); w.nodes[i].ever = ever; w.nodes[i].poll(); } },
			95 => { if rng.chance(6) { hit("long_gap"); vkit::op("long gap"); for _ in 0..rng.range(60, 140) { let (s, x) = (w.set.clone(), w.xrpl.clone()); chain.lock().unwrap().push(s, x, false, vec![], true); } } },
			_ => { let s = w.nodes[i].sync.clone(); let syncing = *s.0.lock().unwrap(); if syncing { vkit::op(format!("node {i} synced")); hit("synced"); *s.0.lock().unwrap() = false; w.nodes[i].poll(); w.nodes[i].judge(vec![]); } },
		}
		// what a node sent is now in the air (the judge has taken note of it)
		for n in 0..=nn { for (to, b) in SENT.with(|s| s.borrow_mut().remove(&(n as u64)).unwrap_or_default()) { w.air.push((to, b)) } }
	}
}
thread_local! { static SENT: RefCell<HashMap<u64, Vec<(u64, Vec<u8>)>>> = Default::default(); }
fn run() { vkit::episodes(vkit::tier(700, 6000), |_, rng| { SENT.with(|s| s.borrow_mut().clear()); episode(rng) }) }
fn main() {
	vkit::main(&[vkit::Spec { pid: "C32", run, required: &["accepted", "early_witness", "request_after_witness", "own_witness", "proof_ethereum", "proof_xrpl", "partial_proof", "proven_out_of_order", "set_change", "set_change_in_flight", "refused_authority", "refused_signature", "refused_window", "refused_seen", "undecodable", "malleated", "backfilled", "restart", "missed_notification", "stale_notification", "malformed_request", "own_out_of_window", "xrpl_signers_changed"] }]);
}
