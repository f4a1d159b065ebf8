//! Stand-in for `sc-network-gossip`: the gossip state machine over a network the harness owns.
//! Like the original: a message already known is not validated again, kept messages are remembered, expired ones are dropped
//! when the harness ticks, and what is sent to a peer is asked of `message_allowed`.
use futures::channel::mpsc::{unbounded, UnboundedReceiver, UnboundedSender};
use sc_network::{PeerId, ProtocolName}; use sp_runtime::traits::Block;
use std::{collections::{HashMap, HashSet}, future::Future, pin::Pin, sync::Arc, task::{Context, Poll}};
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum MessageIntent { Broadcast, ForcedBroadcast, PeriodicRebroadcast }
#[derive(Debug, Clone)] pub enum ValidationResult<H> { ProcessAndKeep(H), ProcessAndDiscard(H), Discard }
pub trait ValidatorContext<B: Block> { fn broadcast_topic(&mut self, t: B::Hash, force: bool); fn broadcast_message(&mut self, t: B::Hash, m: Vec<u8>, force: bool); fn send_message(&mut self, who: &PeerId, m: Vec<u8>); fn send_topic(&mut self, who: &PeerId, t: B::Hash, force: bool); }
pub trait Validator<B: Block>: Send + Sync {
	fn validate(&self, context: &mut dyn ValidatorContext<B>, sender: &PeerId, data: &[u8]) -> ValidationResult<B::Hash>;
	fn message_expired<'a>(&'a self) -> Box<dyn FnMut(B::Hash, &[u8]) -> bool + 'a> { Box::new(|_, _| false) }
	fn message_allowed<'a>(&'a self) -> Box<dyn FnMut(&PeerId, MessageIntent, &B::Hash, &[u8]) -> bool + 'a> { Box::new(|_, _, _, _| true) }
}
/// the node's end of the harness's network
pub trait Network<B: Block> { fn peers(&self) -> Vec<PeerId>; fn send(&self, to: PeerId, message: Vec<u8>); fn next(&self, cx: &mut Context<'_>) -> Poll<Option<NetEvent>>; fn validated(&self, _from: PeerId, _message: &[u8], _kept: bool) {} }
pub enum NetEvent { Message(PeerId, Vec<u8>), Tick }
pub trait Syncing<B: Block>: Send + Sync {}
#[derive(Debug, Clone, PartialEq, Eq)] pub struct TopicNotification { pub message: Vec<u8>, pub sender: Option<PeerId> }
struct Noop; impl<B: Block> ValidatorContext<B> for Noop { fn broadcast_topic(&mut self, _: B::Hash, _: bool) {} fn broadcast_message(&mut self, _: B::Hash, _: Vec<u8>, _: bool) {} fn send_message(&mut self, _: &PeerId, _: Vec<u8>) {} fn send_topic(&mut self, _: &PeerId, _: B::Hash, _: bool) {} }
pub struct GossipEngine<B: Block> { net: Box<dyn Network<B> + Send>, validator: Arc<dyn Validator<B>>, kept: Vec<(B::Hash, Vec<u8>, HashSet<PeerId>)>, known: HashSet<[u8; 32]>, subs: HashMap<B::Hash, Vec<UnboundedSender<TopicNotification>>>, done: bool }
impl<B: Block> GossipEngine<B> {
	pub fn new<N: Network<B> + Send + Clone + 'static, S: Syncing<B> + Send + Clone + 'static>(net: N, _sync: S, _protocol: impl Into<ProtocolName>, validator: Arc<dyn Validator<B>>, _registry: Option<&()>) -> Self { Self { net: Box::new(net), validator, kept: vec![], known: HashSet::new(), subs: HashMap::new(), done: false } }
	pub fn messages_for(&mut self, topic: B::Hash) -> UnboundedReceiver<TopicNotification> { let (a, b) = unbounded(); for (t, m, _) in &self.kept { if *t == topic { let _ = a.unbounded_send(TopicNotification { message: m.clone(), sender: None }); } } self.subs.entry(topic).or_default().push(a); b }
	fn register(&mut self, topic: B::Hash, m: &[u8], from: Option<PeerId>) { if self.known.insert(sp_core::blake2_256(m)) { self.kept.push((topic, m.to_vec(), from.into_iter().collect())) } }
	fn propagate(&mut self, only: Option<&[u8]>, intent: MessageIntent) {
		let peers = self.net.peers(); let mut allowed = self.validator.message_allowed();
		for (t, m, told) in self.kept.iter_mut() { if only.map_or(false, |o| o != &m[..]) { continue } for p in &peers { let i = match intent { MessageIntent::Broadcast if told.contains(p) => continue, i => i }; if allowed(p, i, t, m) { told.insert(*p); self.net.send(*p, m.clone()) } } }
	}
	pub fn gossip_message(&mut self, topic: B::Hash, m: Vec<u8>, force: bool) { self.register(topic, &m, None); self.propagate(Some(&m), if force { MessageIntent::ForcedBroadcast } else { MessageIntent::Broadcast }) }
}
impl<B: Block> Unpin for GossipEngine<B> {}
impl<B: Block> Future for GossipEngine<B> {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		loop { match self.net.next(cx) {
			Poll::Pending => return Poll::Pending,
			Poll::Ready(None) => { self.done = true; return Poll::Ready(()) },
			Poll::Ready(Some(NetEvent::Tick)) => { { let this = &mut *self; let mut expired = this.validator.message_expired(); let known = &mut this.known; this.kept.retain(|(t, m, _)| { let e = expired(*t, m); if e { known.remove(&sp_core::blake2_256(m)); } !e }); } self.propagate(None, MessageIntent::PeriodicRebroadcast) },
			Poll::Ready(Some(NetEvent::Message(from, m))) => {
				if self.known.contains(&sp_core::blake2_256(&m)) { for (_, x, told) in self.kept.iter_mut() { if *x == m { told.insert(from); } } self.net.validated(from, &m, false); continue }
				let r = self.validator.clone().validate(&mut Noop, &from, &m);
				let (topic, keep) = match r { ValidationResult::ProcessAndKeep(t) => (t, true), ValidationResult::ProcessAndDiscard(t) => (t, false), ValidationResult::Discard => { self.net.validated(from, &m, false); continue } };
				self.net.validated(from, &m, true);
				if keep { self.register(topic, &m, Some(from)) }
				if let Some(s) = self.subs.get_mut(&topic) { s.retain(|x| x.unbounded_send(TopicNotification { message: m.clone(), sender: Some(from) }).is_ok()) }
			},
		} }
	}
}
impl<B: Block> futures::future::FusedFuture for GossipEngine<B> { fn is_terminated(&self) -> bool { self.done } }
