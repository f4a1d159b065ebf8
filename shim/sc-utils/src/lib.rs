//! Stand-in for `sc-utils`: broadcast of notifications to subscribers.
pub mod notification {
	use futures::channel::mpsc::{unbounded, UnboundedReceiver, UnboundedSender};
	use std::{marker::PhantomData, sync::{Arc, Mutex}};
	pub trait TracingKeyStr { const TRACING_KEY: &'static str; }
	type Subs<P> = Arc<Mutex<Vec<UnboundedSender<P>>>>;
	pub struct NotificationSender<P>(Subs<P>);
	impl<P> Clone for NotificationSender<P> { fn clone(&self) -> Self { Self(self.0.clone()) } }
	impl<P: Clone> NotificationSender<P> {
		pub fn notify<E>(&self, f: impl FnOnce() -> Result<P, E>) -> Result<(), E> { let mut s = self.0.lock().unwrap(); s.retain(|x| !x.is_closed()); if s.is_empty() { return Ok(()) } let p = f()?; for x in s.iter() { let _ = x.unbounded_send(p.clone()); } Ok(()) }
	}
	pub struct NotificationStream<P, K>(Subs<P>, PhantomData<K>);
	impl<P, K> Clone for NotificationStream<P, K> { fn clone(&self) -> Self { Self(self.0.clone(), PhantomData) } }
	pub type NotificationReceiver<P> = UnboundedReceiver<P>;
	impl<P, K> NotificationStream<P, K> {
		pub fn channel() -> (NotificationSender<P>, Self) { let s: Subs<P> = Default::default(); (NotificationSender(s.clone()), Self(s, PhantomData)) }
		pub fn subscribe(&self, _warn: usize) -> NotificationReceiver<P> { let (a, b) = unbounded(); self.0.lock().unwrap().push(a); b }
	}
}
