//! Stand-in for `futures-timer`: a delay lasts until the task is polled again.
use std::{future::Future, pin::Pin, task::{Context, Poll}, time::Duration};
pub struct Delay(bool);
impl Delay { pub fn new(_: Duration) -> Self { Self(false) } }
impl Future for Delay { type Output = (); fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { if self.0 { Poll::Ready(()) } else { self.0 = true; Poll::Pending } } }
