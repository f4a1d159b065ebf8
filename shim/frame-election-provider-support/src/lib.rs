//! Stand-in.
pub struct NoElection<X>(core::marker::PhantomData<X>);
