use std::ops::Div;
pub enum SameOrOther<A, B> { None, Same(A), Other(B) }
impl<A, B> SameOrOther<A, B> { pub fn drop_other(self) -> Result<A, B> where A: Default { match self { SameOrOther::Same(a) => Ok(a), SameOrOther::Other(b) => Err(b), SameOrOther::None => Ok(A::default()) } } pub fn same(self) -> Result<A, B> where A: Default { self.drop_other() } pub fn other(self) -> Result<B, A> where B: Default { match self { SameOrOther::Same(a) => Err(a), SameOrOther::Other(b) => Ok(b), SameOrOther::None => Ok(B::default()) } } }
pub trait TryDrop: Sized { fn try_drop(self) -> Result<(), Self>; }
impl TryDrop for () { fn try_drop(self) -> Result<(), ()> { Ok(()) } }
pub trait TryMerge: Sized { fn try_merge(self, o: Self) -> Result<Self, (Self, Self)>; }
pub trait Imbalance<Balance>: Sized + TryDrop + Default {
	type Opposite: Imbalance<Balance>;
	fn zero() -> Self; fn drop_zero(self) -> Result<(), Self>; fn split(self, amount: Balance) -> (Self, Self);
	fn ration(self, f: u32, s: u32) -> (Self, Self) where Balance: From<u32> + sp_runtime::traits::Saturating + Div<Output = Balance> { let t: u32 = f.saturating_add(s); if t == 0 { return (Self::zero(), Self::zero()) } let a = self.peek().saturating_mul(f.into()) / t.into(); self.split(a) }
	fn split_merge(self, amount: Balance, o: (Self, Self)) -> (Self, Self) { let (a, b) = self.split(amount); (a.merge(o.0), b.merge(o.1)) }
	fn ration_merge(self, f: u32, s: u32, o: (Self, Self)) -> (Self, Self) where Balance: From<u32> + sp_runtime::traits::Saturating + Div<Output = Balance> { let (a, b) = self.ration(f, s); (a.merge(o.0), b.merge(o.1)) }
	fn merge(self, o: Self) -> Self; fn merge_into(self, o: &mut Self) { let r = std::mem::replace(o, Self::zero()); *o = r.merge(self) }
	fn maybe_merge(self, o: Option<Self>) -> Self { if let Some(o) = o { self.merge(o) } else { self } }
	fn subsume(&mut self, o: Self); fn maybe_subsume(&mut self, o: Option<Self>) { if let Some(o) = o { self.subsume(o) } }
	fn offset(self, o: Self::Opposite) -> SameOrOther<Self, Self::Opposite>; fn peek(&self) -> Balance;
}
impl<B: Default> Imbalance<B> for () { type Opposite = (); fn zero() {} fn drop_zero(self) -> Result<(), ()> { Ok(()) } fn split(self, _: B) -> ((), ()) { ((), ()) } fn merge(self, _: ()) {} fn subsume(&mut self, _: ()) {} fn offset(self, _: ()) -> SameOrOther<(), ()> { SameOrOther::None } fn peek(&self) -> B { Default::default() } }
pub trait OnUnbalanced<I: TryDrop> { fn on_unbalanceds<B>(amounts: impl Iterator<Item = I>) where I: Imbalance<B> { Self::on_unbalanced(amounts.fold(I::zero(), |i, x| x.merge(i))) } fn on_unbalanced(amount: I) { amount.try_drop().unwrap_or_else(Self::on_nonzero_unbalanced) } fn on_nonzero_unbalanced(amount: I) { drop(amount) } }
impl<I: TryDrop> OnUnbalanced<I> for () {}
pub enum SignedImbalance<B, PI: Imbalance<B>> { Positive(PI), Negative(PI::Opposite) }
impl<B: Default, PI: Imbalance<B, Opposite = NI>, NI: Imbalance<B, Opposite = PI>> SignedImbalance<B, PI> {
	pub fn zero() -> Self { SignedImbalance::Positive(PI::zero()) } pub fn drop_zero(self) -> Result<(), Self> { match self { SignedImbalance::Positive(x) => x.drop_zero().map_err(SignedImbalance::Positive), SignedImbalance::Negative(x) => x.drop_zero().map_err(SignedImbalance::Negative) } }
	pub fn merge(self, o: Self) -> Self { match (self, o) { (SignedImbalance::Positive(a), SignedImbalance::Positive(b)) => SignedImbalance::Positive(a.merge(b)), (SignedImbalance::Negative(a), SignedImbalance::Negative(b)) => SignedImbalance::Negative(a.merge(b)), (SignedImbalance::Positive(a), SignedImbalance::Negative(b)) => match a.offset(b) { SameOrOther::Same(p) => SignedImbalance::Positive(p), SameOrOther::Other(n) => SignedImbalance::Negative(n), SameOrOther::None => SignedImbalance::zero() }, (a, b) => b.merge(a) } }
}
pub struct SplitTwoWays<B, I, T1, T2, const P1: u32, const P2: u32>(std::marker::PhantomData<(B, I, T1, T2)>);
impl<B: From<u32> + sp_runtime::traits::Saturating + Div<Output = B>, I: Imbalance<B>, T1: OnUnbalanced<I>, T2: OnUnbalanced<I>, const P1: u32, const P2: u32> OnUnbalanced<I> for SplitTwoWays<B, I, T1, T2, P1, P2> { fn on_nonzero_unbalanced(a: I) { let t = P1 + P2; let v = a.peek().saturating_mul(P1.into()) / t.into(); let (x, y) = a.split(v); T1::on_unbalanced(x); T2::on_unbalanced(y); } }
