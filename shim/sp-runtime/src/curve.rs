use sp_arithmetic::{Perbill, traits::*};
#[derive(PartialEq, Eq, Debug)] pub struct PiecewiseLinear<'a> { pub points: &'a [(Perbill, Perbill)], pub maximum: Perbill }
impl<'a> PiecewiseLinear<'a> { pub fn calculate_for_fraction_times_denominator<N: AtLeast32BitUnsigned + Clone + sp_arithmetic::RationalArg>(&self, n: N, d: N) -> N where Perbill: std::ops::Mul<N, Output = N> { let n = n.min(d.clone()); let _ = n; if self.points.is_empty() { return N::zero() } self.maximum * d } }
