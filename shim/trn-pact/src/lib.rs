//! Stand-in for `trn-pact`: argument values.
pub mod types {
	#[derive(Debug, Clone, PartialEq, Eq)] pub struct StringLike(pub Vec<u8>);
	#[derive(Debug, Clone, PartialEq, Eq)] pub struct Numeric(pub u64);
	#[derive(Debug, Clone, PartialEq, Eq)] pub enum PactType { StringLike(StringLike), Numeric(Numeric), List(Vec<PactType>) }
}
