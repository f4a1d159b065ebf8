use codec::{Decode, Encode};
#[derive(Encode, Decode, PartialEq, Eq, Clone, Debug, PartialOrd, Ord, Hash)]
pub enum MultiAddress<AccountId, AccountIndex> { Id(AccountId), Index(#[codec(compact)] AccountIndex), Raw(Vec<u8>), Address32([u8; 32]), Address20([u8; 20]) }
impl<A, I> From<A> for MultiAddress<A, I> { fn from(a: A) -> Self { Self::Id(a) } }
