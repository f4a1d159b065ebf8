pub use std::{alloc, any, ascii, borrow, boxed, cell, clone, cmp, convert, default, fmt, hash, iter, marker, mem, num, ops, option, ptr, rc, result, slice, str, string, sync, thread, time, vec, array};
#[macro_export]
macro_rules! if_std { ($($c:tt)*) => { $($c)* }; }
#[macro_export]
macro_rules! map { ($($n:expr => $v:expr),* $(,)?) => { ::std::collections::BTreeMap::from_iter([$(($n, $v)),*]) }; }
pub use std::vec as __v;
pub mod collections { pub use std::collections::{btree_map, btree_set, vec_deque, hash_map, hash_set, BTreeMap, BTreeSet, VecDeque, HashMap, HashSet}; }
pub mod prelude {
	pub use std::{borrow::ToOwned, boxed::Box, clone::Clone, cmp::{Eq, PartialEq, Reverse}, iter::{Extend, IntoIterator}, vec, vec::Vec, string::{String, ToString}, format};
}
pub struct Writer(Vec<u8>);
impl Default for Writer { fn default() -> Self { Writer(vec![]) } }
impl std::fmt::Write for Writer { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.extend(s.as_bytes()); Ok(()) } }
impl Writer { pub fn inner(&self) -> &Vec<u8> { &self.0 } pub fn into_inner(self) -> Vec<u8> { self.0 } }
