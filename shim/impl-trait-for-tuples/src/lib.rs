pub use mini_macros::impl_for_tuples;
