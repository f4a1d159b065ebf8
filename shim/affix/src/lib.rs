//! Stand-in for `affix`.
pub use mini_macros::paste;
