pub use mini_macros::hex;
