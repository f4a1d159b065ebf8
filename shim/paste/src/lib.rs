pub use mini_macros::paste;
