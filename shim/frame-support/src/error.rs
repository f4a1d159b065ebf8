pub use sp_runtime::traits::{BadOrigin, LookupError};
