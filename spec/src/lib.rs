//! Reference statements of the behaviours the properties describe. Nothing here is ever run: the
//! analysis normalises these functions and the repository's with the same rules and compares them.
#![allow(clippy::all, non_snake_case, dead_code, unused)]
pub mod api;
pub mod cli;
pub mod prelude;
pub mod inputs;
pub mod receive;
pub mod send;
pub mod psbt;
pub mod code;
pub mod dleq;
pub mod index;
pub mod oracle;
pub mod stored;
