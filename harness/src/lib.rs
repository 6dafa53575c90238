#![allow(clippy::type_complexity)]
pub mod alloc;
pub mod clock;
pub mod dict;
pub mod gen;
pub mod json;
pub mod keys;
pub mod oracle;
pub mod props;
pub mod runner;
pub mod server;
pub mod sys;
pub mod types;
