//! Command line: `check`, `worker`, `replay`, `one`, `selftest`.
#![allow(invalid_runtime_symbol_definitions, static_mut_refs)]
include!("root.rs");
fn main() { std::process::exit(run(std::env::args().skip(1).collect())); }
