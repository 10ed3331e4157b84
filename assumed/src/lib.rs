//! Contracts that the Verus templates assume of the standard library and of the time crate, stated once more in
//! Rust and decided by Kani on the code of those crates, for every value.
#![allow(clippy::all)]
#[cfg(kani)]
mod std_contracts;
#[cfg(kani)]
mod time_contracts;
