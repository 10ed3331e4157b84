//! Proof harnesses over the public API of the real, compiled crate: each states a contract of
//! the API and Kani decides it for every value of the symbolic inputs. Harness names start with
//! the property they belong to.
#![allow(clippy::all)]

#[cfg(kani)]
#[path = "/repo/dlhn/src/contracts.rs"]
mod reference;

#[cfg(kani)]
mod io;
#[cfg(kani)]
mod scalars;
