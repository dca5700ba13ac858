//! itertools 0.8 is not in the offline registry: re-export of the registry's itertools 0.13.
pub use real::*;
