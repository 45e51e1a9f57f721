//! Only here to have the crates of /repo type-checked with all features; the programs are in programs/.
pub use {alloc_traits, exit_stack, fill, static_alloc, unsize, without_alloc};
