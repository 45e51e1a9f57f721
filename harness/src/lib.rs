//! Contracts of the crates in /repo, stated against their public interface.
//!
//! This crate is never executed: /verif/checker interprets it abstractly. Every public function of a
//! module `cNN` is a contract of property CNN: its arguments are arbitrary, the functions of `g` are
//! ghost operations of the analyser.
#![allow(dead_code, unused_variables, unused_imports, unused_mut, mismatched_lifetime_syntaxes, unreachable_code)]
#![feature(sized_hierarchy)]

pub mod g;

mod bump;
mod unsync;
mod leaked;
mod env;
mod models;
mod exits;
mod traits;
mod uninit;
mod filling;
mod boxes;
mod helpers;
mod rcs;
mod sizing;
mod chains;
mod vector;
mod wraps;
