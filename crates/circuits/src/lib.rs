//! `mozak-circuits`, compiled from /repo's working tree (see build.rs), plus a
//! module of our own that can reach its crate-private items.
#![feature(const_trait_impl)]
#![allow(warnings, clippy::all)]
include!(concat!(env!("OUT_DIR"), "/lib.rs"));
#[path = "air.rs"]
pub mod air;
