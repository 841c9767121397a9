//! Stand-in for the `starky` fork: the interfaces of an AIR (`Stark`), its
//! evaluation frames, and the consumers that fold constraints.
#![allow(clippy::all)]
pub mod config;
pub mod constraint_consumer;
pub mod evaluation_frame;
pub mod stark;
