//! Stand-in for the (unreachable) `plonky2` fork.
//!
//! * `field`, `hash`: the Goldilocks field, its quadratic extension and a
//!   width-12 / rate-8 sponge ("Poseidon2" in shape; the round constants are
//!   ours).
//! * `plonk`, `iop`: a *mock prover*.  A `CircuitBuilder` records generators and
//!   constraints; `prove` runs the generators and then evaluates every
//!   constraint; `verify_proof` inside a circuit checks the recorded mock proof
//!   against the verifier data in the witness.  It is exact about which
//!   witnesses satisfy a circuit, and has nothing cryptographic in it.
#![allow(clippy::all, dead_code)]
pub mod field;
pub mod hash;
pub mod gates;
pub mod iop;
pub mod plonk;
pub mod util;
pub mod fri;
pub mod batch_fri;

#[macro_export]
macro_rules! timed { ($a:expr, $b:expr, $c:expr) => {{ let _ = &$a; $c }}; ($a:expr, $b:expr, $c:expr, $d:expr) => {{ let _ = &$a; $d }}; }
#[macro_export]
macro_rules! with_context { ($a:expr, $b:expr, $c:expr) => {{ $c }}; ($a:expr, $b:expr, $c:expr, $d:expr) => {{ $d }}; }
