//! The parts of /repo/cli that do not need the prover.
#[path = "/repo/cli/src/runner.rs"]
pub mod runner;
mod trace_utils {
    pub(crate) fn get_trace_merkle_cap<F, C, const D: usize, Row>(_: Vec<Row>, _: &starky::config::StarkConfig) { unimplemented!() }
}
