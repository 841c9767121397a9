//! Stand-in: only what /repo/cli/src/runner.rs names for computing program ids.
use mozak_runner::elf::Program;
use mozak_sdk::common::types::ProgramIdentifier;
use plonky2::hash::hash_types::RichField;
use plonky2::plonk::config::GenericConfig;
pub mod memoryinit { pub mod generation { use super::super::*; pub fn generate_elf_memory_init_trace<F: RichField>(_: &Program) -> Vec<Vec<F>> { unimplemented!() } } }
pub mod program { pub mod generation { use super::super::*; pub fn generate_program_rom_trace<F: RichField>(_: &Program) -> Vec<Vec<F>> { unimplemented!() } } }
pub mod stark { pub mod prover { use super::super::*; pub fn get_program_id<F, C, const D: usize>(_: F, _: &(), _: &()) -> ProgramIdentifier where F: RichField + plonky2::field::extension::Extendable<D>, C: GenericConfig<D, F = F> { unimplemented!() } } }
