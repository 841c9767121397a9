pub mod target;
pub mod witness;
pub mod ext_target { pub use super::target::ExtensionTarget; }
pub mod challenger;
