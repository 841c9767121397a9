pub mod types;
pub mod goldilocks_field;
pub mod extension;
pub mod packed;
pub mod packable;
pub mod polynomial;
pub mod zero_poly_coset;
pub mod batch_util { }
