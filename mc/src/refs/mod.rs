pub mod big;
pub mod curve;
pub mod sha2;
pub mod sym;
