pub mod families;
pub mod harness;
pub mod models;
pub mod probe;
pub mod bundled;
