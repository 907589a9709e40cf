pub mod case;
pub mod circuit;
pub mod elfgen;
pub mod engine;
pub mod model;
pub mod tiny;
pub mod vm;
