pub mod alloc;
pub mod checks;
pub mod ctx;
pub mod explore;
pub mod model;
pub mod real;
pub mod runner;
