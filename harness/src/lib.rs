#[macro_use]
pub mod ctx;
pub mod rng;
pub mod model;
pub mod own;
pub mod mem;
pub mod cov;
pub mod gen;
pub mod oracle;
pub mod props;
pub mod script;
pub mod guided;
