pub mod ctx;
pub mod gen_in;
pub mod history;
pub mod json;
pub mod laws;
pub mod leaf;
pub mod lists;
pub mod model;
pub mod node;
pub mod props;
pub mod reg;
pub mod rng;
pub mod run;
pub mod shape;
pub mod tok;
