pub mod c01_binary;
pub mod c04_mac;
pub mod edits;
pub mod units;
pub mod geom;
pub mod meshio;
pub mod schema;
pub mod c02_rewrite;
pub mod expand;
pub mod determinism;
pub mod agree;
pub mod shape;
pub mod builtin;
pub mod wave;
pub mod fsys;
pub mod crash;
pub mod faults;
pub mod hostile;
pub mod looks;
