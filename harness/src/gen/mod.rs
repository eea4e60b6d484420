pub mod locals;
pub mod soup;
pub mod world;
