#[macro_use]
mod macros;
mod model;
mod props;
mod sym;
mod any;
mod lay;
mod menu;
mod tree;
