//! The checks that compile the executors once per pair of item types (C30), apart from the others because that
//! takes the compiler a while.
#[path = "../base.rs"]
mod base;
#[path = "../driver.rs"]
mod driver;
#[path = "../exec.rs"]
mod exec;
#[path = "../items.rs"]
mod items;
#[path = "../model.rs"]
mod model;
#[path = "../ops.rs"]
mod ops;
#[macro_use]
#[path = "../props_hist.rs"]
mod props_hist;
#[path = "../props_items.rs"]
mod props_items;
#[path = "../tree.rs"]
mod tree;
mod ty {
    pub use crate::items::{L, R};
    pub const LDOM: u16 = u16::MAX;
    pub const RDOM: u16 = u16::MAX;
}
fn main() {
    std::process::exit(driver::main(vec![driver::def::<props_items::C30>()]));
}
