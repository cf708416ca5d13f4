//! Stands in for `pure` when the tree's library functions do not have the signatures it calls: C22 to
//! C27 then look at the same arithmetic through whole histories of instructions (see `props`).

use crate::runner::*;
use serde_json::Value;

fn absent() -> ! {
    eprintln!("the library functions this case calls do not have the expected signatures");
    std::process::exit(2);
}
pub fn run(_: &Ctx, _: &'static str, _: u64) -> Cover {
    absent()
}
pub fn ticks_all(_: &Ctx) -> Cover {
    absent()
}
pub fn prices_low(_: &Ctx, _: u64) -> Cover {
    absent()
}
pub fn bitmap_positions(_: &Ctx) -> Cover {
    absent()
}
pub fn replay(_: &str, _: &Value) -> Option<String> {
    absent()
}
