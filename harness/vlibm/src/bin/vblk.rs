#![feature(f16, f128)]
#![allow(unstable_name_collisions)]
#[path = "../blocks.rs"]
mod blocks;
#[path = "../util.rs"]
#[allow(dead_code)]
mod util;

fn main() {
    vcore::engine::main(|ctx| match ctx.prop.as_str() {
        "C46" => Some(blocks::c46(ctx)),
        "C47" => Some(blocks::c47(ctx)),
        _ => None,
    });
}
