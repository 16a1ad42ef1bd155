#![feature(f16, f128)]
#![allow(unstable_name_collisions)]
#[path = "../hex.rs"]
mod hex;

fn main() {
    vcore::engine::main(|ctx| match ctx.prop.as_str() {
        "C37" => Some(hex::c37(ctx)),
        _ => None,
    });
}
