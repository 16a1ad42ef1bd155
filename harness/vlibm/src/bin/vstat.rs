#![feature(f16, f128)]
#![allow(unstable_name_collisions)]
#[path = "../status.rs"]
mod status;
#[path = "../util.rs"]
#[allow(dead_code)]
mod util;

fn main() {
    vcore::engine::main(|ctx| match ctx.prop.as_str() {
        "C39" => Some(status::c39(ctx)),
        _ => None,
    });
}
