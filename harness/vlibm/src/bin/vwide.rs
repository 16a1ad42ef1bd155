#![allow(unstable_name_collisions)]
#[path = "../wide.rs"]
mod wide;
#[path = "../util.rs"]
#[allow(dead_code)]
mod util;

fn main() {
    vcore::engine::main(|ctx| match ctx.prop.as_str() {
        "C38" => Some(wide::c38(ctx)),
        _ => None,
    });
}
