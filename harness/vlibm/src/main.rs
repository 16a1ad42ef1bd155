#![allow(unstable_name_collisions)]
mod exact;
mod util;

fn main() {
    vcore::engine::main(|ctx| match ctx.prop.as_str() {
        "C17" => Some(exact::c17(ctx)),
        "C18" => Some(exact::c18(ctx)),
        "C19" => Some(exact::c19(ctx)),
        "C20" => Some(exact::c20(ctx)),
        "C21" => Some(exact::c21(ctx)),
        "C22" => Some(exact::c22(ctx)),
        "C23" => Some(exact::c23(ctx)),
        _ => None,
    });
}
