#![feature(f16, f128)]
mod acc;
mod args;
mod bessel;
mod hard;
mod routes;
mod special;
mod total;

fn main() {
    vcore::engine::main(|ctx| match ctx.prop.as_str() {
        "C24" => Some(acc::c24(ctx)),
        "C25" => Some(acc::c25(ctx)),
        "C26" => Some(acc::c26(ctx)),
        "C27" => Some(acc::c27(ctx)),
        "C28" => Some(acc::c28(ctx)),
        "C29" => Some(acc::c29(ctx)),
        "C30" => Some(acc::c30(ctx)),
        "C31" => Some(acc::c31(ctx)),
        "C32" => Some(bessel::c32(ctx)),
        "C33" => Some(total::c33(ctx)),
        "C34" => Some(special::c34(ctx)),
        "C35" => Some(routes::c35(ctx)),
        _ => None,
    });
}
