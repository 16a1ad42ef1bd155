#![feature(f16, f128)]
#![allow(unstable_name_collisions)]
mod cli;
mod mac;
mod step;
mod util;
mod verdict;

use libm_test::builtins_wrapper;

fn main() {
    // SAFETY: no other threads yet. Rejections are errors that would each collect a backtrace.
    unsafe { std::env::set_var("RUST_LIB_BACKTRACE", "0") };
    vcore::engine::main(|ctx| match ctx.prop.as_str() {
        "C41" => Some(step::c41(ctx)),
        "C45" => Some(mac::c45(ctx)),
        "C44" => Some(cli::c44(ctx)),
        "C42" => Some(verdict::c42(ctx)),
        _ => None,
    });
}
