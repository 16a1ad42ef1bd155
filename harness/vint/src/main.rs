use vrt::ints::{self, IntFns};

static TABS: [IntFns; 2] = [vrt::int_fns!(b1, "arch"), vrt::int_fns!(b2, "portable")];

fn clz_default(x: u64, w: u32) -> usize {
    match w {
        64 => b1::int::leading_zeros::leading_zeros_default(x),
        _ => b1::int::leading_zeros::leading_zeros_default(x as u32),
    }
}
fn clz_condset(x: u64, w: u32) -> usize {
    match w {
        64 => b1::int::leading_zeros::leading_zeros_condset(x),
        _ => b1::int::leading_zeros::leading_zeros_condset(x as u32),
    }
}
static CLZ: [(&str, fn(u64, u32) -> usize); 2] = [("bisection", clz_default), ("conditional-set", clz_condset)];

fn main() {
    vcore::engine::main(|ctx| match ctx.prop.as_str() {
        "C01" => Some(ints::c01(ctx, &TABS)),
        "C02" => Some(ints::c02(ctx, &TABS)),
        "C03" => Some(ints::c03(ctx, &TABS)),
        "C04" => Some(ints::c04(ctx, &TABS, &CLZ)),
        _ => None,
    });
}
