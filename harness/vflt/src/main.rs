use vrt::floats::{self, FloatFns};

static TABS: [FloatFns; 2] = [vrt::float_fns!(b1, "arch"), vrt::float_fns!(b2, "portable")];

fn main() {
    vcore::engine::main(|ctx| match ctx.prop.as_str() {
        "C05" => Some(floats::c05(ctx, &TABS)),
        "C06" => Some(floats::c06(ctx, &TABS)),
        "C07" => Some(floats::c07(ctx, &TABS)),
        "C08" => Some(floats::c08(ctx, &TABS)),
        "C09" => Some(floats::c09(ctx, &TABS)),
        "C10" => Some(floats::c10(ctx, &TABS)),
        "C11" => Some(floats::c11(ctx, &TABS)),
        "C12" => Some(floats::c12(ctx, &TABS)),
        _ => None,
    });
}
