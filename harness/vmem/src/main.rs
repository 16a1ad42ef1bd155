use vrt::mem::{self, MemFns};

static TABS: [MemFns; 4] = [
    vrt::mem_fns!(b1, "arch"),
    vrt::mem_fns!(b2, "portable"),
    vrt::mem_fns!(b3, "portable, aligned accesses only"),
    vrt::mem_fns!(b4, "arch with fast string instructions"),
];

fn main() {
    vcore::engine::main(|ctx| match ctx.prop.as_str() {
        "C13" => Some(mem::c13(ctx, &TABS)),
        "C14" => Some(mem::c14(ctx, &TABS)),
        _ => None,
    });
}
