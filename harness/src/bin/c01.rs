use vh::vo::{history, Elem, Wide};
use vh::{worker, Ctx, Res, Src};

fn go<E: Elem>(s: &mut Src, ctx: &mut Ctx, tag: &'static str) -> Res {
    let mut log = Vec::new();
    ctx.ev(tag, 1);
    let r = history::<E>(s, ctx, &mut log);
    for l in &log {
        ctx.fp_str(l);
    }
    ctx.fp_str(E::NAME);
    ctx.sample(|| format!("elements {}: {}", E::NAME, log.join("; ")));
    let bad = vh::alloc::bad();
    if bad > 0 {
        return Err(vh::Viol(format!("{} blocks were released wrongly or overrun", bad)));
    }
    r
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.below(8) {
        0 => go::<u64>(s, ctx, "histories over u64"),
        1 => go::<Box<u64>>(s, ctx, "histories over Box<u64>"),
        2 => go::<String>(s, ctx, "histories over String"),
        3 => go::<()>(s, ctx, "histories over ()"),
        4 => go::<Wide>(s, ctx, "histories over an over-aligned type"),
        5 => go::<u8>(s, ctx, "histories over u8"),
        6 => go::<bool>(s, ctx, "histories over bool"),
        _ => go::<(u16, Vec<u32>)>(s, ctx, "histories over (u16, Vec<u32>)"),
    }
}

fn main() {
    worker("C01", run)
}
