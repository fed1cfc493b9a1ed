//! Cycles are reported exactly if there are any.

use trellis::error::Error;
use trellis::layering::create_layer_map;
use trellis::topo_sort::{topo_sort, topo_sort_reverse};
use vh::gens::{add_cycle, gen_any, gen_dag, gen_deep, stretch};
use vh::{ensure, must, worker, Ctx, Res, Src};

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let big = ctx.scale > 0 && s.chance(1, 400);
    let max = if big { 4000 } else { ctx.by_scale(16, 90, 500) };
    let mut g = match s.below(5) {
        0 | 1 => gen_dag(s, max),
        2 | 3 => {
            let mut g = gen_dag(s, max);
            add_cycle(s, &mut g);
            g
        }
        _ => gen_any(s, max),
    };
    stretch(s, ctx.scale, &mut g);
    if ctx.giant() {
        let cyclic = s.chance(1, 2);
        g = gen_deep(s, cyclic);
    }
    ctx.fp(g.fingerprint());
    ctx.sample(|| g.short());
    let acyclic = g.topo().is_some();
    let graph = g.build();
    let a = must("topo_sort", || topo_sort(&graph).map(|_| ()))?;
    let b = must("topo_sort_reverse", || topo_sort_reverse(&graph).map(|_| ()))?;
    let c = must("create_layer_map", || create_layer_map(&graph).map(|_| ()))?;
    let want: Result<(), Error> = if acyclic { Ok(()) } else { Err(Error::FoundCycle) };
    for (got, what) in [(a, "topo_sort"), (b, "topo_sort_reverse"), (c, "create_layer_map")] {
        ensure!(got == want, "{} gave {:?} for {}, expected {:?}", what, got, g.short(), want);
    }
    ctx.ev(if acyclic { "acyclic graphs" } else { "cyclic graphs" }, 1);
    ctx.max("most vertices", g.n as u64);
    if g.num_edges() >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

fn main() {
    worker("G06", run)
}
