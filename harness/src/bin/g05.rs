//! Topological order of acyclic graphs.

use trellis::topo_sort::{topo_sort, topo_sort_reverse};
use vh::gens::{gen_any, gen_dag, gen_deep, stretch};
use vh::{ensure, must, worker, Ctx, Res, Src};

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let big = ctx.scale > 0 && s.chance(1, 400);
    let max = if big { 4000 } else { ctx.by_scale(20, 120, 500) };
    // "if sorting succeeds": cyclic graphs are given too
    let mut g = if s.chance(1, 6) { gen_any(s, max) } else { gen_dag(s, max) };
    stretch(s, ctx.scale, &mut g);
    if ctx.giant() {
        let cyclic = s.chance(1, 3);
        g = gen_deep(s, cyclic);
    }
    ctx.fp(g.fingerprint());
    ctx.sample(|| g.short());
    let graph = g.build();
    let before = graph.clone();
    let fwd = must("topo_sort", || topo_sort(&graph))?;
    let rev = must("topo_sort_reverse", || topo_sort_reverse(&graph))?;
    ensure!(graph == before, "sorting changed the graph");
    ensure!(fwd.is_ok() == rev.is_ok(), "the two sorts disagree about {}", g.short());
    let (fwd, rev) = match (fwd, rev) {
        (Ok(a), Ok(b)) => (a, b),
        _ => {
            ctx.ev("graphs refused", 1);
            return Ok(());
        }
    };
    let ind = g.indeg();
    for (order, forward) in [(&fwd, true), (&rev, false)] {
        let what = if forward { "topo_sort" } else { "topo_sort_reverse" };
        let mut pos = vec![usize::MAX; g.n];
        for (i, &v) in order.iter().enumerate() {
            ensure!((v as usize) < g.n, "{} names vertex {} of {}", what, v, g.n);
            ensure!(pos[v as usize] == usize::MAX, "{} names vertex {} twice: {:?} for {}", what, v, order, g.short());
            pos[v as usize] = i;
        }
        for v in 0..g.n {
            let touched = ind[v] > 0 || !g.adj[v].is_empty();
            ensure!(
                touched == (pos[v] != usize::MAX),
                "{}: vertex {} is {}: {:?} for {}",
                what,
                v,
                if touched { "missing" } else { "isolated but listed" },
                order,
                g.short()
            );
        }
        for (f, t) in g.edges() {
            let (a, b) = (pos[f as usize], pos[t as usize]);
            let ok = if forward { a < b } else { b < a };
            ensure!(ok, "{}: edge {} -> {} is out of order in {:?} for {}", what, f, t, order, g.short());
            ctx.ev("edges checked against an order", 1);
        }
    }
    let mirrored: Vec<u32> = rev.iter().rev().copied().collect();
    ensure!(mirrored == fwd, "the sorts are not mirror images: {:?}, {:?}", fwd, rev);
    ctx.max("longest order", fwd.len() as u64);
    if fwd.len() >= 3 {
        ctx.nontrivial();
    }
    Ok(())
}

fn main() {
    worker("G05", run)
}
