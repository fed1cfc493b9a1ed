//! Transposed graphs.

use vh::gens::{stretch, gen_any, G};
use vh::{ensure, must, worker, Ctx, Res, Src};

fn lists(g: &trellis::graph::Graph) -> Vec<Vec<u32>> {
    g.iter_from_edges().map(|(_, l)| l.to_vec()).collect()
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut g = gen_any(s, ctx.by_scale(20, 120, 1200));
    stretch(s, ctx.scale, &mut g);
    ctx.fp(g.fingerprint());
    ctx.sample(|| g.short());
    let graph = g.build();
    let before = graph.clone();
    let t = must("transpose", || graph.transpose())?;
    let mut want = G::new(g.n);
    for (f, to) in g.edges() {
        want.adj[to as usize].push(f);
    }
    ensure!(t.num_verts() == g.n, "{} vertices instead of {}", t.num_verts(), g.n);
    ensure!(t.num_edges() == g.num_edges(), "{} edges instead of {}", t.num_edges(), g.num_edges());
    let got = must("reading the transpose", || lists(&t))?;
    ensure!(got == want.adj, "the transpose of {} is {:?}, expected {:?}", g.short(), got, want.adj);
    ensure!(graph == before, "transposing changed the graph");
    let tt = must("transpose twice", || t.transpose())?;
    let mut sorted = g.clone();
    sorted.adj.iter_mut().for_each(|l| l.sort());
    let got = lists(&tt);
    ensure!(got == sorted.adj, "transposed twice, {} is {:?}", g.short(), got);
    let same = sorted.build();
    let twice = must("transpose of a sorted graph", || same.transpose().transpose())?;
    ensure!(twice == same, "a graph with sorted lists is not reproduced: {}", sorted.short());
    ctx.ev("edges reversed", g.num_edges() as u64);
    ctx.max("most vertices", g.n as u64);
    ctx.max("most edges", g.num_edges() as u64);
    if g.num_edges() >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

fn main() {
    worker("G02", run)
}
