//! Layers against longest paths.

use trellis::layering::create_layer_map;
use vh::gens::{gen_dag, gen_deep, stretch};
use vh::{ensure, must, viol, worker, Ctx, Res, Src};

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let big = ctx.scale > 0 && s.chance(1, 400);
    let mut g = gen_dag(s, if big { 3000 } else { ctx.by_scale(20, 120, 500) });
    stretch(s, ctx.scale, &mut g);
    if ctx.giant() {
        g = gen_deep(s, false);
    }
    ctx.fp(g.fingerprint());
    ctx.sample(|| g.short());
    let order = g.topo().expect("generator made a cycle");
    let mut want = vec![0u32; g.n];
    for &v in order.iter().rev() {
        want[v as usize] = g.adj[v as usize].iter().map(|&t| want[t as usize] + 1).max().unwrap_or(0);
    }
    let graph = g.build();
    let m = match must("create_layer_map", || create_layer_map(&graph))? {
        Ok(m) => m,
        Err(e) => viol!("layering an acyclic graph failed with {:?}: {}", e, g.short()),
    };
    ensure!(m.v_layer.len() == g.n, "{} layers for {} vertices", m.v_layer.len(), g.n);
    for (f, t) in g.edges() {
        ensure!(
            m.v_layer[f as usize] > m.v_layer[t as usize],
            "edge {} -> {} does not point down: {:?} for {}",
            f,
            t,
            m.v_layer,
            g.short()
        );
    }
    ensure!(m.v_layer == want, "layers are {:?}, expected {:?} for {}", m.v_layer, want, g.short());
    let num = want.iter().max().map_or(1, |&x| x as usize + 1);
    ensure!(m.num_layers == num, "num_layers is {}, expected {} for {}", m.num_layers, num, g.short());
    ctx.ev("vertices layered", g.n as u64);
    ctx.max("most layers", num as u64);
    if num >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

fn main() {
    worker("G07", run)
}
