//! Proper graphs: every edge a chain that descends one layer per step.

use trellis::layering::{create_layer_map, create_proper_graph, LayerMap};
use vh::gens::{gen_dag, stretch};
use vh::{ensure, must, viol, worker, Ctx, Res, Src};

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut g = gen_dag(s, if ctx.giant() { 5 } else { ctx.by_scale(12, 60, 200) });
    if !ctx.giant() {
        stretch(s, ctx.scale, &mut g);
    } else if g.num_edges() == 0 {
        g = vh::gens::G { n: 3, adj: vec![vec![2, 1], vec![2], vec![]] };
    }
    ctx.fp(g.fingerprint());
    let graph = g.build();
    // the library's own layering, or any other in which all edges point down
    let own = !ctx.giant() && s.chance(1, 3);
    let layers: Vec<u32> = if own {
        match must("create_layer_map", || create_layer_map(&graph))? {
            Ok(m) => m.v_layer,
            Err(e) => viol!("layering an acyclic graph failed with {:?}", e),
        }
    } else {
        let order = g.topo().expect("generator made a cycle");
        // now and then the layers are far apart, as far as the number of edges allows
        let gap = if ctx.scale > 0 && s.chance(1, 1000) {
            200_000 / ((g.n + g.num_edges()) as u64 * (g.n.min(200) as u64 + 1) + 1) + 3
        } else {
            s.urange(0, 3) as u64
        };
        let base = s.us(4) as u32;
        let gap = if ctx.giant() { 90_000 } else { gap };
        let mut l = vec![base; g.n];
        for &v in order.iter().rev() {
            let below = g.adj[v as usize].iter().map(|&t| l[t as usize] + 1).max().unwrap_or(base);
            l[v as usize] = below + if s.chance(1, 3) { s.below(gap + 1) as u32 } else { 0 };
        }
        l
    };
    for &l in &layers {
        ctx.fp(l as u64);
    }
    ctx.sample(|| format!("{}, layers {:?}", g.short(), layers));
    let m = LayerMap {
        num_layers: layers.iter().max().map_or(1, |&x| x as usize + 1),
        v_layer: layers.clone(),
    };
    let p = must("create_proper_graph", || create_proper_graph(&graph, &m))?;
    let n = g.n;
    let skipped: usize =
        g.edges().iter().map(|&(f, t)| (layers[f as usize] - layers[t as usize] - 1) as usize).sum();
    ensure!(p.num_verts() == n + skipped, "{} vertices instead of {}", p.num_verts(), n + skipped);
    ensure!(
        p.num_edges() == g.num_edges() + skipped,
        "{} edges instead of {}",
        p.num_edges(),
        g.num_edges() + skipped
    );
    let adj: Vec<Vec<u32>> = must("reading the result", || p.iter_from_edges().map(|(_, l)| l.to_vec()).collect())?;
    let mut ind = vec![0; n + skipped];
    for l in &adj {
        for &t in l {
            ensure!((t as usize) < n + skipped, "edge to a vertex {} that does not exist", t);
            ind[t as usize] += 1;
        }
    }
    for v in n..n + skipped {
        ensure!(
            ind[v] == 1 && adj[v].len() == 1,
            "virtual vertex {} has {} incoming and {} outgoing edges",
            v,
            ind[v],
            adj[v].len()
        );
    }
    let mut used = vec![false; n + skipped];
    let mut found: Vec<(u32, u32)> = Vec::new();
    for f in 0..n {
        for &t in &adj[f] {
            let mut at = t;
            let mut steps = 1u32;
            while at as usize >= n {
                ensure!(!used[at as usize], "virtual vertex {} is on two chains", at);
                used[at as usize] = true;
                at = adj[at as usize][0];
                steps += 1;
                ensure!(steps as usize <= skipped + 2, "the chain from {} never ends", f);
            }
            let (lf, lt) = (layers[f], layers[at as usize]);
            ensure!(
                lf > lt && lf - lt == steps,
                "the chain {} -> {} has {} steps between layers {} and {}",
                f,
                at,
                steps,
                lf,
                lt
            );
            found.push((f as u32, at));
            ctx.ev("chains followed", 1);
        }
    }
    ensure!(used[n..].iter().all(|u| *u), "a virtual vertex is on no chain");
    found.sort();
    let mut want = g.edges();
    want.sort();
    ensure!(found == want, "the chains connect {:?}, expected {:?}", found, want);
    ctx.ev("virtual vertices", skipped as u64);
    if skipped > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

fn main() {
    worker("G08", run)
}
