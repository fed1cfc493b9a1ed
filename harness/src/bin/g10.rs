//! Chains.

use trellis::find_chains::find_chains;
use vh::gens::{gen_any, gen_deep, stretch, G};
use vh::{ensure, must, worker, Ctx, Res, Src};

/// Few joints, linked by long chains; rings of inner vertices beside them.
fn chained(s: &mut Src, max: usize) -> G {
    let joints = s.urange(1, 5);
    let mut g = G::new(joints);
    let links = s.urange(1, 7);
    for _ in 0..links {
        let (a, b) = (s.us(joints), s.us(joints));
        let len = s.us(5);
        let mut at = a;
        for _ in 0..len {
            if g.n >= max {
                break;
            }
            g.adj.push(Vec::new());
            g.adj[at].push(g.n as u32);
            at = g.n;
            g.n += 1;
        }
        g.adj[at].push(b as u32);
    }
    if s.chance(1, 3) {
        let k = s.urange(1, 4);
        let base = g.n;
        for i in 0..k {
            g.adj.push(vec![(base + (i + 1) % k) as u32]);
        }
        g.n += k;
    }
    if s.chance(1, 3) {
        // spoil one vertex: a self loop, or one more edge
        let v = s.us(g.n);
        let t = if s.chance(1, 2) { v } else { s.us(g.n) };
        if s.chance(1, 2) {
            g.adj[v].push(t as u32);
        } else {
            g.adj[v].insert(0, t as u32);
        }
    }
    let mut p: Vec<usize> = (0..g.n).collect();
    if s.chance(2, 3) {
        s.shuffle(&mut p);
    }
    g.relabel(&p)
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let max = ctx.by_scale(16, 60, 300);
    let mut g = if s.chance(1, 3) { gen_any(s, max) } else { chained(s, max) };
    stretch(s, ctx.scale, &mut g);
    if ctx.giant() {
        if s.chance(1, 2) {
            g = gen_deep(s, false);
        } else {
            // more chains than sixteen bits count, of one or two inner vertices
            let (w, two) = (s.urange(65_540, 70_000), s.chance(1, 2));
            g = G::new(2 + w * if two { 2 } else { 1 });
            for i in 0..w {
                g.adj[0].push(2 + i as u32);
                if two {
                    g.adj[2 + i].push((2 + w + i) as u32);
                    g.adj[2 + w + i].push(1);
                } else {
                    g.adj[2 + i].push(1);
                }
            }
        }
    }
    ctx.fp(g.fingerprint());
    ctx.sample(|| g.short());
    let ind = g.indeg();
    let inner: Vec<bool> =
        (0..g.n).map(|v| ind[v] == 1 && g.adj[v].len() == 1 && g.adj[v][0] != v as u32).collect();
    let mut want: Vec<Vec<u32>> = Vec::new();
    for (f, t) in g.edges() {
        if inner[f as usize] || !inner[t as usize] {
            continue;
        }
        let mut c = vec![f];
        let mut at = t;
        while inner[at as usize] {
            c.push(at);
            at = g.adj[at as usize][0];
        }
        c.push(at);
        want.push(c);
    }
    let graph = g.build();
    let before = graph.clone();
    let chains = must("find_chains", || find_chains(&graph))?;
    ensure!(graph == before, "the search changed the graph");
    let mut got: Vec<Vec<u32>> = must("reading the chains", || chains.iter().map(|l| l.to_vec()).collect())?;
    ensure!(
        chains.num_values() == got.iter().map(|c| c.len()).sum::<usize>(),
        "vertices outside any chain for {}",
        g.short()
    );
    got.sort();
    want.sort();
    ensure!(got == want, "the chains are {:?}, expected {:?} for {}", got, want, g.short());
    let rings = (0..g.n).filter(|&v| inner[v]).count() - want.iter().map(|c| c.len() - 2).sum::<usize>();
    ctx.ev("chains compared", want.len() as u64);
    ctx.ev("inner vertices on rings", rings as u64);
    if !want.is_empty() {
        ctx.nontrivial();
    }
    Ok(())
}

fn main() {
    worker("G10", run)
}
