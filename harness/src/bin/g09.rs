//! Disjoint subgraphs against connected components.

use trellis::disjoint::find_disjoint_subgraphs;
use vh::gens::{gen_any, gen_dag, gen_deep, stretch, G};
use vh::{ensure, must, worker, Ctx, Res, Src};

fn find(p: &mut Vec<usize>, mut v: usize) -> usize {
    while p[v] != v {
        p[v] = p[p[v]];
        v = p[v];
    }
    v
}

/// Several parts, interleaved, joined in an order that merges groups of groups.
fn merging(s: &mut Src, max: usize) -> G {
    let n = s.urange(2, max.max(3));
    let mut g = G::new(n);
    let k = s.urange(1, n / 2 + 1);
    // stars or chains first
    for v in 0..n {
        let step = k;
        if v + step < n && s.chance(3, 4) {
            if s.chance(1, 2) {
                g.adj[v].push((v + step) as u32);
            } else {
                g.adj[v + step].push(v as u32);
            }
        }
    }
    // then links between them, from anywhere
    for _ in 0..s.us(k + 2) {
        let (a, b) = (s.us(n), s.us(n));
        g.adj[a].push(b as u32);
    }
    if s.chance(1, 2) {
        let mut p: Vec<usize> = (0..n).collect();
        s.shuffle(&mut p);
        g = g.relabel(&p);
    }
    g
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let max = ctx.by_scale(14, 60, 400);
    let mut g = match s.below(4) {
        0 => gen_dag(s, max),
        1 => gen_any(s, max),
        _ => merging(s, max),
    };
    stretch(s, ctx.scale, &mut g);
    if ctx.giant() {
        if s.chance(1, 2) {
            g = gen_deep(s, false);
        } else {
            // more groups than sixteen bits count, some joined from far away
            let w = s.urange(66_000, 72_000);
            g = G::new(2 * w);
            let far = s.chance(1, 2);
            for i in 0..w {
                let (a, b) = if far { (i, i + w) } else { (2 * i, 2 * i + 1) };
                if s.chance(1, 2) {
                    g.adj[a].push(b as u32);
                } else {
                    g.adj[b].push(a as u32);
                }
            }
            for _ in 0..s.us(300) {
                let (a, b) = (s.us(g.n), s.us(g.n));
                g.adj[a].push(b as u32);
            }
        }
    }
    ctx.fp(g.fingerprint());
    ctx.sample(|| g.short());
    let graph = g.build();
    let before = graph.clone();
    let d = must("find_disjoint_subgraphs", || find_disjoint_subgraphs(&graph))?;
    ensure!(graph == before, "the search changed the graph");
    let mut p: Vec<usize> = (0..g.n).collect();
    let mut touched = vec![false; g.n];
    for (f, t) in g.edges() {
        touched[f as usize] = true;
        touched[t as usize] = true;
        let (a, b) = (find(&mut p, f as usize), find(&mut p, t as usize));
        p[a] = b;
    }
    let groups: Vec<Vec<u32>> = must("reading the groups", || d.subgraphs.iter().map(|l| l.to_vec()).collect())?;
    ensure!(
        d.subgraphs.num_values() == groups.iter().map(|l| l.len()).sum::<usize>(),
        "vertices outside any group"
    );
    let mut of = vec![usize::MAX; g.n];
    for (k, l) in groups.iter().enumerate() {
        ensure!(!l.is_empty(), "group {} is empty for {}", k, g.short());
        for w in l.windows(2) {
            ensure!(w[0] < w[1], "group {:?} is not in increasing order for {}", l, g.short());
        }
        for &v in l {
            ensure!((v as usize) < g.n, "group names vertex {} of {}", v, g.n);
            ensure!(of[v as usize] == usize::MAX, "vertex {} is in two groups for {}", v, g.short());
            of[v as usize] = k;
        }
    }
    let mut leader: std::collections::HashMap<usize, usize> = Default::default();
    for v in 0..g.n {
        ensure!(
            touched[v] == (of[v] != usize::MAX),
            "vertex {} {} for {}",
            v,
            if touched[v] { "is in no group" } else { "is isolated but in a group" },
            g.short()
        );
        if touched[v] {
            let r = find(&mut p, v);
            let k = *leader.entry(r).or_insert(of[v]);
            ensure!(k == of[v], "vertices of one component are in groups {} and {}: {}", k, of[v], g.short());
        }
    }
    ensure!(
        leader.len() == groups.len(),
        "{} groups for {} components: {:?} for {}",
        groups.len(),
        leader.len(),
        groups,
        g.short()
    );
    ctx.ev("components compared", groups.len() as u64);
    ctx.max("most components", groups.len() as u64);
    if g.num_edges() >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

fn main() {
    worker("G09", run)
}
