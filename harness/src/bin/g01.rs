//! A graph against the list of edges it was built from.

use trellis::graph::{assert_graph_is_well_formed, Graph};
use trellis::testing::{graph_builder, graph_from_paths};
use vh::{ensure, must, worker, Ctx, Res, Src};

fn compare(g: &mut Graph, adj: &[Vec<u32>], what: &str) -> Res {
    let n = adj.len();
    let edges: Vec<(u32, u32)> =
        adj.iter().enumerate().flat_map(|(f, l)| l.iter().map(move |&t| (f as u32, t))).collect();
    must(what, || {
        ensure!(g.num_verts() == n, "{}: {} vertices instead of {}", what, g.num_verts(), n);
        ensure!(g.num_edges() == edges.len(), "{}: {} edges instead of {}", what, g.num_edges(), edges.len());
        let got: Vec<(u32, u32)> = g.iter_edges_flattened().collect();
        ensure!(got == edges, "{}: iter_edges_flattened() is {:?}, expected {:?}", what, got, edges);
        let got: Vec<(u32, Vec<u32>)> = g.iter_from_edges().map(|(f, l)| (f, l.to_vec())).collect();
        let want: Vec<(u32, Vec<u32>)> = adj.iter().enumerate().map(|(f, l)| (f as u32, l.clone())).collect();
        ensure!(got == want, "{}: iter_from_edges() is {:?}, expected {:?}", what, got, want);
        for (f, l) in adj.iter().enumerate() {
            ensure!(g.edges_from(f as u32) == &l[..], "{}: edges_from({}) is {:?}", what, f, g.edges_from(f as u32));
        }
        let got: Vec<Vec<u32>> = g.edges().iter().map(|l| l.to_vec()).collect();
        ensure!(got == adj, "{}: edges() is {:?}", what, got);
        let got: Vec<Vec<u32>> = g.edges_mut().iter().map(|l| l.to_vec()).collect();
        ensure!(got == adj, "{}: edges_mut() is {:?}", what, got);
        let c = g.clone();
        ensure!(c == *g, "{}: a clone is not equal", what);
        Ok(())
    })?
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let span = match s.below(5) {
        0 => 1,
        1 => 3,
        2 => 12,
        3 => 60,
        _ if ctx.scale > 0 && s.chance(1, 60) => 70_000,
        _ => ctx.by_scale(50, 600, 5000),
    };
    let span = if ctx.giant() && s.chance(1, 2) { 150_000 } else { span };
    let long = |s: &mut Src| if ctx.giant() { s.urange(2, 140_000) } else { s.urange(2, 3000) };
    let mut adds: Vec<(u32, u32)> = Vec::new();
    let mut log: Vec<String> = Vec::new();
    if s.chance(1, 4) {
        // from paths
        let mut paths: Vec<Vec<u32>> = Vec::new();
        for _ in 0..if ctx.giant() { 2 } else { s.us(6) } {
            let len = match s.below(6) {
                0 => 0,
                1 => 2,
                _ if ctx.giant() || ctx.scale > 0 && s.chance(1, 100) => long(s),
                _ => s.urange(2, ctx.by_scale(5, 12, 40)),
            };
            paths.push((0..len).map(|_| s.us(span) as u32).collect());
        }
        for p in &paths {
            for w in p.windows(2) {
                adds.push((w[0], w[1]));
            }
        }
        let refs: Vec<&[u32]> = paths.iter().map(|p| &p[..]).collect();
        log.push(format!("{:?}", paths));
        let mut g = must("graph_from_paths", || graph_from_paths(&refs))?;
        let adj = adjacency(&adds);
        compare(&mut g, &adj, "graph_from_paths")?;
        finish(s, ctx, &adds, adj, g, &log)
    } else {
        let mut b = graph_builder();
        for _ in 0..if ctx.giant() { s.urange(1, 6) } else { s.size(ctx.by_scale(8, 40, 150)) } {
            match s.below(4) {
                0 | 1 => {
                    let (f, t) = (s.us(span) as u32, s.us(span) as u32);
                    log.push(format!("edge({}, {})", f, t));
                    must("edge", || b.edge(f, t))?;
                    adds.push((f, t));
                }
                2 => {
                    let f = s.us(span) as u32;
                    let tos: Vec<u32> = (0..s.urange(1, 5)).map(|_| s.us(span) as u32).collect();
                    log.push(format!("from({}).to{:?}", f, tos));
                    must("from/to", || {
                        let mut c = b.from(f);
                        for &t in &tos {
                            c = c.to(t);
                        }
                    })?;
                    let mut at = f;
                    for t in tos {
                        adds.push((at, t));
                        at = t;
                    }
                }
                3 if ctx.giant() || ctx.scale > 0 && s.chance(1, 200) => {
                    // many edges from one vertex, some of them alike
                    let f = s.us(span) as u32;
                    let few = s.urange(1, span.min(9));
                    for _ in 0..if ctx.giant() { s.urange(1, 90_000) } else { s.urange(1, 500) } {
                        let t = s.us(few) as u32;
                        must("edge", || b.edge(f, t))?;
                        adds.push((f, t));
                    }
                    log.push(format!("many edges from {}", f));
                }
                _ => {
                    let p: Vec<u32> = match s.below(8) {
                        2..=7 if ctx.giant() => (0..long(s)).map(|_| s.us(span) as u32).collect(),
                        7 if ctx.scale > 0 && s.chance(1, 30) => (0..s.urange(2, 3000)).map(|_| s.us(span) as u32).collect(),
                        0 => Vec::new(),
                        1 if !adds.is_empty() => vec![s.pick(&adds).0], // adds nothing
                        _ => (0..s.urange(2, 7)).map(|_| s.us(span) as u32).collect(),
                    };
                    log.push(format!("path({:?})", p));
                    must("path", || b.path(&p))?;
                    for w in p.windows(2) {
                        adds.push((w[0], w[1]));
                    }
                }
            }
        }
        let mut g = must("build", || b.build())?;
        let adj = adjacency(&adds);
        compare(&mut g, &adj, "the graph built").map_err(|v| vh::Viol(format!("{} after {}", v.0, log.join("; "))))?;
        finish(s, ctx, &adds, adj, g, &log)
    }
}

fn adjacency(adds: &[(u32, u32)]) -> Vec<Vec<u32>> {
    let n = adds.iter().map(|&(f, t)| f.max(t) as usize + 1).max().unwrap_or(0);
    let mut adj = vec![Vec::new(); n];
    for &(f, t) in adds {
        adj[f as usize].push(t);
    }
    adj
}

fn finish(s: &mut Src, ctx: &mut Ctx, adds: &[(u32, u32)], adj: Vec<Vec<u32>>, g: Graph, log: &[String]) -> Res {
    // the same graph vertex by vertex
    let mut h = Graph::new();
    must("push_to/finish_from", || {
        for l in &adj {
            for &t in l {
                h.push_to(t);
            }
            h.finish_from();
        }
    })?;
    let eq = must("==", || h == g)?;
    ensure!(eq, "the graph built vertex by vertex is not equal to the one built by edges: {:?}", adds);
    compare(&mut h, &adj, "the graph built vertex by vertex")?;
    must("assert_graph_is_well_formed", || assert_graph_is_well_formed(&g))?;
    // another vertex more
    if s.chance(1, 3) {
        let mut adj = adj.clone();
        let t = s.us(adj.len() + 1) as u32;
        must("push_to", || {
            h.push_to(t);
            h.finish_from();
        })?;
        adj.push(vec![t]);
        compare(&mut h, &adj, "a graph with one more vertex")?;
        ensure!(must("==", || h != g)?, "graphs with different edges are equal");
    }
    for &(f, t) in adds {
        ctx.fp((f as u64) << 32 | t as u64);
    }
    ctx.ev("edges added", adds.len() as u64);
    ctx.max("most vertices", adj.len() as u64);
    ctx.sample(|| log.join("; "));
    if adds.len() >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

fn main() {
    worker("G01", run)
}
