//! A graph that is changed again and again against a fresh one with the same edges.

use trellis::disjoint::find_disjoint_subgraphs;
use trellis::find_chains::find_chains;
use trellis::graph::{assert_graph_is_well_formed, Graph};
use trellis::layering::{create_layer_map, create_proper_graph};
use trellis::topo_sort::{topo_sort, topo_sort_reverse};
use vh::{cut, ensure, must, worker, Ctx, Res, Src};

fn fresh(adj: &[Vec<u32>]) -> Graph {
    let mut g = Graph::new();
    for l in adj {
        for &t in l {
            g.push_to(t);
        }
        g.finish_from();
    }
    g
}

/// Everything that can be said about a graph, as texts.
fn told(g: &Graph) -> Vec<(&'static str, String)> {
    let n = g.num_verts() as u32;
    let mut o = vec![
        ("the size", format!("{} {}", g.num_verts(), g.num_edges())),
        ("edges_from", format!("{:?}", (0..n).map(|v| g.edges_from(v).to_vec()).collect::<Vec<_>>())),
        ("iter_edges_flattened", format!("{:?}", g.iter_edges_flattened().collect::<Vec<_>>())),
        ("iter_from_edges", format!("{:?}", g.iter_from_edges().collect::<Vec<_>>())),
        ("the debug form", format!("{:?}", g)),
        ("sinks", format!("{:?}", trellis::find_sinks(g.edges()))),
        ("sources", format!("{:?}", trellis::find_sources(g.edges()))),
        ("transpose", format!("{:?}", g.transpose())),
        ("topo_sort", format!("{:?}", topo_sort(g))),
        ("topo_sort_reverse", format!("{:?}", topo_sort_reverse(g))),
        ("find_disjoint_subgraphs", format!("{:?}", find_disjoint_subgraphs(g).subgraphs)),
        ("find_chains", format!("{:?}", find_chains(g))),
        ("degrees", format!("{:?}", trellis::find_degree(g.edges().all_values(), n))),
    ];
    match create_layer_map(g) {
        Ok(m) => {
            o.push(("create_layer_map", format!("{:?}", m)));
            o.push(("create_proper_graph", format!("{:?}", create_proper_graph(g, &m))));
        }
        Err(e) => o.push(("create_layer_map", format!("{:?}", e))),
    }
    for v in 0..n.min(3) {
        let w: Vec<u32> = trellis::traverse_depth_first_preorder(g.edges(), v).take(60).collect();
        o.push(("traverse_depth_first_preorder", format!("{:?}", w)));
    }
    o
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut adj: Vec<Vec<u32>> = Vec::new();
    let mut wait: Vec<u32> = Vec::new(); // pushed, but the vertex is not finished
    let mut g = must("new", Graph::new)?;
    let mut log: Vec<String> = Vec::new();
    let big = s.chance(1, 40) && ctx.scale > 0;
    let steps = s.urange(2, if big { 200 } else { ctx.by_scale(10, 40, 90) });
    let limit = if big { 400 } else { ctx.by_scale(5, 14, 30) };
    let acyclic = s.chance(1, 2);
    let mut kinds = 0u32;
    for _ in 0..steps {
        // a target: mostly an existing vertex or the one to come, rarely one beyond
        let target = |s: &mut Src, n: usize, from: usize| -> u32 {
            if acyclic && from > 0 && s.chance(15, 16) {
                return s.us(from) as u32;
            }
            if s.chance(1, 30) {
                (n + s.us(4)) as u32
            } else {
                s.us(n.max(1)) as u32
            }
        };
        let n = adj.len();
        let op = s.below(13);
        kinds |= 1 << op;
        match op {
            0 | 1 => {
                let t = target(s, n + 1, n);
                must("push_to", || g.push_to(t))?;
                wait.push(t);
                log.push(format!("push_to({})", t));
            }
            2 | 3 => {
                must("finish_from", || g.finish_from())?;
                adj.push(std::mem::take(&mut wait));
                log.push("finish_from".into());
            }
            4 | 5 if n > 0 => {
                let v = s.us(n);
                if !adj[v].is_empty() {
                    let i = s.us(adj[v].len());
                    let t = target(s, n, v);
                    must("entry_values_mut", || g.edges_mut().entry_values_mut(v)[i] = t)?;
                    adj[v][i] = t;
                    log.push(format!("edge {} of {} := {}", i, v, t));
                }
            }
            6 if n > 0 && wait.is_empty() => {
                let k = s.us(n) as u32;
                must("all_values_mut", || {
                    for t in g.edges_mut().all_values_mut() {
                        if *t > k {
                            *t -= 1;
                        }
                    }
                })?;
                for t in adj.iter_mut().flatten() {
                    if *t > k {
                        *t -= 1;
                    }
                }
                log.push(format!("targets above {} lowered", k));
            }
            7 if wait.is_empty() && n < limit => {
                let l: Vec<u32> = (0..s.us(4)).map(|_| target(s, n + 1, n)).collect();
                must("push_entry", || match s.below(3) {
                    0 => drop(g.edges_mut().push_entry_copy(&l)),
                    1 => drop(g.edges_mut().push_entry_clone(&l)),
                    _ => drop(g.edges_mut().push_entry_extend(l.iter().copied())),
                })?;
                log.push(format!("entry {:?}", l));
                adj.push(l);
            }
            8 if s.chance(1, 6) => {
                must("clear", || g.edges_mut().clear())?;
                adj.clear();
                wait.clear();
                log.push("clear".into());
            }
            9 => {
                let mut c = must("clone", || g.clone())?;
                if s.chance(1, 2) {
                    std::mem::swap(&mut c, &mut g);
                }
                // the copy that goes must not matter
                for t in c.edges_mut().all_values_mut() {
                    *t = 0;
                }
                log.push("clone".into());
            }
            10 if wait.is_empty() && adj.iter().flatten().all(|t| (*t as usize) < n) => {
                g = must("transpose", || g.transpose())?;
                let mut r = vec![Vec::new(); n];
                for (f, l) in adj.iter().enumerate() {
                    for &t in l {
                        r[t as usize].push(f as u32);
                    }
                }
                adj = r;
                log.push("transpose".into());
            }
            11 => {
                must("iter_mut", || {
                    for l in g.edges_mut().iter_mut() {
                        l.reverse();
                    }
                })?;
                for l in adj.iter_mut() {
                    l.reverse();
                }
                log.push("lists reversed".into());
            }
            12 if adj.len() > 1 => {
                // by the operators of the table
                let v = s.us(n);
                must("index", || g.edges_mut()[v].sort())?;
                adj[v].sort();
                log.push(format!("list of {} sorted", v));
            }
            _ => {}
        }
        if !wait.is_empty() && s.chance(3, 4) {
            continue;
        }
        let show = || log.join(", ");
        let n = adj.len();
        for v in 0..n {
            let l = must("edges_from", || g.edges_from(v as u32).to_vec())?;
            ensure!(l == adj[v], "vertex {} has edges {:?} instead of {:?} after {}", v, l, adj[v], show());
        }
        ensure!(must("num_verts", || g.num_verts())? == n, "{} vertices instead of {} after {}", g.num_verts(), n, show());
        if !wait.is_empty() {
            continue;
        }
        let f = fresh(&adj);
        ensure!(must("==", || g == f)?, "not equal to a fresh graph with edges {:?} after {}", adj, show());
        // the check of well-formedness
        let well = adj.iter().flatten().all(|t| (*t as usize) < n);
        let passed = cut(|| assert_graph_is_well_formed(&g)).is_ok();
        ensure!(
            passed == well,
            "the check of well-formedness {} with {} vertices and edges {:?}",
            if passed { "passes" } else { "fails" },
            n,
            adj
        );
        if !well {
            ctx.ev("graphs with an edge to nowhere", 1);
            continue;
        }
        if s.chance(1, 2) {
            let (a, b) = (must("analyses", || told(&g))?, must("analyses", || told(&f))?);
            for (x, y) in a.iter().zip(&b) {
                ensure!(x == y, "{} is {} for the changed graph, {} for a fresh one, after {}", x.0, x.1, y.1, show());
            }
            ensure!(a.len() == b.len(), "a changed graph fares differently from a fresh one after {}", show());
            ctx.ev("analyses compared", a.len() as u64);
        }
        ctx.ev("states compared", 1);
    }
    ctx.ev("changes", log.len() as u64);
    ctx.max("most vertices", adj.len() as u64);
    for l in &log {
        ctx.fp(l.bytes().fold(3, |h, b| vh::mix(h ^ b as u64)));
    }
    ctx.sample(|| log.join(", "));
    if kinds.count_ones() >= 3 {
        ctx.nontrivial();
    }
    Ok(())
}

fn main() {
    worker("G11", run)
}
