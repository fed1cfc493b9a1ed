//! Depth-first traversal against the unfolded walk tree.

use trellis::traverse_depth_first_preorder;
use vh::gens::{gen_any, gen_dag, gen_deep, stretch, G};
use vh::{ensure, must, worker, Ctx, Res, Src};

/// The first `limit` vertices of the walk tree; true if that was all of it.
fn unfold(g: &G, start: u32, limit: usize) -> (Vec<u32>, bool) {
    let mut out = Vec::new();
    let mut stack: Vec<u32> = g.adj[start as usize].iter().rev().copied().collect();
    while let Some(v) = stack.pop() {
        if out.len() == limit {
            return (out, false);
        }
        out.push(v);
        stack.extend(g.adj[v as usize].iter().rev());
    }
    (out, true)
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let max = ctx.by_scale(14, 60, 300);
    let mut g = match s.below(4) {
        0 | 1 => gen_dag(s, max),
        2 => gen_any(s, max),
        _ => {
            // a ladder with exponentially many walks
            let k = s.urange(2, max / 3);
            let mut g = G::new(3 * k + 1);
            for i in 0..k {
                let b = 3 * i;
                g.adj[b] = vec![b as u32 + 1, b as u32 + 2];
                g.adj[b + 1] = vec![b as u32 + 3];
                g.adj[b + 2] = vec![b as u32 + 3];
            }
            if s.chance(1, 3) {
                g.adj[3 * k].push(s.us(3 * k + 1) as u32); // a cycle
            }
            g
        }
    };
    stretch(s, ctx.scale, &mut g);
    if ctx.giant() {
        let cyclic = s.chance(1, 4);
        g = gen_deep(s, cyclic);
    }
    if g.n == 0 {
        return Ok(());
    }
    ctx.fp(g.fingerprint());
    let graph = g.build();
    let limit = if ctx.giant() { 200_000 } else { ctx.by_scale(60, 400, 3000) };
    for round in 0..s.urange(1, 3) {
        let start = if round == 0 && s.chance(1, 2) { 0 } else { s.us(g.n) as u32 };
        let (want, complete) = unfold(&g, start, limit);
        ctx.fp(start as u64);
        ctx.sample(|| format!("from {} in {}", start, g.short()));
        let (got, end) = must("traverse_depth_first_preorder", || {
            let mut it = traverse_depth_first_preorder(graph.edges(), start);
            let mut got = Vec::new();
            while got.len() < want.len() {
                match it.next() {
                    Some(v) => got.push(v),
                    None => break,
                }
            }
            let end = if complete { it.next() } else { None };
            (got, end)
        })?;
        ensure!(got == want, "from {} in {}: {:?}, expected {:?}", start, g.short(), got, want);
        ensure!(end.is_none(), "from {} in {}: goes on with {:?} after its end", start, g.short(), end);
        ctx.ev(if complete { "complete traversals" } else { "prefixes of longer traversals" }, 1);
        ctx.ev("vertices visited", got.len() as u64);
        if got.len() >= 2 {
            ctx.nontrivial();
        }
    }
    Ok(())
}

fn main() {
    worker("G04", run)
}
