//! The cheapest-path search against a relaxation oracle, with a budget on its work.

use std::cell::Cell;
use trellis::ortho::shortest_path::find_shortest_path;
use vh::gens::{gen_any, gen_dag};
use vh::{cut, ensure, inject, viol, worker, Ctx, Res, Src, Unwound};

/// Calls of the edge function after which the search is taken not to end. The search needs one
/// call per vertex if it is clever; the number grows with the edges if it is not.
const BUDGET: u64 = 2_000_000;

struct W {
    n: usize,
    adj: Vec<Vec<(usize, i32)>>,
}

fn grid(s: &mut Src, max: usize) -> W {
    let w = s.urange(1, (max / 2).max(2).min(12));
    let h = s.urange(1, (max / w).max(1).min(12));
    let n = w * h;
    let mut adj = vec![Vec::new(); n];
    let wmax = *s.pick(&[1i64, 3, 20, 1000]);
    for y in 0..h {
        for x in 0..w {
            let v = y * w + x;
            let mut link = |a: usize, b: usize, s: &mut Src| {
                if !s.chance(1, 6) {
                    adj[a].push((b, s.range(0, wmax) as i32));
                }
                if !s.chance(1, 6) {
                    adj[b].push((a, s.range(0, wmax) as i32));
                }
            };
            if x + 1 < w {
                link(v, v + 1, s);
            }
            if y + 1 < h {
                link(v, v + w, s);
            }
        }
    }
    W { n, adj }
}

/// A cheap way over many vertices beside dear short cuts, so that labels are often improved.
fn decoys(s: &mut Src, max: usize) -> W {
    let n = s.urange(3, max.max(4));
    let mut adj = vec![Vec::new(); n];
    for v in 0..n - 1 {
        adj[v].push((v + 1, s.range(0, 3) as i32));
    }
    for _ in 0..s.us(2 * n) {
        let a = s.us(n);
        let b = s.us(n);
        let far = (b as i64 - a as i64).abs();
        let w = if s.chance(1, 4) { s.range(0, far + 2) } else { far * 3 + s.range(0, 5) };
        adj[a].push((b, w as i32));
    }
    for l in adj.iter_mut() {
        if s.chance(1, 2) {
            s.shuffle(l);
        }
    }
    W { n, adj }
}

/// A graph of some thousands of vertices: wide, long, a raster, or any.
fn large(s: &mut Src, ctx: &Ctx) -> W {
    let top = if ctx.giant() { 90_000 } else { ctx.by_scale(60, 1800, 4000) };
    let n = s.urange(top / 8, top);
    let mut adj = vec![Vec::new(); n];
    match s.below(4) {
        0 => {
            // many ways of two steps
            for v in 1..n - 1 {
                let w = s.range(0, 1000);
                adj[0].push((v, w as i32));
                adj[v].push((n - 1, s.range(0, 1000) as i32));
            }
        }
        1 => {
            // one long way, and short cuts that do not pay
            for v in 0..n - 1 {
                adj[v].push((v + 1, s.range(0, 3) as i32));
                if s.chance(1, 4) {
                    let b = s.urange(v, (v + 50).min(n - 1));
                    adj[v].push((b, ((b - v) * 4) as i32));
                }
            }
        }
        2 => {
            let w = s.urange(2, 60);
            for v in 0..n {
                for u in [v + 1, v + w] {
                    if u < n && (u != v + 1 || u % w != 0) {
                        adj[v].push((u, s.range(1, 20) as i32));
                        adj[u].push((v, s.range(1, 20) as i32));
                    }
                }
            }
        }
        _ => {
            let m = n * s.urange(1, 4);
            for _ in 0..m {
                let (a, b) = (s.us(n), s.us(n));
                adj[a].push((b, s.range(0, 1000) as i32));
            }
        }
    }
    W { n, adj }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let max = ctx.by_scale(10, 40, 120);
    let mut negative = false;
    let big = ctx.giant() || s.chance(1, 3000);
    let g = if big {
        large(s, ctx)
    } else { match s.below(6) {
        0 => grid(s, max),
        1 => decoys(s, max),
        2 => {
            // a small acyclic graph with any weights
            negative = true;
            let g = gen_dag(s, 10);
            let wmax = *s.pick(&[2i64, 10, 1000]);
            W {
                n: g.n,
                adj: (0..g.n)
                    .map(|v| g.adj[v].iter().map(|&t| (t as usize, s.range(-wmax, wmax) as i32)).collect())
                    .collect(),
            }
        }
        k => {
            let g = if k == 3 { gen_dag(s, max) } else { gen_any(s, max) };
            let wmax = match s.below(5) {
                0 => 0,
                1 => 1,
                2 => 10,
                3 => 1000,
                _ => (i32::MAX as i64) / (g.n as i64 + 2),
            };
            W {
                n: g.n,
                adj: (0..g.n)
                    .map(|v| g.adj[v].iter().map(|&t| (t as usize, s.range(0, wmax) as i32)).collect())
                    .collect(),
            }
        }
    } };
    if g.n == 0 {
        return Ok(());
    }
    // names of the vertices
    let names: Vec<i32> = match s.below(3) {
        0 => (0..g.n as i32).collect(),
        1 => {
            let mut v: Vec<i32> = (0..g.n as i32).collect();
            s.shuffle(&mut v);
            v
        }
        _ => {
            let mut v: Vec<i32> = (0..g.n as i32).map(|x| x * 7919 + 3).collect();
            s.shuffle(&mut v);
            v
        }
    };
    let index: std::collections::HashMap<i32, usize> = names.iter().enumerate().map(|(i, &n)| (n, i)).collect();
    let from = s.us(g.n);
    let to = if s.chance(1, 20) {
        from
    } else if s.chance(1, 4) {
        s.us(g.n)
    } else {
        // a vertex that can be reached, if there is one, preferably in many steps
        let mut seen = vec![false; g.n];
        let mut order = vec![from];
        seen[from] = true;
        let mut i = 0;
        while i < order.len() {
            for &(u, _) in &g.adj[order[i]] {
                if !seen[u] {
                    seen[u] = true;
                    order.push(u);
                }
            }
            i += 1;
        }
        order[order.len() - 1 - s.us((order.len() + 1) / 2)]
    };
    let show = || {
        let mut t = format!("from {} to {}:", names[from], names[to]);
        for v in 0..g.n {
            for &(u, w) in &g.adj[v] {
                t.push_str(&format!(" {}-({})>{}", names[v], w, names[u]));
            }
        }
        t
    };
    ctx.sample(show);
    ctx.fp(from as u64 * 1000 + to as u64);
    for v in 0..g.n {
        ctx.fp(names[v] as u64);
        for &(u, w) in &g.adj[v] {
            ctx.fp(u as u64);
            ctx.fp(w as u64);
        }
    }
    // oracle
    const INF: i64 = i64::MAX / 4;
    let mut d = vec![INF; g.n];
    d[from] = 0;
    if negative {
        let mut rounds = 0;
        loop {
            let mut changed = false;
            for v in 0..g.n {
                if d[v] < INF {
                    for &(u, w) in &g.adj[v] {
                        if d[v] + (w as i64) < d[u] {
                            d[u] = d[v] + w as i64;
                            changed = true;
                        }
                    }
                }
            }
            rounds += 1;
            if !changed {
                break;
            }
            assert!(rounds <= g.n + 1, "harness: negative cycle");
        }
    } else {
        let mut left = std::collections::BTreeSet::new();
        left.insert((0i64, from));
        while let Some((x, v)) = left.pop_first() {
            for &(u, w) in &g.adj[v] {
                let y = x + w as i64;
                if y < d[u] {
                    left.remove(&(d[u], u));
                    d[u] = y;
                    left.insert((y, u));
                }
            }
        }
    }
    let calls = Cell::new(0u64);
    let bad = Cell::new(None);
    let r = cut(|| {
        find_shortest_path(
            |v| {
                calls.set(calls.get() + 1);
                if calls.get() > BUDGET {
                    inject();
                }
                let list = match index.get(&v) {
                    Some(&i) => g.adj[i].clone(),
                    None => {
                        bad.set(Some(v));
                        Vec::new()
                    }
                };
                let names = &names;
                list.into_iter().map(move |(u, w)| (names[u], w))
            },
            names[from],
            names[to],
        )
    });
    let r = match r {
        Ok(r) => r,
        Err(Unwound::Injected) => viol!("the search had not ended after {} looks at edges: {}", BUDGET, show()),
        Err(u) => viol!("find_shortest_path {}: {}", u, show()),
    };
    if let Some(v) = bad.get() {
        viol!("the search asked for the edges of {}, which is no vertex: {}", v, show());
    }
    ctx.ev("looks at edge lists", calls.get());
    ctx.max("most looks in one search", calls.get());
    if negative {
        ctx.ev("searches with negative weights", 1);
    }
    if big {
        ctx.ev("searches in graphs of thousands of vertices", 1);
    }
    match r {
        None => {
            ensure!(d[to] >= INF, "no path was found, but one of weight {} exists: {}", d[to], show());
            ctx.ev("searches without a path", 1);
        }
        Some(p) => {
            ensure!(d[to] < INF, "path {:?} to an unreachable vertex: {}", p, show());
            ensure!(
                p.first() == Some(&names[to]) && p.last() == Some(&names[from]),
                "path {:?} does not lead from target to start: {}",
                p,
                show()
            );
            let mut total = 0i64;
            for w in p.windows(2) {
                let (b, a) = match (index.get(&w[0]), index.get(&w[1])) {
                    (Some(&b), Some(&a)) => (b, a),
                    _ => viol!("path {:?} has an unknown vertex: {}", p, show()),
                };
                match g.adj[a].iter().filter(|e| e.0 == b).map(|e| e.1).min() {
                    Some(x) => total += x as i64,
                    None => viol!("path {:?} uses an edge {}->{} that does not exist: {}", p, w[1], w[0], show()),
                }
            }
            ensure!(
                total == d[to],
                "path {:?} has weight {}, the least is {}: {}",
                p,
                total,
                d[to],
                show()
            );
            ctx.ev("paths compared", 1);
            ctx.max("longest path", p.len() as u64);
            if p.len() > 2 {
                ctx.nontrivial();
            }
        }
    }
    Ok(())
}

fn main() {
    worker("R01", run)
}
