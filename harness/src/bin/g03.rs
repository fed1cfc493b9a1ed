//! Degree counts, sources, sinks, referenced vertices.

use trellis::{add_degree, find_degree, find_referenced_edges, find_sinks, find_sources};
use vh::gens::{gen_any, stretch};
use vh::{ensure, must, worker, Ctx, Res, Src};

const TOP: u64 = u16::MAX as u64;

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.below(if ctx.scale == 0 { 2 } else { 40 }) {
        2 => big(s, ctx),
        x if x % 2 == 0 => counts(s, ctx),
        _ => ends(s, ctx),
    }
}

fn add(deg: &mut [u64], list: &[u32]) -> bool {
    let mut over = false;
    for &v in list {
        if deg[v as usize] == TOP {
            over = true;
        } else {
            deg[v as usize] += 1;
        }
    }
    over
}

fn counts(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.urange(1, ctx.by_scale(8, 40, 200));
    let mut have: Vec<u16> = (0..n)
        .map(|_| match s.below(4) {
            0 => u16::MAX,
            1 => u16::MAX - s.below(4) as u16,
            _ => s.below(3) as u16,
        })
        .collect();
    let mut want: Vec<u64> = have.iter().map(|&d| d as u64).collect();
    let rounds = s.urange(1, 4);
    let mut told = 0;
    for _ in 0..rounds {
        let span = s.urange(1, n);
        let base = s.urange(0, n - span);
        let list: Vec<u32> = (0..s.size(ctx.by_scale(12, 60, 300))).map(|_| (base + s.us(span)) as u32).collect();
        for &v in &list {
            ctx.fp(v as u64);
        }
        let before = have.clone();
        let got = must("add_degree", || add_degree(&list, &mut have))?;
        let over = add(&mut want, &list);
        ensure!(
            got == over,
            "add_degree told {}, but a count overflowing is {} (counts before {:?}, list {:?})",
            got,
            over,
            before,
            list
        );
        let now: Vec<u64> = have.iter().map(|&d| d as u64).collect();
        ensure!(now == want, "counts are {:?}, expected {:?} (before {:?}, list {:?})", now, want, before, list);
        told += over as u64;
        ctx.sample(|| format!("counts {:?}, then the entries {:?}", before, list));
        ctx.ev("entries counted", list.len() as u64);
        let refs = must("find_referenced_edges", || find_referenced_edges(&list, n))?;
        let w: Vec<bool> = (0..n as u32).map(|v| list.contains(&v)).collect();
        ensure!(refs == w, "find_referenced_edges of {:?} is {:?}", list, refs);
        let d = must("find_degree", || find_degree(&list, n as u32))?;
        let w: Vec<u16> = (0..n as u32).map(|v| list.iter().filter(|x| **x == v).count() as u16).collect();
        ensure!(d == w, "find_degree of {:?} is {:?}", list, d);
    }
    ctx.ev("overflows", told);
    ctx.nontrivial();
    Ok(())
}

/// More entries than a count can hold.
fn big(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.urange(1, 3);
    let len = 65_530 + s.us(12);
    let hub = s.us(n) as u32;
    let noise = s.us(20);
    let mut list = vec![hub; len];
    for _ in 0..noise {
        let v = s.us(n) as u32;
        let at = s.us(list.len());
        list[at] = v;
    }
    ctx.fp(len as u64);
    ctx.fp(noise as u64 * 7 + n as u64);
    ctx.sample(|| format!("{} entries, nearly all of them vertex {} of {}", len, hub, n));
    let mut want = vec![0u64; n];
    let over = add(&mut want, &list);
    let d = must("find_degree", || find_degree(&list, n as u32))?;
    ensure!(
        d.iter().map(|&x| x as u64).eq(want.iter().copied()),
        "find_degree is {:?}, expected {:?} for {} entries",
        d,
        want,
        len
    );
    let mut have = vec![0u16; n];
    let cutp = s.us(list.len() + 1);
    let mut half = vec![0u64; n];
    let o1 = add(&mut half, &list[..cutp]);
    let g1 = must("add_degree", || add_degree(&list[..cutp], &mut have))?;
    let o2 = add(&mut half, &list[cutp..]);
    let g2 = must("add_degree", || add_degree(&list[cutp..], &mut have))?;
    ensure!((g1, g2) == (o1, o2), "overflow told as {:?}, expected {:?}", (g1, g2), (o1, o2));
    ensure!(o1 || o2 == over || !over, "harness");
    ensure!(have.iter().map(|&x| x as u64).eq(half.iter().copied()), "counts {:?}, expected {:?}", have, half);
    // all edges of one vertex, few or none of the others: sources and sinks
    let mut g = vh::gens::G::new(n + 2);
    let from = s.us(n + 2);
    g.adj[from] = list[..s.urange(65_530, list.len())].to_vec();
    if s.chance(1, 2) {
        let v = s.us(n + 2);
        g.adj[v].push((n + 1) as u32);
    }
    classify(&g, ctx)?;
    ctx.ev("lists longer than a count", 1);
    ctx.nontrivial();
    Ok(())
}

fn ends(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut g = gen_any(s, ctx.by_scale(20, 100, 1000));
    stretch(s, ctx.scale, &mut g);
    ctx.fp(g.fingerprint());
    ctx.sample(|| g.short());
    classify(&g, ctx)
}

fn classify(g: &vh::gens::G, ctx: &mut Ctx) -> Res {
    let graph = g.build();
    let src = must("find_sources", || find_sources(graph.edges()))?;
    let snk = must("find_sinks", || find_sinks(graph.edges()))?;
    let ind = g.indeg();
    ensure!(src.len() == g.n && snk.len() == g.n, "wrong number of flags");
    for v in 0..g.n {
        ensure!(src[v] == (ind[v] == 0), "vertex {} is reported as source: {} in {}", v, src[v], g.short());
        ensure!(snk[v] == g.adj[v].is_empty(), "vertex {} is reported as sink: {} in {}", v, snk[v], g.short());
    }
    let refs = must("find_referenced_edges", || find_referenced_edges(graph.edges().all_values(), g.n))?;
    for v in 0..g.n {
        ensure!(refs[v] == (ind[v] > 0), "vertex {} is reported as referenced: {} in {}", v, refs[v], g.short());
    }
    let deg = must("find_degree", || find_degree(graph.edges().all_values(), g.n as u32))?;
    for v in 0..g.n {
        let want = ind[v].min(TOP as usize);
        ensure!(deg[v] as usize == want, "vertex {} has degree {}, expected {}", v, deg[v], want);
    }
    ctx.ev("vertices classified", g.n as u64);
    if g.num_edges() > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

fn main() {
    worker("G03", run)
}
