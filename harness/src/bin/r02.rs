//! The visibility graph of polygonal obstacles against exact integer geometry.

use trellis::pathplan::cvt::Pobsopen;
use trellis::polyline::Ppoly_t;
use vh::geo::{dist, gen_obstacles, gen_scale, seg_free_of, P};
use vh::{ensure, must, worker, Ctx, Res, Src};

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let corners = if ctx.giant() { 340 } else if s.chance(1, 400) { ctx.by_scale(12, 150, 200) } else { ctx.by_scale(10, 34, 60) };
    let obs: Vec<Vec<P>> = gen_obstacles(s, corners, false);
    let k = gen_scale(s);
    ctx.sample(|| format!("{:?} times {}", obs, k));
    ctx.fp(k.to_bits());
    for o in &obs {
        ctx.fp(o.len() as u64);
        for p in o {
            ctx.fp(p.0 as u64);
            ctx.fp(p.1 as u64);
        }
    }
    let polys: Vec<Ppoly_t> = obs
        .iter()
        .map(|o| Ppoly_t { ps: o.iter().map(|p| (p.0 as f64 * k, p.1 as f64 * k).into()).collect() })
        .collect();
    let refs: Vec<&Ppoly_t> = polys.iter().collect();
    let c = must("Pobsopen", || Pobsopen(&refs))?;
    let all: Vec<P> = obs.iter().flatten().copied().collect();
    let n = all.len();
    ensure!(c.N == n && c.P.len() == n, "{} corners kept as N={} with {} points: {:?}", n, c.N, c.P.len(), obs);
    ensure!(c.Npoly == obs.len(), "{} obstacles kept as {}", obs.len(), c.Npoly);
    for i in 0..n {
        ensure!(
            c.P[i].x == all[i].0 as f64 * k && c.P[i].y == all[i].1 as f64 * k,
            "corner {} is {:?}, given {:?}",
            i,
            c.P[i],
            all[i]
        );
    }
    ensure!(c.start.len() == obs.len() + 1, "{} starts for {} obstacles", c.start.len(), obs.len());
    ensure!(c.next.len() == n && c.prev.len() == n, "walk tables have lengths {} and {}", c.next.len(), c.prev.len());
    let mut first = 0;
    let mut next = vec![0usize; n];
    let mut prev = vec![0usize; n];
    for (k, o) in obs.iter().enumerate() {
        ensure!(c.start[k] as usize == first, "obstacle {} starts at {} instead of {}", k, c.start[k], first);
        for i in 0..o.len() {
            next[first + i] = first + (i + 1) % o.len();
            prev[first + i] = first + (i + o.len() - 1) % o.len();
        }
        first += o.len();
    }
    ensure!(c.start[obs.len()] as usize == n, "the last start is {} instead of {}", c.start[obs.len()], n);
    for i in 0..n {
        ensure!(
            c.next[i] as usize == next[i] && c.prev[i] as usize == prev[i],
            "corner {}: next {} prev {}, expected {} and {}",
            i,
            c.next[i],
            c.prev[i],
            next[i],
            prev[i]
        );
    }
    let mut links = 0u64;
    let mut blocked = 0u64;
    for i in 0..n {
        let d = must("reading the links", || c.vis[(i, i)])?;
        ensure!(d == 0.0, "corner {} is linked to itself: {}", i, d);
        for j in 0..i {
            let (a, b) = (c.vis[(i, j)], c.vis[(j, i)]);
            ensure!(a == b, "links {}-{} differ by direction: {} and {}: {:?}", i, j, a, b, obs);
            let neighbours = next[i] == j || next[j] == i;
            let sees = neighbours || obs.iter().all(|o| seg_free_of(all[i], all[j], o));
            let want = if sees { dist(all[i], all[j]) * k } else { 0.0 };
            ensure!(
                (a - want).abs() <= 1e-9 * (k + want),
                "corners {} {:?} and {} {:?} {}: link is {}, expected {}: {:?} times {}",
                i,
                all[i],
                j,
                all[j],
                if sees { "see each other" } else { "do not see each other" },
                a,
                want,
                obs,
                k
            );
            if sees {
                links += 1;
            } else {
                blocked += 1;
            }
        }
    }
    ctx.ev("pairs that see each other", links);
    ctx.ev("pairs that do not", blocked);
    ctx.max("most corners", n as u64);
    if obs.len() > 1 && blocked > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

fn main() {
    worker("R02", run)
}
