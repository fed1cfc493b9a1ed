//! Routes around obstacles, and shortest-path tables over matrices.

use trellis::pathplan::array2::Array2;
use trellis::pathplan::cvt::Pobsopen;
use trellis::pathplan::shortestpth::{makePath, shortestPath, shortestPathGeneric};
use trellis::pathplan::vis::vconfig_t;
use trellis::pathplan::visibility::ptVis;
use trellis::pathplan::POLYID_NONE;
use trellis::polyline::Ppoly_t;
use trellis::vec2::Vec2;
use vh::geo::{dijkstra, dist, extent, gen_obstacles, gen_scale, locate, seg_free_of, Loc, P};
use vh::{ensure, must, viol, worker, Ctx, Res, Src};

fn v(p: P, k: f64) -> Vec2<f64> {
    Vec2 { x: p.0 as f64 * k, y: p.1 as f64 * k }
}

fn place(s: &mut Src, obs: &[Vec<P>], inside: bool) -> (P, Option<usize>) {
    let (lo, hi) = extent(obs);
    for _ in 0..60 {
        let p = if inside {
            let o = s.pick(obs);
            let (a, b, c) = (*s.pick(o), *s.pick(o), *s.pick(o));
            ((a.0 + b.0 + c.0) / 3, (a.1 + b.1 + c.1) / 3)
        } else {
            match s.below(4) {
                0 => {
                    let o = s.pick(obs);
                    let c = *s.pick(o);
                    (c.0 + s.range(-3, 3), c.1 + s.range(-3, 3))
                }
                1 => (if s.chance(1, 2) { lo.0 } else { hi.0 }, s.range(lo.1, hi.1)),
                _ => (s.range(lo.0, hi.0), s.range(lo.1, hi.1)),
            }
        };
        let locs: Vec<Loc> = obs.iter().map(|o| locate(o, p)).collect();
        if locs.contains(&Loc::On) {
            continue;
        }
        return (p, locs.iter().position(|l| *l == Loc::In));
    }
    (lo, None)
}

/// A point inside the given obstacle.
fn place_in(s: &mut Src, obs: &[Vec<P>], i: usize) -> (P, Option<usize>) {
    let o = &obs[i];
    for _ in 0..30 {
        let (a, b, c) = (*s.pick(o), *s.pick(o), *s.pick(o));
        let m = s.range(3, 12);
        let x = s.range(0, m);
        let y = s.range(0, m - x);
        let z = m - x - y;
        let p = ((a.0 * x + b.0 * y + c.0 * z) / m, (a.1 * x + b.1 * y + c.1 * z) / m);
        if locate(o, p) == Loc::In {
            return (p, Some(i));
        }
    }
    place(s, obs, true)
}

/// Follows the table from `from`; the places visited, if it ends at `to`.
fn chain(dad: &[i32], from: usize, to: usize) -> Option<Vec<usize>> {
    let mut path = vec![from];
    let mut at = from;
    while at != to {
        if path.len() > dad.len() {
            return None;
        }
        let next = *dad.get(at)?;
        if next < 0 || next as usize >= dad.len() {
            return None;
        }
        at = next as usize;
        path.push(at);
    }
    Some(path)
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.chance(1, 3) {
        return matrix(s, ctx);
    }
    let corners = if ctx.giant() { 280 } else if s.chance(1, 300) { ctx.by_scale(12, 130, 180) } else { ctx.by_scale(10, 40, 70) };
    let mut obs: Vec<Vec<P>> = gen_obstacles(s, corners, false);
    let k = s.range(2, 5);
    for o in obs.iter_mut() {
        for p in o.iter_mut() {
            *p = (p.0 * k, p.1 * k);
        }
    }
    let scale = gen_scale(s);
    ctx.fp(scale.to_bits());
    for o in &obs {
        for c in o {
            ctx.fp(c.0 as u64);
            ctx.fp(c.1 as u64);
        }
    }
    ctx.sample(|| format!("obstacles {:?} times {}", obs, scale));
    let pl: Vec<Ppoly_t> =
        obs.iter().map(|o| Ppoly_t { ps: o.iter().map(|p| v(*p, scale)).collect() }).collect();
    let refs: Vec<&Ppoly_t> = pl.iter().collect();
    let conf = must("Pobsopen", || Pobsopen(&refs))?;
    // the oracle's own visibility among corners
    let pts: Vec<P> = obs.iter().flatten().copied().collect();
    let n = pts.len();
    let owner: Vec<usize> = obs.iter().enumerate().flat_map(|(k, o)| o.iter().map(move |_| k)).collect();
    let start: Vec<usize> = {
        let mut a = 0;
        obs.iter()
            .map(|o| {
                let x = a;
                a += o.len();
                x
            })
            .collect()
    };
    let mut see = vec![false; n * n];
    for i in 0..n {
        for j in 0..i {
            let mut x = false;
            if owner[i] == owner[j] {
                let len = obs[owner[i]].len();
                let (a, b) = (i - start[owner[i]], j - start[owner[j]]);
                x = (a + 1) % len == b || (b + 1) % len == a;
            }
            let x = x || obs.iter().all(|o| seg_free_of(pts[i], pts[j], o));
            see[i * n + j] = x;
            see[j * n + i] = x;
        }
    }
    let f = Conf { obs: &obs, pts, owner, see, k: scale };
    for _ in 0..s.urange(1, 4) {
        let inp = s.chance(1, 4);
        let inq = s.chance(1, 4);
        let (p, pin) = place(s, &obs, inp);
        let (q, qin) = match pin {
            Some(_) if s.chance(1, 4) => place_in(s, &obs, pin.unwrap()),
            _ => place(s, &obs, inq),
        };
        if p != q {
            route(ctx, &f, &conf, (p, pin), (q, qin))?;
        }
    }
    Ok(())
}

struct Conf<'a> {
    obs: &'a [Vec<P>],
    pts: Vec<P>,
    owner: Vec<usize>,
    see: Vec<bool>,
    k: f64,
}

fn route(
    ctx: &mut Ctx,
    f: &Conf,
    conf: &vconfig_t,
    (p, pin): (P, Option<usize>),
    (q, qin): (P, Option<usize>),
) -> Res {
    let obs = f.obs;
    for x in [p.0, p.1, q.0, q.1] {
        ctx.fp(x as u64);
    }
    let show = || format!("obstacles {:?} times {} p {:?} in {:?} q {:?} in {:?}", obs, f.k, p, pin, q, qin);
    let pid = pin.map_or(POLYID_NONE, |k| k as i32);
    let qid = qin.map_or(POLYID_NONE, |k| k as i32);
    let dad = must("makePath", || {
        let pv = ptVis(conf, pid, v(p, f.k));
        let qv = ptVis(conf, qid, v(q, f.k));
        makePath(v(p, f.k), pid, &pv, v(q, f.k), qid, &qv, conf)
    })?;
    // the oracle's visibility among corners, q (n) and p (n+1)
    let mut pts: Vec<P> = f.pts.clone();
    let n = pts.len();
    pts.push(q);
    pts.push(p);
    let owner = &f.owner;
    let ignored = |i: usize| if i == n { qin } else if i == n + 1 { pin } else { None };
    let sees = |i: usize, j: usize| -> bool {
        if i == j {
            return false;
        }
        let (a, b) = (ignored(i), ignored(j));
        for (x, y) in [(i, j), (j, i)] {
            if x < n && ignored(y) == Some(owner[x]) && y >= n {
                return false; // corners of the ignored obstacle are not used
            }
        }
        if i < n && j < n {
            return f.see[i * n + j];
        }
        obs.iter().enumerate().all(|(k, o)| Some(k) == a || Some(k) == b || seg_free_of(pts[i], pts[j], o))
    };
    // symmetric table
    let m = n + 2;
    let mut see = vec![false; m * m];
    for i in 0..m {
        for j in 0..i {
            let x = sees(i, j);
            see[i * m + j] = x;
            see[j * m + i] = x;
        }
    }
    ensure!(dad.len() == n + 2, "the table has {} entries for {} corners: {}", dad.len(), n, show());
    ensure!(dad[n + 1] == -1, "the first point has predecessor {}: {}", dad[n + 1], show());
    let want = dijkstra(m, n + 1, n, |a, b| if see[a * m + b] { Some(dist(pts[a], pts[b])) } else { None });
    let got = chain(&dad, n, n + 1);
    match (got, want) {
        (None, None) => ctx.ev("pairs without a route", 1),
        (None, Some(w)) => viol!("no route, but one of length {} exists; table {:?}: {}", w, dad, show()),
        (Some(r), w) => {
            let mut len = 0.0;
            for e in r.windows(2) {
                ensure!(
                    see[e[0] * m + e[1]],
                    "the route {:?} steps between {:?} and {:?}, which do not see each other: {}",
                    r,
                    pts[e[0]],
                    pts[e[1]],
                    show()
                );
                len += dist(pts[e[0]], pts[e[1]]);
            }
            let w = w.unwrap_or(f64::INFINITY);
            ensure!(
                len <= w * (1.0 + 1e-9),
                "the route {:?} has length {}, the shortest {}: {}",
                r,
                len,
                w,
                show()
            );
            if see[n * m + n + 1] {
                ensure!(r.len() == 2, "direct view, but the route is {:?}: {}", r, show());
                ctx.ev("direct routes", 1);
            } else {
                ctx.ev("routes with bends", 1);
                ctx.nontrivial();
            }
            ctx.max("most bends", r.len() as u64 - 2);
        }
    }
    Ok(())
}

fn matrix(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = if ctx.giant() { s.urange(257, 330) } else if s.chance(1, 100) { s.urange(1, ctx.by_scale(12, 120, 200)) } else { s.urange(1, ctx.by_scale(8, 24, 60)) };
    let extra = s.us(3);
    let mut a: Array2<f64> = Array2::new(n, n, extra);
    let style = s.below(6);
    let far = *s.pick(&[1e9, 3e9, 1e13, 1e100, 1e300]);
    let density = s.urange(1, 8) as u64;
    let mut w = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..=i {
            let near = i - j <= 2;
            let on = match style {
                0 => s.chance(density, 8),
                1 => near,
                2 => s.chance(1, 3),
                3 => near || s.chance(1, 8),
                _ => s.chance(1, (n as u64 / 2).max(2)),
            };
            if !on {
                continue;
            }
            let x = match style {
                0 => s.range(1, 4) as f64,
                1 => s.range(1, 100) as f64,
                2 => s.real(0.001, 1.0),
                3 => ((i - j) * (i - j)) as f64 * 1.5 + s.range(1, 3) as f64,
                4 => s.real(1.0, 1e6),
                // totals far beyond the range of an i32
                _ => s.real(0.2, 1.0) * far,
            };
            a[(i, j)] = x;
            a[(j, i)] = x;
            w[i * n + j] = x;
            w[j * n + i] = x;
            ctx.fp((i * n + j) as u64);
            ctx.fp(x.to_bits());
        }
    }
    let root = s.us(n);
    let show = |t: usize| {
        let mut e = String::new();
        for i in 0..n {
            for j in 0..=i {
                if w[i * n + j] != 0.0 {
                    e.push_str(&format!(" {}-{}:{}", i, j, w[i * n + j]));
                }
            }
        }
        format!("{} vertices, root {} target {}:{}", n, root, t, e)
    };
    ctx.sample(|| show(0));
    ctx.fp(root as u64);
    let before = a.vec.clone();
    for t in 0..n {
        if n > 200 && t % 16 != root % 16 {
            continue;
        }
        // the weights as a matrix or from a function
        let dad = must("shortestPath", || match t % 2 {
            0 => shortestPath(root as i32, t as i32, n, &a),
            _ => shortestPathGeneric(root as i32, t as i32, n, |i, j| w[i * n + j]),
        })?;
        ensure!(dad.len() == n, "the table has {} entries: {}", dad.len(), show(t));
        ensure!(dad[root] == -1, "the root has predecessor {}: {}", dad[root], show(t));
        let want = dijkstra(n, root, t, |x, y| if w[x * n + y] != 0.0 { Some(w[x * n + y]) } else { None });
        match (chain(&dad, t, root), want) {
            (None, None) => ctx.ev("unreachable targets", 1),
            (None, Some(x)) => viol!("no path in {:?}, but one of length {} exists: {}", dad, x, show(t)),
            (Some(p), x) => {
                let mut len = 0.0;
                for e in p.windows(2) {
                    let x = w[e[0] * n + e[1]];
                    ensure!(x != 0.0, "path {:?} uses a missing edge: {}", p, show(t));
                    len += x;
                }
                let x = x.unwrap_or(f64::INFINITY);
                ensure!(len <= x * (1.0 + 1e-9), "path {:?} has length {}, the least is {}: {}", p, len, x, show(t));
                ctx.ev("paths over matrices", 1);
                if p.len() > 2 {
                    ctx.nontrivial();
                }
            }
        }
    }
    ensure!(a.vec == before, "the matrix was changed");
    Ok(())
}

fn main() {
    worker("R04", run)
}
