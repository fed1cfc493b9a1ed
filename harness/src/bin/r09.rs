//! The whole way from obstacles to a curve: the curve fitted to a shortest route stays in free space.

use trellis::pathplan::cvt::Pobsopen;
use trellis::pathplan::route::Proutespline;
use trellis::pathplan::shortest::Pshortestpath;
use trellis::pathplan::shortestpth::makePath;
use trellis::pathplan::visibility::ptVis;
use trellis::pathplan::{Pedge_t, POLYID_NONE};
use trellis::polyline::Ppoly_t;
use trellis::vec2::Vec2;
use vh::geo::{extent, gen_general_polygon, gen_obstacles, locate, Loc, P};
use vh::{ensure, must, viol, worker, Ctx, Res, Src};

type F = (f64, f64);

fn v(p: P) -> Vec2<f64> {
    Vec2 { x: p.0 as f64, y: p.1 as f64 }
}

fn seg_dist(p: F, a: F, b: F) -> f64 {
    let d = (b.0 - a.0, b.1 - a.1);
    let t = (((p.0 - a.0) * d.0 + (p.1 - a.1) * d.1) / (d.0 * d.0 + d.1 * d.1)).clamp(0.0, 1.0);
    (p.0 - a.0 - t * d.0).hypot(p.1 - a.1 - t * d.1)
}

/// Distance to the border, negative inside.
fn height(p: F, o: &[P]) -> f64 {
    let mut d = f64::INFINITY;
    let mut inside = false;
    for i in 0..o.len() {
        let (a, b) = (o[i], o[(i + 1) % o.len()]);
        let (a, b) = ((a.0 as f64, a.1 as f64), (b.0 as f64, b.1 as f64));
        d = d.min(seg_dist(p, a, b));
        if (a.1 > p.1) != (b.1 > p.1) && p.0 < (b.0 - a.0) * (p.1 - a.1) / (b.1 - a.1) + a.0 {
            inside = !inside;
        }
    }
    if inside {
        -d
    } else {
        d
    }
}

fn bez(p: &[Vec2<f64>], t: f64) -> F {
    let u = 1.0 - t;
    let (a, b, c, d) = (u * u * u, 3.0 * t * u * u, 3.0 * t * t * u, t * t * t);
    (
        a * p[0].x + b * p[1].x + c * p[2].x + d * p[3].x,
        a * p[0].y + b * p[1].y + c * p[2].y + d * p[3].y,
    )
}

fn sides(o: &[P], edges: &mut Vec<Pedge_t>) {
    for i in 0..o.len() {
        edges.push(Pedge_t { a: v(o[i]), b: v(o[(i + 1) % o.len()]) });
    }
}

fn direction(s: &mut Src) -> Vec2<f64> {
    if s.chance(1, 3) {
        return Vec2 { x: 0.0, y: 0.0 };
    }
    let t = s.real(0.0, 6.283);
    Vec2 { x: t.cos(), y: t.sin() }
}

/// Fits the curve and gives its control points.
fn fit(s: &mut Src, ctx: &mut Ctx, line: Vec<Vec2<f64>>, edges: &[Pedge_t], show: &dyn Fn() -> String) -> Result<Vec<Vec2<f64>>, vh::Viol> {
    let input = Ppoly_t { ps: line };
    let mut evs = [direction(s), direction(s)];
    let mut out = Ppoly_t { ps: vec![Vec2 { x: 3.0, y: -3.0 }; *s.pick(&[0, 0, 1, 4, 7, 40])] };
    let r = must("Proutespline", || Proutespline(edges, &input, &mut evs, &mut out))?;
    ensure!(r.is_ok(), "no curve was found for {:?}: {}", input.ps, show());
    let o = out.ps;
    ensure!(o.len() >= 4 && o.len() % 3 == 1, "{} control points: {}", o.len(), show());
    let (a, b) = (input.ps[0], input.ps[input.ps.len() - 1]);
    ensure!(o[0] == a && o[o.len() - 1] == b, "the curve leads from {:?} to {:?}: {}", o[0], o[o.len() - 1], show());
    ctx.ev("pieces", (o.len() / 3) as u64);
    ctx.max("most pieces", (o.len() / 3) as u64);
    if input.ps.len() > 2 {
        ctx.nontrivial();
    }
    Ok(o)
}

/// The curve may slip in or out this near to a corner.
const CORNER: f64 = 0.05;
/// Below this depth a part of the curve counts as being on the border.
const DEEP: f64 = 0.1;

fn length(p: &[Vec2<f64>]) -> f64 {
    p.windows(2).map(|w| (w[1].x - w[0].x).hypot(w[1].y - w[0].y)).sum()
}

/// Samples the curve and judges each stretch of it that lies deep in forbidden ground (`sign` -1: inside
/// the ring is forbidden, 1: outside).
fn judge(ctx: &mut Ctx, o: &[Vec2<f64>], line: &[Vec2<f64>], ring: &[P], sign: f64, show: &dyn Fn() -> String) -> Res {
    let steps = ctx.by_scale(60, 200, 500);
    let pad = 1.0;
    let (lo, hi) = extent(&[ring.to_vec()]);
    let mut from = 0;
    for piece in 0..o.len() / 3 {
        let c = &o[3 * piece..3 * piece + 4];
        let to = match (from + 1..line.len()).find(|&i| line[i] == c[3]) {
            Some(i) => i,
            None => viol!("piece {} ends at {:?}, which is no later corner of {:?}: {}", piece, c[3], line, show()),
        };
        let shortcut = length(c) < length(&line[from..=to]) - 0.01;
        from = to;
        if sign < 0.0
            && (c.iter().all(|p| p.x < lo.0 as f64 - pad)
                || c.iter().all(|p| p.x > hi.0 as f64 + pad)
                || c.iter().all(|p| p.y < lo.1 as f64 - pad)
                || c.iter().all(|p| p.y > hi.1 as f64 + pad))
        {
            continue;
        }
        let bad = |t: f64| sign * height(bez(c, t), ring);
        // a stretch of forbidden samples: where it begins, and its deepest place
        let mut run: Option<(Option<f64>, f64, f64)> = None;
        for i in 0..=steps + 1 {
            let t = i as f64 / steps as f64;
            let h = if i <= steps { bad(t) } else { -1.0 };
            let border = |mut t0: f64, mut t1: f64, rising: bool| {
                for _ in 0..50 {
                    let m = (t0 + t1) / 2.0;
                    if (bad(m) > 0.0) == rising {
                        t1 = m;
                    } else {
                        t0 = m;
                    }
                }
                t0
            };
            if h > 0.0 {
                let begin = if i == 0 { None } else { Some(border(t - 1.0 / steps as f64, t, true)) };
                let r = run.get_or_insert((begin, t, h));
                if h > r.2 {
                    *r = (r.0, t, h);
                }
            } else if let Some((begin, deepest, depth)) = run.take() {
                ctx.max("deepest sample in thousandths", (depth * 1000.0) as u64);
                if depth < DEEP {
                    continue;
                }
                let end = if i > steps { None } else { Some(border(t - 1.0 / steps as f64, t, false)) };
                let near = |t: Option<f64>| {
                    let p = bez(c, t.unwrap_or(0.0));
                    t.is_none() || ring.iter().any(|q| (p.0 - q.0 as f64).hypot(p.1 - q.1 as f64) < CORNER)
                };
                ensure!(
                    near(begin) && near(end) && !shortcut,
                    "piece {} {:?} is {} deep in forbidden ground at {:?} (enters at {:?}, leaves at {:?}{}); route {:?}: {}",
                    piece,
                    c,
                    depth,
                    bez(c, deepest),
                    begin.map(|t| bez(c, t)),
                    end.map(|t| bez(c, t)),
                    if shortcut { ", shorter than the route" } else { "" },
                    line,
                    show()
                );
                ctx.ev("curves that slip through between two corners", 1);
            }
        }
        ctx.ev("points sampled on curves", steps as u64 + 1);
    }
    Ok(())
}


fn around(s: &mut Src, ctx: &mut Ctx) -> Res {
    let corners = if ctx.giant() { 160 } else if s.chance(1, 100) { ctx.by_scale(12, 120, 160) } else { ctx.by_scale(10, 40, 70) };
    let mut obs: Vec<Vec<P>> = gen_obstacles(s, corners, false);
    let k = s.range(2, 6);
    for o in obs.iter_mut() {
        for p in o.iter_mut() {
            *p = (p.0 * k, p.1 * k);
            ctx.fp(p.0 as u64);
            ctx.fp(p.1 as u64);
        }
    }
    let (lo, hi) = extent(&obs);
    let free = |s: &mut Src| -> P {
        for _ in 0..60 {
            let p = (s.range(lo.0 - 5, hi.0 + 5), s.range(lo.1 - 5, hi.1 + 5));
            if obs.iter().all(|o| locate(o, p) == Loc::Out) {
                return p;
            }
        }
        (lo.0 - 7, lo.1 - 7)
    };
    let pl: Vec<Ppoly_t> = obs.iter().map(|o| Ppoly_t { ps: o.iter().map(|p| v(*p)).collect() }).collect();
    let conf = must("Pobsopen", || Pobsopen(&pl.iter().collect::<Vec<_>>()))?;
    let corner: Vec<P> = obs.iter().flatten().copied().collect();
    let mut edges = Vec::new();
    for o in &obs {
        sides(o, &mut edges);
    }
    let n = corner.len();
    for _ in 0..s.urange(1, 3) {
        let (p, q) = (free(s), free(s));
        if p == q {
            continue;
        }
        let show = || format!("obstacles {:?} from {:?} to {:?}", obs, p, q);
        ctx.sample(show);
        let none = POLYID_NONE;
        let dad = must("makePath", || {
            let pv = ptVis(&conf, none, v(p));
            let qv = ptVis(&conf, none, v(q));
            makePath(v(p), none, &pv, v(q), none, &qv, &conf)
        })?;
        // the route as places, from p to q
        let mut line = vec![v(q)];
        let mut at = n;
        while at != n + 1 {
            let next = dad.get(at).copied().unwrap_or(-1);
            if next < 0 || line.len() > n + 2 {
                break;
            }
            at = next as usize;
            line.push(if at == n + 1 {
                v(p)
            } else if at < n {
                v(corner[at])
            } else {
                viol!("the table leads to place {}: {}", at, show())
            });
        }
        if at != n + 1 {
            ctx.ev("pairs without a route", 1);
            continue;
        }
        line.reverse();
        let o = fit(s, ctx, line.clone(), &edges, &show)?;
        for b in &obs {
            judge(ctx, &o, &line, b, -1.0, &show)?;
        }
        ctx.ev("curves around obstacles", 1);
    }
    Ok(())
}

fn within(s: &mut Src, ctx: &mut Ctx) -> Res {
    let max = if ctx.giant() { 160 } else if s.chance(1, 100) { ctx.by_scale(12, 120, 160) } else { ctx.by_scale(8, 24, 50) };
    let k = s.range(2, 6);
    let poly: Vec<P> = gen_general_polygon(s, max).iter().map(|p| (p.0 * k, p.1 * k)).collect();
    for p in &poly {
        ctx.fp(p.0 as u64);
        ctx.fp(p.1 as u64);
    }
    let (lo, hi) = extent(&[poly.clone()]);
    let inner = |s: &mut Src| -> Option<P> {
        for _ in 0..60 {
            let p = (s.range(lo.0, hi.0), s.range(lo.1, hi.1));
            if locate(&poly, p) == Loc::In {
                return Some(p);
            }
        }
        None
    };
    let (a, b) = match (inner(s), inner(s)) {
        (Some(a), Some(b)) if a != b => (a, b),
        _ => return Ok(()),
    };
    let show = || format!("polygon {:?} from {:?} to {:?}", poly, a, b);
    ctx.sample(show);
    let pp = Ppoly_t { ps: poly.iter().map(|p| v(*p)).collect() };
    let line = match must("Pshortestpath", || Pshortestpath(&pp, &[v(a), v(b)]))? {
        Ok(l) => l.ps,
        Err(_) => viol!("no path: {}", show()),
    };
    let (first, last) = (line[0], line[line.len() - 1]);
    ensure!(
        first == v(a) && last == v(b) || first == v(b) && last == v(a),
        "the path leads from {:?} to {:?}: {}",
        first,
        last,
        show()
    );
    let mut edges = Vec::new();
    sides(&poly, &mut edges);
    let o = fit(s, ctx, line.clone(), &edges, &show)?;
    let mut line = line;
    if first != v(a) {
        line.reverse();
    }
    judge(ctx, &o, &line, &poly, 1.0, &show)?;
    ctx.ev("curves inside polygons", 1);
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.chance(1, 2) {
        around(s, ctx)
    } else {
        within(s, ctx)
    }
}

fn main() {
    worker("R09", run)
}
