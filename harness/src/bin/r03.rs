//! Visibility vectors of points, direct visibility and point location against exact geometry.

use trellis::pathplan::cvt::Pobsopen;
use trellis::pathplan::in_poly::in_poly;
use trellis::pathplan::visibility::{directVis, polyhit, ptVis};
use trellis::pathplan::vis::vconfig_t;
use trellis::pathplan::{POLYID_NONE, POLYID_UNKNOWN};
use trellis::polyline::Ppoly_t;
use trellis::vec2::Vec2;
use vh::geo::{dist, extent, gen_convex, gen_obstacles, gen_round, gen_scale, locate, make_cw, seg_free_of, shift, Loc, P};
use vh::{ensure, must, viol, worker, Ctx, Res, Src};

fn v(p: P, k: f64) -> Vec2<f64> {
    Vec2 { x: p.0 as f64 * k, y: p.1 as f64 * k }
}
fn polys(obs: &[Vec<P>], k: f64) -> Vec<Ppoly_t> {
    obs.iter().map(|o| Ppoly_t { ps: o.iter().map(|p| v(*p, k)).collect() }).collect()
}

/// A point off all borders and the obstacle it is in.
pub fn place(s: &mut Src, obs: &[Vec<P>]) -> (P, Option<usize>) {
    let (lo, hi) = extent(obs);
    for _ in 0..40 {
        let p = match s.below(4) {
            0 => {
                // next to a corner
                let o = s.pick(obs);
                let c = *s.pick(o);
                (c.0 + s.range(-2, 2), c.1 + s.range(-2, 2))
            }
            1 => {
                // on the line through two corners
                let o = s.pick(obs);
                let a = *s.pick(o);
                let o = s.pick(obs);
                let b = *s.pick(o);
                let k = s.range(-1, 2);
                (a.0 + k * (b.0 - a.0), a.1 + k * (b.1 - a.1))
            }
            2 => {
                // inside some obstacle, more likely
                let o = s.pick(obs);
                let (a, b, c) = (*s.pick(o), *s.pick(o), *s.pick(o));
                ((a.0 + b.0 + c.0) / 3, (a.1 + b.1 + c.1) / 3)
            }
            _ => (s.range(lo.0, hi.0), s.range(lo.1, hi.1)),
        };
        let locs: Vec<Loc> = obs.iter().map(|o| locate(o, p)).collect();
        if locs.contains(&Loc::On) {
            continue;
        }
        return (p, locs.iter().position(|l| *l == Loc::In));
    }
    ((lo.0 - 1, lo.1 - 1), None)
}

/// A point inside the given obstacle.
pub fn place_in(s: &mut Src, obs: &[Vec<P>], i: usize) -> Option<(P, Option<usize>)> {
    let o = &obs[i];
    for _ in 0..20 {
        let (a, b, c) = (*s.pick(o), *s.pick(o), *s.pick(o));
        let m = s.range(3, 12);
        let x = s.range(0, m);
        let y = s.range(0, m - x);
        let z = m - x - y;
        let p = ((a.0 * x + b.0 * y + c.0 * z) / m, (a.1 * x + b.1 * y + c.1 * z) / m);
        if locate(o, p) == Loc::In {
            return Some((p, Some(i)));
        }
    }
    None
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.chance(1, 4) {
        return location(s, ctx);
    }
    let corners = if ctx.giant() { 300 } else if s.chance(1, 200) { ctx.by_scale(12, 150, 200) } else { ctx.by_scale(10, 40, 70) };
    let convex = s.chance(1, 3);
    let mut obs: Vec<Vec<P>> = gen_obstacles(s, corners, convex);
    if s.chance(2, 3) {
        // room between the corners
        let k = s.range(2, 5);
        for o in obs.iter_mut() {
            for p in o.iter_mut() {
                *p = (p.0 * k, p.1 * k);
            }
        }
    }
    let k = gen_scale(s);
    ctx.fp(k.to_bits());
    for o in &obs {
        for c in o {
            ctx.fp(c.0 as u64);
            ctx.fp(c.1 as u64);
        }
    }
    let pl = polys(&obs, k);
    let refs: Vec<&Ppoly_t> = pl.iter().collect();
    let conf = must("Pobsopen", || Pobsopen(&refs))?;
    let all: Vec<P> = obs.iter().flatten().copied().collect();
    let n = all.len();
    ctx.sample(|| format!("obstacles {:?} times {}", obs, k));
    for _ in 0..s.urange(1, 5) {
        let (p, pin) = place(s, &obs);
        let (q, qin) = match pin {
            Some(i) if s.chance(1, 4) => place_in(s, &obs, i).unwrap_or((p, pin)),
            _ => place(s, &obs),
        };
        for x in [p.0, p.1, q.0, q.1] {
            ctx.fp(x as u64);
        }
        views(ctx, &Conf { obs: &obs, all: &all, n, k, convex }, &conf, (p, pin), (q, qin))?;
    }
    Ok(())
}

struct Conf<'a> {
    obs: &'a [Vec<P>],
    all: &'a [P],
    n: usize,
    k: f64,
    convex: bool,
}

/// What two points see of the corners and of each other.
fn views(
    ctx: &mut Ctx,
    f: &Conf,
    conf: &vconfig_t,
    (p, pin): (P, Option<usize>),
    (q, qin): (P, Option<usize>),
) -> Res {
    let (obs, n, k, convex) = (f.obs, f.n, f.k, f.convex);
    let mut seen = 0u64;
    let mut hidden = 0u64;
    for (pt, inside) in [(p, pin), (q, qin)] {
        let id = match inside {
            Some(i) => i as i32,
            None => POLYID_NONE,
        };
        let mut ids = vec![id];
        if convex {
            ids.push(POLYID_UNKNOWN);
        }
        for id in ids {
            let vis = must("ptVis", || ptVis(conf, id, v(pt, k)))?;
            ensure!(vis.len() == n + 2, "visibility vector has length {} for {} corners", vis.len(), n);
            ensure!(vis[n] == 0.0 && vis[n + 1] == 0.0, "the two extra entries are {} and {}", vis[n], vis[n + 1]);
            let mut at = 0;
            for (id_o, o) in obs.iter().enumerate() {
                for c in o {
                    let want = if Some(id_o) == inside {
                        0.0
                    } else {
                        let free = obs
                            .iter()
                            .enumerate()
                            .all(|(j, o2)| Some(j) == inside || seg_free_of(pt, *c, o2));
                        if free {
                            seen += 1;
                            dist(pt, *c) * k
                        } else {
                            hidden += 1;
                            0.0
                        }
                    };
                    ensure!(
                        (vis[at] - want).abs() <= 1e-9 * (k + want),
                        "point {:?} (obstacle id {}) and corner {} {:?}: {} instead of {}: {:?}",
                        pt,
                        id,
                        at,
                        c,
                        vis[at],
                        want,
                        obs
                    );
                    at += 1;
                }
            }
        }
    }
    let pid = pin.map_or(POLYID_NONE, |i| i as i32);
    let qid = qin.map_or(POLYID_NONE, |i| i as i32);
    if p != q {
        let want = obs
            .iter()
            .enumerate()
            .all(|(j, o)| Some(j) == pin || Some(j) == qin || seg_free_of(p, q, o));
        for (a, ai, b, bi) in [(p, pid, q, qid), (q, qid, p, pid)] {
            let got = must("directVis", || directVis(v(a, k), ai, v(b, k), bi, conf))?;
            ensure!(
                got == want,
                "{:?} (in {}) and {:?} (in {}) directly visible: {}, expected {}: {:?}",
                a,
                ai,
                b,
                bi,
                got,
                want,
                obs
            );
            ctx.ev(if want { "direct views" } else { "blocked views" }, 1);
        }
    }
    if convex {
        for (pt, inside) in [(p, pin), (q, qin)] {
            let h = must("polyhit", || polyhit(conf, v(pt, k)))?;
            let want = inside.map_or(POLYID_NONE, |i| i as i32);
            ensure!(h == want, "polyhit({:?}) is {}, expected {}: {:?}", pt, h, want, obs);
            ctx.ev("points located", 1);
        }
    }
    ctx.ev("corners seen", seen);
    ctx.ev("corners hidden", hidden);
    if seen > 0 && hidden > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

/// Points against convex polygons, borders and corners included, and overlapping obstacles.
fn location(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut obs: Vec<Vec<P>> = Vec::new();
    for _ in 0..s.urange(1, 4) {
        let r = *s.pick(&[4i64, 20, 500, 4000]);
        let c = if r >= 500 && s.chance(1, 4) {
            let n = s.urange(10, 60);
            gen_round(s, n, r)
        } else {
            let n = s.urange(3, 9);
            gen_convex(s, n, r)
        };
        if let Some(c) = c {
            let mut c = shift(&c, (s.range(-r, r), s.range(-r, r)));
            make_cw(&mut c);
            if s.chance(1, 4) {
                // a corner in the middle of an edge
                let i = s.us(c.len());
                let (a, b) = (c[i], c[(i + 1) % c.len()]);
                if (a.0 + b.0) % 2 == 0 && (a.1 + b.1) % 2 == 0 {
                    c.insert(i + 1, ((a.0 + b.0) / 2, (a.1 + b.1) / 2));
                }
            }
            let rot = s.us(c.len());
            c.rotate_left(rot);
            obs.push(c);
        }
    }
    if obs.is_empty() {
        return Ok(());
    }
    let k = gen_scale(s);
    ctx.fp(k.to_bits());
    let pl = polys(&obs, k);
    let refs: Vec<&Ppoly_t> = pl.iter().collect();
    let conf = must("Pobsopen", || Pobsopen(&refs))?;
    let (lo, hi) = extent(&obs);
    for _ in 0..8 {
        let p = match s.below(4) {
            0 => {
                let o = s.pick(&obs);
                *s.pick(o)
            }
            1 => {
                let o = s.pick(&obs);
                let i = s.us(o.len());
                let (a, b) = (o[i], o[(i + 1) % o.len()]);
                // the middle of an edge, or beyond its end
                match s.below(2) {
                    0 => ((a.0 + b.0) / 2, (a.1 + b.1) / 2),
                    _ => (2 * b.0 - a.0, 2 * b.1 - a.1),
                }
            }
            2 => {
                let o = s.pick(&obs);
                let c = *s.pick(o);
                (c.0 + s.range(-1, 1), c.1 + s.range(-1, 1))
            }
            _ => (s.range(lo.0, hi.0), s.range(lo.1, hi.1)),
        };
        let locs: Vec<Loc> = obs.iter().map(|o| locate(o, p)).collect();
        for (o, l) in pl.iter().zip(&locs) {
            let got = must("in_poly", || in_poly(&o.ps, v(p, k)))?;
            ensure!(
                got == (*l != Loc::Out),
                "in_poly says {} for {:?}, which is {:?} of {:?}",
                got,
                p,
                l,
                o.ps
            );
            ctx.ev(
                match l {
                    Loc::In => "points inside",
                    Loc::On => "points on the border",
                    Loc::Out => "points outside",
                },
                1,
            );
        }
        let want = locs.iter().position(|l| *l != Loc::Out);
        let got = must("polyhit", || polyhit(&conf, v(p, k)))?;
        let wid = want.map_or(POLYID_NONE, |k| k as i32);
        if got != wid {
            viol!("polyhit({:?}) is {}, expected {}: {:?}", p, got, wid, obs);
        }
        ctx.fp(p.0 as u64);
        ctx.fp(p.1 as u64);
    }
    for o in &obs {
        for c in o {
            ctx.fp(c.0 as u64);
            ctx.fp(c.1 as u64);
        }
    }
    ctx.sample(|| format!("location in {:?}", obs));
    ctx.nontrivial();
    Ok(())
}

fn main() {
    worker("R03", run)
}
