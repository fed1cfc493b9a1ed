//! Spline fitting: ends, joints, directions, and barriers sampled along the curve.

use trellis::pathplan::route::Proutespline;
use trellis::pathplan::Pedge_t;
use trellis::polyline::Ppoly_t;
use trellis::vec2::Vec2;
use vh::geo::{dijkstra_path, dist, gen_general_polygon, gen_rect, gen_u, locate, seg_inside, Loc, P};
use vh::{ensure, must, worker, Ctx, Res, Src};

type F = (f64, f64);

fn sub(a: F, b: F) -> F {
    (a.0 - b.0, a.1 - b.1)
}
fn cross(a: F, b: F) -> f64 {
    a.0 * b.1 - a.1 * b.0
}
fn dot(a: F, b: F) -> f64 {
    a.0 * b.0 + a.1 * b.1
}
fn norm(a: F) -> f64 {
    dot(a, a).sqrt()
}
fn v(p: F) -> Vec2<f64> {
    Vec2 { x: p.0, y: p.1 }
}
fn f(p: P) -> F {
    (p.0 as f64, p.1 as f64)
}

/// The segments cross at one point inside both, or touch.
fn touch(a: F, b: F, c: F, d: F) -> bool {
    let o = |p: F, q: F, r: F| cross(sub(q, p), sub(r, p));
    let (o1, o2, o3, o4) = (o(a, b, c), o(a, b, d), o(c, d, a), o(c, d, b));
    if ((o1 > 0.0 && o2 < 0.0) || (o1 < 0.0 && o2 > 0.0)) && ((o3 > 0.0 && o4 < 0.0) || (o3 < 0.0 && o4 > 0.0)) {
        return true;
    }
    // nearly touching counts as touching
    [(a, c, d), (b, c, d), (c, a, b), (d, a, b)].iter().any(|&(p, q, r)| seg_dist(p, q, r) < 0.05)
}

fn seg_dist(p: F, a: F, b: F) -> f64 {
    let d = sub(b, a);
    let t = (dot(sub(p, a), d) / dot(d, d)).clamp(0.0, 1.0);
    norm(sub(p, (a.0 + t * d.0, a.1 + t * d.1)))
}

/// Proper crossing of two segments in integers.
fn crosses_int(a: P, b: P, c: P, d: P) -> bool {
    vh::geo::cross_properly(a, b, c, d)
}

fn inside(s: &mut Src, poly: &[P]) -> Option<P> {
    let lo = (poly.iter().map(|p| p.0).min().unwrap(), poly.iter().map(|p| p.1).min().unwrap());
    let hi = (poly.iter().map(|p| p.0).max().unwrap(), poly.iter().map(|p| p.1).max().unwrap());
    for _ in 0..40 {
        let p = if s.chance(1, 2) {
            (s.range(lo.0, hi.0), s.range(lo.1, hi.1))
        } else {
            let (a, b, c) = (*s.pick(poly), *s.pick(poly), *s.pick(poly));
            ((a.0 + b.0 + c.0) / 3, (a.1 + b.1 + c.1) / 3)
        };
        if locate(poly, p) == Loc::In {
            return Some(p);
        }
    }
    None
}

struct Input {
    line: Vec<F>,
    barriers: Vec<(F, F)>,
    /// the barrier is certainly not crossed by the polyline
    free: Vec<bool>,
    /// no barrier is anywhere near
    loose: bool,
}

/// The shortest way inside a polygon whose edges are the barriers.
fn corridor(s: &mut Src, max: usize) -> Option<Input> {
    let poly = match s.below(5) {
        0 => {
            let k = s.urange(2, 7);
            gen_rect(s, k)?
        }
        1 => {
            let size = s.range(24, 120);
            gen_u(s, size)?
        }
        _ => gen_general_polygon(s, max),
    };
    let k = if s.chance(1, 2) { 1 } else { 4 };
    let poly: Vec<P> = poly.iter().map(|p| (p.0 * k, p.1 * k)).collect();
    let a = inside(s, &poly)?;
    let b = inside(s, &poly)?;
    if a == b {
        return None;
    }
    let mut pts = poly.clone();
    pts.push(a);
    pts.push(b);
    let n = pts.len();
    let (_, path) = dijkstra_path(n, n - 2, n - 1, |i, j| {
        if i != j && seg_inside(pts[i], pts[j], &poly) {
            Some(dist(pts[i], pts[j]))
        } else {
            None
        }
    })?;
    let line: Vec<P> = path.iter().map(|&i| pts[i]).collect();
    let m = poly.len();
    let mut barriers = Vec::new();
    let mut free = Vec::new();
    for i in 0..m {
        let (mut c, mut d) = (poly[i], poly[(i + 1) % m]);
        if s.chance(1, 4) {
            std::mem::swap(&mut c, &mut d);
        }
        barriers.push((f(c), f(d)));
        free.push(line.windows(2).all(|w| !crosses_int(w[0], w[1], c, d)));
    }
    Some(Input { line: line.into_iter().map(f).collect(), barriers, free, loose: false })
}

/// Any polyline among scattered barriers.
fn scattered(s: &mut Src, max: usize, none: bool) -> Input {
    let n = s.urange(2, max.min(14));
    let r = *s.pick(&[10.0, 100.0, 1000.0]);
    let mut line: Vec<F> = Vec::new();
    let style = s.below(4);
    let mut tries = 0;
    while line.len() < n {
        tries += 1;
        let i = line.len() as f64;
        let p = match style {
            0 => (s.real(-r, r), s.real(-r, r)),
            1 => (i * r / 4.0, s.real(-r, r) / 3.0),
            2 => (s.range(0, 6) as f64 * r / 6.0, s.range(0, 6) as f64 * r / 6.0),
            _ => {
                let t = i * s.real(0.3, 0.6);
                ((0.3 + i / 6.0) * r * t.cos(), (0.3 + i / 6.0) * r * t.sin())
            }
        };
        if line.last().map_or(true, |q| norm(sub(p, *q)) > r * 0.01) {
            line.push(p);
        } else if tries > 200 || style == 2 {
            line.push((p.0 + r * (0.02 + 0.01 * i), p.1 + r * 0.03));
        }
    }
    let mut barriers = Vec::new();
    let mut free = Vec::new();
    if none {
        if s.chance(1, 2) {
            for _ in 0..s.urange(1, 4) {
                let y = s.real(20.0, 60.0) * r * if s.chance(1, 2) { 1.0 } else { -1.0 };
                let (a, b) = ((s.real(-r, r), y), (s.real(-r, r) + 3.0 * r, y * 1.5));
                if s.chance(1, 2) {
                    barriers.push((a, b));
                } else {
                    barriers.push(((a.1, a.0), (b.1, b.0)));
                }
                free.push(true);
            }
        }
    } else {
        for _ in 0..s.urange(1, 16) {
            let (c, d) = match s.below(4) {
                0 => {
                    // beside the polyline, along a piece of it
                    let i = s.us(n - 1);
                    let (a, b) = (line[i], line[i + 1]);
                    let u = sub(b, a);
                    let l = norm(u);
                    let o = s.real(0.02, 0.3) * if s.chance(1, 2) { 1.0 } else { -1.0 };
                    let off = (-u.1 / l * o * l, u.0 / l * o * l);
                    ((a.0 + off.0, a.1 + off.1), (b.0 + off.0, b.1 + off.1))
                }
                1 => {
                    // upright or level, or almost so
                    let x = s.real(-r, r);
                    let tilt = *s.pick(&[0.0, 0.0, 0.0, 2e-16, 1e-15, 1e-13, 1e-10, 1e-7, 1e-4]);
                    let x2 = x + r * if s.chance(1, 2) { tilt } else { -tilt };
                    let (y1, y2) = (s.real(-r, r), s.real(-r, r));
                    if s.chance(1, 2) {
                        ((x, y1), (x2, y2))
                    } else {
                        ((y1, x), (y2, x2))
                    }
                }
                2 => {
                    // a spike whose end is near a corner
                    let i = s.us(n);
                    let a = line[i];
                    let u = (s.real(-1.0, 1.0), s.real(-1.0, 1.0));
                    let g = s.real(0.01, 0.2) * r;
                    let h = s.real(0.3, 1.0) * r;
                    ((a.0 + u.0 * g, a.1 + u.1 * g), (a.0 + u.0 * h, a.1 + u.1 * h))
                }
                _ => ((s.real(-r, r), s.real(-r, r)), (s.real(-r, r), s.real(-r, r))),
            };
            if norm(sub(c, d)) < 0.01 * r {
                continue;
            }
            barriers.push((c, d));
            free.push(line.windows(2).all(|w| !touch(w[0], w[1], c, d)));
        }
    }
    Input { line, barriers, free, loose: none }
}

fn bez(p: &[F], t: f64) -> F {
    let u = 1.0 - t;
    let (a, b, c, d) = (u * u * u, 3.0 * t * u * u, 3.0 * t * t * u, t * t * t);
    (
        a * p[0].0 + b * p[1].0 + c * p[2].0 + d * p[3].0,
        a * p[0].1 + b * p[1].1 + c * p[2].1 + d * p[3].1,
    )
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let max = if ctx.giant() { 260 } else if s.chance(1, 200) { ctx.by_scale(10, 100, 160) } else { ctx.by_scale(8, 20, 40) };
    let kind = s.below(8);
    let inp = match kind {
        0 => scattered(s, max, true),
        1..=3 => scattered(s, max, false),
        _ => match corridor(s, max) {
            Some(i) => i,
            None => scattered(s, max, false),
        },
    };
    let n = inp.line.len();
    let l = &inp.line;
    let dir = |s: &mut Src, along: F| -> F {
        match s.below(5) {
            0 => (0.0, 0.0),
            1 => along,
            2 => {
                let k = 1.0 / norm(along);
                (along.0 * k, along.1 * k)
            }
            3 => {
                let t = s.real(0.0, 6.283);
                (t.cos(), t.sin())
            }
            _ => {
                let t = s.real(0.0, 6.283);
                let k = s.real(0.5, 50.0);
                (k * t.cos(), k * t.sin())
            }
        }
    };
    let d0 = dir(s, sub(l[1], l[0]));
    let d1 = dir(s, sub(l[n - 1], l[n - 2]));
    for p in l {
        ctx.fp(p.0.to_bits());
        ctx.fp(p.1.to_bits());
    }
    for (c, d) in &inp.barriers {
        ctx.fp(c.0.to_bits());
        ctx.fp(d.1.to_bits());
    }
    ctx.fp(d0.0.to_bits());
    ctx.fp(d1.1.to_bits());
    let show = || format!("polyline {:?} barriers {:?} directions {:?} {:?}", l, inp.barriers, d0, d1);
    ctx.sample(show);
    let edges: Vec<Pedge_t> = inp.barriers.iter().map(|(a, b)| Pedge_t { a: v(*a), b: v(*b) }).collect();
    let input = Ppoly_t { ps: l.iter().map(|p| v(*p)).collect() };
    let mut evs = [v(d0), v(d1)];
    // what the output holds before makes no difference
    let held = |s: &mut Src| match s.below(4) {
        0 => 0,
        1 => s.us(3),
        2 => s.us(3 * n + 3),
        _ => s.us(100),
    };
    let mut out = Ppoly_t { ps: vec![v((7.0, 7.0)); held(s)] };
    let r = must("Proutespline", || Proutespline(&edges, &input, &mut evs, &mut out))
        .map_err(|e| vh::Viol(format!("{}: {}", e.0, show())))?;
    ensure!(r.is_ok(), "no spline was found: {}", show());
    ensure!(
        input.ps.len() == n && input.ps.iter().zip(l).all(|(a, b)| a.x == b.0 && a.y == b.1),
        "the polyline was changed: {}",
        show()
    );
    let o: Vec<F> = out.ps.iter().map(|p| (p.x, p.y)).collect();
    ensure!(o.len() >= 4 && o.len() % 3 == 1, "{} control points: {}", o.len(), show());
    ensure!(o.iter().all(|p| p.0.is_finite() && p.1.is_finite()), "control points {:?}: {}", o, show());
    if s.chance(1, 4) && o.iter().all(|p| p.0.abs() < 1e6 && p.1.abs() < 1e6) {
        // the barriers are a set, and one without length is none
        let mut more = edges.clone();
        for _ in 0..s.urange(0, 3) {
            if !edges.is_empty() {
                let e = s.pick(&edges).clone();
                more.push(match s.below(3) {
                    0 => e,
                    1 => Pedge_t { a: e.a, b: e.a },
                    _ => Pedge_t { a: e.b, b: e.b },
                });
            }
            let p = match s.below(3) {
                0 => *s.pick(l),
                1 => *s.pick(&o),
                _ => {
                    let (a, b) = (*s.pick(&o), *s.pick(&o));
                    ((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0)
                }
            };
            more.push(Pedge_t { a: v(p), b: v(p) });
        }
        s.shuffle(&mut more);
        let mut evs = [v(d0), v(d1)];
        let mut again = Ppoly_t { ps: vec![v((8.0, -8.0)); held(s)] };
        let before = again.ps.len();
        let r = must("Proutespline", || Proutespline(&more, &input, &mut evs, &mut again))?;
        ensure!(
            r.is_ok() && again.ps.len() == o.len() && again.ps.iter().zip(&o).all(|(p, q)| p.x == q.0 && p.y == q.1),
            "with the barriers in another order, some twice, and some without length, and put where {} points were, the curve is {:?} instead of {:?}: {}; the barriers {:?}",
            before,
            again.ps,
            o,
            show(),
            more.iter().map(|e| (e.a, e.b)).collect::<Vec<_>>()
        );
        ctx.ev("sets of barriers put in another order", 1);
    }
    let k = o.len() / 3;
    ensure!(n != 2 || k == 1, "{} pieces for a polyline of two points: {}", k, show());
    ensure!(k <= n - 1, "{} pieces for {} points: {}", k, n, show());
    ensure!(o[0] == l[0] && o[o.len() - 1] == l[n - 1], "the ends are {:?} and {:?}: {}", o[0], o[o.len() - 1], show());
    // joints are corners in order
    let mut at = 0;
    let mut index = vec![0];
    for i in 1..k {
        let j = o[3 * i];
        match (at + 1..n - 1).find(|&x| l[x] == j) {
            Some(x) => {
                at = x;
                index.push(x);
            }
            None => vh::viol!("joint {} {:?} is no corner after the one before: {}", i, j, show()),
        }
    }
    index.push(n - 1);
    // directions
    let scale = l.iter().map(|p| p.0.abs().max(p.1.abs())).fold(1.0, f64::max);
    let zero = |a: F| norm(a) <= 1e-9 * scale;
    let along = |a: F, d: F| -> bool {
        let m = norm(a) * norm(d);
        cross(a, d).abs() <= 1e-6 * m + 1e-9 * scale * norm(d) && dot(a, d) >= -1e-9 * scale * norm(d)
    };
    let first = sub(o[1], o[0]);
    let last = sub(o[o.len() - 1], o[o.len() - 2]);
    // (a direction has no size: it is none only if it is nothing)
    let none = |d: F| norm(d) <= 1e-9;
    if none(d0) {
        ensure!(zero(first), "leaves along {:?} without a given direction: {}", first, show());
    } else {
        ensure!(along(first, d0), "leaves along {:?} instead of {:?}: {}", first, d0, show());
    }
    if none(d1) {
        ensure!(zero(last), "arrives along {:?} without a given direction: {}", last, show());
    } else {
        ensure!(along(last, d1), "arrives along {:?} instead of {:?}: {}", last, d1, show());
    }
    let mut straight = 0u64;
    for i in 0..k {
        let (a, b) = (sub(o[3 * i + 1], o[3 * i]), sub(o[3 * i + 3], o[3 * i + 2]));
        if zero(a) && zero(b) {
            straight += 1;
        }
        if i > 0 {
            // the piece before arrives along the direction in which this one leaves
            let before = sub(o[3 * i], o[3 * i - 1]);
            if !zero(before) && !zero(a) {
                ensure!(along(before, a), "a kink at joint {} {:?}: {:?} then {:?}: {}", i, o[3 * i], before, a, show());
                ctx.ev("smooth joints", 1);
            }
        }
    }
    let repeats = (0..n).any(|i| l[..i].contains(&l[i]));
    if inp.loose && !repeats {
        // nothing forces a piece between two neighbouring points to be straight
        for i in 0..k {
            if index[i + 1] != index[i] + 1 {
                continue;
            }
            let turn = |x: usize| -> bool {
                let (a, b) = (sub(l[x], l[x - 1]), sub(l[x + 1], l[x]));
                norm((a.0 / norm(a) + b.0 / norm(b), a.1 / norm(a) + b.1 / norm(b))) > 0.01
            };
            let goes = if i == 0 { !none(d0) } else { turn(index[i]) };
            let comes = if i == k - 1 { !none(d1) } else { turn(index[i + 1]) };
            ensure!(
                !goes || !zero(sub(o[3 * i + 1], o[3 * i])),
                "piece {} starts without direction, though no barrier is near: {}",
                i,
                show()
            );
            ensure!(
                !comes || !zero(sub(o[3 * i + 3], o[3 * i + 2])),
                "piece {} ends without direction, though no barrier is near: {}",
                i,
                show()
            );
            ctx.ev("pieces that nothing forces to be straight", 1);
        }
    }
    // barriers, by sampling
    let steps = ctx.by_scale(100, 400, 1000);
    let mut samples = 0u64;
    for (bi, (c, d)) in inp.barriers.iter().enumerate() {
        if !inp.free[bi] {
            ctx.ev("barriers that the polyline crosses or touches", 1);
            continue;
        }
        let u = sub(*d, *c);
        let len = norm(u);
        let u = (u.0 / len, u.1 / len);
        let deep = 1e-3 + 1e-6 * scale;
        for i in 0..k {
            let piece = &o[3 * i..3 * i + 4];
            // bounding box test
            let (mut lo, mut hi) = (f64::INFINITY, -f64::INFINITY);
            for p in piece {
                let h = cross(u, sub(*p, *c));
                lo = lo.min(h);
                hi = hi.max(h);
            }
            if lo > -deep || hi < deep {
                continue;
            }
            // the heights above the barrier's line along the curve; runs on either side
            let mut side = 0i32; // side of the last deep sample
            let mut crossing: Option<F> = None; // where the line was crossed since then
            let mut prev: Option<(f64, F)> = None;
            for st in 0..=steps {
                let t = st as f64 / steps as f64;
                let p = bez(piece, t);
                let h = cross(u, sub(p, *c));
                samples += 1;
                if let Some((ph, pp)) = prev {
                    if (ph < 0.0) != (h < 0.0) {
                        // refine between the samples
                        let (mut t0, mut t1) = ((st - 1) as f64 / steps as f64, t);
                        for _ in 0..40 {
                            let m = (t0 + t1) / 2.0;
                            if (cross(u, sub(bez(piece, m), *c)) < 0.0) == (ph < 0.0) {
                                t0 = m;
                            } else {
                                t1 = m;
                            }
                        }
                        crossing = Some(bez(piece, t0));
                        let _ = pp;
                    }
                }
                if h.abs() > deep {
                    let now = if h > 0.0 { 1 } else { -1 };
                    if side != 0 && side != now {
                        if let Some(x) = crossing {
                            let pos = dot(sub(x, *c), u);
                            let margin = 0.05 + 1e-6 * scale;
                            ensure!(
                                pos < margin || pos > len - margin,
                                "piece {} {:?} crosses the barrier {:?}-{:?} at {:?}: {}",
                                i,
                                piece,
                                c,
                                d,
                                x,
                                show()
                            );
                        }
                    }
                    if side != now {
                        side = now;
                    }
                    crossing = None;
                }
                prev = Some((h, p));
            }
        }
        ctx.ev("barriers checked", 1);
    }
    ctx.ev("points sampled on curves", samples);
    ctx.ev("pieces", k as u64);
    ctx.ev("straight pieces", straight);
    ctx.max("most pieces", k as u64);
    if k > 1 || !inp.barriers.is_empty() {
        ctx.nontrivial();
    }
    Ok(())
}

fn main() {
    worker("R06", run)
}
