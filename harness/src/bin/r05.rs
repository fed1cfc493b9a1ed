//! Shortest paths inside simple polygons against a visibility-graph oracle in exact arithmetic.

use trellis::pathplan::shortest::{Pshortestpath, ShortestPathError};
use trellis::polyline::Ppoly_t;
use trellis::vec2::Vec2;
use vh::geo::{dijkstra, dist, gen_exact_scale, gen_general_polygon, gen_rect, gen_u, gen_untangled, locate, seg_inside, Loc, P};
use vh::{ensure, must, viol, worker, Ctx, Res, Src};

fn v(p: P, k: f64) -> Vec2<f64> {
    Vec2 { x: p.0 as f64 * k, y: p.1 as f64 * k }
}

fn bbox(poly: &[P]) -> (P, P) {
    (
        (poly.iter().map(|p| p.0).min().unwrap(), poly.iter().map(|p| p.1).min().unwrap()),
        (poly.iter().map(|p| p.0).max().unwrap(), poly.iter().map(|p| p.1).max().unwrap()),
    )
}

/// A point strictly inside.
fn inside(s: &mut Src, poly: &[P]) -> Option<P> {
    let (lo, hi) = bbox(poly);
    if s.chance(1, 4) {
        let i = s.us(poly.len());
        let (a, b) = (poly[i], poly[(i + 1) % poly.len()]);
        if s.chance(1, 2) { return Some(a); }
        if (a.0 + b.0) % 2 == 0 && (a.1 + b.1) % 2 == 0 {
            return Some(((a.0 + b.0) / 2, (a.1 + b.1) / 2));
        }
    }
    for _ in 0..60 {
        let p = match s.below(3) {
            0 => {
                let (a, b, c) = (*s.pick(poly), *s.pick(poly), *s.pick(poly));
                ((a.0 + b.0 + c.0) / 3, (a.1 + b.1 + c.1) / 3)
            }
            1 => {
                // close to a corner
                let i = s.us(poly.len());
                let c = poly[i];
                (c.0 + s.range(-3, 3), c.1 + s.range(-3, 3))
            }
            _ => (s.range(lo.0, hi.0), s.range(lo.1, hi.1)),
        };
        if locate(poly, p) == Loc::In {
            return Some(p);
        }
    }
    None
}

fn outside(s: &mut Src, poly: &[P]) -> Option<P> {
    let (lo, hi) = bbox(poly);
    for _ in 0..40 {
        let p = match s.below(3) {
            0 => {
                let i = s.us(poly.len());
                let (a, b) = (poly[i], poly[(i + 1) % poly.len()]);
                ((a.0 + b.0) / 2 + s.range(-2, 2), (a.1 + b.1) / 2 + s.range(-2, 2))
            }
            1 => (lo.0 - s.range(1, 50), s.range(lo.1, hi.1)),
            _ => (s.range(lo.0 - 3, hi.0 + 3), s.range(lo.1 - 3, hi.1 + 3)),
        };
        if locate(poly, p) == Loc::Out {
            return Some(p);
        }
    }
    None
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let max = if ctx.giant() { 420 } else if s.chance(1, 150) { ctx.by_scale(12, 150, 200) } else { ctx.by_scale(10, 36, 70) };
    let mut poly = match s.below(6) {
        5 => {
            // few places: many corners on common lines
            let n = s.urange(4, 12);
            let r = s.range(2, 4);
            match gen_untangled(s, n, r) {
                Some(v) => v.iter().map(|p| (p.0 * 4, p.1 * 4)).collect(),
                None => vec![(0, 0), (9, 0), (0, 9)],
            }
        }
        0 => {
            let k = s.urange(2, (max / 2).min(if max > 300 { 200 } else if max > 80 { 80 } else { 14 }));
            gen_rect(s, k).unwrap_or_else(|| vec![(0, 0), (9, 0), (0, 9)])
        }
        1 => {
            let size = s.range(24, 120);
            gen_u(s, size).unwrap_or_else(|| vec![(0, 0), (9, 0), (0, 9)])
        }
        _ => gen_general_polygon(s, max),
    };
    // make room between the grid points
    let k = s.range(1, 3);
    for p in poly.iter_mut() {
        *p = (p.0 * k, p.1 * k);
    }
    if s.chance(1, 4) {
        // straight corners in the middle of edges
        for _ in 0..s.urange(1, 3) {
            let i = s.us(poly.len());
            let (a, b) = (poly[i], poly[(i + 1) % poly.len()]);
            if (a.0 + b.0) % 2 == 0 && (a.1 + b.1) % 2 == 0 {
                let m = ((a.0 + b.0) / 2, (a.1 + b.1) / 2);
                poly.insert(i + 1, m);
            }
        }
    }
    if s.chance(1, 2) {
        poly.reverse();
    }
    let rot = s.us(poly.len());
    poly.rotate_left(rot);
    if s.chance(1, 4) {
        for p in poly.iter_mut() {
            *p = (p.1, p.0);
        }
    }
    if s.chance(1, 4) {
        for p in poly.iter_mut() {
            *p = (-p.0, p.1);
        }
    }
    let a = match inside(s, &poly) {
        Some(a) => a,
        None => return Ok(()),
    };
    let b = match inside(s, &poly) {
        Some(b) => b,
        None => return Ok(()),
    };
    for p in &poly {
        ctx.fp(p.0 as u64);
        ctx.fp(p.1 as u64);
    }
    for x in [a.0, a.1, b.0, b.1] {
        ctx.fp(x as u64);
    }
    let z = gen_exact_scale(s);
    ctx.fp(z.to_bits());
    let show = || format!("times {} polygon {:?} from {:?} to {:?}", z, poly, a, b);
    ctx.sample(show);
    let mut given: Vec<P> = poly.clone();
    if s.chance(1, 6) {
        // corners that are given twice in a row
        for _ in 0..s.urange(1, 3) {
            let i = s.us(given.len());
            given.insert(i, given[i]);
        }
        ctx.ev("polygons with repeated corners", 1);
    }
    let show = || format!("times {} polygon {:?} from {:?} to {:?}", z, given, a, b);
    let pp = Ppoly_t { ps: given.iter().map(|p| v(*p, z)).collect() };
    let r = must("Pshortestpath", || Pshortestpath(&pp, &[v(a, z), v(b, z)]))
        .map_err(|e| vh::Viol(format!("{}: {}", e.0, show())))?;
    let path = match r {
        Ok(p) => p.ps,
        Err(ShortestPathError::SourcePointNotInAnyTriangle) => viol!("first point not found inside: {}", show()),
        Err(ShortestPathError::DestPointNotInAnyTriangle) => viol!("second point not found inside: {}", show()),
    };
    ensure!(path.len() >= 2, "the path has {} points: {}", path.len(), show());
    ensure!(
        path[0] == v(a, z) && path[path.len() - 1] == v(b, z),
        "the path {:?} does not lead from the first to the second point: {}",
        path,
        show()
    );
    let mut ip: Vec<P> = Vec::new();
    for (i, p) in path.iter().enumerate() {
        let q = ((p.x / z) as i64, (p.y / z) as i64);
        ensure!(
            *p == v(q, z) && (i == 0 || i == path.len() - 1 || poly.contains(&q)),
            "the path {:?} bends at {:?}, which is no corner: {}",
            path,
            p,
            show()
        );
        ip.push(q);
    }
    let mut len = 0.0;
    for w in ip.windows(2) {
        ensure!(
            seg_inside(w[0], w[1], &poly),
            "the path {:?} leaves the polygon between {:?} and {:?}: {}",
            path,
            w[0],
            w[1],
            show()
        );
        len += dist(w[0], w[1]);
    }
    // oracle: shortest path in the visibility graph of corners and the two points
    let mut pts = poly.clone();
    pts.push(a);
    pts.push(b);
    let n = pts.len();
    let best = dijkstra(n, n - 2, n - 1, |i, j| {
        if seg_inside(pts[i], pts[j], &poly) {
            Some(dist(pts[i], pts[j]))
        } else {
            None
        }
    });
    let best = best.expect("harness: no path inside a polygon");
    ensure!(
        len <= best * (1.0 + 1e-9) + 1e-9,
        "the path {:?} has length {}, the shortest {}: {}",
        path,
        len,
        best,
        show()
    );
    ctx.ev("paths compared", 1);
    ctx.ev("bends", ip.len() as u64 - 2);
    ctx.max("most bends", ip.len() as u64 - 2);
    ctx.max("most corners", poly.len() as u64);
    if ip.len() > 2 {
        ctx.nontrivial();
    }
    if s.chance(1, 4) {
        if let Some(o) = outside(s, &poly) {
            let r = must("Pshortestpath", || Pshortestpath(&pp, &[v(o, z), v(b, z)]))?;
            ensure!(
                matches!(r, Err(ShortestPathError::SourcePointNotInAnyTriangle)),
                "first point {:?} is outside but was accepted or blamed on the other: {}",
                o,
                show()
            );
            let r = must("Pshortestpath", || Pshortestpath(&pp, &[v(a, z), v(o, z)]))?;
            ensure!(
                matches!(r, Err(ShortestPathError::DestPointNotInAnyTriangle)),
                "second point {:?} is outside but was accepted or blamed on the other: {}",
                o,
                show()
            );
            ctx.ev("outside points refused", 2);
        }
    }
    Ok(())
}

fn main() {
    worker("R05", run)
}
