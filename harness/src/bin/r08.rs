//! Triangulation of simple polygons: cover, no overlap, right count. Needs the hook build.

#[cfg(verif_hooks)]
mod on {
    use trellis::pathplan::triang::verif_hooks::triangulate;
    use trellis::polyline::Ppoly_t;
    use trellis::vec2::Vec2;
    use vh::geo::{
        area2, gen_exact_scale, gen_general_polygon, gen_rect, gen_u, gen_untangled, has_collinear_neighbours, make_cw, orient, seg_inside, P,
    };
    use vh::{ensure, must, viol, Ctx, Res, Src};

    /// The insides of two triangles (counter-clockwise) share a point.
    fn overlap(a: &[P; 3], b: &[P; 3]) -> bool {
        for (x, y) in [(a, b), (b, a)] {
            for i in 0..3 {
                if y.iter().all(|p| orient(x[i], x[(i + 1) % 3], *p) <= 0) {
                    return false;
                }
            }
        }
        true
    }

    pub fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
        let max = if ctx.giant() { 420 } else if s.chance(1, 400) { ctx.by_scale(12, 200, 300) } else { ctx.by_scale(10, 40, 80) };
        let mut poly = match s.below(6) {
            5 => {
                // few places: many corners on common lines, and on the diagonals of others
                let n = s.urange(4, 12);
                let r = s.range(2, 4);
                gen_untangled(s, n, r).unwrap_or_else(|| vec![(0, 0), (9, 0), (0, 9)])
            }
            0 => {
                let k = s.urange(2, (max / 2).min(if max > 300 { 200 } else if max > 80 { 100 } else { 14 }));
                gen_rect(s, k).unwrap_or_else(|| vec![(0, 0), (9, 0), (0, 9)])
            }
            1 => {
                let size = s.range(24, 120);
                gen_u(s, size).unwrap_or_else(|| vec![(0, 0), (9, 0), (0, 9)])
            }
            _ => gen_general_polygon(s, max),
        };
        if has_collinear_neighbours(&poly) {
            return Ok(());
        }
        make_cw(&mut poly);
        let rot = s.us(poly.len());
        poly.rotate_left(rot);
        for p in &poly {
            ctx.fp(p.0 as u64);
            ctx.fp(p.1 as u64);
        }
        let z = gen_exact_scale(s);
        ctx.fp(z.to_bits());
        ctx.sample(|| format!("{:?} times {}", poly, z));
        let pp = Ppoly_t { ps: poly.iter().map(|p| Vec2 { x: p.0 as f64 * z, y: p.1 as f64 * z }).collect() };
        let before = pp.ps.clone();
        let mut got: Vec<[Vec2<f64>; 3]> = Vec::new();
        let r = must("triangulation", || triangulate(&pp, &mut |a, b, c| got.push([a, b, c])))
            .map_err(|e| vh::Viol(format!("{}: {:?}", e.0, poly)))?;
        ensure!(r.is_ok(), "triangulation failed: {:?}", poly);
        ensure!(pp.ps == before, "the polygon was changed: {:?}", poly);
        ensure!(
            got.len() == poly.len() - 2,
            "{} triangles for {} corners: {:?}",
            got.len(),
            poly.len(),
            poly
        );
        let mut tris: Vec<[P; 3]> = Vec::new();
        let mut sum = 0i128;
        for t in &got {
            let mut x = [(0, 0); 3];
            for k in 0..3 {
                let q = ((t[k].x / z) as i64, (t[k].y / z) as i64);
                if t[k].x / z != q.0 as f64 || t[k].y / z != q.1 as f64 || !poly.contains(&q) {
                    viol!("triangle {:?} uses {:?}, which is no corner: {:?}", t, t[k], poly);
                }
                x[k] = q;
            }
            let a = area2(&x);
            ensure!(a != 0, "triangle {:?} is flat: {:?}", x, poly);
            if a < 0 {
                x.swap(1, 2);
            }
            sum += a.abs();
            for k in 0..3 {
                ensure!(
                    seg_inside(x[k], x[(k + 1) % 3], &poly),
                    "triangle {:?} leaves the polygon: {:?}",
                    x,
                    poly
                );
            }
            tris.push(x);
        }
        ensure!(sum == area2(&poly).abs(), "the triangles have area {}/2, the polygon {}/2: {:?}", sum, area2(&poly).abs(), poly);
        for i in 0..tris.len() {
            for j in i + 1..tris.len() {
                ensure!(!overlap(&tris[i], &tris[j]), "triangles {:?} and {:?} overlap: {:?}", tris[i], tris[j], poly);
            }
        }
        ctx.ev("triangles checked", tris.len() as u64);
        ctx.ev("pairs of triangles checked", (tris.len() * (tris.len() - 1) / 2) as u64);
        ctx.max("most corners", poly.len() as u64);
        if poly.len() > 4 {
            ctx.nontrivial();
        }
        Ok(())
    }
}

#[cfg(verif_hooks)]
fn main() {
    vh::worker("R08", on::run)
}
#[cfg(not(verif_hooks))]
fn main() {
    panic!("needs --cfg verif_hooks");
}
