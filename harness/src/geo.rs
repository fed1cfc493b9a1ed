//! Exact integer geometry: the oracles for the path planner, and polygon generators.

use crate::Src;

pub type P = (i64, i64);

/// > 0 if a, b, c turn left (y up), < 0 if right, 0 if collinear.
pub fn orient(a: P, b: P, c: P) -> i64 {
    let v = (b.0 - a.0) as i128 * (c.1 - a.1) as i128 - (b.1 - a.1) as i128 * (c.0 - a.0) as i128;
    v.signum() as i64
}

/// c lies on the closed segment ab
pub fn on_seg(a: P, b: P, c: P) -> bool {
    orient(a, b, c) == 0
        && c.0 >= a.0.min(b.0)
        && c.0 <= a.0.max(b.0)
        && c.1 >= a.1.min(b.1)
        && c.1 <= a.1.max(b.1)
}

/// c lies strictly between a and b
pub fn in_open_seg(a: P, b: P, c: P) -> bool {
    c != a && c != b && on_seg(a, b, c)
}

/// The closed segments share a point.
pub fn seg_touch(a: P, b: P, c: P, d: P) -> bool {
    let o1 = orient(a, b, c);
    let o2 = orient(a, b, d);
    let o3 = orient(c, d, a);
    let o4 = orient(c, d, b);
    if o1 * o2 < 0 && o3 * o4 < 0 {
        return true;
    }
    on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b)
}

/// The segments cross at one point inside both.
pub fn cross_properly(a: P, b: P, c: P, d: P) -> bool {
    orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0
}

/// The open segment ab shares a point with the closed segment cd.
pub fn open_meets(a: P, b: P, c: P, d: P) -> bool {
    if cross_properly(a, b, c, d) {
        return true;
    }
    if in_open_seg(a, b, c) || in_open_seg(a, b, d) {
        return true;
    }
    // a or b on cd and the rest of ab running along cd
    if orient(c, d, a) == 0 && orient(c, d, b) == 0 {
        // collinear: open ab meets cd iff they overlap in more than an end of ab
        let key = |p: P| if a.0 != b.0 { p.0 } else { p.1 };
        let (al, ah) = (key(a).min(key(b)), key(a).max(key(b)));
        let (cl, ch) = (key(c).min(key(d)), key(c).max(key(d)));
        return al < ch && cl < ah;
    }
    false
}

pub fn area2(p: &[P]) -> i128 {
    let n = p.len();
    let mut s = 0i128;
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        s += a.0 as i128 * b.1 as i128 - a.1 as i128 * b.0 as i128;
    }
    s
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Loc {
    In,
    On,
    Out,
}

pub fn locate(poly: &[P], q: P) -> Loc {
    let n = poly.len();
    for i in 0..n {
        if on_seg(poly[i], poly[(i + 1) % n], q) {
            return Loc::On;
        }
    }
    let mut inside = false;
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        if (a.1 > q.1) != (b.1 > q.1) {
            let (lo, hi) = if a.1 < b.1 { (a, b) } else { (b, a) };
            // crossing is right of q iff q is left of lo->hi
            if orient(lo, hi, q) > 0 {
                inside = !inside;
            }
        }
    }
    if inside {
        Loc::In
    } else {
        Loc::Out
    }
}

/// No two edges share a point other than the common end of neighbours; no spikes.
pub fn is_simple(p: &[P]) -> bool {
    let n = p.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        if a == b {
            return false;
        }
        for j in i + 1..n {
            let (c, d) = (p[j], p[(j + 1) % n]);
            if j == i + 1 || (i == 0 && j == n - 1) {
                // neighbours: may only share the common corner
                let (far1, common, far2) = if j == i + 1 { (a, b, d) } else { (b, a, c) };
                if orient(far1, common, far2) == 0 && {
                    // same direction means overlap
                    let d1 = (far1.0 - common.0, far1.1 - common.1);
                    let d2 = (far2.0 - common.0, far2.1 - common.1);
                    d1.0 as i128 * d2.0 as i128 + d1.1 as i128 * d2.1 as i128 > 0
                } {
                    return false;
                }
                if n == 3 && orient(far1, common, far2) == 0 {
                    return false;
                }
            } else if seg_touch(a, b, c, d) {
                return false;
            }
        }
    }
    area2(p) != 0
}

pub fn has_collinear_neighbours(p: &[P]) -> bool {
    let n = p.len();
    (0..n).any(|i| orient(p[i], p[(i + 1) % n], p[(i + 2) % n]) == 0)
}

pub fn any_collinear_triple(p: &[P]) -> bool {
    let n = p.len();
    for i in 0..n {
        for j in i + 1..n {
            for k in j + 1..n {
                if orient(p[i], p[j], p[k]) == 0 {
                    return true;
                }
            }
        }
    }
    false
}

pub fn is_convex_cw(p: &[P]) -> bool {
    let n = p.len();
    (0..n).all(|i| orient(p[i], p[(i + 1) % n], p[(i + 2) % n]) <= 0)
}

pub fn make_cw(p: &mut Vec<P>) {
    if area2(p) > 0 {
        p.reverse();
    }
}

/// Polygons that share no point and do not contain each other.
pub fn disjoint(a: &[P], b: &[P]) -> bool {
    let (n, m) = (a.len(), b.len());
    for i in 0..n {
        for j in 0..m {
            if seg_touch(a[i], a[(i + 1) % n], b[j], b[(j + 1) % m]) {
                return false;
            }
        }
    }
    locate(a, b[0]) == Loc::Out && locate(b, a[0]) == Loc::Out
}

/// The open segment between two points is free of a polygon: it shares no point with the
/// border and does not run through the inside.
pub fn seg_free_of(a: P, b: P, poly: &[P]) -> bool {
    let n = poly.len();
    for i in 0..n {
        if open_meets(a, b, poly[i], poly[(i + 1) % n]) {
            return false;
        }
    }
    // no border point in the open segment: all of it is on one side
    let m = (a.0 + b.0, a.1 + b.1);
    let big: Vec<P> = poly.iter().map(|p| (2 * p.0, 2 * p.1)).collect();
    locate(&big, m) == Loc::Out
}

/// The closed segment stays in the closed polygon (general position assumed: the open segment
/// contains no corner).
pub fn seg_inside(a: P, b: P, poly: &[P]) -> bool {
    if a == b {
        return true;
    }
    let n = poly.len();
    for i in 0..n {
        let (c, d) = (poly[i], poly[(i + 1) % n]);
        if (a == c && b == d) || (a == d && b == c) {
            return true;
        }
        if cross_properly(a, b, c, d) {
            return false;
        }
        if in_open_seg(a, b, c) {
            // split there
            return seg_inside(a, c, poly) && seg_inside(c, b, poly);
        }
    }
    let m = (a.0 + b.0, a.1 + b.1);
    let big: Vec<P> = poly.iter().map(|p| (2 * p.0, 2 * p.1)).collect();
    locate(&big, m) != Loc::Out
}

pub fn dist(a: P, b: P) -> f64 {
    let dx = (a.0 - b.0) as f64;
    let dy = (a.1 - b.1) as f64;
    (dx * dx + dy * dy).sqrt()
}

// ---------------------------------------------------------------------------------------------
// generators

fn half(d: P) -> u8 {
    if d.1 > 0 || (d.1 == 0 && d.0 > 0) {
        0
    } else {
        1
    }
}

/// Points sorted by angle around the origin; equal directions are dropped (the first stays).
fn by_angle(v: &mut Vec<P>) {
    v.retain(|p| *p != (0, 0));
    v.sort_by(|a, b| {
        half(*a).cmp(&half(*b)).then_with(|| {
            let c = a.0 as i128 * b.1 as i128 - a.1 as i128 * b.0 as i128;
            0i128.cmp(&c)
        })
    });
    v.dedup_by(|a, b| {
        half(*a) == half(*b) && a.0 as i128 * b.1 as i128 - a.1 as i128 * b.0 as i128 == 0
    });
}

/// Star-shaped around a centre, within the square of the given radius.
pub fn gen_star(s: &mut Src, n: usize, r: i64) -> Option<Vec<P>> {
    let mut v: Vec<P> = (0..n).map(|_| (s.range(-r, r), s.range(-r, r))).collect();
    by_angle(&mut v);
    if v.len() < 3 || !is_simple(&v) {
        return None;
    }
    Some(v)
}

/// Random points, untangled by reversing crossing parts.
pub fn gen_untangled(s: &mut Src, n: usize, r: i64) -> Option<Vec<P>> {
    let mut v: Vec<P> = (0..n).map(|_| (s.range(-r, r), s.range(-r, r))).collect();
    let mut tries = 0;
    'again: loop {
        tries += 1;
        if tries > if n > 100 { 4000 } else { 400 } {
            return None;
        }
        let n = v.len();
        for i in 0..n {
            for j in i + 2..n {
                if i == 0 && j == n - 1 {
                    continue;
                }
                if seg_touch(v[i], v[i + 1], v[j], v[(j + 1) % n]) {
                    v[i + 1..=j].reverse();
                    continue 'again;
                }
            }
        }
        break;
    }
    if is_simple(&v) {
        Some(v)
    } else {
        None
    }
}

/// A convex polygon with nearly as many corners as asked for: the hull of points on an ellipse.
pub fn gen_round(s: &mut Src, n: usize, r: i64) -> Option<Vec<P>> {
    let (a, b) = (r as f64, r as f64 * s.real(0.3, 1.0));
    let turn = s.real(0.0, 6.0);
    let v = (0..n)
        .map(|i| {
            let t = turn + i as f64 * std::f64::consts::TAU / n as f64;
            ((a * t.cos()).round() as i64, (b * t.sin()).round() as i64)
        })
        .collect();
    convex_hull(v)
}

/// Convex hull of random points (strictly convex), counter-clockwise.
pub fn gen_convex(s: &mut Src, n: usize, r: i64) -> Option<Vec<P>> {
    convex_hull((0..n).map(|_| (s.range(-r, r), s.range(-r, r))).collect())
}

fn convex_hull(mut v: Vec<P>) -> Option<Vec<P>> {
    v.sort();
    v.dedup();
    let hull = |it: &mut dyn Iterator<Item = P>| {
        let mut h: Vec<P> = Vec::new();
        for p in it {
            while h.len() >= 2 && orient(h[h.len() - 2], h[h.len() - 1], p) <= 0 {
                h.pop();
            }
            h.push(p);
        }
        h.pop();
        h
    };
    let mut a = hull(&mut v.iter().copied());
    let b = hull(&mut v.iter().rev().copied());
    a.extend(b);
    if a.len() >= 3 && is_simple(&a) {
        Some(a)
    } else {
        None
    }
}

/// A comb: teeth pointing up, optionally jittered.
pub fn gen_comb(s: &mut Src, teeth: usize, jitter: i64) -> Option<Vec<P>> {
    let w = 40;
    let mut v: Vec<P> = Vec::new();
    let j = |s: &mut Src| if jitter > 0 { s.range(-jitter, jitter) } else { 0 };
    v.push((j(s), j(s)));
    let right = (2 * teeth as i64) * w;
    v.push((right + j(s), j(s)));
    for t in (0..teeth).rev() {
        let x0 = (2 * t as i64) * w;
        let top = 60 + s.range(0, 100);
        let low = 20 + s.range(0, 20);
        v.push((x0 + 2 * w + j(s) - w / 2, low + j(s)));
        v.push((x0 + w + w / 4 + j(s), top + 60 + j(s)));
        v.push((x0 + w / 2 + j(s), low + j(s)));
    }
    if is_simple(&v) {
        Some(v)
    } else {
        None
    }
}

/// A spiral with corners shaken so finely that hardly three are ever on a line.
fn gen_spiral_fine(s: &mut Src, turns: usize) -> Option<Vec<P>> {
    let f = if turns > 3 { 64 } else { 1 };
    gen_spiral_times(s, turns, 5 * f, f)
}

/// A spiral corridor.
pub fn gen_spiral(s: &mut Src, turns: usize, jitter: i64) -> Option<Vec<P>> {
    gen_spiral_times(s, turns, jitter, 1)
}

fn gen_spiral_times(s: &mut Src, turns: usize, jitter: i64, f: i64) -> Option<Vec<P>> {
    let mut outer: Vec<P> = Vec::new();
    let mut inner: Vec<P> = Vec::new();
    let step = 45i64;
    let k = 4 * turns + 1;
    let dirs = [(1i64, 0i64), (0, 1), (-1, 0), (0, -1)];
    for i in 0..k {
        let r = 60 + step * i as i64;
        let d = dirs[i % 4];
        let n = dirs[(i + 1) % 4];
        let jit = |s: &mut Src| if jitter > 0 { s.range(-jitter, jitter) } else { 0 };
        // a corner of the spiral between directions d and n
        let c = ((d.0 + n.0) * r * f, (d.1 + n.1) * r * f);
        inner.push((c.0 + jit(s), c.1 + jit(s)));
        let ro = (r + 25) * f;
        outer.push(((d.0 + n.0) * ro + jit(s), (d.1 + n.1) * ro + jit(s)));
    }
    let mut v = inner;
    outer.reverse();
    v.extend(outer);
    if is_simple(&v) {
        Some(v)
    } else {
        None
    }
}

/// Grown from a triangle: one edge after the other gets a corner pushed out or in, as long as
/// the outline stays simple. Deep pockets within pockets.
pub fn gen_grown(s: &mut Src, n: usize, r: i64) -> Option<Vec<P>> {
    let mut v: Vec<P> = vec![(-r, -r + s.range(0, r / 3)), (r, -r), (s.range(-r, r), r)];
    let mut fails = 0;
    let mut last = 0;
    while v.len() < n && fails < 60 {
        let m = v.len();
        // often near the corner added last, so that pockets become deep
        let i = if s.chance(1, 2) { s.us(m) } else { (last + s.us(3) + m - 1) % m };
        let (a, b) = (v[i], v[(i + 1) % m]);
        let d = ((b.0 - a.0).abs().max((b.1 - a.1).abs()) * s.range(1, 3) / 2).max(3);
        let c = ((a.0 + b.0) / 2 + s.range(-d, d), (a.1 + b.1) / 2 + s.range(-d, d));
        let ok = orient(a, b, c) != 0
            && (0..m).all(|k| {
                let (e, f) = (v[k], v[(k + 1) % m]);
                k == i
                    || ((f == a || !seg_touch(a, c, e, f)) && (e == b || !seg_touch(c, b, e, f))
                        && (f != a || !on_seg(e, f, c) && !in_open_seg(a, c, e))
                        && (e != b || !on_seg(e, f, c) && !in_open_seg(b, c, f)))
            });
        if ok {
            v.insert(i + 1, c);
            last = i;
            fails = 0;
        } else {
            fails += 1;
        }
    }
    if is_simple(&v) {
        Some(v)
    } else {
        None
    }
}

/// A staircase-like rectilinear polygon (many collinear corners across the polygon).
pub fn gen_rect(s: &mut Src, steps: usize) -> Option<Vec<P>> {
    // a histogram: columns of different heights over a common base
    let mut v: Vec<P> = vec![(0, 0)];
    let mut xs = 0i64;
    let mut tops: Vec<(i64, i64, i64)> = Vec::new();
    let mut last = -1;
    for _ in 0..steps {
        let w = s.range(1, 5) * 10;
        let mut h = s.range(1, 6) * 10;
        if h == last {
            h += 10;
        }
        last = h;
        tops.push((xs, xs + w, h));
        xs += w;
    }
    v.push((xs, 0));
    for &(a, b, h) in tops.iter().rev() {
        v.push((b, h));
        v.push((a, h));
    }
    if is_simple(&v) {
        Some(v)
    } else {
        None
    }
}

/// A U-shaped polygon with an inner notch, in a box of the given size.
pub fn gen_u(s: &mut Src, size: i64) -> Option<Vec<P>> {
    let t = (size / 6).max(1);
    let x0 = s.range(0, t);
    let y0 = s.range(0, t);
    let x1 = size - s.range(0, t);
    let y1 = size - s.range(0, t);
    let ix0 = x0 + t + s.range(0, t / 2);
    let ix1 = x1 - t - s.range(0, t / 2);
    let iy = y0 + t + s.range(0, t / 2);
    if ix0 >= ix1 || iy >= y1 {
        return None;
    }
    let mut v = vec![(x0, y0), (x1, y0), (x1, y1), (ix1, y1), (ix1, iy), (ix0, iy), (ix0, y1), (x0, y1)];
    // open in one of four directions
    for _ in 0..s.us(4) {
        for p in v.iter_mut() {
            *p = (size - p.1, p.0);
        }
    }
    if is_simple(&v) {
        Some(v)
    } else {
        None
    }
}

/// A power of two to multiply coordinates with, which floats do exactly; mostly one.
pub fn gen_scale(s: &mut Src) -> f64 {
    match s.below(8) {
        0 => 1.0 / 32.0,
        1 => *s.pick(&[0.5, 0.125, 4.0, 1024.0, 16_777_216.0, 1_099_511_627_776.0]),
        _ => 1.0,
    }
}

/// As `gen_scale`, for code that has no tolerances: any power of two gives the same picture.
pub fn gen_exact_scale(s: &mut Src) -> f64 {
    if s.chance(1, 3) {
        2f64.powi(*s.pick(&[-200i32, -100, -60, -40, -30, -24, -20, -16, -12, -8, 20, 50, 90, 200]))
    } else {
        gen_scale(s)
    }
}

pub fn shift(p: &[P], d: P) -> Vec<P> {
    p.iter().map(|q| (q.0 + d.0, q.1 + d.1)).collect()
}

/// A bend with an inner side of many corners and an outer one of few, or the other way round.
pub fn gen_bend(s: &mut Src, n: usize, r: i64) -> Option<Vec<P>> {
    let c = gen_round(s, n.max(8), r)?;
    let m = c.len();
    if m < 8 {
        return None;
    }
    // as much of the turn as is used, and at least every sixth of it a corner on the other side
    let used = s.urange(2, m - 1);
    let step = (m / 6).max(1);
    let mut v: Vec<P> = c[..used].to_vec();
    let many_inside = s.chance(3, 4);
    let far = |s: &mut Src, p: P| {
        let f = s.range(12, 20);
        (p.0 * f / 4, p.1 * f / 4)
    };
    let few = (0..used).rev().filter(|i| i % step == 0 || *i == used - 1);
    if many_inside {
        for i in few {
            v.push(far(s, c[i]));
        }
    } else {
        v = few.map(|i| c[i]).collect();
        for p in &c[..used] {
            v.push((p.0 * 3, p.1 * 3));
        }
    }
    is_simple(&v).then_some(v)
}

/// A simple polygon in general position (no three corners on a line), any orientation.
pub fn gen_general_polygon(s: &mut Src, max_n: usize) -> Vec<P> {
    for _ in 0..30 {
        let n = s.urange(if max_n > 300 { max_n / 2 } else { 3 }, max_n.max(3));
        let r = *s.pick(&[20i64, 100, 1000, 20000]);
        let r = r.max(n as i64 * 4);
        let v = match s.below(9) {
            8 => gen_bend(s, n, r),
            7 => gen_grown(s, n, r),
            0 => gen_star(s, n, r),
            1 | 2 => gen_untangled(s, n, r),
            3 => gen_convex(s, n, r),
            4 => {
                let t = (n / 4).max(1);
                gen_comb(s, t, 6)
            }
            5 => {
                let t = (n / 12).max(1);
                gen_spiral_fine(s, t)
            }
            _ => gen_star(s, n, r),
        };
        if let Some(v) = v {
            if v.len() >= 3 && v.len() <= max_n.max(12) && !any_collinear_triple(&v) {
                return v;
            }
        }
    }
    vec![(0, 0), (7, 1), (3, 5)]
}

/// Disjoint simple polygons, clockwise, with integer corners.
pub fn gen_obstacles(s: &mut Src, max_corners: usize, convex_only: bool) -> Vec<Vec<P>> {
    let mut out: Vec<Vec<P>> = Vec::new();
    let mut corners = 0;
    let style = s.below(5);
    let many = if max_corners > 250 { 9 } else if max_corners > 100 { 4 } else { 1 };
    match style {
        0 => {
            // small coordinates: many corners on common lines
            let grid = s.range(5, 12) * many as i64;
            let want = s.urange(1, 6) * many;
            for _ in 0..want * 4 {
                if out.len() >= want || corners >= max_corners {
                    break;
                }
                let n = s.urange(3, 6);
                let r = s.range(1, 3);
                let v = if convex_only || s.chance(1, 2) {
                    gen_convex(s, n, r)
                } else {
                    gen_untangled(s, n, r)
                };
                let v = match v {
                    Some(v) => v,
                    None => continue,
                };
                let d = (s.range(0, grid), s.range(0, grid));
                let mut v = shift(&v, d);
                make_cw(&mut v);
                if out.iter().all(|o| disjoint(o, &v)) {
                    corners += v.len();
                    out.push(v);
                }
            }
        }
        1 => {
            // boxes on a raster: rectilinear, everything aligned
            let k = s.urange(1, 4) * (many + 2) / 3;
            for gy in 0..k as i64 {
                for gx in 0..k as i64 {
                    if corners >= max_corners || s.chance(1, 4) {
                        continue;
                    }
                    let (w, h) = (s.range(2, 8), s.range(2, 8));
                    let (x, y) = (gx * 10, gy * 10);
                    let mut v = vec![(x, y), (x + w, y), (x + w, y + h), (x, y + h)];
                    if !convex_only && s.chance(1, 3) && w >= 4 && h >= 4 {
                        v = vec![
                            (x, y),
                            (x + w, y),
                            (x + w, y + h / 2),
                            (x + w / 2, y + h / 2),
                            (x + w / 2, y + h),
                            (x, y + h),
                        ];
                    }
                    make_cw(&mut v);
                    let rot = s.us(v.len());
                    v.rotate_left(rot);
                    corners += v.len();
                    out.push(v);
                }
            }
        }
        4 => {
            // walls that have to be gone around one after the other
            let walls = s.urange(2, if max_corners > 250 { 70 } else { (max_corners / 5).min(9) });
            let height = *s.pick(&[20i64, 100, 600]);
            let mut x = 0;
            let flip = s.chance(1, 2);
            for i in 0..walls {
                let y = if i % 2 == 0 { s.range(0, height / 4) } else { height / 2 + s.range(0, height / 4) };
                let w = s.range(1, 5);
                let mut v = if s.chance(1, 2) {
                    vec![(x, y), (x, y + height), (x + w, y + height), (x + w, y)]
                } else {
                    vec![(x, y), (x + s.range(0, w), y + height), (x + w, y + s.range(0, height / 2))]
                };
                if flip {
                    v = v.iter().map(|p| (p.1, p.0)).collect();
                }
                make_cw(&mut v);
                let rot = s.us(v.len());
                v.rotate_left(rot);
                if v.len() > 3 || orient(v[0], v[1], v[2]) != 0 {
                    out.push(v);
                }
                x += w + s.range(1, 9);
            }
        }
        3 if max_corners > 30 && s.chance(1, 2) => {
            // few but round ones, of many corners
            let r = *s.pick(&[300i64, 2_000, 9_000]);
            let reach = r * (1 + (max_corners as i64) / 60);
            let mut tries = 0;
            while corners + 12 < max_corners && tries < 40 {
                tries += 1;
                let top = (max_corners - corners).min(70);
                let n = s.urange(3, top);
                let v = match if convex_only { 0 } else { s.below(3) } {
                    0 | 1 => gen_round(s, n, r),
                    _ => gen_star(s, n, r),
                };
                if let Some(v) = v {
                    let mut v = shift(&v, (s.range(-reach, reach), s.range(-reach, reach)));
                    make_cw(&mut v);
                    let rot = s.us(v.len());
                    v.rotate_left(rot);
                    if out.iter().all(|o| disjoint(o, &v)) {
                        corners += v.len();
                        out.push(v);
                    }
                }
            }
        }
        2 if !convex_only => {
            // U-shapes with something inside the notch
            let size = s.range(30, 90);
            if let Some(mut u) = gen_u(s, size) {
                make_cw(&mut u);
                let rot = s.us(u.len());
                u.rotate_left(rot);
                corners += u.len();
                out.push(u);
            }
            for _ in 0..24 {
                if out.len() >= 5 || corners >= max_corners {
                    break;
                }
                let n = s.urange(3, 6);
                let r = s.range(2, size / 6 + 2);
                let v = if s.chance(1, 2) { gen_convex(s, n, r) } else { gen_star(s, n, r) };
                if let Some(v) = v {
                    let mut v = shift(&v, (s.range(0, size + 20), s.range(0, size + 20)));
                    make_cw(&mut v);
                    if out.iter().all(|o| disjoint(o, &v)) {
                        corners += v.len();
                        out.push(v);
                    }
                }
            }
        }
        _ => {
            // scattered over a larger field
            let r = *s.pick(&[15i64, 60, 400]);
            let want = s.urange(1, 7) * many;
            let reach = 3 * r * (1 + many as i64) / 2;
            for _ in 0..want * 4 {
                if out.len() >= want || corners >= max_corners {
                    break;
                }
                let n = s.urange(3, 9);
                let v = if convex_only {
                    gen_convex(s, n, r)
                } else {
                    match s.below(3) {
                        0 => gen_convex(s, n, r),
                        1 => gen_star(s, n, r),
                        _ => gen_untangled(s, n, r),
                    }
                };
                if let Some(v) = v {
                    let mut v = shift(&v, (s.range(-reach, reach), s.range(-reach, reach)));
                    make_cw(&mut v);
                    if out.iter().all(|o| disjoint(o, &v)) {
                        corners += v.len();
                        out.push(v);
                    }
                }
            }
        }
    }
    if out.is_empty() {
        out.push(vec![(0, 0), (0, 4), (4, 4), (4, 0)]);
    }
    out
}

/// An extent that covers the obstacles with a margin.
pub fn extent(obs: &[Vec<P>]) -> (P, P) {
    let all = || obs.iter().flatten();
    let lo = (all().map(|p| p.0).min().unwrap_or(0), all().map(|p| p.1).min().unwrap_or(0));
    let hi = (all().map(|p| p.0).max().unwrap_or(1), all().map(|p| p.1).max().unwrap_or(1));
    let m = ((hi.0 - lo.0) + (hi.1 - lo.1)) / 8 + 2;
    ((lo.0 - m, lo.1 - m), (hi.0 + m, hi.1 + m))
}

/// Dijkstra over a dense weight function (None = no edge), from s to t.
pub fn dijkstra(n: usize, s: usize, t: usize, w: impl Fn(usize, usize) -> Option<f64>) -> Option<f64> {
    dijkstra_path(n, s, t, w).map(|x| x.0)
}

/// Also the vertices on the way.
pub fn dijkstra_path(
    n: usize,
    s: usize,
    t: usize,
    w: impl Fn(usize, usize) -> Option<f64>,
) -> Option<(f64, Vec<usize>)> {
    let mut from = vec![usize::MAX; n];
    let mut d = vec![f64::INFINITY; n];
    let mut done = vec![false; n];
    d[s] = 0.0;
    loop {
        let mut best = None;
        for i in 0..n {
            if !done[i] && d[i].is_finite() && best.map_or(true, |b: usize| d[i] < d[b]) {
                best = Some(i);
            }
        }
        let u = match best {
            None => return None,
            Some(u) => u,
        };
        if u == t {
            let mut path = vec![t];
            while *path.last().unwrap() != s {
                path.push(from[*path.last().unwrap()]);
            }
            path.reverse();
            return Some((d[u], path));
        }
        done[u] = true;
        for v in 0..n {
            if !done[v] {
                if let Some(x) = w(u, v) {
                    if d[u] + x < d[v] {
                        d[v] = d[u] + x;
                        from[v] = u;
                    }
                }
            }
        }
    }
}
