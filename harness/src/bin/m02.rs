//! Boxes, distances, rounding, units and vectors against their defining laws.

use trellis::common::arith::{AVG, BETWEEN, CMP, DEGREES, MAX, MIN, RADIANS, ROUND, SGN, SQR};
use trellis::common::geom::*;
use trellis::math::{fmax, fmin, sqr};
use trellis::vec2::Vec2;
use vh::{ensure, must, worker, Ctx, Res, Src};

type R = [f64; 4]; // llx lly urx ury

fn bx(r: R) -> boxf {
    boxf { LL: Vec2 { x: r[0], y: r[1] }, UR: Vec2 { x: r[2], y: r[3] } }
}
fn un(b: &boxf) -> R {
    [b.LL.x, b.LL.y, b.UR.x, b.UR.y]
}
fn pt(x: f64, y: f64) -> pointf {
    Vec2 { x, y }
}

/// One coordinate, often the same as another one or next to it.
fn coord(s: &mut Src, pool: &mut Vec<f64>) -> f64 {
    let x = match s.below(7) {
        0 if !pool.is_empty() => *s.pick(pool),
        1 if !pool.is_empty() => f64::from_bits(s.pick(pool).to_bits().wrapping_add(1)),
        2 => s.range(-4, 4) as f64,
        3 => s.range(-1000, 1000) as f64 / 8.0,
        4 => s.real(-1e6, 1e6),
        5 => s.real(-1e-6, 1e-6),
        _ => s.range(-9, 9) as f64 + 0.5,
    };
    let x = if x.is_finite() && x.abs() > 1e-100 { x } else { 0.0 };
    pool.push(x);
    x
}

fn rect(s: &mut Src, pool: &mut Vec<f64>) -> R {
    let (a, b, c, d) = (coord(s, pool), coord(s, pool), coord(s, pool), coord(s, pool));
    [a.min(c), b.min(d), a.max(c), b.max(d)]
}

fn has(r: R, p: (f64, f64)) -> bool {
    r[0] <= p.0 && p.0 <= r[2] && r[1] <= p.1 && p.1 <= r[3]
}

/// The nearest integer, halves away from zero, kept inside the range of i32.
fn nearest(f: f64) -> i32 {
    let t = f.trunc();
    let d = f - t; // exact
    let t = if d >= 0.5 {
        t + 1.0
    } else if d <= -0.5 {
        t - 1.0
    } else {
        t
    };
    if t >= i32::MAX as f64 {
        i32::MAX
    } else if t <= i32::MIN as f64 {
        i32::MIN
    } else {
        t as i32
    }
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-12 * a.abs().max(b.abs()) + 1e-300
}

fn any(s: &mut Src) -> f64 {
    match s.below(8) {
        0 => s.range(-20, 20) as f64 + 0.5,
        1 => {
            // next to a half or an integer
            let x = s.range(-100, 100) as f64 / 2.0;
            let n = s.range(-2, 2);
            if x == 0.0 {
                x
            } else {
                f64::from_bits((x.to_bits() as i64 + n) as u64)
            }
        }
        2 => (i32::MAX as f64) + s.range(-6, 6) as f64 / 2.0,
        3 => (i32::MIN as f64) + s.range(-6, 6) as f64 / 2.0,
        4 => s.real(-1e12, 1e12),
        5 => s.real(-1.0, 1.0),
        6 => s.range(-100000, 100000) as f64 / 16.0,
        _ => s.real(-3e9, 3e9),
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.below(3) {
        0 => boxes(s, ctx),
        1 => numbers(s, ctx),
        _ => vectors(s, ctx),
    }
}

fn boxes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut pool = Vec::new();
    let a = rect(s, &mut pool);
    let mut b = rect(s, &mut pool);
    if s.chance(1, 4) {
        // touching or nested
        match s.below(4) {
            0 => b = [a[2], b[1], a[2] + 1.0, b[3]],
            1 => b = [b[0], a[3], b[2], a[3] + 2.0],
            2 => b = a,
            _ => b = [a[0], a[1], a[2], a[3] + (a[3] - a[1])],
        }
    }
    for x in a.iter().chain(&b) {
        ctx.fp(x.to_bits());
    }
    ctx.sample(|| format!("boxes {:?} and {:?}", a, b));
    // every combination of border coordinates and points between and beside them
    let mut xs = vec![a[0], a[2], b[0], b[2]];
    let mut ys = vec![a[1], a[3], b[1], b[3]];
    for v in [&mut xs, &mut ys] {
        let mut w = v.clone();
        w.sort_by(|p, q| p.partial_cmp(q).unwrap());
        for k in 0..3 {
            v.push(w[k] / 2.0 + w[k + 1] / 2.0);
        }
        v.push(w[0] - 1.0 - w[0].abs() * 1e-9);
        v.push(w[3] + 1.0 + w[3].abs() * 1e-9);
    }
    let mut common = false;
    let mut all_b_in_a = true;
    let clip = {
        let mut c = bx(a);
        must("CLIPBB", || CLIPBB(&mut c, &bx(b)))?;
        un(&c)
    };
    let grown = {
        let mut c = bx(a);
        must("EXPANDBB", || EXPANDBB(&mut c, &bx(b)))?;
        un(&c)
    };
    for &x in &xs {
        for &y in &ys {
            let p = (x, y);
            let (ia, ib) = (has(a, p), has(b, p));
            ensure!(INSIDE(pt(x, y), &bx(a)) == ia, "INSIDE({:?}, {:?}) is {}", p, a, !ia);
            common |= ia && ib;
            all_b_in_a &= !ib || ia;
            ensure!(
                INSIDE(pt(x, y), &bx(clip)) == (ia && ib),
                "point {:?} is {} the clipped box {:?} of {:?} and {:?}",
                p,
                if ia && ib { "not in" } else { "in" },
                clip,
                a,
                b
            );
            ensure!(
                !(ia || ib) || has(grown, p),
                "point {:?} is lost from {:?}, expanded from {:?} by {:?}",
                p,
                grown,
                a,
                b
            );
            let mut c = bx(a);
            must("EXPANDBP", || EXPANDBP(&mut c, pt(x, y)))?;
            let want = [a[0].min(x), a[1].min(y), a[2].max(x), a[3].max(y)];
            ensure!(un(&c) == want, "EXPANDBP({:?}, {:?}) gives {:?}", a, p, un(&c));
            ctx.ev("points judged", 1);
        }
    }
    let least = [a[0].min(b[0]), a[1].min(b[1]), a[2].max(b[2]), a[3].max(b[3])];
    ensure!(grown == least, "EXPANDBB({:?}, {:?}) gives {:?}, the least is {:?}", a, b, grown, least);
    let o = OVERLAP(&bx(a), &bx(b));
    ensure!(o == common, "OVERLAP({:?}, {:?}) is {}", a, b, o);
    ensure!(OVERLAP(&bx(b), &bx(a)) == o, "OVERLAP is not symmetric for {:?} and {:?}", a, b);
    let c = CONTAINS(&bx(a), &bx(b));
    ensure!(c == all_b_in_a, "CONTAINS({:?}, {:?}) is {}", a, b, c);
    ensure!(CONTAINS(&bx(a), &bx(a)), "{:?} does not contain itself", a);
    if o {
        ensure!(
            clip[0] <= clip[2] && clip[1] <= clip[3],
            "the common part of {:?} and {:?} is {:?}",
            a,
            b,
            clip
        );
    }
    // integer boxes
    let r: Vec<i32> = (0..4).map(|_| s.range(i32::MIN as i64, i32::MAX as i64) as i32 >> s.us(31)).collect();
    let ib = boxi { LL: Vec2 { x: r[0], y: r[1] }, UR: Vec2 { x: r[2], y: r[3] } };
    let f = B2BF(&ib);
    ensure!(
        un(&f) == [r[0] as f64, r[1] as f64, r[2] as f64, r[3] as f64],
        "B2BF({:?}) is {:?}",
        r,
        un(&f)
    );
    let back = BF2B(&f);
    ensure!(
        [back.LL.x, back.LL.y, back.UR.x, back.UR.y] == [r[0], r[1], r[2], r[3]],
        "BF2B(B2BF({:?})) is different",
        r
    );
    let rb = BF2B(&bx(a));
    ensure!(
        [rb.LL.x, rb.LL.y, rb.UR.x, rb.UR.y] == [nearest(a[0]), nearest(a[1]), nearest(a[2]), nearest(a[3])],
        "BF2B({:?}) is {:?} {:?}",
        a,
        rb.LL,
        rb.UR
    );
    ctx.ev(if o { "overlapping pairs" } else { "separate pairs" }, 1);
    if c {
        ctx.ev("nested pairs", 1);
    }
    ctx.nontrivial();
    Ok(())
}

fn numbers(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (a, b, c) = (any(s), any(s), any(s));
    for x in [a, b, c] {
        ctx.fp(x.to_bits());
    }
    ctx.sample(|| format!("numbers {} {} {}", a, b, c));
    ensure!(ROUND(a) == nearest(a), "ROUND({:?}) is {} instead of {}", a, ROUND(a), nearest(a));
    if a.abs() < i32::MAX as f64 - 2.0 {
        ensure!(ROUND(-a) == -ROUND(a), "ROUND is not symmetric at {:?}", a);
    }
    let lo = if a < b { a } else { b };
    let hi = if a > b { a } else { b };
    ensure!(MIN(a, b) == lo && fmin(a, b) == lo, "the least of {:?} and {:?}", a, b);
    ensure!(MAX(a, b) == hi && fmax(a, b) == hi, "the greatest of {:?} and {:?}", a, b);
    let (i, j) = (s.range(-5, 5), s.range(-5, 5));
    ensure!(MIN(i, j) == i.min(j) && MAX(i, j) == i.max(j), "MIN or MAX of {} and {}", i, j);
    let want = if a < b {
        -1
    } else if a > b {
        1
    } else {
        0
    };
    ensure!(CMP(a, b) == want && CMP(a, a) == 0, "CMP({:?}, {:?}) is {}", a, b, CMP(a, b));
    ensure!(SGN(a) == if a < 0.0 { -1 } else { 1 }, "SGN({:?}) is {}", a, SGN(a));
    ensure!(BETWEEN(a, b, c) == (a <= b && b <= c), "BETWEEN({:?}, {:?}, {:?})", a, b, c);
    ensure!(BETWEEN(a, a, a), "{:?} is not between itself", a);
    let m = AVG(a, b);
    ensure!(close(m * 2.0, a + b), "AVG({:?}, {:?}) is {:?}", a, b, m);
    ensure!(SQR(a) == a * a && sqr(a) == a * a && sqr(i) == i * i, "square of {:?}", a);
    // angles
    ensure!(
        close(RADIANS(a), a * (std::f64::consts::PI / 180.0)),
        "RADIANS({:?}) is {:?}",
        a,
        RADIANS(a)
    );
    ensure!(close(DEGREES(RADIANS(a)), a), "DEGREES(RADIANS({:?})) is {:?}", a, DEGREES(RADIANS(a)));
    // units
    let u = a % 1e7;
    ensure!(close(INCH2PS(u), u * 72.0), "INCH2PS({:?}) is {:?}", u, INCH2PS(u));
    ensure!(close(PS2INCH(INCH2PS(u)), u), "PS2INCH(INCH2PS({:?})) is {:?}", u, PS2INCH(INCH2PS(u)));
    let p = POINTS(u);
    ensure!(
        (p as f64 - u * 72.0).abs() <= 0.5 + 1e-9 * u.abs() || p == i32::MAX || p == i32::MIN,
        "POINTS({:?}) is {}",
        u,
        p
    );
    ensure!(POINTS(u) == nearest(u * 72.0), "POINTS({:?}) is {} instead of {}", u, p, nearest(u * 72.0));
    ensure!(
        POINTS_PER_INCH == 72.0
            && close(POINTS_PER_PC, 12.0)
            && (POINTS_PER_CM - 72.0 / 2.54).abs() < 1e-6
            && (POINTS_PER_MM - 72.0 / 25.4).abs() < 1e-7,
        "units do not agree"
    );
    let tol = s.pick(&[1e-9, MICROPOINT, MILLIPOINT, 0.5, 1.0, 1e6]);
    let near = match s.below(3) {
        0 => a + tol,
        1 => a + tol * s.real(-1.5, 1.5),
        _ => b,
    };
    let d = if a > near { a - near } else { near - a };
    ensure!(APPROXEQ(a, near, *tol) == (d < *tol), "APPROXEQ({:?}, {:?}, {:?})", a, near, tol);
    ctx.ev("numbers judged", 3);
    if d < *tol {
        ctx.ev("numbers within the tolerance", 1);
    }
    ctx.nontrivial();
    Ok(())
}

fn vectors(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut pool = Vec::new();
    let v: Vec<f64> = (0..5).map(|_| coord(s, &mut pool)).collect();
    for x in &v {
        ctx.fp(x.to_bits());
    }
    ctx.sample(|| format!("points ({:?}, {:?}) and ({:?}, {:?}), factor {:?}", v[0], v[1], v[2], v[3], v[4]));
    let (p, q, k) = (pt(v[0], v[1]), pt(v[2], v[3]), v[4]);
    let eq = |a: pointf, x: f64, y: f64| a.x == x && a.y == y;
    ensure!(eq(p + q, v[0] + v[2], v[1] + v[3]), "{:?} + {:?} is {:?}", p, q, p + q);
    ensure!(eq(p - q, v[0] - v[2], v[1] - v[3]), "{:?} - {:?} is {:?}", p, q, p - q);
    ensure!(eq(p * k, v[0] * k, v[1] * k), "{:?} * {:?} is {:?}", p, k, p * k);
    ensure!(eq(k * p, v[0] * k, v[1] * k), "{:?} * {:?} is {:?}", k, p, k * p);
    if k != 0.0 {
        let d = p / k;
        ensure!(close(d.x, v[0] / k) && close(d.y, v[1] / k), "{:?} / {:?} is {:?}", p, k, d);
    }
    let (i, j) = ((s.range(-99, 99), s.range(-99, 99)), (s.range(-99, 99), s.range(-99, 99)));
    let (a, b): (Vec2<i64>, Vec2<i64>) = (i.into(), j.into());
    let back: (i64, i64) = (a + b).into();
    ensure!(back == (i.0 + j.0, i.1 + j.1), "{:?} + {:?} is {:?}", i, j, back);
    let back: (i64, i64) = (a - b).into();
    ensure!(back == (i.0 - j.0, i.1 - j.1), "{:?} - {:?} is {:?}", i, j, back);
    ensure!((a == b) == (i == j), "{:?} == {:?}", i, j);
    ensure!((p == q) == (v[0] == v[2] && v[1] == v[3]), "{:?} == {:?}", p, q);
    let back: (i64, i64) = ((a * j.1) / if j.0 == 0 { 1 } else { j.0 }).into();
    let d = if j.0 == 0 { 1 } else { j.0 };
    ensure!(back == (i.0 * j.1 / d, i.1 * j.1 / d), "{:?} * {} / {} is {:?}", i, j.1, d, back);
    // distances
    let (dx, dy) = (v[0] - v[2], v[1] - v[3]);
    let d2 = DIST2(p, q);
    ensure!(close(d2, dx * dx + dy * dy), "DIST2({:?}, {:?}) is {:?}", p, q, d2);
    ensure!(d2 == DIST2(q, p) && DIST(p, q) == DIST(q, p), "the distance of {:?} and {:?} is not symmetric", p, q);
    ensure!(close(DIST(p, q) * DIST(p, q), d2), "DIST({:?}, {:?}) is {:?}", p, q, DIST(p, q));
    ensure!(DIST(p, p) == 0.0, "DIST({:?}, itself) is {:?}", p, DIST(p, p));
    ensure!(DIST(p, q) >= 0.0 && (DIST(p, q) > 0.0 || (dx.abs() < 1e-150 && dy.abs() < 1e-150)), "zero distance");
    ensure!(
        close(LEN2(dx, dy), d2) && close(LEN(dx, dy), DIST(p, q)),
        "LEN and DIST differ for {:?} {:?}",
        p,
        q
    );
    let r = pt(s.real(-9.0, 9.0), k);
    ensure!(
        DIST(p, q) <= (DIST(p, r) + DIST(r, q)) * (1.0 + 1e-12),
        "triangle inequality of {:?} {:?} {:?}",
        p,
        q,
        r
    );
    let tol = s.pick(&[MICROPOINT, 0.25, 1.0, 5.0, 1e7]);
    let dd = DIST(p, q);
    if (dd - tol).abs() > 1e-9 * tol {
        ensure!(APPROXEQPT(p, q, *tol) == (dd < *tol), "APPROXEQPT({:?}, {:?}, {:?})", p, q, tol);
    }
    // integer points
    let t = PF2P(p);
    ensure!((t.x, t.y) == (nearest(v[0]), nearest(v[1])), "PF2P({:?}) is {:?}", p, t);
    let n = Vec2 { x: s.range(-1 << 31, (1 << 31) - 1) as i32, y: s.range(-1 << 31, (1 << 31) - 1) as i32 };
    let f = P2PF(n);
    ensure!(f.x == n.x as f64 && f.y == n.y as f64 && PF2P(f) == n, "P2PF({:?}) is {:?}", n, f);
    // directions
    let th = s.real(-20.0, 20.0);
    let e = Vec2::from_angle(th);
    ensure!(
        close(e.x * e.x + e.y * e.y, 1.0) && (e.x - th.cos()).abs() < 1e-12 && (e.y - th.sin()).abs() < 1e-12,
        "from_angle({:?}) is {:?}",
        th,
        e
    );
    ctx.ev("vectors judged", 3);
    ctx.nontrivial();
    Ok(())
}

fn main() {
    worker("M02", run)
}
