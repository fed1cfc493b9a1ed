//! Orientation of points and square matrices, against exact arithmetic and a plain map.

use std::collections::HashMap;
use trellis::pathplan::array2::{allocArray, Array2};
use trellis::pathplan::visibility::{area2, inBetween, wind};
use trellis::vec2::Vec2;
use vh::{cut, ensure, must, worker, Ctx, Res, Src};

type P = (i64, i64);

/// Twice the signed area, from the definition, exactly.
fn exact(a: P, b: P, c: P) -> i128 {
    let d = |p: i64, q: i64| (p - q) as i128;
    d(a.1, b.1) * d(c.0, b.0) - d(c.1, b.1) * d(a.0, b.0)
}

fn pt(p: P, k: f64) -> Vec2<f64> {
    Vec2 { x: p.0 as f64 * k, y: p.1 as f64 * k }
}

fn point(s: &mut Src, span: i64) -> P {
    (s.range(-span, span), s.range(-span, span))
}

fn points(s: &mut Src, ctx: &mut Ctx) -> Res {
    let span = *s.pick(&[2i64, 5, 30, 1000, 1 << 20]);
    let mut a = point(s, span);
    let mut b = point(s, span);
    let mut c = point(s, span);
    match s.below(6) {
        0 => {
            // on one line, at any ratio, before, between and after
            let (dx, dy) = (s.range(-9, 9), s.range(-9, 9));
            let (k, l) = (s.range(-12, 12), s.range(-12, 12));
            b = (a.0 + dx * k, a.1 + dy * k);
            c = (a.0 + dx * l, a.1 + dy * l);
        }
        1 => {
            // just beside the line
            let (dx, dy) = (s.range(-9, 9), s.range(-9, 9));
            let k = s.range(-1000, 1000);
            b = (a.0 + dx * k, a.1 + dy * k);
            c = (a.0 + dx * (k / 2) + s.range(-1, 1), a.1 + dy * (k / 2) + s.range(-1, 1));
        }
        2 => b.0 = a.0,
        3 => b.1 = a.1,
        _ => (),
    }
    // near to each other, far from the origin
    let shift = s.chance(1, 4) && span <= 1000;
    if shift {
        let far = 1i64 << s.range(24, 48);
        let o = (s.range(-far, far), s.range(-far, far));
        for v in [&mut a, &mut b, &mut c] {
            *v = (v.0 + o.0, v.1 + o.1);
        }
        ctx.ev("points far from the origin", 3);
    }
    // powers of two, so that everything stays exact
    let e = s.range(-9, 6) as i32;
    let k = 2f64.powi(e);
    for v in [a, b, c] {
        ctx.fp(v.0 as u64);
        ctx.fp(v.1 as u64);
    }
    ctx.fp(e as u64);
    ctx.sample(|| format!("points {:?}, {:?}, {:?} times {}", a, b, c, k));
    let (pa, pb, pc) = (pt(a, k), pt(b, k), pt(c, k));
    let x = exact(a, b, c);
    let want = x as f64 * k * k;
    let got = must("area2", || area2(pa, pb, pc))?;
    ensure!(got == want, "area2({:?}, {:?}, {:?}) is {} instead of {}", pa, pb, pc, got, want);
    let turn = |v: f64| {
        if v > 0.0001 {
            1
        } else if v < -0.0001 {
            -1
        } else {
            0
        }
    };
    // all orders of the three, shifted too
    let sh = point(s, span);
    let mv = |p: P| (p.0 + sh.0, p.1 + sh.1);
    for (q, sign) in [
        ([a, b, c], 1i32),
        ([b, c, a], 1),
        ([c, a, b], 1),
        ([b, a, c], -1),
        ([a, c, b], -1),
        ([c, b, a], -1),
        ([mv(a), mv(b), mv(c)], 1),
        ([a, a, c], 0),
        ([a, b, b], 0),
        ([a, b, a], 0),
    ] {
        let (u, v, w) = (pt(q[0], k), pt(q[1], k), pt(q[2], k));
        let ar = area2(u, v, w);
        ensure!(
            ar == want * sign as f64,
            "area2({:?}, {:?}, {:?}) is {} instead of {}",
            u,
            v,
            w,
            ar,
            want * sign as f64
        );
        let t = must("wind", || wind(u, v, w))?;
        ensure!(
            t == turn(want) * sign,
            "wind({:?}, {:?}, {:?}) is {} where the doubled area is {}",
            u,
            v,
            w,
            t,
            want * sign as f64
        );
        ctx.ev("turns judged", 1);
        if t == 0 {
            ctx.ev("straight turns", 1);
        }
    }
    // between: only for points on one line
    if x == 0 && a != b {
        let dot = |p: P, q: P, r: P| (q.0 - p.0) as i128 * (r.0 - p.0) as i128 + (q.1 - p.1) as i128 * (r.1 - p.1) as i128;
        let inside = dot(a, b, c) > 0 && dot(b, a, c) > 0;
        for (u, v) in [(pa, pb), (pb, pa)] {
            let got = must("inBetween", || inBetween(u, v, pc))?;
            ensure!(got == inside, "inBetween({:?}, {:?}, {:?}) is {}", u, v, pc, got);
        }
        ensure!(!inBetween(pa, pb, pa) && !inBetween(pa, pb, pb), "an end of {:?} {:?} is between", pa, pb);
        ctx.ev(if inside { "points between" } else { "points not between" }, 1);
        let m = Vec2 { x: (pa.x + pb.x) / 2.0, y: (pa.y + pb.y) / 2.0 };
        ensure!(inBetween(pa, pb, m), "the middle of {:?} and {:?} is not between", pa, pb);
    }
    // points on an upright, level or slanting line, however far apart they are
    let mut any = |s: &mut Src| -> f64 {
        match s.below(5) {
            0 => *s.pick(&[0.0, -0.0, 1.0, -1.0, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN]),
            1 => s.range(-3, 3) as f64,
            _ => f64::from_bits(s.below(u64::MAX) & !(1 << 62) | (s.below(2) << 62)),
        }
    };
    let mut t = [any(s), any(s), any(s)];
    if s.chance(1, 3) {
        // the third one next to an end
        t[2] = f64::from_bits(t[s.us(2)].to_bits() ^ s.us(3) as u64);
    }
    if t.iter().all(|x| x.is_finite()) && t[0] != t[1] {
        let way = s.below(3);
        let put = |x: f64| match way {
            0 => Vec2 { x, y: 3.0 },
            1 => Vec2 { x: -2.5, y: x },
            _ => Vec2 { x, y: x },
        };
        let inside = t[0].min(t[1]) < t[2] && t[2] < t[0].max(t[1]);
        for (u, v) in [(t[0], t[1]), (t[1], t[0])] {
            let got = must("inBetween", || inBetween(put(u), put(v), put(t[2])))?;
            ensure!(got == inside, "inBetween({:?}, {:?}, {:?}) is {}", put(u), put(v), put(t[2]), got);
        }
        ctx.ev("points judged on lines of any extent", 1);
    }
    // any numbers, away from the limits of rounding
    let r: Vec<f64> = (0..6).map(|_| s.real(-100.0, 100.0)).collect();
    let f: Vec<Vec2<f64>> = (0..3).map(|i| Vec2 { x: r[2 * i], y: r[2 * i + 1] }).collect();
    let ar = (f[1].x - f[0].x) * (f[2].y - f[0].y) - (f[1].y - f[0].y) * (f[2].x - f[0].x);
    if (ar.abs() - 0.0001).abs() > 1e-8 {
        // the sign of the definition: the first point seen from the second, turned to the third
        let sign = wind(Vec2 { x: 0.0, y: 0.0 }, Vec2 { x: 1.0, y: 0.0 }, Vec2 { x: 1.0, y: 1.0 });
        let got = wind(f[0], f[1], f[2]);
        ensure!(got == turn(ar) * sign, "wind({:?}, {:?}, {:?}) is {}, the area is {}", f[0], f[1], f[2], got, ar);
    }
    ctx.nontrivial();
    Ok(())
}

fn matrix(s: &mut Src, ctx: &mut Ctx) -> Res {
    let big = ctx.scale > 0 && s.chance(1, 100);
    let most = if ctx.giant() { 2000 } else if big { 300 } else { ctx.by_scale(5, 12, 30) };
    let (mut rows, cols, extra) = (s.us(most + 1), s.us(most + 1), s.us(4));
    if ctx.giant() && s.chance(1, 4) {
        // long and narrow
        rows *= 300;
    }
    let cols = if rows > 2000 { cols % 8 } else { cols };
    let square = rows <= 2000 && s.chance(1, 3);
    let mut m: Array2<i64> = if square {
        must("allocArray", || allocArray(rows, extra))?
    } else {
        must("new", || Array2::new(rows, cols, extra))?
    };
    let cols = if square { rows } else { cols };
    ensure!(
        m.rows == rows && m.cols == cols && m.extra == extra,
        "a matrix of {} by {} with {} more says it is {} by {} with {}",
        rows,
        cols,
        extra,
        m.rows,
        m.cols,
        m.extra
    );
    ctx.fp(rows as u64);
    ctx.fp(cols as u64);
    ctx.fp(extra as u64);
    let width = cols + extra;
    let mut model: HashMap<(usize, usize), i64> = HashMap::new();
    for r in 0..rows {
        for c in 0..width {
            ensure!(m[(r, c)] == 0, "cell ({}, {}) of a new matrix is {}", r, c, m[(r, c)]);
        }
    }
    let writes = if rows * width == 0 { 0 } else { s.us(3 * most) };
    for i in 0..writes {
        let at = (s.us(rows), s.us(width));
        let v = if s.chance(1, 5) { 0 } else { i as i64 + 1 };
        ctx.fp((at.0 * 1000 + at.1) as u64);
        if s.chance(1, 4) {
            must("update", || m[at] += v)?;
            *model.entry(at).or_insert(0) += v;
        } else {
            must("store", || m[at] = v)?;
            model.insert(at, v);
        }
        if s.chance(1, if ctx.giant() { 2000 } else { 16 }) {
            m = must("clone", || m.clone())?;
        }
    }
    ctx.sample(|| format!("matrix of {} by {}+{}, {} cells written", rows, cols, extra, writes));
    for r in 0..rows {
        for c in 0..width {
            let want = model.get(&(r, c)).copied().unwrap_or(0);
            let got = if ctx.giant() { m[(r, c)] } else { must("index", || m[(r, c)])? };
            ensure!(got == want, "cell ({}, {}) of {} by {}+{} is {} instead of {}", r, c, rows, cols, extra, got, want);
        }
        ctx.ev("cells compared", width as u64);
    }
    // a row that does not exist
    ensure!(cut(|| m[(rows, 0)]).is_err(), "row {} of a matrix of {} rows was read", rows, rows);
    if writes >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    if ctx.giant() || s.chance(1, 4) {
        matrix(s, ctx)
    } else {
        points(s, ctx)
    }
}

fn main() {
    worker("M04", run)
}
